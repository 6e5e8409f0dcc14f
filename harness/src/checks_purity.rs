//! N03, D04, K06, G02, H03, S02: the algorithms are functions of what they are given.
//!
//! An *operation* is a complete call of an algorithm. Every sequence of operations up to a length
//! is run in a forked process of its own, and each answer is compared bit for bit with that of the
//! operation alone in a fresh process.

use crate::data::*;
use crate::engine::{digit, guarded, hash, Cx, Space, Tier, Verdict};
use crate::env::set_keys;
#[allow(unused_imports)]
use auto_palette::verif::{DistanceMetric, Point2, Point3, Point5};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::mem::ManuallyDrop;
use std::os::fd::FromRawFd;
use std::rc::Rc;
use std::sync::Arc;

/// Where the data of an operation lie.
#[derive(Clone, Copy, PartialEq)]
enum Place {
    /// In memory of their own, which is never used again.
    Fresh,
    /// All in the same buffer, one after the other.
    Same,
}

type Body = Arc<dyn Fn(Place) -> Vec<u64> + Send + Sync>;

#[derive(Clone)]
struct Op {
    name: String,
    body: Body,
}

fn op(name: String, body: impl Fn(Place) -> Vec<u64> + Send + Sync + 'static) -> Op {
    Op { name, body: Arc::new(body) }
}

const BUFFER: usize = 1 << 20;
static mut SHARED: [u128; BUFFER / 16] = [0; BUFFER / 16];

/// Values at the chosen place. They are never dropped nor grown.
fn placed<T: Copy>(values: Vec<T>, place: Place) -> ManuallyDrop<Vec<T>> {
    match place {
        Place::Fresh => ManuallyDrop::new(values),
        Place::Same => {
            assert!(std::mem::size_of_val(values.as_slice()) <= BUFFER);
            let at = (&raw mut SHARED).cast::<T>();
            // Safety: the buffer is large enough and aligned, only one operation runs at a time,
            // and the list is neither dropped nor grown.
            unsafe {
                at.copy_from_nonoverlapping(values.as_ptr(), values.len());
                ManuallyDrop::new(Vec::from_raw_parts(at, values.len(), values.len()))
            }
        }
    }
}

/// Run in a forked process; what it answers.
fn in_child(body: impl FnOnce() -> Vec<u64>) -> Result<Vec<u64>, String> {
    let mut ends = [0; 2];
    assert!(unsafe { libc::pipe(ends.as_mut_ptr()) } == 0, "pipe failed");
    let child = unsafe { libc::fork() };
    assert!(child >= 0, "fork failed");
    if child == 0 {
        crate::engine::die_with_parent();
        unsafe { libc::close(ends[0]) };
        let mut out = unsafe { std::fs::File::from_raw_fd(ends[1]) };
        let answer = guarded(body);
        let bytes: Vec<u8> = match answer {
            Ok(words) => std::iter::once(0).chain(words.into_iter().flat_map(u64::to_le_bytes)).collect(),
            Err(e) => std::iter::once(1).chain(e.into_bytes()).collect(),
        };
        let done = out.write_all(&bytes).is_ok();
        unsafe { libc::_exit(i32::from(!done)) };
    }
    unsafe { libc::close(ends[1]) };
    let mut bytes = Vec::new();
    let read = unsafe { std::fs::File::from_raw_fd(ends[0]) }.read_to_end(&mut bytes);
    let mut status = 0;
    unsafe { libc::waitpid(child, &mut status, 0) };
    read.map_err(|e| e.to_string())?;
    match bytes.split_first() {
        Some((0, rest)) => Ok(rest.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().expect("8 bytes"))).collect()),
        Some((1, text)) => Err(String::from_utf8_lossy(text).into_owned()),
        _ => Err(format!("the process ended with status {status:#x}")),
    }
}

/// How the operations of a history are run.
#[derive(Clone, Copy)]
struct Mode {
    place: Place,
    /// Each operation in a thread of its own, with hash keys of its own.
    threads: bool,
}

const MODES: [Mode; 4] = [
    Mode { place: Place::Same, threads: false },
    Mode { place: Place::Fresh, threads: false },
    Mode { place: Place::Same, threads: true },
    Mode { place: Place::Fresh, threads: true },
];

fn describe_mode(mode: Mode) -> String {
    format!(
        "{}, {}",
        match mode.place {
            Place::Fresh => "each in memory of its own",
            Place::Same => "in the same buffer",
        },
        if mode.threads { "a thread and hash keys each" } else { "one thread" }
    )
}

/// Run one after the other; a digest of each answer.
fn digests(ops: &[Op], mode: Mode) -> Vec<u64> {
    ops.iter()
        .enumerate()
        .map(|(at, op)| {
            if !mode.threads {
                return hash(&(op.body)(mode.place));
            }
            set_keys(1000 + at as u64);
            let body = op.body.clone();
            let place = mode.place;
            match std::thread::spawn(move || guarded(|| (body)(place))).join() {
                Ok(Ok(answer)) => hash(&answer),
                Ok(Err(e)) => panic!("{e}"),
                Err(_) => panic!("a thread panicked"),
            }
        })
        .collect()
}

struct Baselines {
    ops: Vec<Op>,
    known: RefCell<Vec<Option<u64>>>,
}

impl Baselines {
    fn new(ops: Vec<Op>) -> Rc<Self> {
        let known = RefCell::new(vec![None; ops.len()]);
        Rc::new(Self { ops, known })
    }

    /// What the operation answers alone in a fresh process.
    fn of(&self, at: usize) -> Result<u64, String> {
        if let Some(digest) = self.known.borrow()[at] {
            return Ok(digest);
        }
        let list = [self.ops[at].clone()];
        let digest = in_child(|| digests(&list, MODES[1])).map_err(|e| format!("{}: {e}", list[0].name))?[0];
        self.known.borrow_mut()[at] = Some(digest);
        Ok(digest)
    }

    fn check(&self, history: &[usize], mode: Mode, cx: &mut Cx) -> Verdict {
        let list: Vec<Op> = history.iter().map(|at| self.ops[*at].clone()).collect();
        let names = || -> Vec<&str> { list.iter().map(|op| op.name.as_str()).collect() };
        let got = in_child(|| digests(&list, mode)).map_err(|e| format!("{:?}, {}: {e}", names(), describe_mode(mode)))?;
        cx.transitions += got.len() as u64;
        cx.trace();
        for (place, (got, at)) in got.iter().zip(history).enumerate() {
            if *got != self.of(*at)? {
                return Err(format!(
                    "operation {} of {:?}, {}, answers otherwise than alone in a fresh process",
                    place + 1,
                    names(),
                    describe_mode(mode)
                ));
            }
        }
        cx.outcome(&got);
        Ok(())
    }
}

fn histories(ops: Vec<Op>, len: u32, modes: &'static [Mode]) -> Space {
    let n = ops.len() as u64;
    let base = Baselines::new(ops);
    let shown = base.clone();
    let split = move |mut index: u64| -> (Vec<usize>, Mode) {
        let mode = modes[digit(&mut index, modes.len() as u64) as usize];
        ((0..len).map(|_| digit(&mut index, n) as usize).collect(), mode)
    };
    Space::new(
        &format!("histories-{len}"),
        &format!("all sequences of {len} out of {n} operations, {}", modes.iter().map(|m| describe_mode(*m)).collect::<Vec<_>>().join("; ")),
        n.pow(len) * modes.len() as u64,
        move |index| {
            let (history, mode) = split(index);
            let names: Vec<&str> = history.iter().map(|at| shown.ops[*at].name.as_str()).collect();
            format!("{names:?}, {}", describe_mode(mode))
        },
        move |index, cx| {
            let (history, mode) = split(index);
            cx.nontrivial += 1;
            base.check(&history, mode, cx)
        },
    )
}

/// Every operation under many keys of the hash maps, one thread each, 16 to a case.
fn hash_keys(ops: Vec<Op>, keys: u64) -> Space {
    let n = ops.len() as u64;
    let base = Baselines::new(ops);
    let shown = base.clone();
    Space::new(
        "hash-keys",
        &format!("{n} operations under {} pairs of hash keys each", keys * 16),
        n * keys,
        move |index| format!("{}, hash keys {}..", shown.ops[(index % n) as usize].name, index / n * 16),
        move |index, cx| {
            let at = (index % n) as usize;
            let want = base.of(at)?;
            let body = base.ops[at].body.clone();
            let got = in_child(|| {
                (0..16)
                    .map(|k| {
                        set_keys(index / n * 16 + k + 1);
                        let body = body.clone();
                        match std::thread::spawn(move || guarded(|| (body)(Place::Fresh))).join() {
                            Ok(Ok(answer)) => hash(&answer),
                            _ => panic!("the operation fails"),
                        }
                    })
                    .collect()
            })
            .map_err(|e| format!("{}: {e}", base.ops[at].name))?;
            cx.transitions += 16;
            cx.nontrivial += 1;
            cx.trace();
            match got.iter().position(|g| *g != want) {
                None => Ok(()),
                Some(k) => Err(format!(
                    "{} answers otherwise with hash keys {}",
                    base.ops[at].name,
                    index / n * 16 + k as u64 + 1
                )),
            }
        },
    )
}

/// An operation, many times another, and the first one again.
fn floods(ops: Vec<Op>, other: usize, counts: &'static [u64]) -> Space {
    let n = ops.len() as u64;
    let base = Baselines::new(ops);
    let shown = base.clone();
    Space::new(
        "floods",
        &format!("an operation, {counts:?} times a small one, and the first again; {n} operations"),
        n * counts.len() as u64,
        move |index| format!("{}, after {} others", shown.ops[(index % n) as usize].name, counts[(index / n) as usize]),
        move |index, cx| {
            let at = (index % n) as usize;
            let want = base.of(at)?;
            let body = base.ops[at].body.clone();
            let small = base.ops[other].body.clone();
            let got = in_child(|| {
                let first = hash(&(body)(Place::Same));
                for _ in 0..counts[(index / n) as usize] {
                    std::hint::black_box((small)(Place::Same));
                }
                vec![first, hash(&(body)(Place::Same))]
            })
            .map_err(|e| format!("{}: {e}", base.ops[at].name))?;
            cx.transitions += 2;
            cx.nontrivial += 1;
            cx.trace();
            if got != [want, want] {
                return Err(format!("{} answers otherwise after many other operations", base.ops[at].name));
            }
            Ok(())
        },
    )
}

// --- datasets -----------------------------------------------------------------------------------

/// Datasets which differ little, and some plain ones.
fn datasets() -> Vec<(&'static str, Vec<Coords>)> {
    let clump = |x: f64, y: f64| [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [2.0, 1.0], [1.0, 2.0]].map(|p| [x + p[0], y + p[1], 0.0, 0.0, 0.0]);
    let twelve: Vec<Coords> = clump(0.0, 0.0).into_iter().chain(clump(7.0, 3.0)).collect();
    let with = |f: &dyn Fn(&mut Vec<Coords>)| {
        let mut list = twelve.clone();
        f(&mut list);
        list
    };
    vec![
        ("two clumps", twelve.clone()),
        ("reversed", with(&|l| l.reverse())),
        ("the middle point moved", with(&|l| l[6][0] = 4.0)),
        ("the middle point moved a hair", with(&|l| l[6][0] += HAIR)),
        ("the last point moved", with(&|l| l[11][1] = 9.0)),
        ("two points moved towards each other", with(&|l| {
            l[4][0] += 1.0;
            l[7][0] -= 1.0;
        })),
        ("axes exchanged", with(&|l| l.iter_mut().for_each(|c| c.swap(0, 1)))),
        ("one point less", with(&|l| {
            l.pop();
        })),
        ("one point twice", with(&|l| l.push(l[5]))),
        ("negated", with(&|l| l.iter_mut().flatten().for_each(|v| *v = 0.0 - *v))),
        ("doubled", with(&|l| l.iter_mut().flatten().for_each(|v| *v *= 2.0))),
        ("none", vec![]),
        ("one point", vec![[3.0, 4.0, 0.0, 0.0, 0.0]]),
        ("forty scattered", structured_points(7, 40, 2, 1.0)),
        ("forty scattered, one moved", {
            let mut list = structured_points(7, 40, 2, 1.0);
            list[23][0] += 1.0;
            list
        }),
        ("a grid of fifty", structured_points(4, 50, 2, 1.0)),
        // Sums of these depend on their order.
        ("forty scattered in tenths", structured_points(7, 40, 2, 0.1)),
        ("sixty in thirds", structured_points(7, 60, 2, 1.0 / 3.0)),
    ]
}

/// A distance far below all others, which single precision tells from none.
const HAIR: f64 = 1.0 / 1_048_576.0;

/// The same points with a third and further coordinates that matter.
fn deep(coords: &[Coords]) -> Vec<Coords> {
    let mut list = coords.to_vec();
    for c in &mut list {
        for axis in 2..5 {
            c[axis] = (c[0] * 2.0 + c[1] * axis as f64) % 5.0;
        }
    }
    list
}

fn bits<F: Real>(v: F) -> u64 {
    v.wide().to_bits()
}

#[allow(dead_code)]
fn spell<F: Real, P: Make<F>>(p: &P) -> Vec<u64> {
    p.to_vec().into_iter().map(bits).collect()
}

/// An algorithm on points: how it is run on a list of them.
#[allow(dead_code)]
fn on_points<F: Real, P: Make<F>>(
    label: &str,
    name: &str,
    coords: &[Coords],
    run: impl Fn(&Vec<P>) -> Vec<u64> + Send + Sync + 'static,
) -> Op {
    let coords = coords.to_vec();
    op(format!("{label} of {name} ({} {}D)", F::NAME, P::DIM), move |place| {
        let list = placed(points::<F, P>(&coords), place);
        let mut out = run(&list);
        // What is given is left as it is.
        if *list != points::<F, P>(&coords) {
            panic!("the dataset was changed");
        }
        out.push(list.len() as u64);
        out
    })
}

/// The operations of an algorithm: all datasets with the first parameters in double precision; the
/// first dataset with all parameters, in single precision, and in three dimensions.
macro_rules! operations {
    ($label:expr, $params:expr, $run:ident) => {{
        let mut ops = Vec::new();
        let sets = datasets();
        for (name, coords) in &sets {
            let p = $params[0].clone();
            ops.push(on_points::<f64, Point2<f64>>($label, name, coords, move |l| $run::<f64, Point2<f64>>(l, &p)));
        }
        for p in $params.iter().skip(1).cloned() {
            let label = format!("{} {:?}", $label, p);
            ops.push(on_points::<f64, Point2<f64>>(&label, sets[0].0, &sets[0].1, move |l| $run::<f64, Point2<f64>>(l, &p)));
        }
        for at in [0, 2, 13] {
            let p = $params[0].clone();
            ops.push(on_points::<f32, Point2<f32>>($label, sets[at].0, &sets[at].1, move |l| $run::<f32, Point2<f32>>(l, &p)));
        }
        let spread = deep(&sets[0].1);
        let mut other = spread.clone();
        other[6][2] += 2.0;
        other[8][4] -= 2.0;
        for (name, coords) in [("two deep clumps", &spread), ("two deep clumps, two points moved", &other)] {
            let p = $params[0].clone();
            ops.push(on_points::<f64, Point3<f64>>($label, name, coords, move |l| $run::<f64, Point3<f64>>(l, &p)));
            let p = $params[0].clone();
            ops.push(on_points::<f64, Point5<f64>>($label, name, coords, move |l| $run::<f64, Point5<f64>>(l, &p)));
        }
        ops
    }};
}

fn all(ops: Vec<Op>, tier: Tier) -> Vec<Space> {
    const FLOODS: &[u64] = &[300, 66_000];
    let short = ops.iter().position(|op| op.name.contains("one point (")).unwrap_or(0);
    let mut list = vec![
        histories(ops.clone(), 2, &MODES),
        hash_keys(ops.clone(), tier.pick(4, 64)),
        floods(ops.clone(), short, FLOODS),
        histories(ops.clone(), 3, &MODES),
        // The look-alikes alone, longer.
        histories(ops.iter().take(11).cloned().collect(), tier.pick(4, 5), &MODES[..2]),
    ];
    if tier == Tier::Thorough {
        list.push(histories(ops, 4, &MODES[..2]));
    }
    list
}

// --- components ---------------------------------------------------------------------------------

#[cfg(auto_palette_verif = "dbscan")]
fn cluster<F: Real, P: Make<F>>(list: &[P], params: &(usize, f64, DistanceMetric)) -> Vec<u64> {
    let fitted = auto_palette::verif::dbscan::fit(list, params.0, F::of(params.1), params.2);
    let mut out: Vec<u64> = fitted.centroids.iter().flat_map(spell).collect();
    out.extend(fitted.counts.iter().map(|c| *c as u64));
    out.extend(fitted.outliers.iter().map(|c| *c as u64));
    out
}

#[cfg(auto_palette_verif = "hdbscan")]
fn core<F: Real, P: Make<F>>(list: &[P], params: &(usize, DistanceMetric)) -> Vec<u64> {
    auto_palette::verif::hdbscan::core_distances::<F, P>(list, params.0, params.1)
        .into_iter()
        .map(bits)
        .collect()
}

#[cfg(auto_palette_verif = "kmeans")]
#[derive(Clone, Debug)]
struct Lloyd {
    k: usize,
    metric: DistanceMetric,
    plus_plus: bool,
    iterations: usize,
    tolerance: f64,
    draws: Vec<u64>,
}

#[cfg(auto_palette_verif = "kmeans")]
fn means<F: Real, P: Make<F>>(list: &[P], p: &Lloyd) -> Vec<u64> {
    use auto_palette::verif::kmeans::{fit, initialize, Config};
    let rng = || crate::checks_kmeans::Script::new(&p.draws, list.len());
    let config = Config {
        k: p.k,
        metric: p.metric,
        plus_plus: p.plus_plus,
        max_iterations: p.iterations,
        tolerance: F::of(p.tolerance),
    };
    let mut out: Vec<u64> = initialize::<F, P, _>(list, p.k, p.metric, p.plus_plus, rng()).iter().flat_map(spell).collect();
    for (centroid, size) in fit::<F, P, _>(list, config, rng()) {
        out.extend(spell(&centroid));
        out.push(size as u64);
    }
    out
}

#[cfg(auto_palette_verif = "neighbors")]
mod engines {
    use super::*;
    use auto_palette::verif::neighbors::{linear, tree, Search};

    #[derive(Clone, Copy, Debug)]
    pub enum Ask {
        Nearest,
        Some(usize),
        Within(f64),
    }

    /// Places which differ from the first in all coordinates, in one, in all but one, or by a hair.
    pub fn queries_in(dim: usize) -> Vec<Coords> {
        let base = [1.0; 5];
        let with = |axes: &dyn Fn(usize) -> bool| {
            let mut c = base;
            (0..dim).filter(|axis| axes(*axis)).for_each(|axis| c[axis] = [7.5, 3.5, 4.0, -1.0, 2.5][axis]);
            c
        };
        let mut close = base;
        close[dim / 2] += HAIR;
        let mut list = vec![base, with(&|_| true), with(&|axis| axis + 1 == dim), with(&|axis| axis == 0), close];
        if dim > 2 {
            list.push(with(&|axis| axis == dim / 2));
            list.push(with(&|axis| axis + 1 < dim));
        }
        list
    }

    pub const ASKS: [Ask; 7] = [
        Ask::Nearest,
        Ask::Some(1),
        Ask::Some(4),
        Ask::Some(100),
        Ask::Within(0.0),
        Ask::Within(1.0),
        Ask::Within(6.25),
    ];

    pub fn answer<F: Real, P: Make<F>, S: Search<F, P>>(engine: &S, query: &P, ask: Ask) -> Vec<u64> {
        let list = match ask {
            Ask::Nearest => engine.search_nearest(query).into_iter().collect(),
            Ask::Some(k) => engine.search(query, k),
            Ask::Within(r) => engine.search_radius(query, F::of(r)),
        };
        list.into_iter().flat_map(|(i, d)| [i as u64, bits(d)]).collect()
    }

    /// All queries of a new engine.
    pub fn query<F: Real, P: Make<F>>(list: &Vec<P>, params: &(bool, DistanceMetric)) -> Vec<u64> {
        let mut out = Vec::new();
        for q in queries_in(P::DIM) {
            let q = P::make(&q);
            for ask in ASKS {
                out.extend(if params.0 {
                    answer::<F, P, _>(&tree::<F, P>(list, &params.1), &q, ask)
                } else {
                    answer::<F, P, _>(&linear::<F, P>(list, params.1), &q, ask)
                });
                out.push(u64::MAX);
            }
        }
        out
    }

    fn sequence<F: Real, P: Make<F>, S: Search<F, P>>(make: &dyn Fn() -> S, twin: &S, ops: &[(usize, usize, bool)]) -> Verdict {
        let engine = make();
        let places = queries_in(P::DIM);
        for (at, (q, a, other)) in ops.iter().enumerate() {
            let query = P::make(&places[*q]);
            let used = if *other { twin } else { &engine };
            let got = guarded(|| answer::<F, P, _>(used, &query, ASKS[*a]))?;
            if *other {
                continue;
            }
            let want = guarded(|| answer::<F, P, _>(&make(), &query, ASKS[*a]))?;
            if got != want {
                return Err(format!(
                    "query {} of {:?} answers otherwise than a new engine: {got:?}, {want:?}",
                    at + 1,
                    ops.iter().map(|(q, a, other)| format!("{:?} {:?}{}", &places[*q][..P::DIM], ASKS[*a], if *other { " of another engine" } else { "" })).collect::<Vec<_>>()
                ));
            }
        }
        Ok(())
    }

    fn both<F: Real, P: Make<F>>(coords: &[Coords], other: &[Coords], is_tree: bool, metric: DistanceMetric, ops: &[(usize, usize, bool)]) -> Verdict {
        let (list, twin) = (points::<F, P>(coords), points::<F, P>(other));
        let fail = |e: String| format!("{} {} {metric:?}: {e}", F::NAME, if is_tree { "tree" } else { "linear" });
        if is_tree {
            sequence::<F, P, _>(&|| tree::<F, P>(&list, &metric), &tree::<F, P>(&twin, &metric), ops).map_err(fail)
        } else {
            sequence::<F, P, _>(&|| linear::<F, P>(&list, metric), &linear::<F, P>(&twin, metric), ops).map_err(fail)
        }
    }

    /// Pairs of radius queries on a line with a gap: every place and radius after every other.
    pub fn deserts(tier: Tier) -> Space {
        const RADII: [f64; 10] = [0.0, 0.5, 1.0, 2.0, 3.0, 4.5, 8.0, 10.0, 24.0, 60.0];
        let places = tier.pick(14u64, 28);
        let alphabet = places * RADII.len() as u64;
        let split = move |mut index: u64| {
            let is_tree = digit(&mut index, 2) == 0;
            let metric = METRICS[digit(&mut index, 2) as usize];
            let first = index;
            (is_tree, metric, first)
        };
        let query = move |mut index: u64| {
            let place = digit(&mut index, places) as f64 * 28.0 / places as f64 - 2.0;
            (place, RADII[index as usize])
        };
        Space::new(
            "deserts",
            &format!("radius queries at {places} places of a line with gaps, with 10 radii, each after each other one, in both engines, metrics and precisions, against a new engine"),
            alphabet * 4,
            move |index| {
                let (is_tree, metric, first) = split(index);
                format!("{} {metric:?}: first {:?}, then any", if is_tree { "tree" } else { "linear" }, query(first))
            },
            move |index, cx| {
                fn run<F: Real>(is_tree: bool, metric: DistanceMetric, first: (f64, f64), rest: &[(f64, f64)], cx: &mut Cx) -> Verdict {
                    let list: Vec<Point2<F>> = points(&[0.0, 1.0, 10.0, 10.0, 20.0, 20.5, 21.0].map(|x| [x, 0.0, 0.0, 0.0, 0.0]));
                    let ask = |engine: &dyn Fn(&Point2<F>, F) -> Vec<(usize, F)>, (x, r): (f64, f64)| -> Vec<u64> {
                        engine(&Point2::make(&[x, 1.0, 0.0, 0.0, 0.0]), F::of(r)).into_iter().flat_map(|(i, d)| [i as u64, bits(d)]).collect()
                    };
                    for then in rest {
                        let (got, want) = guarded(|| {
                            if is_tree {
                                let (used, new) = (tree::<F, _>(&list, &metric), tree::<F, _>(&list, &metric));
                                ask(&|q, r| used.search_radius(q, r), first);
                                (ask(&|q, r| used.search_radius(q, r), *then), ask(&|q, r| new.search_radius(q, r), *then))
                            } else {
                                let (used, new) = (linear::<F, _>(&list, metric), linear::<F, _>(&list, metric));
                                ask(&|q, r| used.search_radius(q, r), first);
                                (ask(&|q, r| used.search_radius(q, r), *then), ask(&|q, r| new.search_radius(q, r), *then))
                            }
                        })?;
                        cx.transitions += 3;
                        cx.outcome(&got);
                        if got != want {
                            return Err(format!("{} place and radius {then:?} after {first:?}: {got:?}, of a new engine {want:?}", F::NAME));
                        }
                    }
                    Ok(())
                }
                let (is_tree, metric, first) = split(index);
                let rest: Vec<(f64, f64)> = (0..alphabet).map(query).collect();
                run::<f64>(is_tree, metric, query(first), &rest, cx)?;
                run::<f32>(is_tree, metric, query(first), &rest, cx)?;
                cx.nontrivial += 1;
                cx.trace();
                Ok(())
            },
        )
    }

    /// All sequences of queries of one engine, with queries of another engine in between.
    pub fn queries(dim: usize, asked: usize, len: u32, sets: &'static [usize]) -> Space {
        let alphabet = (asked * ASKS.len() * 2) as u64;
        let split = move |mut index: u64| {
            let set = sets[digit(&mut index, sets.len() as u64) as usize];
            let is_tree = digit(&mut index, 2) == 0;
            let metric = METRICS[digit(&mut index, 2) as usize];
            let ops: Vec<(usize, usize, bool)> = (0..len)
                .map(|_| {
                    let other = digit(&mut index, 2) == 1;
                    let q = digit(&mut index, asked as u64) as usize;
                    (q, digit(&mut index, ASKS.len() as u64) as usize, other)
                })
                .collect();
            (set, is_tree, metric, ops)
        };
        let all_sets: Vec<Vec<Coords>> = datasets().iter().map(|(_, coords)| deep(coords)).collect();
        Space::new(
            &format!("queries{dim}-{len}"),
            &format!("all sequences of {len} queries in {dim} dimensions ({asked} places; nearest, 1, 4 and 100 nearest, 3 radii; of an engine or of another one on a dataset that differs little) of both engines in both metrics and precisions on {} datasets, against a new engine for each query", sets.len()),
            sets.len() as u64 * 4 * alphabet.pow(len),
            move |index| {
                let (set, is_tree, metric, ops) = split(index);
                format!("{}, {} {metric:?}: {ops:?}", datasets()[set].0, if is_tree { "tree" } else { "linear" })
            },
            move |index, cx| {
                let (set, is_tree, metric, ops) = split(index);
                let (coords, other) = (&all_sets[set], &all_sets[(set + 2) % all_sets.len()]);
                match dim {
                    2 => {
                        both::<f64, Point2<f64>>(coords, other, is_tree, metric, &ops)?;
                        both::<f32, Point2<f32>>(coords, other, is_tree, metric, &ops)?;
                    }
                    3 => {
                        both::<f64, Point3<f64>>(coords, other, is_tree, metric, &ops)?;
                        both::<f32, Point3<f32>>(coords, other, is_tree, metric, &ops)?;
                    }
                    _ => {
                        both::<f64, Point5<f64>>(coords, other, is_tree, metric, &ops)?;
                        both::<f32, Point5<f32>>(coords, other, is_tree, metric, &ops)?;
                    }
                }
                cx.transitions += u64::from(len) * 2;
                cx.nontrivial += 1;
                cx.trace();
                Ok(())
            },
        )
    }
}

#[cfg(any(auto_palette_verif = "graph", auto_palette_verif = "hierarchical"))]
mod weighted {
    use super::*;

    /// Weightings of complete graphs as tables: of points, and of tables with many ties.
    pub fn tables() -> Vec<(String, Vec<Vec<f64>>)> {
        let of = |n: usize, f: &dyn Fn(usize, usize) -> f64| -> Vec<Vec<f64>> {
            (0..n).map(|i| (0..n).map(|j| if i == j { 0.0 } else { f(i.min(j), i.max(j)) }).collect()).collect()
        };
        let mut out: Vec<(String, Vec<Vec<f64>>)> = datasets()
            .into_iter()
            .map(|(name, c)| (name.to_string(), of(c.len(), &|i, j| measure(DistanceMetric::SquaredEuclidean, &c[i], &c[j]))))
            .collect();
        out.push(("equal weights".into(), of(9, &|_, _| 1.0)));
        out.push(("two weights".into(), of(9, &|i, j| f64::from(u8::from((i * 5 + j * 3) % 4 == 0)))));
        out.push(("two weights, one other".into(), of(9, &|i, j| f64::from(u8::from((i * 5 + j * 3) % 4 == 0 || (i, j) == (3, 5))))));
        out.push(("negative weights".into(), of(9, &|i, j| -((i * 7 + j * 3) as f64 % 5.0))));
        out
    }

    pub fn weight_ops(label: &str, run: impl Fn(&dyn Fn(usize, usize) -> f64, usize) -> Vec<u64> + Copy + Send + Sync + 'static, single: impl Fn(&dyn Fn(usize, usize) -> f32, usize) -> Vec<u64> + Copy + Send + Sync + 'static) -> Vec<Op> {
        let mut ops = Vec::new();
        for (at, (name, table)) in tables().into_iter().enumerate() {
            if at == 0 || at == 2 {
                let table = table.clone();
                ops.push(op(format!("{label} of {name} (f32)"), move |place| {
                    let n = table.len();
                    let flat = placed(table.concat().into_iter().map(|w| w as f32).collect(), place);
                    single(&|i, j| flat[i * n + j], n)
                }));
            }
            ops.push(op(format!("{label} of {name} (f64)"), move |place| {
                let n = table.len();
                let flat = placed(table.concat(), place);
                run(&|i, j| flat[i * n + j], n)
            }));
        }
        ops
    }
}

#[cfg(auto_palette_verif = "graph")]
fn tree_of<F: Real>(weight: &dyn Fn(usize, usize) -> F, n: usize) -> Vec<u64> {
    let (total, edges) = auto_palette::verif::graph::spanning_tree(n, weight);
    std::iter::once(bits(total))
        .chain(edges.into_iter().flat_map(|(u, v, w)| [u as u64, v as u64, bits(w)]))
        .collect()
}

#[cfg(auto_palette_verif = "hierarchical")]
mod cuts {
    use super::*;
    use auto_palette::verif::hierarchical::Hierarchy;

    pub fn all_of<F: Real>(weight: &dyn Fn(usize, usize) -> F, n: usize) -> Vec<u64> {
        let hierarchy = Hierarchy::fit(n, weight);
        let mut out: Vec<u64> = hierarchy.merges().into_iter().flat_map(|(l, r, w, s)| [l as u64, r as u64, bits(w), s as u64]).collect();
        for k in 1..=n {
            out.extend(hierarchy.partition(k).into_iter().map(|l| l as u64));
        }
        out
    }

    /// All sequences of cuts of one hierarchy.
    pub fn sequences(len: u32) -> Space {
        let tables = weighted::tables();
        let sizes: Vec<u64> = tables.iter().map(|(_, t)| (t.len() as u64).clamp(1, 13).pow(len)).collect();
        let total = sizes.iter().sum();
        let split = move |mut index: u64| {
            let mut at = 0;
            while index >= sizes[at] {
                index -= sizes[at];
                at += 1;
            }
            let n = tables[at].1.len() as u64;
            let ks: Vec<usize> = (0..len)
                .map(|_| {
                    let k = digit(&mut index, n.clamp(1, 13)) + u64::from(n > 0);
                    // For large ones, few and many parts.
                    (if n > 13 && k > 7 { n + 7 - k } else { k }) as usize
                })
                .collect();
            (tables[at].clone(), ks)
        };
        let shown = split.clone();
        Space::new(
            &format!("cuts-{len}"),
            &format!("all sequences of {len} cuts of one hierarchy, over all weightings, of up to 60 points, against a new hierarchy for each cut"),
            total,
            move |index| {
                let ((name, _), ks) = shown(index);
                format!("{name}: cuts into {ks:?}")
            },
            move |index, cx| {
                let ((_, table), ks) = split(index);
                let fit = || Hierarchy::fit(table.len(), |i, j| table[i][j]);
                let hierarchy = guarded(fit)?;
                let merges = hierarchy.merges();
                for (at, k) in ks.iter().enumerate() {
                    let got = guarded(|| hierarchy.partition(*k))?;
                    let want = guarded(|| fit().partition(*k))?;
                    cx.transitions += 2;
                    if got != want {
                        return Err(format!("cut {} of {ks:?} labels {got:?}, of a new hierarchy {want:?}", at + 1));
                    }
                    cx.outcome(&got);
                }
                if hierarchy.merges() != merges {
                    return Err("cutting changes the merges".to_string());
                }
                cx.nontrivial += 1;
                cx.trace();
                Ok(())
            },
        )
    }
}

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    #[cfg(auto_palette_verif = "dbscan")]
    if id == "D04" {
        use DistanceMetric::*;
        let params = [(3, 1.0, Euclidean), (2, 1.0, Euclidean), (3, 1.5, Euclidean), (3, 1.0, SquaredEuclidean), (1, 0.0, Euclidean), (5, 2.0, SquaredEuclidean)];
        return Some(all(operations!("clusters", params, cluster), tier));
    }
    #[cfg(auto_palette_verif = "hdbscan")]
    if id == "S02" {
        use DistanceMetric::*;
        let params = [(3, Euclidean), (1, Euclidean), (4, Euclidean), (3, SquaredEuclidean), (100, Euclidean)];
        return Some(all(operations!("core distances", params, core), tier));
    }
    #[cfg(auto_palette_verif = "kmeans")]
    if id == "K06" {
        use DistanceMetric::*;
        let first = Lloyd { k: 3, metric: Euclidean, plus_plus: true, iterations: 10, tolerance: 1e-4, draws: vec![5, 2, 2, 9] };
        let params = [
            first.clone(),
            Lloyd { k: 4, ..first.clone() },
            Lloyd { metric: SquaredEuclidean, ..first.clone() },
            Lloyd { plus_plus: false, ..first.clone() },
            Lloyd { plus_plus: false, draws: vec![5, 2, 2, 8], ..first.clone() },
            Lloyd { iterations: 1, ..first.clone() },
            Lloyd { iterations: 0, ..first.clone() },
            Lloyd { tolerance: 100.0, ..first.clone() },
            Lloyd { draws: vec![11], ..first.clone() },
            Lloyd { k: 12, ..first },
        ];
        return Some(all(operations!("means", params, means), tier));
    }
    #[cfg(auto_palette_verif = "neighbors")]
    if id == "N03" {
        use DistanceMetric::*;
        use engines::query;
        let params = [(true, Euclidean), (true, SquaredEuclidean), (false, Euclidean), (false, SquaredEuclidean)];
        const SETS: &[usize] = &[0, 2, 6, 8, 12, 13];
        let mut list = vec![engines::deserts(tier), engines::queries(2, 5, 2, SETS)];
        list.extend([3, 5].map(|dim| engines::queries(dim, 7, 2, tier.pick(&SETS[..2], SETS))));
        list.extend(all(operations!("queries", params, query), tier));
        list.push(engines::queries(2, 3, 3, tier.pick(&[0, 8], SETS)));
        return Some(list);
    }
    #[cfg(auto_palette_verif = "graph")]
    if id == "G02" {
        return Some(all(weighted::weight_ops("tree", tree_of::<f64>, tree_of::<f32>), tier));
    }
    #[cfg(auto_palette_verif = "hierarchical")]
    if id == "H03" {
        let mut list = vec![cuts::sequences(2), cuts::sequences(3)];
        list.extend(all(weighted::weight_ops("hierarchy", cuts::all_of::<f64>, cuts::all_of::<f32>), tier));
        return Some(list);
    }
    let _ = (id, tier);
    None
}
