//! P06: several extractions at the same time.

use crate::checks_palette::history_image;
use crate::engine::{digit, guarded, Cx, Space, Tier, Verdict};
use crate::families as fam;
use crate::palette::*;
use crate::threads::{execute, execute_in, Execution, Status, THREADS};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// The images: simplest first.
fn image(which: usize) -> Img {
    match which {
        // Nothing to see.
        0 => Img::strip(&[fam::RED; 3], false),
        // Two groups.
        1 => Img::strip(&[[fam::RED; 250].as_slice(), &[fam::BLUE; 240]].concat(), true),
        // One group and outliers, upright.
        2 => Img::strip(
            &[[fam::WHITE; 260].as_slice(), &[fam::NOISE[2]; 20], &[fam::GREY; 230], &[fam::NOISE[1]; 10]].concat(),
            false,
        ),
        // As many pixels as 1 in the same colours, the other way round.
        3 => Img::strip(&[[fam::BLUE; 240].as_slice(), &[fam::RED; 250]].concat(), true),
        4 => history_image(4),
        // Eighteen groups with one dense pixel each.
        5 => history_image(5),
        // Not a strip: one group.
        6 => Img { w: 23, h: 24, ..Img::strip(&[fam::GREY; 552], true) },
        // Cut off in the middle of its last pixel: extraction may panic.
        _ => Img::strip(&[fam::RED; 600], true),
    }
}
const IMAGES: usize = 8;
const TRUNCATED: usize = 7;

/// What one thread does: some extractions in a row.
type Work = &'static [(usize, Prec)];

fn describe(work: Work) -> String {
    let list: Vec<String> = work
        .iter()
        .map(|(i, p)| {
            let cut = if *i == TRUNCATED { " without the last byte" } else { "" };
            format!("{p:?} of [{}]{cut}", image(*i).describe())
        })
        .collect();
    list.join(" then ")
}

fn describe_all(group: usize) -> String {
    describe_works(GROUPS[group])
}

fn describe_works(works: &[Work]) -> String {
    let list: Vec<String> = works
        .iter()
        .enumerate()
        .map(|(t, work)| format!("thread {t}: {}", describe(work)))
        .collect();
    list.join("; ")
}

const A: Prec = Prec::F64;
const B: Prec = Prec::F32;

/// Groups of threads: pairs, then triples, then pairs of which one does much.
const GROUPS: &[&[Work]] = &[
    &[&[(1, A)], &[(1, A)]],
    &[&[(1, A)], &[(3, A)]],
    &[&[(2, A)], &[(1, A)]],
    &[&[(1, A)], &[(0, A)]],
    &[&[(7, A)], &[(1, A)]],
    &[&[(1, B)], &[(1, A)]],
    &[&[(2, B)], &[(3, B)]],
    &[&[(0, A), (1, A)], &[(2, A)]],
    &[&[(3, A)], &[(2, A), (1, A)]],
    &[&[(2, A)], &[(2, B)]],
    &[&[(4, A)], &[(1, A)]],
    &[&[(5, A)], &[(6, A)]],
    // Triples.
    &[&[(1, A)], &[(3, A)], &[(2, A)]],
    &[&[(2, A)], &[(1, B)], &[(3, A)]],
    &[&[(1, A)], &[(1, A)], &[(1, A)]],
    // One does much.
    &[&[(1, A)], &[(3, A), (2, A), (3, A), (2, B), (1, A), (3, B), (2, A), (3, A), (2, A), (3, A), (1, B), (2, A), (3, A), (2, A), (3, A), (2, A), (1, A), (3, A), (2, A), (0, A)]],
    &[&[(2, A), (1, A)], &[(3, A); 40]],
];
/// What the threads of a crowd do, in turn.
const CROWDS: &[&[Work]] = &[
    &[&[(1, A)]],
    &[&[(1, A)], &[(3, A)]],
    &[&[(2, A)], &[(1, A)], &[(3, A)], &[(2, B)], &[(1, B)]],
    &[&[(6, A)], &[(1, A)], &[(2, A)]],
];
const N_PAIRS: usize = 12;
const TRIPLES: std::ops::Range<usize> = N_PAIRS..N_PAIRS + 3;
const BUSY: std::ops::Range<usize> = TRIPLES.end..TRIPLES.end + 2;

struct Shared {
    images: Vec<(Img, Vec<u8>)>,
    alone: RefCell<HashMap<(usize, bool), Result<Vec<String>, String>>>,
    base: RefCell<HashMap<usize, Execution>>,
}

fn body<'a>(shared: &'a [(Img, Vec<u8>)], work: Work) -> impl Fn() -> String + Sync + 'a {
    move || {
        let mut text = String::new();
        for (which, prec) in work {
            let (img, bytes) = &shared[*which];
            // Threads share the pixels.
            let got = guarded(|| extract_raw(bytes, img.w, img.h, *prec));
            let line = match got {
                Ok(list) => format!("{:?}\n", list.iter().map(|s| (s.bits(), s.share)).collect::<Vec<_>>()),
                Err(e) => format!("{e}\n"),
            };
            text.push_str(&line);
        }
        text
    }
}

impl Shared {
    /// What an extraction returns when run alone in a fresh process.
    fn expected(&self, work: Work) -> Result<Vec<String>, String> {
        let mut out = Vec::new();
        for one in work {
            let key = (one.0, one.1 == A);
            let known = self.alone.borrow().get(&key).cloned();
            let known = match known {
                Some(known) => known,
                None => {
                    let single: Work = Box::leak(Box::new([*one]));
                    let run = execute(&[&body(&self.images, single)], &[]);
                    let result = match (run.status, &run.results[0]) {
                        (Status::Finished, Some(text)) => Ok(vec![text.clone()]),
                        _ => Err(format!("extraction alone: {:?}", run.status)),
                    };
                    self.alone.borrow_mut().insert(key, result.clone());
                    result
                }
            };
            out.extend(known?);
        }
        Ok(out)
    }

    fn run(&self, group: usize, plan: &[(usize, u64)], cx: &mut Cx) -> Result<Execution, String> {
        self.run_works(GROUPS[group], plan, false, cx)
    }

    fn run_works(
        &self,
        works: &[Work],
        plan: &[(usize, u64)],
        backwards: bool,
        cx: &mut Cx,
    ) -> Result<Execution, String> {
        let bodies: Vec<_> = works.iter().map(|work| body(&self.images, work)).collect();
        let list: Vec<&(dyn Fn() -> String + Sync)> =
            bodies.iter().map(|b| b as &(dyn Fn() -> String + Sync)).collect();
        let run = execute_in(&list, plan, backwards);
        cx.step();
        let name = |what: String| {
            Err(format!("{}; switching at (thread, point) {plan:?}, in {} order afterwards: {what}", describe_works(works), if backwards { "falling" } else { "rising" }))
        };
        match run.status {
            Status::Finished => {}
            Status::Blocked => return name("the threads wait for each other forever".into()),
            Status::Crashed(code) => return name(format!("crashed ({code})")),
        }
        for (t, work) in works.iter().enumerate() {
            let want = self.expected(work)?.concat();
            match &run.results[t] {
                Some(got) if *got == want => {}
                got => {
                    return name(format!(
                        "thread {t} gets {:?}, alone {want:?}",
                        got.as_deref().unwrap_or("nothing")
                    ))
                }
            }
        }
        cx.outcome(&(works.len(), &run.points[..works.len()], run.switches));
        cx.trace();
        cx.nontrivial += u64::from(run.switches > 0);
        Ok(run)
    }

    /// The execution without preemption, from which the points are known.
    fn base(&self, group: usize, cx: &mut Cx) -> Result<Execution, String> {
        if let Some(run) = self.base.borrow().get(&group) {
            return Ok(run.clone());
        }
        let run = self.run(group, &[], cx)?;
        let again = self.run(group, &[], cx)?;
        if run.points != again.points {
            cx.ambiguous += 1;
        }
        self.base.borrow_mut().insert(group, run.clone());
        Ok(run)
    }
}

/// Every access to static memory, and so many places evenly in between.
fn places(run: &Execution, thread: usize, grid: u64) -> Vec<u64> {
    let n = run.points[thread];
    let mut out: Vec<u64> = (0..grid).map(|g| 1 + g * n / grid).collect();
    out.extend(run.static_points[thread].iter().take(64));
    out.retain(|p| *p <= n);
    out.sort_unstable();
    out.dedup();
    out
}

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    if id != "P06" {
        return None;
    }
    let shared = Rc::new(Shared {
        images: (0..IMAGES).map(|i| {
            let img = image(i);
            let mut bytes = img.bytes();
            if i == TRUNCATED {
                bytes.pop();
            }
            (img, bytes)
        }).collect(),
        alone: RefCell::default(),
        base: RefCell::default(),
    });
    let pairs = tier.pick(7, N_PAIRS) as u64;
    let show = move |mut index: u64| {
        let pair = digit(&mut index, pairs) as usize;
        format!("{}; slot {index}", describe_all(pair))
    };

    const SLOTS: u64 = 256;
    let most = tier.pick(5_000u64, 60_000);
    let one = shared.clone();
    let single = Space::new(
        "one-preemption",
        &format!("{pairs} pairs of threads; thread 0 is preempted at every single point (heap operation or access to static memory; of more than {most}, so many evenly spread ones and the first 128 accesses), thread 1 runs to its end, thread 0 goes on; points dealt to {SLOTS} slots"),
        pairs * SLOTS,
        show,
        move |mut index, cx| {
            let pair = digit(&mut index, pairs) as usize;
            let base = one.base(pair, cx)?;
            let n = base.points[0];
            let mut list: Vec<u64> = if n <= most {
                (1..=n).collect()
            } else {
                (0..most).map(|g| 1 + g * n / most).chain(base.static_points[0].iter().copied()).collect()
            };
            list.sort_unstable();
            list.dedup();
            for (_, p) in list.into_iter().enumerate().filter(|(at, _)| *at as u64 % SLOTS == index) {
                cx.inner_states += 1;
                one.run(pair, &[(0, p)], cx)?;
            }
            Ok(())
        },
    );

    let grid = tier.pick(20u64, 64);
    let two = shared.clone();
    let double = Space::new(
        "two-preemptions",
        &format!("{pairs} pairs of threads; thread 0 is preempted at one of {grid} places or at an access to static memory (the first 64), then thread 1 likewise, then thread 0 and thread 1 run to their ends; {grid} slots"),
        pairs * grid,
        show,
        move |mut index, cx| {
            let pair = digit(&mut index, pairs) as usize;
            let base = two.base(pair, cx)?;
            for (at, p) in places(&base, 0, grid).into_iter().enumerate() {
                if at as u64 % grid != index {
                    continue;
                }
                for q in places(&base, 1, grid) {
                    cx.inner_states += 1;
                    two.run(pair, &[(0, p), (1, q)], cx)?;
                }
            }
            Ok(())
        },
    );

    let coarse = tier.pick(7u64, 16);
    let three = shared.clone();
    let triple = Space::new(
        "three-preemptions",
        &format!("{pairs} pairs of threads; thread 0, thread 1 and thread 0 again are preempted, each at one of {coarse} places or at an access to static memory (the first 64); {coarse} slots"),
        pairs * coarse,
        show,
        move |mut index, cx| {
            let pair = digit(&mut index, pairs) as usize;
            let base = three.base(pair, cx)?;
            let first = places(&base, 0, coarse);
            for (at, p) in first.iter().enumerate() {
                if at as u64 % coarse != index {
                    continue;
                }
                for q in places(&base, 1, coarse) {
                    for r in first.iter().filter(|r| *r > p) {
                        cx.inner_states += 1;
                        three.run(pair, &[(0, *p), (1, q), (0, *r)], cx)?;
                    }
                }
            }
            Ok(())
        },
    );

    let fine = tier.pick(16u64, 40);
    let coarse = tier.pick(5u64, 9);
    let trios = TRIPLES.len() as u64;
    let all = shared.clone();
    let three_threads = Space::new(
        "three-threads",
        &format!("{trios} groups of three threads; threads 0 and 1 are preempted each at one of {fine} places or at an access to static memory (the first 64); or threads 0, 1 and 2 each at one of {coarse} places or accesses (the first 10); the turn passes to the next thread; {fine} slots"),
        trios * fine,
        move |mut index| {
            let group = TRIPLES.start + digit(&mut index, trios) as usize;
            format!("{}; slot {index}", describe_all(group))
        },
        move |mut index, cx| {
            let group = TRIPLES.start + digit(&mut index, trios) as usize;
            let base = all.base(group, cx)?;
            for (at, p) in places(&base, 0, fine).into_iter().enumerate() {
                if at as u64 % fine != index {
                    continue;
                }
                for q in places(&base, 1, fine) {
                    cx.inner_states += 1;
                    all.run(group, &[(0, p), (1, q)], cx)?;
                }
            }
            let few = |t: usize| {
                let mut list = places(&base, t, coarse);
                list.retain(|p| !base.static_points[t].iter().skip(10).any(|q| p == q));
                list
            };
            for (at, p) in few(0).into_iter().enumerate() {
                if at as u64 % fine != index {
                    continue;
                }
                for q in few(1) {
                    for r in few(2) {
                        cx.inner_states += 1;
                        all.run(group, &[(0, p), (1, q), (2, r)], cx)?;
                    }
                }
            }
            Ok(())
        },
    );

    let stops = tier.pick(96u64, 512);
    let laden = shared.clone();
    let pairs = BUSY.len() as u64;
    let busy = Space::new(
        "busy",
        &format!("{pairs} pairs of threads; thread 0 is preempted at one of {stops} places or at an access to static memory (the first 64), thread 1 carries out 20 or 40 extractions, thread 0 goes on; {stops} slots"),
        pairs * stops,
        move |mut index| {
            let group = BUSY.start + digit(&mut index, pairs) as usize;
            format!("{}; slot {index}", describe_all(group))
        },
        move |mut index, cx| {
            let group = BUSY.start + digit(&mut index, pairs) as usize;
            let base = laden.base(group, cx)?;
            for (at, p) in places(&base, 0, stops).into_iter().enumerate() {
                if at as u64 % stops == index {
                    cx.inner_states += 1;
                    laden.run(group, &[(0, p)], cx)?;
                }
            }
            Ok(())
        },
    );

    let stops = tier.pick(24u64, 96);
    let sizes: &'static [usize] = tier.pick(&[5, 9, 17], &[4, 5, 6, 8, 9, 12, 16, 17, 20]);
    let crowds = (sizes.len() * CROWDS.len()) as u64;
    let crowd_of = move |group: u64| -> Vec<Work> {
        let pattern = CROWDS[group as usize % CROWDS.len()];
        (0..sizes[group as usize / CROWDS.len()]).map(|t| pattern[t % pattern.len()]).collect()
    };
    let crowd = Space::new(
        "crowd",
        &format!("{sizes:?} threads (at most {THREADS}), with {} patterns of images; every thread but the last one is preempted at the same one of {stops} places of its run, or at its same access to static memory (the first 64), and the turn passes to the next; so all of them are under way at once; then they run to their ends one after another, in rising or in falling order; {stops} slots", CROWDS.len()),
        crowds * stops,
        move |mut index| {
            let group = digit(&mut index, crowds);
            format!("{}; slot {index}", describe_works(&crowd_of(group)))
        },
        move |mut index, cx| {
            let group = digit(&mut index, crowds);
            let works = crowd_of(group);
            let key = GROUPS.len() + group as usize;
            let known = shared.base.borrow().get(&key).cloned();
            let base = match known {
                Some(known) => known,
                None => {
                    let run = shared.run_works(&works, &[], false, cx)?;
                    shared.base.borrow_mut().insert(key, run.clone());
                    run
                }
            };
            // The last thread is not stopped.
            let stopped = works.len() - 1;
            for at in (0..stops + 64).filter(|at| at % stops == index) {
                let plan: Vec<(usize, u64)> = (0..stopped)
                    .filter_map(|t| {
                        let p = if at < stops {
                            1 + at * base.points[t] / stops
                        } else {
                            *base.static_points[t].get((at - stops) as usize)?
                        };
                        (p <= base.points[t]).then_some((t, p))
                    })
                    .collect();
                if plan.len() < stopped {
                    continue;
                }
                for backwards in [false, true] {
                    cx.inner_states += 1;
                    shared.run_works(&works, &plan, backwards, cx)?;
                }
            }
            Ok(())
        },
    );
    let _: Option<Verdict> = None;
    Some(vec![crowd, busy, three_threads, triple, double, single])
}
