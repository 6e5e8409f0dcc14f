//! G01, H01, H02, U01 and S01: spanning trees, hierarchical clustering, its union-find, and core
//! distances.
#![allow(dead_code)]

use crate::data::*;
use crate::engine::{digit, Cx, Space, Tier, Verdict};
#[allow(unused_imports)]
use crate::engine::guarded;
#[allow(unused_imports)]
use crate::refm::{spanning_weights, Sets};
use auto_palette::verif::DistanceMetric;

/// A symmetric weighting of the complete graph on n vertices.
#[derive(Clone)]
struct Weights {
    n: usize,
    of: Vec<f64>,
}

impl Weights {
    fn at(&self, u: usize, v: usize) -> f64 {
        self.of[u * self.n + v]
    }

    fn new(n: usize, weight: impl Fn(usize, usize) -> f64) -> Self {
        let mut of = vec![f64::NAN; n * n];
        for u in 0..n {
            for v in 0..n {
                if u != v {
                    of[u * n + v] = weight(u.min(v), u.max(v));
                }
            }
        }
        Self { n, of }
    }

    fn show(&self) -> String {
        let mut out = format!("{} vertices, weights", self.n);
        for u in 0..self.n.min(7) {
            for v in u + 1..self.n.min(7) {
                out.push_str(&format!(" {u}-{v}:{}", self.at(u, v)));
            }
        }
        out
    }

    /// The weight in the precision of the run.
    fn rounded<F: Real>(&self) -> Self {
        Self {
            n: self.n,
            of: self.of.iter().map(|w| F::of(*w).wide()).collect(),
        }
    }
}

struct Family {
    name: String,
    bound: String,
    size: u64,
    make: Box<dyn Fn(u64) -> Weights>,
}

/// Every weighting of n vertices with the given weights.
fn weightings(n: usize, values: &'static [f64]) -> Family {
    let edges = n * n.saturating_sub(1) / 2;
    let radix = values.len() as u64;
    Family {
        name: format!(
            "all-{n}-of-{}{}",
            values.len(),
            if values[0] < 0.0 {
                "-signed"
            } else if values[0].is_sign_negative() {
                "-zeros"
            } else if values.contains(&f64::INFINITY) {
                "-endless"
            } else {
                ""
            }
        ),
        bound: format!("all weightings of the complete graph on {n} vertices with weights {values:?}"),
        size: radix.pow(edges as u32),
        make: Box::new(move |mut index| {
            let list: Vec<f64> = (0..edges).map(|_| values[digit(&mut index, radix) as usize]).collect();
            Weights::new(n, |u, v| list[v * (v - 1) / 2 + u])
        }),
    }
}

/// Every order of different weights.
fn orders(n: usize) -> Family {
    let edges = n * (n - 1) / 2;
    Family {
        name: format!("orders-{n}"),
        bound: format!("all orders of {edges} different weights on {n} vertices"),
        size: crate::engine::factorial(edges as u64),
        make: Box::new(move |index| {
            let ranks = crate::engine::permutation(index, edges);
            Weights::new(n, |u, v| ranks[v * (v - 1) / 2 + u] as f64)
        }),
    }
}

/// Every order of weights which are all but equal, or which are far apart.
fn spread_orders(n: usize, name: &str, bound: &str, weight: fn(usize) -> f64) -> Family {
    let edges = n * (n - 1) / 2;
    Family {
        name: format!("orders-{n}-{name}"),
        bound: format!("all orders of {edges} different weights on {n} vertices: {bound}"),
        size: crate::engine::factorial(edges as u64),
        make: Box::new(move |index| {
            let ranks = crate::engine::permutation(index, edges);
            Weights::new(n, |u, v| weight(ranks[v * (v - 1) / 2 + u]))
        }),
    }
}

/// The distances of points.
fn distances(data: Data) -> Family {
    let make = data.make.clone();
    Family {
        name: data.name.clone(),
        bound: format!("distances in both metrics of {}", data.bound),
        size: data.size * 2,
        make: Box::new(move |mut index| {
            let metric = METRICS[digit(&mut index, 2) as usize];
            let coords = make(index);
            Weights::new(coords.len(), |u, v| measure(metric, &coords[u], &coords[v]))
        }),
    }
}

/// Graphs whose hierarchies have extreme shapes.
fn shapes(sizes: Vec<usize>) -> Family {
    const SHAPES: u64 = 11;
    let bound = format!("{SHAPES} shapes of weightings (chains, stars, balanced, blocks, ties, descending, two chains of unequal length), {} sizes up to {}", sizes.len(), sizes.last().unwrap_or(&0));
    Family {
        name: format!("shapes-{}", sizes[0]),
        bound,
        size: SHAPES * sizes.len() as u64,
        make: Box::new(move |mut index| {
            let shape = digit(&mut index, SHAPES);
            let n = sizes[index as usize];
            Weights::new(n, move |u, v| match shape {
                0 => (v - u) as f64,
                1 => {
                    if v - u == 1 {
                        (n - u) as f64
                    } else {
                        1000.0 + v as f64
                    }
                }
                2 => {
                    if u == 0 {
                        v as f64
                    } else {
                        500.0
                    }
                }
                // The level at which two numbers part: a balanced hierarchy with many ties.
                3 => f64::from(usize::BITS - (u ^ v).leading_zeros()),
                4 => {
                    if u / 4 == v / 4 {
                        1.0
                    } else {
                        (u / 4 + v / 4) as f64 + 5.0
                    }
                }
                5 => 1.0,
                6 => -((u * 31 + v * 17) as f64 % 23.0),
                7 => (u as f64 - v as f64) * 0.5,
                // A long chain and a short one, with the wider steps in the one or the other.
                9 | 10 => {
                    let at = |i: usize| match (i < n / 4 * 3, shape) {
                        (true, 9) => i as f64,
                        (true, _) => 2.0 * i as f64,
                        (false, 9) => 100_000.0 + 2.0 * i as f64,
                        _ => 100_000.0 + i as f64,
                    };
                    at(v) - at(u)
                }
                _ => {
                    if (u * 7 + v * 3) % 5 == 0 {
                        1e-3 * (v as f64)
                    } else {
                        1e6 + u as f64
                    }
                }
            })
        }),
    }
}

type Judge = fn(&Weights, &mut Cx) -> Verdict;

fn space(family: Family, judge: Judge) -> Space {
    let make = std::rc::Rc::new(family.make);
    let make2 = make.clone();
    Space::new(
        &family.name,
        &family.bound,
        family.size,
        move |index| make(index).show(),
        move |index, cx| judge(&make2(index), cx),
    )
}

// --- G01 ----------------------------------------------------------------------------------------

#[cfg(auto_palette_verif = "graph")]
mod graph {
    use super::*;
    use auto_palette::verif::graph::spanning_tree;

    fn tree<F: Real>(weights: &Weights, cx: &mut Cx) -> Verdict {
        let weights = weights.rounded::<F>();
        let n = weights.n;
        let got = guarded(|| {
            spanning_tree(n, |u, v| -> F {
                // Asking for the distance of a vertex to itself is no fault.
                assert!(u < n && v < n, "weight of {u}-{v} asked for");
                F::of(if u == v { 0.0 } else { weights.at(u, v) })
            })
        });
        cx.step();
        let (total, edges) = got.map_err(|e| format!("{}: {e}", F::NAME))?;
        let fail = |what: &str| Err(format!("{}: {what}: weight {total:?}, edges {edges:?}", F::NAME));
        if edges.len() != n.saturating_sub(1) {
            return fail("the number of edges is wrong");
        }
        let mut sets = Sets::new(n);
        for (u, v, w) in &edges {
            if *u >= n || *v >= n || !sets.join(*u, *v) {
                return fail(&format!("edge {u}-{v} closes a cycle"));
            }
            if w.wide() != weights.at(*u, *v) {
                return fail(&format!("edge {u}-{v} weighs {}", weights.at(*u, *v)));
            }
        }
        let mut got: Vec<f64> = edges.iter().map(|e| e.2.wide()).collect();
        got.sort_by(f64::total_cmp);
        let want = spanning_weights(n, |u, v| weights.at(u, v));
        if got.iter().zip(&want).any(|(a, b)| a != b) {
            return fail(&format!("a lighter tree has weights {want:?}"));
        }
        let sum: f64 = got.iter().sum();
        let scale: f64 = got.iter().map(|w| w.abs()).sum();
        if sum != total.wide() && (sum - total.wide()).abs() > F::SLACK * n as f64 * scale {
            return fail(&format!("the edges add up to {sum}"));
        }
        cx.trace();
        cx.nontrivial += u64::from(n > 2);
        cx.outcome(&edges.iter().map(|(u, v, w)| (*u, *v, w.wide().to_bits())).collect::<Vec<_>>());
        Ok(())
    }

    pub fn judge(weights: &Weights, cx: &mut Cx) -> Verdict {
        tree::<f64>(weights, cx)?;
        tree::<f32>(weights, cx)
    }
}

// --- H01, H02, U01 ------------------------------------------------------------------------------

#[cfg(auto_palette_verif = "hierarchical")]
mod hierarchy {
    use super::*;
    use auto_palette::verif::hierarchical::{Forest, Hierarchy};
    use std::collections::{HashMap, HashSet, VecDeque};

    fn build<F: Real>(weights: &Weights, cx: &mut Cx) -> Result<Hierarchy<F>, String> {
        cx.step();
        let n = weights.n;
        guarded(|| {
            Hierarchy::fit(n, |u, v| -> F {
                // Asking for the distance of a vertex to itself is no fault.
                assert!(u < n && v < n, "weight of {u}-{v} asked for");
                F::of(if u == v { 0.0 } else { weights.at(u, v) })
            })
        })
        .map_err(|e| format!("{}: {e}", F::NAME))
    }

    fn cut<F: Real>(weights: &Weights, hierarchy: &Hierarchy<F>, k: usize, cx: &mut Cx) -> Result<Vec<usize>, String> {
        cx.step();
        let labels = guarded(|| hierarchy.partition(k)).map_err(|e| format!("{} k={k}: {e}", F::NAME))?;
        if labels.len() != weights.n {
            return Err(format!("{} k={k}: {} labels for {} points", F::NAME, labels.len(), weights.n));
        }
        Ok(labels)
    }

    /// Into how many parts to cut: all numbers, or for many points a selection.
    fn parts(n: usize) -> Vec<usize> {
        if n <= 160 {
            return (1..=n).collect();
        }
        let mut list = vec![1, 2, 3, 4, 7, n / 4, n / 3, n / 2, n - 3, n - 2, n - 1, n];
        list.extend((250..260).filter(|k| *k <= n));
        list.sort_unstable();
        list.dedup();
        list
    }

    fn cuts<F: Real>(weights: &Weights, cx: &mut Cx) -> Verdict {
        let weights = weights.rounded::<F>();
        let n = weights.n;
        let hierarchy = build::<F>(&weights, cx)?;
        let spanning = spanning_weights(n, |u, v| weights.at(u, v));
        if n == 0 {
            cut(&weights, &hierarchy, 0, cx)?;
            return Ok(());
        }
        for k in parts(n) {
            let labels = cut(&weights, &hierarchy, k, cx)?;
            let fail = |what: &str| Err(format!("{} k={k}: {what}: {labels:?}", F::NAME));
            let mut used = vec![false; k];
            for label in &labels {
                if *label >= k {
                    return fail("a label is out of range");
                }
                used[*label] = true;
            }
            if used.contains(&false) {
                return fail("a label is not used");
            }
            cx.outcome(&(k, &labels));
            cx.trace();
            if k == 1 {
                continue;
            }
            cx.nontrivial += u64::from(k < n);
            // The k-1 heaviest edges of a minimum spanning tree separate as far as possible.
            let best = spanning[n - k];
            let mut apart = f64::INFINITY;
            let mut sets = Sets::new(n);
            for u in 0..n {
                for v in u + 1..n {
                    if labels[u] != labels[v] {
                        apart = apart.min(weights.at(u, v));
                    } else if weights.at(u, v) <= best {
                        sets.join(u, v);
                    }
                }
            }
            if apart != best {
                return fail(&format!("the parts are {apart} apart, and could be {best}"));
            }
            let root: Vec<usize> = (0..n).map(|u| sets.find(u)).collect();
            for u in 0..n {
                for v in u + 1..n {
                    if labels[u] == labels[v] && root[u] != root[v] {
                        return fail(&format!("{u} and {v} are not linked by steps of at most {best}"));
                    }
                }
            }
        }
        Ok(())
    }

    pub fn judge_cuts(weights: &Weights, cx: &mut Cx) -> Verdict {
        cuts::<f64>(weights, cx)?;
        cuts::<f32>(weights, cx)
    }

    fn merges<F: Real>(weights: &Weights, cx: &mut Cx) -> Verdict {
        let weights = weights.rounded::<F>();
        let n = weights.n;
        let hierarchy = build::<F>(&weights, cx)?;
        let list = hierarchy.merges();
        let fail = |what: &str| Err(format!("{}: {what}: {list:?}", F::NAME));
        if list.len() != n.saturating_sub(1) {
            return fail("the number of merges is wrong");
        }
        let mut below: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
        let mut used = vec![false; 2 * n];
        let mut last = f64::NEG_INFINITY;
        for (at, (left, right, weight, size)) in list.iter().enumerate() {
            let weight = weight.wide();
            if *left >= n + at || *right >= n + at || left == right {
                return fail(&format!("merge {at} refers to a later one"));
            }
            if used[*left] || used[*right] {
                return fail(&format!("merge {at} uses something again"));
            }
            used[*left] = true;
            used[*right] = true;
            if weight < last {
                return fail(&format!("merge {at} weighs less than the one before"));
            }
            last = weight;
            let mut link = f64::INFINITY;
            for u in &below[*left] {
                for v in &below[*right] {
                    link = link.min(weights.at(*u, *v));
                }
            }
            if link != weight {
                return fail(&format!("merge {at} joins parts which are {link} apart"));
            }
            let mut all = below[*left].clone();
            all.extend(&below[*right]);
            if all.len() != *size {
                return fail(&format!("merge {at} is of {} points", all.len()));
            }
            below.push(all);
        }
        cx.trace();
        cx.outcome(&list.iter().map(|m| (m.0, m.1, m.3)).collect::<Vec<_>>());
        let mut coarse: Option<Vec<usize>> = None;
        for k in parts(n) {
            let fine = cut(&weights, &hierarchy, k, cx)?;
            if let Some(coarse) = &coarse {
                let mut parent: HashMap<usize, usize> = HashMap::new();
                for u in 0..n {
                    if *parent.entry(fine[u]).or_insert(coarse[u]) != coarse[u] {
                        return Err(format!(
                            "{}: the cut into {k} parts {fine:?} does not nest in {coarse:?}",
                            F::NAME
                        ));
                    }
                }
                cx.nontrivial += 1;
            }
            cx.trace();
            coarse = Some(fine);
        }
        Ok(())
    }

    pub fn judge_merges(weights: &Weights, cx: &mut Cx) -> Verdict {
        merges::<f64>(weights, cx)?;
        merges::<f32>(weights, cx)
    }

    /// What the union-find should be: which representative each element has.
    struct Model {
        root: Vec<usize>,
        /// Everything below each representative, itself included, and how many elements.
        below: Vec<(Vec<usize>, usize)>,
    }

    impl Model {
        fn new(n: usize) -> Self {
            Self {
                root: (0..n).collect(),
                below: (0..n).map(|i| (vec![i], 1)).collect(),
            }
        }

        fn union(&mut self, x: usize, y: usize) -> usize {
            let label = self.root.len();
            let (mut all, size_x) = std::mem::take(&mut self.below[x]);
            let (other, size_y) = std::mem::take(&mut self.below[y]);
            for r in all.iter().chain(&other) {
                self.root[*r] = label;
            }
            all.extend(other);
            all.push(label);
            self.root.push(label);
            self.below.push((all, size_x + size_y));
            size_x + size_y
        }
    }

    #[derive(Clone, Copy)]
    enum Op {
        Find(usize),
        Union(usize, usize),
    }

    fn text(ops: &[Op]) -> String {
        let shown: Vec<String> = ops
            .iter()
            .skip(ops.len().saturating_sub(60))
            .map(|op| match op {
                Op::Find(x) => format!("find({x})"),
                Op::Union(x, y) => format!("union({x},{y})"),
            })
            .collect();
        shown.join(" ")
    }

    /// Run a history and compare every answer with the model. `probe` finds everything at the end.
    fn replay(n: usize, ops: &[Op], probe: bool, cx: &mut Cx) -> Result<(), String> {
        replay_to(n, ops, probe, cx).map(|_| ())
    }

    /// The same, giving the state before the probe.
    fn replay_to(n: usize, ops: &[Op], probe: bool, cx: &mut Cx) -> Result<Forest, String> {
        let mut model = Model::new(n);
        guarded(|| {
            let mut forest = Forest::new(n);
            for (at, op) in ops.iter().enumerate() {
                cx.step();
                let (got, want) = match op {
                    Op::Find(x) => (forest.find(*x), model.root[*x]),
                    Op::Union(x, y) => (forest.union(*x, *y), model.union(*x, *y)),
                };
                if got != want {
                    return Err(format!("n={n}: {} gives {got}, not {want}", text(&ops[..=at])));
                }
            }
            if probe {
                for x in (0..model.root.len()).rev().chain(0..model.root.len()) {
                    cx.step();
                    let got = forest.find(x);
                    if got != model.root[x] {
                        return Err(format!(
                            "n={n}: {} and finds of all: find({x}) gives {got}, not {}",
                            text(ops),
                            model.root[x]
                        ));
                    }
                }
            }
            Ok(forest)
        })
        .unwrap_or_else(|e| Err(format!("n={n}: {}: {e}", text(ops))))
    }

    fn unions(n: usize, mut index: u64) -> Vec<Op> {
        let mut roots: Vec<usize> = (0..n).collect();
        let mut out = Vec::new();
        while roots.len() > 1 {
            let m = roots.len() as u64;
            let x = roots.remove(digit(&mut index, m) as usize);
            let y = roots.remove(digit(&mut index, m - 1) as usize);
            roots.push(n + out.len());
            out.push(Op::Union(x, y));
        }
        out
    }

    /// States searched in one case at most; far above what the union-find has.
    const MOST_STATES: usize = 60_000;

    /// An explicit search over the finds between the unions of a given order. A history is run
    /// again from the start for every step, since the structure cannot be copied.
    fn search(n: usize, order: &[Op], cx: &mut Cx) -> Verdict {
        let mut seen: HashSet<(usize, String)> = HashSet::new();
        let mut queue: VecDeque<(usize, Vec<Op>)> = VecDeque::new();
        seen.insert((0, replay_to(n, &[], false, cx)?.state()));
        queue.push_back((0, Vec::new()));
        while let Some((done, ops)) = queue.pop_front() {
            let finds = (0..n + done).map(|x| (done, Op::Find(x)));
            let union = order.get(done).map(|op| (done + 1, *op));
            for (done, op) in union.into_iter().chain(finds) {
                let mut ops = ops.clone();
                ops.push(op);
                let state = replay_to(n, &ops, false, cx)?.state();
                if seen.len() < MOST_STATES && seen.insert((done, state)) {
                    cx.inner_states += 1;
                    cx.nontrivial += u64::from(done > 1);
                    replay(n, &ops, true, cx)?;
                    cx.trace();
                    queue.push_back((done, ops));
                }
            }
        }
        cx.outcome(&seen.len());
        Ok(())
    }

    /// One order of unions; an explicit search over the finds in between.
    pub fn histories(n: usize) -> Space {
        let size = (2..=n as u64).map(|m| m * (m - 1)).product();
        Space::new(
            &format!("unions-{n}"),
            &format!("all {size} ordered sequences of unions of {n} elements down to one group; for each, all states reachable by any finds of elements and of earlier representatives in between"),
            size,
            move |index| text(&unions(n, index)),
            move |index, cx| search(n, &unions(n, index), cx),
        )
    }

    /// All orders of unions up to renaming elements, which start out alike: each union takes two
    /// earlier groups, or one and a fresh element, or two fresh elements.
    fn shapes_of(n: usize) -> Vec<Vec<Op>> {
        fn extend(n: usize, fresh: usize, groups: &[usize], ops: &mut Vec<(Side, Side)>, out: &mut Vec<Vec<(Side, Side)>>) {
            if n - fresh + groups.len() == 1 {
                out.push(ops.clone());
                return;
            }
            let label = n + ops.len();
            let mut step = |sides: (Side, Side), fresh: usize, left: Vec<usize>, out: &mut Vec<Vec<(Side, Side)>>| {
                let mut groups = left;
                groups.push(label);
                ops.push(sides);
                extend(n, fresh, &groups, ops, out);
                ops.pop();
            };
            if n - fresh >= 2 {
                step((Side::Fresh, Side::Fresh), fresh + 2, groups.to_vec(), out);
            }
            for (i, g) in groups.iter().enumerate() {
                let mut left = groups.to_vec();
                left.remove(i);
                if n > fresh {
                    step((Side::Group(*g), Side::Fresh), fresh + 1, left.clone(), out);
                }
                for h in &groups[i + 1..] {
                    let left = left.iter().copied().filter(|o| o != h).collect();
                    step((Side::Group(*g), Side::Group(*h)), fresh, left, out);
                }
            }
        }
        #[derive(Clone, Copy)]
        enum Side {
            Fresh,
            Group(usize),
        }
        let mut out = Vec::new();
        extend(n, 0, &[], &mut Vec::new(), &mut out);
        let mut all = Vec::new();
        for shape in out {
            // The sides as they are, all swapped, and swapped in turns.
            for swap in 0..3 {
                let mut next = 0;
                let mut take = |side: Side| match side {
                    Side::Group(g) => g,
                    Side::Fresh => {
                        next += 1;
                        next - 1
                    }
                };
                all.push(
                    shape
                        .iter()
                        .enumerate()
                        .map(|(at, (x, y))| {
                            let (x, y) = (take(*x), take(*y));
                            if swap == 1 || (swap == 2 && at % 2 == 1) {
                                Op::Union(y, x)
                            } else {
                                Op::Union(x, y)
                            }
                        })
                        .collect(),
                );
            }
        }
        all
    }

    pub fn merge_trees(n: usize) -> Space {
        let list = std::rc::Rc::new(shapes_of(n));
        let list2 = list.clone();
        Space::new(
            &format!("trees-{n}"),
            &format!("all orders of merging {n} elements up to renaming the elements, with the sides as they are, swapped and swapped in turns; for each, all states reachable by any finds of elements and of earlier representatives in between"),
            list.len() as u64,
            move |index| text(&list[index as usize]),
            move |index, cx| search(n, &list2[index as usize], cx),
        )
    }

    /// Long chains, where finds have far to go.
    pub fn chains(sizes: Vec<usize>) -> Space {
        let count = sizes.len() as u64;
        let of = sizes.clone();
        Space::new(
            "chains",
            &format!("groups growing one by one, from both sides, and in pairs, of {sizes:?} elements; a find of every element after every so many unions"),
            count * 12,
            move |mut index| {
                let n = sizes[digit(&mut index, count) as usize];
                format!("{n} elements, variant {index}")
            },
            move |mut index, cx| {
                let n = of[digit(&mut index, count) as usize];
                let shape = digit(&mut index, 3);
                let every = [1, 3, 7, usize::MAX][index as usize];
                let mut ops = Vec::new();
                let mut roots: VecDeque<usize> = (0..n).collect();
                let mut label = n;
                while roots.len() > 1 {
                    let (x, y) = match shape {
                        0 => (roots.pop_front().unwrap(), roots.pop_front().unwrap()),
                        1 => (roots.pop_back().unwrap(), roots.pop_front().unwrap()),
                        _ => (roots.pop_front().unwrap(), roots.pop_front().unwrap()),
                    };
                    ops.push(Op::Union(x, y));
                    match shape {
                        2 => roots.push_back(label),
                        _ => roots.push_front(label),
                    }
                    label += 1;
                    if (label - n) % every.min(n) == 0 {
                        ops.push(Op::Find((label * 7) % n));
                        ops.push(Op::Find(label - 1));
                        ops.push(Op::Find((label * 5) % label));
                    }
                }
                replay(n, &ops, true, cx)?;
                cx.trace();
                cx.nontrivial += 1;
                cx.outcome(&label);
                Ok(())
            },
        )
    }
}

// --- S01 ----------------------------------------------------------------------------------------

#[cfg(auto_palette_verif = "hdbscan")]
mod core_distance {
    use super::*;
    use auto_palette::verif::hdbscan::core_distances;

    pub fn core<F: Real, P: Make<F>>(coords: &[Coords], most: usize, cx: &mut Cx) -> Verdict {
        let dataset: Vec<P> = points(coords);
        let n = coords.len();
        let step = (n + 2).div_ceil(most).max(1);
        let counts = (1..=n + 1).step_by(step).chain([n.saturating_sub(1), n, 1 << 40, usize::MAX]);
        for metric in METRICS {
            let sorted: Vec<Vec<f64>> = (0..n)
                .map(|i| {
                    let mut d: Vec<f64> = (0..n)
                        .filter(|j| *j != i)
                        .map(|j| measure(metric, &coords[i], &coords[j]))
                        .collect();
                    d.sort_by(f64::total_cmp);
                    d
                })
                .collect();
            for m in counts.clone().filter(|m| *m > 0) {
                let got = guarded(|| core_distances(&dataset, m, metric));
                cx.step();
                let got = got.map_err(|e| format!("{} m={m} {metric:?}: {e}", F::NAME))?;
                if got.len() != n {
                    return Err(format!("{} m={m}: {} distances", F::NAME, got.len()));
                }
                if n < 2 {
                    continue;
                }
                for i in 0..n {
                    let want = sorted[i][m.min(n - 1) - 1];
                    if !close(got[i], in_unit(metric, want)) {
                        return Err(format!(
                            "{} m={m} {metric:?}: point {i} at {:?} has core distance {:?}, not {want}",
                            F::NAME,
                            &coords[i][..P::DIM],
                            got[i]
                        ));
                    }
                }
                cx.trace();
                cx.nontrivial += 1;
                cx.outcome(&got.iter().map(|d| d.wide().to_bits()).collect::<Vec<_>>());
            }
        }
        Ok(())
    }

    /// Points so close that squares of distances are a few times the least number, or nothing.
    pub fn underflow<F: Real, P: Make<F>>(coords: &[Coords], least: f64, cx: &mut Cx) -> Verdict {
        let dataset: Vec<P> = points(coords);
        let n = coords.len();
        // The square of the unit in least numbers.
        let ratio = (unit() / least.sqrt()).powi(2);
        for metric in METRICS {
            for m in 1..=n {
                let got = guarded(|| core_distances(&dataset, m, metric)).map_err(|e| format!("{} m={m} {metric:?}: {e}", F::NAME))?;
                cx.step();
                if got.len() != n {
                    return Err(format!("{} m={m}: {} distances", F::NAME, got.len()));
                }
                if n < 2 {
                    continue;
                }
                for i in 0..n {
                    let mut squares: Vec<f64> = (0..n)
                        .filter(|j| *j != i)
                        .map(|j| measure(DistanceMetric::SquaredEuclidean, &coords[i], &coords[j]) * ratio)
                        .collect();
                    squares.sort_by(f64::total_cmp);
                    let want = squares[m.min(n - 1) - 1];
                    let got = match metric {
                        DistanceMetric::Euclidean => (got[i].wide() / least.sqrt()).powi(2),
                        DistanceMetric::SquaredEuclidean => got[i].wide() / least,
                    };
                    if !((got - want).abs() <= 2.5) {
                        return Err(format!("{} m={m} {metric:?}: the square of the core distance of point {i} is {got} times the least number, not {want}", F::NAME));
                    }
                }
                cx.trace();
                cx.nontrivial += 1;
                cx.outcome(&got.iter().map(|d| d.wide().to_bits()).collect::<Vec<_>>());
            }
        }
        Ok(())
    }
}

type Points = fn(&[Coords], &mut Cx) -> Verdict;

fn over_data(data: Data, bound: &str, judge: Points) -> Space {
    let make = data.make.clone();
    let make2 = data.make.clone();
    let dim = data.dim;
    Space::new(
        &data.name,
        &format!("{}; {bound}", data.bound),
        data.size,
        move |index| describe(&make(index), dim),
        move |index, cx| judge(&make2(index), cx),
    )
}

// --- spaces -------------------------------------------------------------------------------------

const TWO: &[f64] = &[1.0, 2.0];
const THREE: &[f64] = &[1.0, 2.0, 3.0];
const SIGNED: &[f64] = &[-2.0, 0.0, 1.0, 3.5];
const ENDLESS: &[f64] = &[1.0, 2.0, f64::INFINITY];
const ENDLESS4: &[f64] = &[0.0, 1.0, f64::MAX / 1024.0, f64::INFINITY];
const ZEROS: &[f64] = &[-0.0, 0.0, 1.0];
const FIVE: &[f64] = &[-1.0, 0.0, 0.5, 2.0, 1000.0];

fn families(tier: Tier) -> Vec<Family> {
    let mut list = vec![
        weightings(0, TWO),
        weightings(1, TWO),
        weightings(2, FIVE),
        weightings(3, FIVE),
        weightings(4, FIVE),
        orders(4),
        weightings(5, THREE),
        weightings(5, SIGNED),
        weightings(3, ENDLESS4),
        weightings(4, ENDLESS4),
        weightings(5, ENDLESS),
        weightings(4, ZEROS),
        weightings(6, TWO),
        spread_orders(4, "close", "1 plus multiples of 2^-52", |r| 1.0 + r as f64 * f64::EPSILON),
        spread_orders(4, "closer", "1 plus multiples of 2^-23", |r| 1.0 + r as f64 * f64::from(f32::EPSILON)),
        spread_orders(4, "tiny", "multiples of 2^-100", |r| r as f64 * (-100f64).exp2()),
        spread_orders(4, "wide", "powers of two from 2^-90 to 2^110", |r| (r as f64 * 40.0 - 90.0).exp2()),
        spread_orders(4, "wide-signed", "powers of two in turns negated", |r| {
            (r as f64 * 40.0 - 90.0).exp2() * if r % 2 == 0 { 1.0 } else { -1.0 }
        }),
        orders(5),
        shapes(tier.pick(vec![100, 255, 256, 257, 300, 600], vec![127, 128, 255, 256, 257, 300, 511, 600, 1025, 2000])),
        shapes((2..=tier.pick(40, 100)).step_by(tier.pick(2, 1)).collect()),
        distances(structured(2, (2..=tier.pick(60, 160)).step_by(tier.pick(3, 1)).collect(), 1.0)),
        distances(structured(3, (2..=tier.pick(60, 160)).step_by(tier.pick(7, 3)).collect(), 0.25)),
        distances(cube(2, 3, tier.pick(5, 6), 0.5)),
        distances(line(2, 0, &[0, 1, 2, 4, 5, 8], tier.pick(6, 7), 1.0)),
    ];
    if tier == Tier::Thorough {
        list.extend([weightings(5, FIVE), weightings(6, THREE), weightings(7, TWO)]);
    }
    list
}

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    let _ = (families as fn(Tier) -> Vec<Family>, DistanceMetric::Euclidean);
    #[cfg(auto_palette_verif = "graph")]
    if id == "G01" {
        return Some(all(tier, graph::judge));
    }
    #[cfg(auto_palette_verif = "hierarchical")]
    match id {
        "H01" => return Some(all(tier, hierarchy::judge_cuts)),
        "H02" => return Some(all(tier, hierarchy::judge_merges)),
        "U01" => {
            let long = [100, 127, 128, 129, 255, 256, 257, 258, 300, 511, 513, 1000, 70_000];
            let mut list = vec![hierarchy::chains((2..=tier.pick(40, 200)).chain(long).collect())];
            list.extend((1..=5).map(hierarchy::histories));
            list.extend((6..=tier.pick(8, 10)).map(hierarchy::merge_trees));
            list.extend((6..=tier.pick(6, 7)).map(hierarchy::histories));
            return Some(list);
        }
        _ => {}
    }
    #[cfg(auto_palette_verif = "hdbscan")]
    if id == "S01" {
        use auto_palette::verif::{Point2, Point3, Point5};
        use core_distance::core;
        let bound = "every minimum count from 1 to n+1 and two huge ones, both metrics and precisions";
        let planar: Points = |coords, cx| {
            core::<f64, Point2<f64>>(coords, usize::MAX, cx)?;
            core::<f32, Point2<f32>>(coords, usize::MAX, cx)
        };
        let spatial: Points = |coords, cx| {
            core::<f64, Point3<f64>>(coords, usize::MAX, cx)?;
            core::<f32, Point3<f32>>(coords, usize::MAX, cx)
        };
        let wide: Points = |coords, cx| {
            core::<f64, Point5<f64>>(coords, 24, cx)?;
            core::<f32, Point5<f32>>(coords, 24, cx)
        };
        let mut list = Vec::new();
        for exponent in [-56, 30] {
            list.push(in_units_of(exponent, over_data(cube(2, 3, tier.pick(4, 5), 1.0), bound, planar)));
            list.push(in_units_of(exponent, over_data(structured(2, vec![5, 17, 33, 66], 0.25), bound, planar)));
        }
        let tiny = "every minimum count from 1 to n, both metrics; lengths in which the least number is two or four units square, which no distance may miss by more than 2.5";
        list.push(in_units_of(-538, over_data(line(2, 0, &[0, 1, 2, 5, 16, 40], tier.pick(5, 6), 1.0), tiny, |coords, cx| {
            core_distance::underflow::<f64, Point2<f64>>(coords, (-1074f64).exp2(), cx)
        })));
        list.push(in_units_of(-75, over_data(line(2, 1, &[0, 1, 2, 5, 16, 40], tier.pick(5, 6), 1.0), tiny, |coords, cx| {
            core_distance::underflow::<f32, Point2<f32>>(coords, (-149f64).exp2(), cx)
        })));
        list.push(with_signed_zeros(over_data(cube(2, 3, tier.pick(4, 5), 1.0), bound, planar)));
        list.push(over_data(structured(2, tier.pick(vec![1100], vec![1100, 2100, 4000]), 1.0), "up to 4 minimum counts from 1 to n+1 and two huge ones, both metrics and precisions", |coords, cx| {
            core::<f64, Point2<f64>>(coords, 3, cx)?;
            core::<f32, Point2<f32>>(coords, 1, cx)
        }));
        list.push(over_data(moved(cube(2, 3, tier.pick(4, 5), 0.25)), bound, planar));
        list.push(over_data(moved(structured(2, vec![5, 17, 33, 66], 0.25)), bound, planar));
        list.extend([
            over_data(cube(2, 3, tier.pick(5, 6), 1.0), bound, planar),
            over_data(cube(2, 2, tier.pick(6, 8), 0.25), bound, planar),
            over_data(line(2, 0, &[0, 1, 2, 4, 5, 8], tier.pick(6, 7), 1.0), bound, planar),
            over_data(line(2, 1, &[-3, 0, 1, 9], tier.pick(6, 8), 0.125), bound, planar),
            over_data(cube(3, 2, tier.pick(4, 6), 1.0), bound, spatial),
            over_data(structured(5, (1..=tier.pick(60, 200)).step_by(tier.pick(3, 1)).collect(), 1.0), "up to 24 minimum counts from 1 to n+1 and two huge ones, both metrics and precisions", wide),
            over_data(structured(5, (1..=tier.pick(60, 200)).step_by(tier.pick(5, 1)).collect(), 0.0625), "up to 24 minimum counts from 1 to n+1 and two huge ones, both metrics and precisions", wide),
            over_data(structured(2, tier.pick(vec![100, 200, 255, 256, 257, 300, 600], vec![100, 200, 255, 256, 257, 400, 800, 2000]), 1.0), "up to 24 minimum counts from 1 to n+1 and two huge ones, both metrics and precisions", |coords, cx| {
                core::<f64, Point2<f64>>(coords, 24, cx)?;
                core::<f32, Point2<f32>>(coords, 24, cx)
            }),
        ]);
        return Some(list);
    }
    let _ = id;
    None
}

fn all(tier: Tier, judge: Judge) -> Vec<Space> {
    families(tier).into_iter().map(|f| space(f, judge)).collect()
}
