//! K01 to K05: k-means and its initialisation.
//!
//! The random generator is the environment: each of its answers is chosen by the explorer, which
//! enumerates scripts of answers, followed by a fair rotation through all of them. Every answer
//! stands for one element of the dataset, both as a fraction of the range and modulo its size.

use crate::data::*;
use crate::engine::{digit, guarded, Cx, Space, Tier, Verdict};
use auto_palette::verif::kmeans::{fit, initialize, Config};
use auto_palette::verif::{DistanceMetric, Point2, Point3, Point5};
use rand::RngCore;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Script {
    answers: Vec<u64>,
    at: usize,
    n: u64,
    /// Whether an answer also stands for its element modulo the size.
    modulo: bool,
}

impl Script {
    pub fn new(answers: &[u64], n: usize) -> Self {
        Self {
            answers: answers.to_vec(),
            at: 0,
            n: n.max(1) as u64,
            modulo: true,
        }
    }

    /// Answers that stand for elements only as fractions of the range, as 32 bits cannot hold both
    /// for large datasets.
    fn fractions(answers: &[u64], n: usize) -> Self {
        Self {
            modulo: false,
            ..Self::new(answers, n)
        }
    }

    fn answer(&mut self) -> u64 {
        let tail = (self.at as u64).wrapping_sub(self.answers.len() as u64) % self.n;
        let answer = self.answers.get(self.at).map_or(tail, |a| a % self.n);
        self.at += 1;
        answer
    }
}

impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        let i = self.answer();
        let v = (((i as f64 + 0.25) / self.n as f64) * 4294967296.0) as u64;
        if !self.modulo {
            return v as u32;
        }
        (v - v % self.n + i) as u32
    }

    fn next_u64(&mut self) -> u64 {
        let i = self.answer();
        let v = ((u128::from(i) * 4 + 1) << 64) / (u128::from(self.n) * 4);
        let v = v as u64;
        if !self.modulo {
            return v;
        }
        v - v % self.n + i
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(8) {
            let word = self.next_u64().to_le_bytes();
            chunk.copy_from_slice(&word[..chunk.len()]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn show<F: Real, P: Make<F>>(list: &[P]) -> String {
    let shown: Vec<String> = list
        .iter()
        .map(|p| format!("{:?}", &p.coords()[..P::DIM]))
        .collect();
    shown.join(" ")
}

/// Take the picked points out of the dataset; the indices picked, or None if some point was
/// picked too often. Equal points are taken in order of index.
fn taken<F: Real, P: Make<F>>(dataset: &[P], picked: &[P]) -> Option<Vec<usize>> {
    let mut used = vec![false; dataset.len()];
    picked
        .iter()
        .map(|p| {
            let at = (0..dataset.len()).find(|i| !used[*i] && dataset[*i] == *p)?;
            used[at] = true;
            Some(at)
        })
        .collect()
}

fn distinct<F: Real, P: Make<F>>(dataset: &[P]) -> bool {
    (0..dataset.len()).all(|i| (0..i).all(|j| dataset[i] != dataset[j]))
}

fn binomial(n: u64, k: u64) -> u64 {
    (0..k).fold(1, |b, i| b * (n - i) / (i + 1))
}

// --- K01 ----------------------------------------------------------------------------------------

fn members<F: Real, P: Make<F>>(coords: &[Coords], scripts: &[Vec<u64>], all: bool, cx: &mut Cx) -> Verdict {
    let ks: Vec<usize> = (0..=coords.len() + 2).chain([usize::MAX]).collect();
    members_of::<F, P>(coords, &ks, scripts, all, cx)
}

fn members_of<F: Real, P: Make<F>>(
    coords: &[Coords],
    ks: &[usize],
    scripts: &[Vec<u64>],
    all: bool,
    cx: &mut Cx,
) -> Verdict {
    let dataset: Vec<P> = points(coords);
    let n = dataset.len();
    let reachable = all && n > 1 && distinct::<F, P>(&dataset);
    for metric in METRICS {
        for plus_plus in [false, true] {
            for &k in ks {
                let mut seen: HashSet<Vec<usize>> = HashSet::new();
                let mut firsts: HashSet<usize> = HashSet::new();
                for script in scripts {
                    let rng = Script::new(script, n);
                    let got = guarded(|| initialize(&dataset, k, metric, plus_plus, rng));
                    cx.step();
                    let fail = |what: &str| {
                        Err(format!(
                            "{} k={k} {metric:?} {} draws {script:?}: {what}",
                            F::NAME,
                            if plus_plus { "k-means++" } else { "random" }
                        ))
                    };
                    let got: Vec<P> = match got {
                        Ok(got) => got,
                        Err(e) => return fail(&e),
                    };
                    if got.len() != k.min(n) {
                        return fail(&format!("{} centroids: {}", got.len(), show::<F, P>(&got)));
                    }
                    let Some(mut picks) = taken::<F, P>(&dataset, &got) else {
                        return fail(&format!("not distinct elements: {}", show::<F, P>(&got)));
                    };
                    cx.trace();
                    if k > 0 && k < n {
                        cx.nontrivial += 1;
                        firsts.insert(picks[0]);
                        picks.sort_unstable();
                        cx.outcome(&picks);
                        seen.insert(picks);
                    }
                    if k == 0 || k >= n {
                        break;
                    }
                }
                if !reachable || k == 0 || k >= n {
                    continue;
                }
                if plus_plus && firsts.len() != n {
                    return Err(format!(
                        "{} k={k} {metric:?} k-means++: only the elements {firsts:?} are ever picked first",
                        F::NAME
                    ));
                }
                if !plus_plus && seen.len() as u64 != binomial(n as u64, k as u64) {
                    return Err(format!(
                        "{} k={k} {metric:?} random: only the selections {seen:?} ever occur",
                        F::NAME
                    ));
                }
            }
        }
    }
    Ok(())
}

/// Every element of a large dataset can be picked first.
fn reaches_all<F: Real, P: Make<F>>(coords: &[Coords], plus_plus: &[bool], cx: &mut Cx) -> Verdict {
    let coords: Vec<Coords> = coords.iter().enumerate().map(|(i, c)| [i as f64, c[1], 0.0, 0.0, 0.0]).collect();
    let dataset: Vec<P> = points(&coords);
    let n = dataset.len();
    for &plus_plus in plus_plus {
        let mut seen = vec![false; n];
        for make in [Script::fractions as fn(&[u64], usize) -> Script, Script::new] {
            for first in (0..n as u64).rev() {
                let got = guarded(|| initialize(&dataset, 1, DistanceMetric::Euclidean, plus_plus, make(&[first], n)));
                cx.step();
                let got: Vec<P> = got.map_err(|e| format!("{} k=1, first draw {first}: {e}", F::NAME))?;
                match got.as_slice() {
                    [one] if dataset.get(one.coords()[0] as usize) == Some(one) => seen[one.coords()[0] as usize] = true,
                    _ => return Err(format!("{} k=1, first draw {first}: {}", F::NAME, show::<F, P>(&got))),
                }
            }
            if !seen.contains(&false) {
                break;
            }
        }
        if let Some(never) = seen.iter().position(|s| !s) {
            return Err(format!(
                "{} k=1 {}: of {n} elements number {never} is never picked",
                F::NAME,
                if plus_plus { "k-means++" } else { "random" }
            ));
        }
        cx.trace();
        cx.nontrivial += 1;
        cx.outcome(&n);
    }
    Ok(())
}

/// With random initialisation every element of a larger dataset can be picked, and left out.
fn misses_none<F: Real, P: Make<F>>(coords: &[Coords], cx: &mut Cx) -> Verdict {
    let coords: Vec<Coords> = coords.iter().enumerate().map(|(i, c)| [i as f64, c[1], 0.0, 0.0, 0.0]).collect();
    let dataset: Vec<P> = points(&coords);
    let n = dataset.len();
    let steps: Vec<usize> = [1, 2, 3, 5, 7, n / 2, n / 3, n - 1].into_iter().filter(|s| *s > 0 && *s < n).collect();
    for k in [2, n / 2, n / 4 * 3, n * 4 / 5, n * 9 / 10, n - 2, n - 1] {
        if k == 0 || k >= n {
            continue;
        }
        let (mut picked, mut left) = (vec![false; n], vec![false; n]);
        'all: for make in [Script::new as fn(&[u64], usize) -> Script, Script::fractions] {
            for &step in &steps {
                for first in 0..n {
                    let script: Vec<u64> = (0..n).map(|i| ((first + i * step) % n) as u64).collect();
                    let got = guarded(|| initialize(&dataset, k, DistanceMetric::Euclidean, false, make(&script, n)));
                    cx.step();
                    let got: Vec<P> = got.map_err(|e| format!("{} k={k}, draws from {first} by {step}: {e}", F::NAME))?;
                    let mut here = vec![false; n];
                    for p in &got {
                        let at = p.coords()[0] as usize;
                        if dataset.get(at) != Some(p) || here[at] {
                            return Err(format!("{} k={k}, draws from {first} by {step}: not distinct elements: {}", F::NAME, show::<F, P>(&got)));
                        }
                        here[at] = true;
                    }
                    if got.len() != k {
                        return Err(format!("{} k={k}, draws from {first} by {step}: {} elements", F::NAME, got.len()));
                    }
                    for at in 0..n {
                        picked[at] |= here[at];
                        left[at] |= !here[at];
                    }
                    if !picked.contains(&false) && !left.contains(&false) {
                        break 'all;
                    }
                }
            }
        }
        for (seen, what) in [(picked, "picked"), (left, "left out")] {
            if let Some(never) = seen.iter().position(|s| !s) {
                return Err(format!("{} k={k} random: of {n} elements number {never} is never {what}", F::NAME));
            }
        }
        cx.trace();
        cx.nontrivial += 1;
        cx.outcome(&(n, k));
    }
    Ok(())
}

// --- K02 ----------------------------------------------------------------------------------------

fn farthest<F: Real, P: Make<F>>(coords: &[Coords], ks: &[usize], scripts: &[Vec<u64>], cx: &mut Cx) -> Verdict {
    let dataset: Vec<P> = points(coords);
    let n = dataset.len();
    for metric in METRICS {
        for k in ks {
            for script in scripts {
                let rng = Script::new(script, n);
                let got = guarded(|| initialize(&dataset, *k, metric, true, rng));
                cx.step();
                let fail = |what: &str| Err(format!("{} k={k} {metric:?} draws {script:?}: {what}", F::NAME));
                let got: Vec<P> = match got {
                    Ok(got) => got,
                    Err(e) => return fail(&e),
                };
                cx.trace();
                cx.nontrivial += 1;
                let mut used = vec![false; n];
                let mut nearest = vec![f64::INFINITY; n];
                for (order, p) in got.iter().enumerate() {
                    let Some(at) = (0..n).find(|i| !used[*i] && dataset[*i] == *p) else {
                        return fail(&format!("pick {order} was chosen before: {}", show::<F, P>(&got)));
                    };
                    let best = (0..n)
                        .filter(|i| !used[*i])
                        .map(|i| nearest[i])
                        .fold(f64::NEG_INFINITY, f64::max);
                    if order > 0 && nearest[at] < best * (1.0 - 8.0 * F::SLACK) {
                        return fail(&format!(
                            "pick {order} is {} away from those before, but another point {best}: {}",
                            nearest[at],
                            show::<F, P>(&got)
                        ));
                    }
                    used[at] = true;
                    cx.outcome(&(order, at));
                    for i in 0..n {
                        nearest[i] = nearest[i].min(measure(metric, &coords[i], &coords[at]));
                    }
                }
            }
        }
    }
    Ok(())
}

// --- iterations ---------------------------------------------------------------------------------

const UNIT: f64 = 1.0 / (1u128 << 80) as f64;

#[derive(Clone, Copy)]
struct Tags {
    bits: usize,
    first: usize,
    count: usize,
}

fn tagged(coords: &[Coords], tags: &Tags) -> Vec<Coords> {
    coords
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let mut c = *c;
            c[tags.first + i / tags.bits] = UNIT * (1u64 << (i % tags.bits)) as f64;
            c
        })
        .collect()
}

/// The members of a cluster as its centroid spells them.
fn spelled(centroid: &Coords, size: usize, tags: &Tags, n: usize) -> Option<Vec<usize>> {
    let mut list = Vec::new();
    for t in 0..tags.count {
        let sum = centroid[tags.first + t] / UNIT * size as f64;
        if !(sum - sum.round()).abs().lt(&0.3) || sum < -0.3 || sum > (1u64 << tags.bits) as f64 {
            return None;
        }
        let sum = sum.round() as u64;
        list.extend((0..tags.bits).filter(|b| sum >> b & 1 == 1).map(|b| t * tags.bits + b));
    }
    (list.len() == size && list.iter().all(|i| *i < n)).then_some(list)
}

type State = Vec<(Coords, usize)>;

struct Run<'a, F: Real, P: Make<F>> {
    dataset: &'a [P],
    coords: &'a [Coords],
    k: usize,
    metric: DistanceMetric,
    plus_plus: bool,
    script: &'a [u64],
    unit: std::marker::PhantomData<F>,
}

impl<F: Real, P: Make<F>> Run<'_, F, P> {
    fn name(&self) -> String {
        format!(
            "{} k={} {:?} {} draws {:?}",
            F::NAME,
            self.k,
            self.metric,
            if self.plus_plus { "k-means++" } else { "random" },
            self.script
        )
    }

    fn rng(&self) -> Script {
        Script::new(self.script, self.dataset.len())
    }

    /// The state after at most so many iterations.
    fn after(&self, max_iterations: usize, tolerance: F, cx: &mut Cx) -> Result<State, String> {
        let config = Config {
            k: self.k,
            metric: self.metric,
            plus_plus: self.plus_plus,
            max_iterations,
            tolerance: F::of(in_unit(self.metric, tolerance.wide())),
        };
        cx.step();
        guarded(|| fit(self.dataset, config, self.rng()))
            .map(|list| list.into_iter().map(|(p, size)| (p.coords(), size)).collect())
            .map_err(|e| format!("{}, {max_iterations} iterations, tolerance {tolerance:?}: {e}", self.name()))
    }
}

fn tell(state: &State, dim: usize) -> String {
    let shown: Vec<String> = state
        .iter()
        .map(|(c, size)| format!("{:?} of {size}", &c[..dim]))
        .collect();
    shown.join(", ")
}

fn near(got: &Coords, want: &Coords, dim: usize, slack: f64, size: f64) -> bool {
    (0..dim).all(|k| (got[k] - want[k]).abs() <= slack * size)
}

fn reach(coords: &[Coords]) -> f64 {
    coords
        .iter()
        .flat_map(|c| c.iter())
        .fold(1.0f64, |m, v| m.max(v.abs()))
}

/// For each point the centroids that are nearest, up to rounding.
fn nearest(coords: &[Coords], from: &State, slack: f64, size: f64) -> Vec<Vec<usize>> {
    coords
        .iter()
        .map(|c| {
            let d: Vec<f64> = from.iter().map(|(m, _)| squared(c, m)).collect();
            let best = d.iter().copied().fold(f64::INFINITY, f64::min);
            (0..d.len())
                .filter(|j| d[*j] <= best + slack * (best.sqrt() * size + slack * size * size))
                .collect()
        })
        .collect()
}

const MOST_WAYS: usize = 4096;

/// Whether `to` is the state after one Lloyd step from `from`. Err tells why not, Ok(false) that
/// there are too many ties to tell.
fn lloyd<F: Real>(coords: &[Coords], from: &State, to: &State, tags: Option<&Tags>) -> Result<bool, String> {
    let n = coords.len();
    let size = reach(coords);
    let slack = 32.0 * F::SLACK;
    let choices = nearest(coords, from, slack, size);
    let plain = |c: &Coords| {
        let mut c = *c;
        if let Some(tags) = tags {
            c[tags.first..].fill(0.0);
        }
        c
    };
    let mean = |members: &[usize]| {
        let mut m = [0.0; 5];
        for i in members {
            for (sum, v) in m.iter_mut().zip(&plain(&coords[*i])) {
                *sum += v;
            }
        }
        m.map(|v| v / members.len() as f64)
    };
    if from.len() != to.len() {
        return Err("the number of clusters changed".into());
    }
    let fits = |members: &[usize], j: usize| {
        let got = plain(&to[j].0);
        members.len() == to[j].1
            && if members.is_empty() {
                // A centroid without points stays where it was.
                plain(&from[j].0) == got
            } else {
                near(&got, &mean(members), 5, slack, size)
            }
    };
    if let Some(tags) = tags {
        let mut owner = vec![usize::MAX; n];
        for (j, (centroid, count)) in to.iter().enumerate() {
            let members = if *count == 0 {
                Vec::new()
            } else {
                let Some(list) = spelled(centroid, *count, tags, n) else {
                    return Err(format!("the mean of cluster {j} is not that of as many points as its size"));
                };
                list
            };
            for i in &members {
                if owner[*i] != usize::MAX {
                    return Err(format!("point {i} is in two clusters"));
                }
                owner[*i] = j;
            }
            if !fits(&members, j) {
                return Err(format!("cluster {j} holds {members:?}, but its centroid is elsewhere"));
            }
        }
        for (i, j) in owner.iter().enumerate() {
            if *j == usize::MAX {
                return Err(format!("point {i} is in no cluster"));
            }
            if !choices[i].contains(j) {
                return Err(format!("point {i} is in cluster {j}, but is nearer to {:?}", choices[i]));
            }
        }
        return Ok(true);
    }
    let total = choices.iter().fold(1usize, |p, c| p.saturating_mul(c.len()));
    if total > MOST_WAYS {
        return Ok(false);
    }
    for mut way in 0..total as u64 {
        let mut groups = vec![Vec::new(); from.len()];
        for (i, list) in choices.iter().enumerate() {
            groups[list[digit(&mut way, list.len() as u64) as usize]].push(i);
        }
        if groups.iter().enumerate().all(|(j, g)| fits(g, j)) {
            return Ok(true);
        }
    }
    Err(format!("no assignment to nearest centroids gives this; nearest are {choices:?}"))
}

fn few_bits(v: f64) -> bool {
    v.abs() < 65536.0 && (v * 1024.0).fract() == 0.0
}

/// Whether the centroid moved less than the tolerance; None if rounding decides.
fn settled<F: Real>(metric: DistanceMetric, a: &Coords, b: &Coords, dim: usize, tolerance: f64) -> Option<bool> {
    let squared = squared(a, b);
    let moved = measure(metric, a, b);
    let root = squared.sqrt();
    let exact = (0..dim).all(|k| few_bits(a[k]) && few_bits(b[k]))
        && f64::from(squared as f32) == squared
        && squared < 16384.0
        && match metric {
            DistanceMetric::Euclidean => few_bits(root) && root * root == squared,
            DistanceMetric::SquaredEuclidean => true,
        };
    // The same number in both precisions.
    let exact = exact && f64::from(tolerance as f32) == tolerance;
    if exact || a == b || tolerance == 0.0 {
        return Some(moved < tolerance);
    }
    let size = (0..dim).fold(1.0f64, |m, k| m.max(a[k].abs()).max(b[k].abs()));
    let unsure = 32.0 * F::SLACK * (size + moved) * (1.0 + size);
    if (moved - tolerance).abs() <= unsure {
        return None;
    }
    Some(moved < tolerance)
}

/// How many steps to follow: for small datasets well more than any takes to settle for good.
fn horizon(n: usize) -> usize {
    match n {
        0..=200 => 6 + n / 8,
        201..=5000 => 8,
        _ => 3,
    }
}

fn trajectory<F: Real, P: Make<F>>(run: &Run<F, P>, steps: usize, cx: &mut Cx) -> Result<Vec<State>, String> {
    (0..=steps).map(|t| run.after(t, F::of(0.0), cx)).collect()
}

// --- K03 ----------------------------------------------------------------------------------------

const TOLERANCES: [f64; 8] = [0.0, 0.0001, 0.25, 0.5, 1.0, 1.25, 2.0, 1e9];

fn moves<F: Real, P: Make<F>>(run: &Run<F, P>, tags: Option<&Tags>, cx: &mut Cx) -> Verdict {
    let dim = tags.map_or(P::DIM, |t| t.first);
    let steps = horizon(run.coords.len());
    let path = trajectory(run, steps, cx)?;
    let start: Vec<Coords> = guarded(|| {
        initialize(run.dataset, run.k, run.metric, run.plus_plus, run.rng())
    })?
    .iter()
    .map(|p| p.coords())
    .collect();
    if !path[0].iter().map(|(c, _)| *c).eq(start.iter().copied()) {
        return Err(format!(
            "{}: without an iteration the centroids are {} and not the initial ones {:?}",
            run.name(),
            tell(&path[0], dim),
            start
        ));
    }
    for t in 0..steps {
        match lloyd::<F>(run.coords, &path[t], &path[t + 1], tags) {
            Ok(true) => cx.trace(),
            Ok(false) => cx.ambiguous += 1,
            Err(e) => {
                return Err(format!(
                    "{}: iteration {} leads from {} to {}: {e}",
                    run.name(),
                    t + 1,
                    tell(&path[t], dim),
                    tell(&path[t + 1], dim)
                ))
            }
        }
        if path[t] != path[t + 1] {
            cx.nontrivial += 1;
        }
    }
    // Where it stops.
    let tolerances = if run.coords.len() > 5000 || run.k > 30 { &TOLERANCES[4..5] } else { &TOLERANCES[..] };
    for &tolerance in tolerances {
        let mut stop = None;
        for t in 1..=steps {
            let each: Vec<Option<bool>> = path[t - 1]
                .iter()
                .zip(&path[t])
                .map(|((a, _), (b, _))| settled::<F>(run.metric, a, b, dim, tolerance))
                .collect();
            if each.iter().all(|s| *s == Some(true)) {
                stop = Some(Some(t));
                break;
            }
            if !each.contains(&Some(false)) {
                stop = Some(None);
                break;
            }
        }
        let stop = match stop {
            Some(Some(t)) => t,
            Some(None) => {
                cx.ambiguous += 1;
                continue;
            }
            None => usize::MAX,
        };
        let mut limits = vec![1, 2, 3, steps];
        if stop != usize::MAX && run.coords.len() < 200 {
            limits.extend([256, 1 << 16, 1 << 32, usize::MAX]);
        }
        for limit in limits {
            let at = stop.min(limit);
            let got = run.after(limit, F::of(tolerance), cx)?;
            let want = &path[at];
            let size = reach(run.coords);
            let same = got.len() == want.len()
                && got
                    .iter()
                    .zip(want)
                    .all(|(a, b)| a.1 == b.1 && near(&a.0, &b.0, dim, 8.0 * F::SLACK, size));
            if !same {
                return Err(format!(
                    "{}, tolerance {tolerance}, limit {limit}: stops at {}, but after {at} iterations it is {}",
                    run.name(),
                    tell(&got, dim),
                    tell(want, dim)
                ));
            }
            cx.outcome(&(at, got.iter().map(|g| g.1).collect::<Vec<_>>()));
            cx.trace();
        }
    }
    Ok(())
}

// --- K04 ----------------------------------------------------------------------------------------

fn stays<F: Real, P: Make<F>>(run: &Run<F, P>, tags: Option<&Tags>, cx: &mut Cx) -> Verdict {
    let dim = tags.map_or(P::DIM, |t| t.first);
    let size = reach(run.coords);
    let n = run.coords.len();
    let slack = 32.0 * F::SLACK;
    let mut previous = f64::INFINITY;
    for (t, state) in trajectory(run, horizon(n), cx)?.iter().enumerate() {
        let fail = |what: String| {
            Err(format!("{}, {t} iterations: {what}: {}", run.name(), tell(state, dim)))
        };
        if state.len() != run.k {
            return fail(format!("{} clusters", state.len()));
        }
        let sum: usize = state.iter().map(|(_, s)| s).sum();
        if t > 0 && sum != n {
            return fail(format!("the sizes add up to {sum} of {n}"));
        }
        for axis in 0..dim {
            let low = run.coords.iter().map(|c| c[axis]).fold(f64::INFINITY, f64::min);
            let high = run.coords.iter().map(|c| c[axis]).fold(f64::NEG_INFINITY, f64::max);
            for (c, _) in state {
                if !(c[axis] >= low - slack * size && c[axis] <= high + slack * size) {
                    return fail(format!("coordinate {axis} is out of {low} to {high}"));
                }
            }
        }
        let cost: f64 = run
            .coords
            .iter()
            .map(|c| state.iter().map(|(m, _)| squared(c, m)).fold(f64::INFINITY, f64::min))
            .sum();
        if cost > previous + slack * size * size * n as f64 {
            return fail(format!("the sum of squares grew from {previous} to {cost}"));
        }
        previous = cost;
        cx.outcome(&state.iter().map(|s| s.1).collect::<Vec<_>>());
        cx.trace();
        cx.nontrivial += u64::from(t > 0);
    }
    Ok(())
}

// --- K05 ----------------------------------------------------------------------------------------

fn reproduces<F: Real, P: Make<F>>(coords: &[Coords], cx: &mut Cx) -> Verdict {
    let dataset: Vec<P> = points(coords);
    let n = dataset.len();
    for metric in METRICS {
        for plus_plus in [false, true] {
            for k in [0, n, n + 1, n + 7, usize::MAX] {
                let run: Run<F, P> = Run {
                    dataset: &dataset,
                    coords,
                    k,
                    metric,
                    plus_plus,
                    script: &[0, 1],
                    unit: Default::default(),
                };
                for max_iterations in [0, 1, 10] {
                    let got = run.after(max_iterations, F::of(0.0001), cx)?;
                    let mut left: Vec<Coords> = if k == 0 { Vec::new() } else { coords.to_vec() };
                    let mut ok = got.len() == left.len();
                    let order = |a: &Coords, b: &Coords| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal);
                    let mut means: Vec<Coords> = got.iter().map(|(c, _)| *c).collect();
                    means.sort_by(order);
                    left.sort_by(order);
                    ok &= means == left && got.iter().all(|(_, size)| *size == 1);
                    if !ok {
                        return Err(format!("{}, {max_iterations} iterations: {}", run.name(), tell(&got, P::DIM)));
                    }
                    cx.outcome(&got.len());
                    cx.trace();
                    cx.nontrivial += u64::from(k != 0 && n > 0);
                }
            }
        }
    }
    Ok(())
}

// --- marathons ----------------------------------------------------------------------------------

/// Where the heavy end of the line is.
const END: f64 = 1024.0;

/// Points on a line, and as many at its end, for which the two centroids 0 and `END` take one
/// point over after the other, each in a step of its own.
fn marathon(n: usize) -> Vec<f64> {
    let mut x: Vec<f64> = (0..n).map(|i| END - END / (i as f64 + 1.0).sqrt()).collect();
    for _ in 0..400 {
        let total: f64 = x.iter().sum::<f64>() + n as f64 * END;
        let mut left = 0.0;
        // The border when the first t + 1 points belong to the first centroid.
        let border: Vec<f64> = x
            .iter()
            .enumerate()
            .map(|(t, v)| {
                left += v;
                (left / (t + 1) as f64 + (total - left) / (2 * n - t - 1) as f64) / 2.0
            })
            .collect();
        let mut change = 0.0f64;
        for t in 1..n {
            let v = if t == 1 { border[0] - 1.0 } else { (border[t - 2] + border[t - 1]) / 2.0 };
            change = change.max((v - x[t]).abs());
            x[t] = v;
        }
        if change < 1e-10 {
            break;
        }
    }
    x.resize(2 * n, END);
    // Both precisions hold these.
    x.iter().map(|v| f64::from(*v as f32)).collect()
}

/// The states of the two clusters after each step: mean and size.
fn race(x: &[f64], steps: usize) -> Vec<[(f64, usize); 2]> {
    let mut path = vec![[(0.0, 0), (END, 0)]];
    for _ in 0..steps {
        let from = path[path.len() - 1];
        let border = (from[0].0 + from[1].0) / 2.0;
        let (left, right): (Vec<f64>, Vec<f64>) = x.iter().copied().partition(|v| *v < border);
        let mean = |list: &[f64]| (list.iter().sum::<f64>() / list.len() as f64, list.len());
        path.push([mean(&left), mean(&right)]);
    }
    path
}

fn run_marathon<F: Real, P: Make<F>>(n: usize, order: u64, kind: u64, cx: &mut Cx) -> Verdict {
    let x = marathon(n);
    let steps = n + 3;
    let path = race(&x, steps);
    if (1..n).any(|t| path[t][0].1 != t + 1) || path[n + 2] != path[n + 1] {
        return Err(format!("the line of {n} points is not a marathon"));
    }
    let len = x.len();
    let place = |i: usize| match order {
        0 => i,
        1 => len - 1 - i,
        _ => i * 13 % len,
    };
    let mut coords: Vec<Coords> = vec![[0.0; 5]; len];
    for (i, v) in x.iter().enumerate() {
        coords[place(i)][0] = *v;
    }
    let dataset: Vec<P> = points(&coords);
    let (plus_plus, metric) = (kind % 2 == 1, METRICS[(kind / 2) as usize % 2]);
    let script = [place(0) as u64, place(len - 1) as u64];
    let run: Run<F, P> = Run {
        dataset: &dataset,
        coords: &coords,
        k: 2,
        metric,
        plus_plus,
        script: &script[..2 - usize::from(plus_plus)],
        unit: Default::default(),
    };
    let first = run.after(0, F::of(0.0), cx)?;
    if first.len() != 2 || first[0].0[0] != 0.0 || first[1].0[0] != END {
        // The draws lead to other centroids, which is for K01 and K02 to judge.
        cx.ambiguous += 1;
        return Ok(());
    }
    // How far the slower centroid moves in each step.
    let moved = |t: usize| {
        (0..2)
            .map(|j| (path[t][j].0 - path[t - 1][j].0).abs())
            .map(|d| if metric == DistanceMetric::Euclidean { d } else { d * d })
            .fold(0.0, f64::max)
    };
    let mut tolerances = vec![(0.0, usize::MAX)];
    for stop in [n / 3, n * 9 / 10] {
        let (before, after) = (moved(stop - 1), moved(stop));
        let tolerance = (before * after).sqrt();
        // Rounding must not decide.
        if before - after > 1e-3 * before && (1..stop).all(|t| moved(t) >= before) {
            tolerances.push((tolerance, stop));
        }
    }
    for (tolerance, stop) in tolerances {
        let mut limits: Vec<usize> = [0, 1, 7, 10, 11, 16, 20, 31, 32, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 250, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049]
            .into_iter()
            .filter(|l| *l < steps)
            .chain([steps])
            .collect();
        if stop < steps {
            limits.extend([1 << 16, 1 << 32, usize::MAX]);
        }
        for limit in limits {
            let at = stop.min(limit).min(steps);
            let got = run.after(limit, F::of(tolerance), cx)?;
            let fits = got.len() == 2
                && (0..2).all(|j| {
                    // Without an iteration there are no sizes.
                    let (mean, size) = path[at][j];
                    got[j].1 == size && (got[j].0[0] - mean).abs() <= 1000.0 * F::SLACK * END
                });
            if !fits {
                return Err(format!(
                    "{} on a line of {n} points which change sides one by one, and {n} at its end: with tolerance {tolerance} and limit {limit} it stops at {}, but after {at} iterations it is {:?}",
                    run.name(),
                    tell(&got, 1),
                    path[at]
                ));
            }
            cx.outcome(&(at, got[0].1));
            cx.trace();
            cx.nontrivial += u64::from(at > 0);
        }
    }
    Ok(())
}

fn marathons(tier: Tier) -> Space {
    let sizes: Vec<usize> = tier.pick(vec![40, 140, 300, 1100], vec![40, 70, 140, 300, 600, 1100, 2100]);
    let show = sizes.clone();
    Space::new(
        "marathons",
        &format!("lines of {sizes:?} points of which exactly one changes sides in each iteration, and as many at the end of the line; 3 orders, both strategies and metrics; up to 41 limits and 3 more where a tolerance stops it, tolerance 0 and two that stop it at a third and at nine tenths; both precisions (single up to 300 points)"),
        sizes.len() as u64 * 12,
        move |mut index| {
            let order = digit(&mut index, 3);
            let kind = digit(&mut index, 4);
            format!("{} points, order {order}, kind {kind}", show[index as usize])
        },
        move |mut index, cx| {
            let order = digit(&mut index, 3);
            let kind = digit(&mut index, 4);
            let n = sizes[index as usize];
            run_marathon::<f64, Point2<f64>>(n, order, kind, cx)?;
            if n <= 300 {
                run_marathon::<f32, Point2<f32>>(n, order, kind, cx)?;
            }
            Ok(())
        },
    )
}

// --- spaces -------------------------------------------------------------------------------------

/// All scripts of `len` answers.
fn scripts(n: usize, len: u32) -> Vec<Vec<u64>> {
    (0..(n.max(1) as u64).pow(len))
        .map(|mut s| (0..len).map(|_| digit(&mut s, n.max(1) as u64)).collect())
        .collect()
}

/// Scripts for larger datasets: spread, repeated, ascending and descending answers.
fn some_scripts(n: usize) -> Vec<Vec<u64>> {
    let n = n.max(1) as u64;
    let mut out = vec![
        vec![],
        vec![n - 1; 3],
        (0..n).rev().collect(),
        (0..2 * n).map(|i| i / 2).collect(),
        (0..n).map(|i| i * 7 % n).collect(),
        (0..n).map(|i| (i * i + 3) % n).collect(),
        vec![n / 2, 0, n / 2, 0, n - 1],
    ];
    out.dedup();
    out
}

fn over_data<J>(data: Data, bound: &str, judge: J) -> Space
where
    J: Fn(&[Coords], &mut Cx) -> Verdict + 'static,
{
    let make = data.make.clone();
    let make2 = data.make.clone();
    let dim = data.dim;
    Space::new(
        &data.name,
        &format!("{}; {bound}", data.bound),
        data.size,
        move |index| describe(&make(index), dim),
        move |index, cx| judge(&make2(index), cx),
    )
}

fn firsts(n: usize) -> Vec<Vec<u64>> {
    (0..n as u64).map(|i| vec![i]).collect()
}

type Small = fn(&[Coords], &[u64], usize, DistanceMetric, bool, &mut Cx) -> Verdict;

fn both<F: Real, P: Make<F>>(
    which: u8,
    coords: &[Coords],
    script: &[u64],
    k: usize,
    metric: DistanceMetric,
    plus_plus: bool,
    tags: Option<&Tags>,
    cx: &mut Cx,
) -> Verdict {
    let used = match tags {
        Some(tags) => tagged(coords, tags),
        None => coords.to_vec(),
    };
    let dataset: Vec<P> = points(&used);
    let run: Run<F, P> = Run {
        dataset: &dataset,
        coords: &used,
        k,
        metric,
        plus_plus,
        script,
        unit: Default::default(),
    };
    match which {
        3 => moves(&run, tags, cx),
        _ => stays(&run, tags, cx),
    }
}

/// The draws that matter for k: the first ones, one more than k for repeats in random picks.
fn draws(n: usize, k: usize, plus_plus: bool) -> Vec<Vec<u64>> {
    if plus_plus {
        firsts(n)
    } else {
        scripts(n, k as u32)
            .into_iter()
            .filter(|s| {
                // Repeats are K01's: each selection in each order once.
                (0..s.len()).all(|i| !s[..i].contains(&s[i]))
            })
            .collect()
    }
}

fn iterate3(coords: &[Coords], script: &[u64], k: usize, metric: DistanceMetric, pp: bool, cx: &mut Cx) -> Verdict {
    small(3, coords, script, k, metric, pp, cx)
}

fn iterate4(coords: &[Coords], script: &[u64], k: usize, metric: DistanceMetric, pp: bool, cx: &mut Cx) -> Verdict {
    small(4, coords, script, k, metric, pp, cx)
}

fn small(
    which: u8,
    coords: &[Coords],
    script: &[u64],
    k: usize,
    metric: DistanceMetric,
    pp: bool,
    cx: &mut Cx,
) -> Verdict {
    both::<f64, Point2<f64>>(which, coords, script, k, metric, pp, None, cx)?;
    both::<f32, Point2<f32>>(which, coords, script, k, metric, pp, None, cx)?;
    let tags = Tags { bits: 16, first: 2, count: 1 };
    both::<f64, Point3<f64>>(which, coords, script, k, metric, pp, Some(&tags), cx)?;
    both::<f32, Point3<f32>>(which, coords, script, k, metric, pp, Some(&tags), cx)
}

fn iterations(data: Data, judge: Small) -> Space {
    over_data(
        data,
        "every k below the number of points, every first draws (one for k-means++, k different ones for random), both metrics and precisions, with and without tags, iteration by iteration, 8 tolerances and up to 8 limits where it stops",
        move |coords, cx| {
            let n = coords.len();
            for k in 1..n {
                for plus_plus in [false, true] {
                    for script in draws(n, k, plus_plus) {
                        for metric in METRICS {
                            judge(coords, &script, k, metric, plus_plus, cx)?;
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

fn iterations_big(which: u8, data: Data, ks: &'static [usize]) -> Space {
    over_data(
        data,
        &format!("k of {ks:?}, seven scripts of draws, both strategies and metrics, tags in double precision, untagged in single"),
        move |coords, cx| {
            let n = coords.len();
            let tags = Tags { bits: 40, first: 2, count: 3 };
            for &k in ks.iter().filter(|k| **k < n) {
                for plus_plus in [false, true] {
                    for script in some_scripts(n) {
                        for metric in METRICS {
                            if n <= 120 {
                                both::<f64, Point5<f64>>(which, coords, &script, k, metric, plus_plus, Some(&tags), cx)?;
                            }
                            both::<f32, Point2<f32>>(which, coords, &script, k, metric, plus_plus, None, cx)?;
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

/// More points than a byte, or than 16 bits, count: few steps, ties left undecided.
fn iterations_large(which: u8, data: Data, ks: &'static [usize]) -> Space {
    over_data(
        data,
        &format!("k of {ks:?}, two scripts of draws, both strategies and metrics, double precision, without tags"),
        move |coords, cx| {
            let n = coords.len();
            for &k in ks {
                for plus_plus in [false, true] {
                    for script in [vec![], vec![n as u64 / 2, n as u64 - 1, 3]] {
                        for metric in METRICS {
                            both::<f64, Point2<f64>>(which, coords, &script, k, metric, plus_plus, None, cx)?;
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

const SPOTS: &[i32] = &[0, 1, 2, 4, 5, 8];

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    let q = tier == Tier::Quick;
    Some(match id {
        "K01" => {
            let all = |extra: u32| {
                move |coords: &[Coords], cx: &mut Cx| {
                    let n = coords.len();
                    let list = scripts(n, n as u32 - u32::from(n > 0) + extra);
                    members::<f64, Point2<f64>>(coords, &list, true, cx)?;
                    members::<f32, Point2<f32>>(coords, &list, true, cx)
                }
            };
            let some = |coords: &[Coords], cx: &mut Cx| {
                let list = some_scripts(coords.len());
                members::<f64, Point2<f64>>(coords, &list, false, cx)?;
                members::<f32, Point2<f32>>(coords, &list, false, cx)
            };
            let large = |coords: &[Coords], cx: &mut Cx| {
                let list = some_scripts(coords.len());
                let ks = [1, 2, 9, 300];
                members_of::<f64, Point2<f64>>(coords, &ks, &list, false, cx)?;
                members_of::<f32, Point2<f32>>(coords, &ks[..2], &list[..2], false, cx)
            };
            vec![
                over_data(structured(2, tier.pick(vec![6, 9, 12, 17, 33, 65, 130], (5..70).chain([130, 257, 300]).collect()), 1.0).of_kind(0), "draws from every element on in steps of 1, 2, 3, 5, 7, a half, a third and all but one of the elements; seven k from 2 to n-1, random initialisation", |coords, cx| {
                    misses_none::<f64, Point2<f64>>(coords, cx)?;
                    misses_none::<f32, Point2<f32>>(coords, cx)
                }),
                in_units_of(-40, over_data(line(2, 0, SPOTS, 3, 1.0), "all sequences of as many draws as points, then a fair rotation; every k, both strategies and metrics", all(1))),
                in_units_of(30, over_data(line(2, 0, SPOTS, 3, 1.0), "all sequences of as many draws as points, then a fair rotation; every k, both strategies and metrics", all(1))),
                over_data(structured(2, vec![257, 302], 1.0), "seven scripts of draws, k of 1, 2, 9 and 300, both strategies and metrics", large),
                with_signed_zeros(over_data(line(2, 0, SPOTS, 3, 1.0), "all sequences of as many draws as points, then a fair rotation; every k, both strategies and metrics", all(1))),
                over_data(structured(2, tier.pick(vec![255, 256, 257, 1000, 20_000, 66_000], vec![255, 256, 257, 1000, 20_000, 66_000, 140_000]), 1.0).of_kind(0), "all first draws, k of 1, both strategies: every element is reached", |coords, cx| {
                    reaches_all::<f64, Point2<f64>>(coords, &[false, true], cx)?;
                    reaches_all::<f32, Point2<f32>>(coords, &[false], cx)
                }),
                over_data(cube(2, 2, 3, 1.0), "all sequences of as many draws as points, then a fair rotation; every k, both strategies and metrics", all(1)),
                over_data(line(2, 0, SPOTS, tier.pick(3, 4), 1.0), "all sequences of n+2 draws, then a fair rotation; every k, both strategies and metrics", all(3)),
                over_data(line(2, 1, &[0, 1, 3, 7], tier.pick(5, 6), 0.5), "all sequences of n-1 draws, then a fair rotation; every k, both strategies and metrics", all(0)),
                over_data(structured(2, (0..=30).step_by(tier.pick(3, 1)).collect(), 1.0), "seven scripts of draws, then a fair rotation; every k, both strategies and metrics", some),
            ]
        }
        "K02" => {
            let large = |coords: &[Coords], cx: &mut Cx| {
                let n = coords.len();
                let list = [vec![0], vec![n as u64 / 2], vec![n as u64 - 1]];
                farthest::<f64, Point3<f64>>(coords, &[2, 3, 9], &list, cx)?;
                farthest::<f32, Point2<f32>>(coords, &[2, 3, 9], &list, cx)
            };
            let judge = |coords: &[Coords], cx: &mut Cx| {
                let n = coords.len();
                let ks: Vec<usize> = (1..n).collect();
                farthest::<f64, Point2<f64>>(coords, &ks, &firsts(n), cx)?;
                farthest::<f32, Point2<f32>>(coords, &ks, &firsts(n), cx)
            };
            let deep = |coords: &[Coords], cx: &mut Cx| {
                let n = coords.len();
                let ks: Vec<usize> = [2, 3, 5, n.saturating_sub(1)].into_iter().filter(|k| *k > 0 && *k < n).collect();
                farthest::<f64, Point5<f64>>(coords, &ks, &firsts(n), cx)?;
                farthest::<f32, Point5<f32>>(coords, &ks, &firsts(n), cx)
            };
            vec![
                in_units_of(-40, over_data(cube(2, 3, tier.pick(4, 5), 1.0), "every first draw, every k, both metrics and precisions", judge)),
                in_units_of(30, over_data(cube(2, 3, tier.pick(4, 5), 1.0), "every first draw, every k, both metrics and precisions", judge)),
                over_data(structured(2, vec![255, 256, 257, 300, 1000, 70_000], 1.0), "three first draws, k of 2, 3 and 9, both metrics and precisions", large),
                with_signed_zeros(over_data(cube(2, 3, tier.pick(3, 4), 1.0), "every first draw, every k, both metrics and precisions", judge)),
                over_data(structured(2, tier.pick(vec![70, 140, 270], vec![70, 140, 270, 600]), 1.0), "two first draws, k of n-1 and a half of n, both metrics, one precision each", |coords, cx| {
                    let n = coords.len();
                    let list = [vec![0], vec![n as u64 / 2]];
                    farthest::<f64, Point2<f64>>(coords, &[n - 1], &list, cx)?;
                    farthest::<f32, Point2<f32>>(coords, &[n / 2], &list, cx)
                }),
                over_data(moved(cube(2, 3, tier.pick(4, 5), 1.0)), "every first draw, every k, both metrics and precisions", judge),
                over_data(cube(2, 3, 6, 1.0), "every first draw, every k, both metrics and precisions", judge),
                over_data(cube(2, 3, tier.pick(4, 5), 0.125), "every first draw, every k, both metrics and precisions", judge),
                over_data(line(2, 0, SPOTS, tier.pick(6, 7), 1.0), "every first draw, every k, both metrics and precisions", judge),
                over_data(structured(5, (2..=tier.pick(40, 100)).step_by(tier.pick(4, 1)).collect(), 1.0), "every first draw, k of 2, 3, 5 and n-1, both metrics and precisions", deep),
            ]
        }
        "K03" | "K04" => {
            let (judge, which): (Small, u8) = if id == "K03" { (iterate3, 3) } else { (iterate4, 4) };
            let mut list = vec![
                iterations_large(which, structured(2, tier.pick(vec![255, 256, 257, 300, 600], vec![255, 256, 257, 511, 512, 513, 1000, 3000]), 1.0), &[1, 2, 5]),
                iterations_large(which, structured(2, vec![70_000], 1.0), &[1, 3]),
                iterations_large(which, structured(2, vec![280], 0.5), &[129, 260]),
                with_signed_zeros(iterations(cube(2, 2, 3, 1.0), judge)),
                with_signed_zeros(iterations(line(2, 0, SPOTS, 3, 1.0), judge)),
                in_units_of(-40, iterations(cube(2, 2, 3, 1.0), judge)),
                in_units_of(30, iterations(cube(2, 2, 3, 1.0), judge)),
                in_units_of(-40, iterations(line(2, 0, SPOTS, 3, 1.0), judge)),
                in_units_of(30, iterations(line(2, 0, SPOTS, 3, 1.0), judge)),
                iterations(moved(cube(2, 2, tier.pick(3, 4), 1.0)), judge),
                iterations(moved(line(2, 0, SPOTS, 3, 1.0)), judge),
                iterations(cube(2, 2, 4, 1.0), judge),
                iterations(cube(2, 3, tier.pick(3, 4), 1.0), judge),
                iterations(line(2, 0, SPOTS, tier.pick(4, 5), 1.0), judge),
                iterations(line(2, 1, &[0, 2, 3, 8], tier.pick(4, 6), 0.5), judge),
                iterations_big(which, structured(2, (5..=tier.pick(50, 120)).step_by(tier.pick(9, 2)).collect(), 1.0), &[1, 2, 3, 4, 5, 8, 13]),
                iterations_big(which, structured(2, tier.pick(vec![40], vec![40, 80, 120, 300]), 0.125), &[2, 6, 21]),
            ];
            if which == 3 {
                list.push(marathons(tier));
            }
            list
        }
        "K05" => {
            let judge = |coords: &[Coords], cx: &mut Cx| {
                reproduces::<f64, Point2<f64>>(coords, cx)?;
                reproduces::<f32, Point2<f32>>(coords, cx)
            };
            let deep = |coords: &[Coords], cx: &mut Cx| {
                reproduces::<f64, Point5<f64>>(coords, cx)?;
                reproduces::<f32, Point3<f32>>(&coords.iter().map(|c| [c[0], c[1], c[2], 0.0, 0.0]).collect::<Vec<_>>(), cx)
            };
            vec![
                in_units_of(1022, over_data(cube(2, 3, 4, 1.0), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics, double precision", |coords, cx| reproduces::<f64, Point2<f64>>(coords, cx))),
                in_units_of(126, over_data(cube(2, 3, 4, 1.0), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics, single precision", |coords, cx| reproduces::<f32, Point2<f32>>(coords, cx))),
                in_units_of(-1020, over_data(cube(2, 3, 4, 1.0), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics, double precision", |coords, cx| reproduces::<f64, Point2<f64>>(coords, cx))),
                in_units_of(-149, over_data(cube(2, 3, 4, 1.0), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics, single precision", |coords, cx| reproduces::<f32, Point2<f32>>(coords, cx))),
                with_signed_zeros(over_data(cube(2, 3, 4, 1.0), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics and precisions", judge)),
                over_data(structured(2, tier.pick(vec![255, 256, 257, 300, 1025, 3000], vec![255, 256, 257, 300, 1025, 3000, 20_000]), 1.0), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics and precisions", judge),
                over_data(structured(2, vec![66_000], 1.0).of_kind(0), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics and precisions", judge),
                over_data(moved(cube(2, 3, 4, 1.0)), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics and precisions", judge),
                over_data(cube(2, 3, 6, 1.0), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics and precisions", judge),
                over_data(line(2, 1, &[-5, -1, 0, 1, 7], tier.pick(5, 7), 0.125), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics and precisions", judge),
                over_data(structured(5, (0..=tier.pick(60, 300)).step_by(if q { 3 } else { 1 }).collect(), 0.5), "k of 0, n, n+1, n+7 and the greatest, 0, 1 and 10 iterations, both strategies, metrics and precisions", deep),
            ]
        }
        _ => return None,
    })
}
