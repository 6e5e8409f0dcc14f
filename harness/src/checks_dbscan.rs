//! D01 to D03: density clustering.
//!
//! The code under test reports sizes and means of clusters, not members. To see the members, each
//! point carries a tag in coordinates of its own: distinct powers of two, so small that they change
//! no distance. The sum of the tags of a cluster, its mean times its size, spells its members.

use crate::data::*;
use crate::engine::{digit, factorial, guarded, permutation, Cx, Space, Tier, Verdict};
use crate::refm::Density;
use auto_palette::verif::dbscan::{fit, Fitted};
use auto_palette::verif::{DistanceMetric, Point2, Point3, Point5};

#[derive(Clone, Copy, Debug)]
struct Setting {
    min_points: usize,
    epsilon: f64,
    metric: DistanceMetric,
}

fn reference(coords: &[Coords], setting: &Setting) -> Density {
    let neighbors: Vec<Vec<u32>> = coords
        .iter()
        .map(|a| {
            (0..coords.len() as u32)
                .filter(|j| measure(setting.metric, a, &coords[*j as usize]) <= setting.epsilon)
                .collect()
        })
        .collect();
    Density::new(&neighbors, setting.min_points)
}

const UNIT: f64 = 1.0 / (1u128 << 80) as f64;

/// How points are tagged: bits to a tag coordinate, and where the tags are.
struct Tags {
    bits: usize,
    first: usize,
    count: usize,
}

fn tagged(coords: &[Coords], tags: &Tags) -> Vec<Coords> {
    coords
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let mut c = *c;
            c[tags.first + i / tags.bits] = UNIT * (1u64 << (i % tags.bits)) as f64;
            c
        })
        .collect()
}

/// The members of each cluster, if the tags spell them.
fn members<F: Real, P: Make<F>>(fitted: &Fitted<P>, tags: &Tags, n: usize) -> Option<Vec<Vec<usize>>> {
    let mut out = Vec::new();
    for (id, centroid) in fitted.centroids.iter().enumerate() {
        let mean = centroid.coords();
        let size = fitted.counts[id];
        let mut list = Vec::new();
        for t in 0..tags.count {
            let sum = mean[tags.first + t] / UNIT * size as f64;
            if !(sum - sum.round()).abs().lt(&0.3) || sum < -0.3 || sum > (1u64 << tags.bits) as f64 {
                return None;
            }
            let sum = sum.round() as u64;
            list.extend((0..tags.bits).filter(|b| sum >> b & 1 == 1).map(|b| t * tags.bits + b));
        }
        if list.len() != size || list.iter().any(|i| *i >= n) {
            return None;
        }
        out.push(list);
    }
    Some(out)
}

fn run<F: Real, P: Make<F>>(coords: &[Coords], s: &Setting) -> Result<Fitted<P>, String> {
    let dataset: Vec<P> = points(coords);
    guarded(|| fit(&dataset, s.min_points, F::of(in_unit(s.metric, s.epsilon)), s.metric))
}

/// Whether the outliers are as expected: each once, in any order.
fn outliers_ok(density: &Density, got: &[usize]) -> bool {
    let mut got = got.to_vec();
    got.sort_unstable();
    let want: Vec<usize> = (0..density.core.len()).filter(|i| density.is_outlier(*i)).collect();
    got == want
}

/// The ways to fill the clusters, up to a limit.
fn ways(density: &Density) -> Option<Vec<Vec<Vec<usize>>>> {
    let n = density.core.len();
    let undecided = density.undecided();
    let total = undecided
        .iter()
        .fold(1usize, |p, i| p.saturating_mul(density.reach[*i].len()));
    if total > 512 {
        return None;
    }
    let mut certain = vec![Vec::new(); density.groups];
    for i in 0..n {
        if let Some(g) = density.certain(i) {
            certain[g].push(i);
        }
    }
    Some(
        (0..total as u64)
            .map(|mut way| {
                let mut groups = certain.clone();
                for i in &undecided {
                    let to = &density.reach[*i];
                    groups[to[digit(&mut way, to.len() as u64) as usize]].push(*i);
                }
                groups
            })
            .collect(),
    )
}

fn mean(coords: &[Coords], members: &[usize]) -> Coords {
    let mut m = [0.0; 5];
    for i in members {
        for (sum, v) in m.iter_mut().zip(&coords[*i]) {
            *sum += v;
        }
    }
    m.map(|v| v / members.len() as f64)
}

fn near<F: Real>(got: &Coords, want: &Coords, dim: usize, size: f64) -> bool {
    (0..dim).all(|k| (got[k] - want[k]).abs() <= 4.0 * F::SLACK * size)
}

/// Whether some assignment of clusters to groups fits.
fn matched(n: usize, fits: &dyn Fn(usize, usize) -> bool) -> bool {
    fn place(at: usize, n: usize, used: &mut Vec<bool>, fits: &dyn Fn(usize, usize) -> bool) -> bool {
        if at == n {
            return true;
        }
        for g in 0..n {
            if !used[g] && fits(at, g) {
                used[g] = true;
                if place(at + 1, n, used, fits) {
                    return true;
                }
                used[g] = false;
            }
        }
        false
    }
    if n > 12 {
        // Too many to search: what cannot be matched at all is still found.
        return (0..n).all(|c| (0..n).any(|g| fits(c, g)));
    }
    place(0, n, &mut vec![false; n], fits)
}

fn tell<P: std::fmt::Debug>(setting: &Setting, density: &Density, f: &Fitted<P>, what: &str) -> String {
    let n = density.core.len();
    let cores: Vec<usize> = (0..n).filter(|i| density.core[*i]).collect();
    let groups: Vec<usize> = cores.iter().map(|i| density.group[*i]).collect();
    format!(
        "{setting:?}: {what}; core points {cores:?} in clusters {groups:?}, border points {:?}; got {} clusters of sizes {:?} with means {:?} and outliers {:?}",
        (0..n).filter(|i| !density.reach[*i].is_empty()).map(|i| (i, density.reach[i].clone())).collect::<Vec<_>>(),
        f.centroids.len(),
        f.counts,
        f.centroids,
        f.outliers
    )
}

// --- D01 ----------------------------------------------------------------------------------------

fn definition<F: Real, P: Make<F>>(
    coords: &[Coords],
    s: &Setting,
    density: &Density,
    tags: Option<&Tags>,
    cx: &mut Cx,
) -> Verdict {
    let fitted: Fitted<P> = match tags {
        Some(tags) => run::<F, P>(&tagged(coords, tags), s),
        None => run::<F, P>(coords, s),
    }
    .map_err(|e| format!("{} {s:?}: {e}", F::NAME))?;
    cx.step();
    let fail = |what: &str| Err(tell(s, density, &fitted, &format!("{} {what}", F::NAME)));
    if fitted.centroids.len() != density.groups {
        return fail("the number of clusters is wrong");
    }
    if !outliers_ok(density, &fitted.outliers) {
        return fail("the outliers are wrong");
    }
    cx.outcome(&(density.groups, fitted.counts.clone(), fitted.outliers.clone()));
    cx.trace();
    let spelled = tags.and_then(|t| members::<F, P>(&fitted, t, coords.len()));
    let Some(clusters) = spelled else {
        // By size alone.
        if let Some(ways) = ways(density) {
            let any = ways.iter().any(|groups| {
                let mut want: Vec<usize> = groups.iter().map(Vec::len).collect();
                let mut got = fitted.counts[..density.groups].to_vec();
                want.sort_unstable();
                got.sort_unstable();
                want == got
            });
            if !any {
                return fail("no assignment of border points gives these sizes");
            }
        }
        return Ok(());
    };
    let n = coords.len();
    let mut owner = vec![usize::MAX; n];
    for (id, list) in clusters.iter().enumerate() {
        for i in list {
            if owner[*i] != usize::MAX {
                return fail(&format!("point {i} is in two clusters"));
            }
            owner[*i] = id;
        }
    }
    // Group of each cluster, by its core points.
    let mut group_of = vec![usize::MAX; clusters.len()];
    let mut cluster_of = vec![usize::MAX; density.groups];
    for i in (0..n).filter(|i| density.core[*i]) {
        let (c, g) = (owner[i], density.group[i]);
        if c == usize::MAX {
            return fail(&format!("core point {i} is in no cluster"));
        }
        if group_of[c] == usize::MAX && cluster_of[g] == usize::MAX {
            group_of[c] = g;
            cluster_of[g] = c;
        }
        if group_of[c] != g || cluster_of[g] != c {
            return fail(&format!("core point {i} is in the wrong cluster: {clusters:?}"));
        }
    }
    for i in (0..n).filter(|i| !density.core[*i]) {
        let c = owner[i];
        let fits = if density.reach[i].is_empty() {
            c == usize::MAX
        } else {
            c != usize::MAX && density.reach[i].contains(&group_of[c])
        };
        if !fits {
            return fail(&format!("point {i} is in the wrong cluster: {clusters:?}"));
        }
    }
    Ok(())
}

// --- D02 ----------------------------------------------------------------------------------------

/// The greatest coordinate, to which rounding errors are relative.
fn reach(coords: &[Coords]) -> f64 {
    coords.iter().flatten().fold(1.0, |m: f64, v| m.max(v.abs()))
}

fn accounts<F: Real, P: Make<F>>(
    coords: &[Coords],
    s: &Setting,
    density: &Density,
    tags: Option<&Tags>,
    cx: &mut Cx,
) -> Verdict {
    let data = match tags {
        Some(tags) => tagged(coords, tags),
        None => coords.to_vec(),
    };
    let fitted: Fitted<P> = run::<F, P>(&data, s).map_err(|e| format!("{} {s:?}: {e}", F::NAME))?;
    cx.step();
    let fail = |what: &str| Err(tell(s, density, &fitted, &format!("{} {what}", F::NAME)));
    let clusters = fitted.centroids.len();
    if fitted.counts.len() != clusters + 1 || fitted.counts[clusters] != 0 || fitted.strays.iter().any(|c| *c != 0) {
        return fail("an identifier past the last one has a size");
    }
    if fitted.counts[..clusters].iter().any(|c| *c == 0) {
        return fail("a cluster is empty");
    }
    if fitted.counts.iter().sum::<usize>() + fitted.outliers.len() != coords.len() {
        return fail("sizes and outliers do not add up to the number of points");
    }
    cx.outcome(&(fitted.counts.clone(), fitted.outliers.clone()));
    cx.trace();
    if let Some(tags) = tags {
        let Some(list) = members::<F, P>(&fitted, tags, coords.len()) else {
            return fail("a size and a mean do not belong to the same cluster");
        };
        for (id, members) in list.iter().enumerate() {
            if !near::<F>(&fitted.centroids[id].coords(), &mean(coords, members), tags.first, reach(coords)) {
                return fail(&format!("the mean of cluster {id}, which holds {members:?}, is wrong"));
            }
        }
        return Ok(());
    }
    if clusters != density.groups {
        return Ok(()); // D01
    }
    let Some(ways) = ways(density) else {
        return Ok(());
    };
    let centroids: Vec<Coords> = fitted.centroids.iter().map(|c| c.coords()).collect();
    let size = reach(coords);
    let any = ways.iter().any(|groups| {
        let means: Vec<Coords> = groups.iter().map(|g| mean(coords, g)).collect();
        matched(clusters, &|c, g| {
            fitted.counts[c] == groups[g].len() && near::<F>(&centroids[c], &means[g], P::DIM, size)
        })
    });
    if !any {
        return fail("no assignment of border points gives these sizes with these means");
    }
    Ok(())
}

// --- spaces -------------------------------------------------------------------------------------

type Judge<'a> = &'a dyn Fn(&[Coords], &Setting, &Density, &mut Cx) -> Verdict;

fn settings(min_points: &[usize], epsilons: &[f64], scale: f64) -> Vec<Setting> {
    let mut out = Vec::new();
    for &min_points in min_points {
        for &e in epsilons {
            for metric in METRICS {
                let epsilon = match metric {
                    DistanceMetric::Euclidean => e * scale,
                    DistanceMetric::SquaredEuclidean => e * scale * e * scale,
                };
                out.push(Setting {
                    min_points,
                    epsilon,
                    metric,
                });
            }
        }
    }
    out
}

fn each_setting(coords: &[Coords], list: &[Setting], cx: &mut Cx, judge: Judge) -> Verdict {
    for s in list {
        let density = reference(coords, s);
        if density.groups > 0 {
            cx.nontrivial += 1;
        }
        judge(coords, s, &density, cx)?;
    }
    Ok(())
}

fn small(which: u8, data: Data, min_points: &'static [usize], epsilons: &'static [f64], scale: f64) -> Space {
    let make = data.make.clone();
    let make2 = data.make.clone();
    let dim = data.dim;
    let list = settings(min_points, epsilons, scale);
    Space::new(
        &data.name,
        &format!(
            "{}; minimum {min_points:?}, epsilon {epsilons:?} times the spacing, both metrics and precisions, with and without tags",
            data.bound
        ),
        data.size,
        move |index| describe(&make(index), dim),
        move |index, cx| {
            let coords = make2(index);
            let wide = Tags { bits: 40, first: 2, count: 1 };
            let narrow = Tags { bits: 16, first: 2, count: 1 };
            each_setting(&coords, &list, cx, &|coords, s, density, cx| {
                // Tags would tell apart points which are equal.
                let tags = s.epsilon > 0.0;
                if which == 1 {
                    definition::<f64, Point2<f64>>(coords, s, density, None, cx)?;
                    definition::<f32, Point2<f32>>(coords, s, density, None, cx)?;
                    if tags {
                        definition::<f64, Point3<f64>>(coords, s, density, Some(&wide), cx)?;
                        definition::<f32, Point3<f32>>(coords, s, density, Some(&narrow), cx)?;
                    }
                } else {
                    accounts::<f64, Point2<f64>>(coords, s, density, None, cx)?;
                    accounts::<f32, Point2<f32>>(coords, s, density, None, cx)?;
                    if tags {
                        accounts::<f64, Point3<f64>>(coords, s, density, Some(&wide), cx)?;
                        accounts::<f32, Point3<f32>>(coords, s, density, Some(&narrow), cx)?;
                    }
                }
                Ok(())
            })
        },
    )
}

fn big(which: u8, data: Data, min_points: &'static [usize], epsilons: &'static [f64], scale: f64) -> Space {
    let make = data.make.clone();
    let make2 = data.make.clone();
    let dim = data.dim;
    let list = settings(min_points, epsilons, scale);
    Space::new(
        &data.name,
        &format!(
            "{}; minimum {min_points:?}, epsilon {epsilons:?} times the spacing, both metrics and precisions, with tags for up to 120 points in 2 dimensions",
            data.bound
        ),
        data.size,
        move |index| describe(&make(index), dim),
        move |index, cx| {
            let coords = make2(index);
            let tags = Tags { bits: 40, first: 2, count: 3 };
            each_setting(&coords, &list, cx, &|coords, s, density, cx| {
                let judge = |tags: Option<&Tags>, cx: &mut Cx| match (which, tags) {
                    (1, Some(_)) => definition::<f64, Point5<f64>>(coords, s, density, tags, cx),
                    (1, None) => {
                        match dim {
                            2 => definition::<f32, Point2<f32>>(coords, s, density, None, cx)?,
                            3 => definition::<f32, Point3<f32>>(coords, s, density, None, cx)?,
                            _ => definition::<f32, Point5<f32>>(coords, s, density, None, cx)?,
                        }
                        definition::<f64, Point5<f64>>(coords, s, density, None, cx)
                    }
                    (_, Some(_)) => accounts::<f64, Point5<f64>>(coords, s, density, tags, cx),
                    (_, None) => {
                        match dim {
                            2 => accounts::<f32, Point2<f32>>(coords, s, density, None, cx)?,
                            3 => accounts::<f32, Point3<f32>>(coords, s, density, None, cx)?,
                            _ => accounts::<f32, Point5<f32>>(coords, s, density, None, cx)?,
                        }
                        accounts::<f64, Point5<f64>>(coords, s, density, None, cx)
                    }
                };
                judge(None, cx)?;
                if coords.len() <= 120 && s.epsilon > 0.0 && dim == 2 {
                    judge(Some(&tags), cx)?;
                }
                Ok(())
            })
        },
    )
}

// --- D03 ----------------------------------------------------------------------------------------

/// What must not depend on the order: for each point (in the original order) whether it is an
/// outlier, and for each core point its cluster, numbered by first appearance.
fn essence(
    coords: &[Coords],
    order: &[usize],
    s: &Setting,
    core: &[bool],
    tags: &Tags,
) -> Result<(usize, Vec<bool>, Vec<usize>), String> {
    let n = coords.len();
    // Tags stay with their points.
    let all = tagged(coords, tags);
    let data: Vec<Coords> = order.iter().map(|i| all[*i]).collect();
    let fitted: Fitted<Point5<f64>> = run::<f64, _>(&data, s)?;
    let mut outlier = vec![false; n];
    for i in &fitted.outliers {
        let Some(original) = order.get(*i) else {
            return Err(format!("outlier {i} does not exist"));
        };
        outlier[*original] = true;
    }
    let clusters = members::<f64, _>(&fitted, tags, n)
        .ok_or("the members of a cluster cannot be told from its mean and size")?;
    let mut owner = vec![usize::MAX; n];
    for (id, list) in clusters.iter().enumerate() {
        for i in list {
            owner[*i] = id;
        }
    }
    let mut names: Vec<usize> = Vec::new();
    let grouped = (0..n)
        .filter(|i| core[*i])
        .map(|i| match names.iter().position(|o| *o == owner[i]) {
            Some(at) => at,
            None => {
                names.push(owner[i]);
                names.len() - 1
            }
        })
        .collect();
    Ok((clusters.len(), outlier, grouped))
}

fn same_in_any_order(
    coords: &[Coords],
    orders: &[Vec<usize>],
    list: &[Setting],
    tags: &Tags,
    cx: &mut Cx,
) -> Verdict {
    let identity: Vec<usize> = (0..coords.len()).collect();
    for s in list {
        let core = reference(coords, s).core;
        let base = essence(coords, &identity, s, &core, tags).map_err(|e| format!("{s:?}: {e}"))?;
        cx.step();
        cx.outcome(&base);
        cx.nontrivial += u64::from(base.0 > 0);
        for order in orders {
            let other = essence(coords, order, s, &core, tags)
                .map_err(|e| format!("{s:?} in order {order:?}: {e}"))?;
            cx.step();
            cx.inner_states += 1;
            if other != base {
                return Err(format!(
                    "{s:?}: clusters, outliers and grouping of core points are {base:?} in the given order, {other:?} in order {order:?}"
                ));
            }
        }
        cx.trace();
    }
    Ok(())
}

/// All multisets of `n` points, in every order.
fn multisets(dim: usize, side: u64, n: usize, min_points: &'static [usize], epsilons: &'static [f64]) -> Space {
    let alphabet = side.pow(dim as u32) as usize;
    let mut list: Vec<Vec<usize>> = Vec::new();
    fn extend(at: usize, alphabet: usize, n: usize, prefix: &mut Vec<usize>, list: &mut Vec<Vec<usize>>) {
        if prefix.len() == n {
            list.push(prefix.clone());
            return;
        }
        for v in at..alphabet {
            prefix.push(v);
            extend(v, alphabet, n, prefix, list);
            prefix.pop();
        }
    }
    extend(0, alphabet, n, &mut Vec::new(), &mut list);
    let size = list.len() as u64;
    let list2 = list.clone();
    let decode = move |codes: &[usize]| -> Vec<Coords> {
        codes
            .iter()
            .map(|code| {
                let mut rest = *code as u64;
                let mut c = [0.0; 5];
                for v in c.iter_mut().take(dim) {
                    *v = digit(&mut rest, side) as f64;
                }
                c
            })
            .collect()
    };
    let all = settings(min_points, epsilons, 1.0);
    Space::new(
        &format!("multisets{dim}-{side}-{n}"),
        &format!("all multisets of {n} points of the {dim}-dimensional lattice with {side} values per axis, in all {} orders; minimum {min_points:?}, epsilon {epsilons:?}, both metrics", factorial(n as u64)),
        size,
        move |index| describe(&decode(&list[index as usize]), dim),
        move |index, cx| {
            let coords = decode(&list2[index as usize]);
            let orders: Vec<Vec<usize>> = (1..factorial(n as u64)).map(|p| permutation(p, n)).collect();
            same_in_any_order(&coords, &orders, &all, &Tags { bits: 40, first: 2, count: 1 }, cx)
        },
    )
}

fn shuffled(data: Data, min_points: &'static [usize], epsilons: &'static [f64], scale: f64) -> Space {
    let make = data.make.clone();
    let make2 = data.make.clone();
    let dim = data.dim;
    let list = settings(min_points, epsilons, scale);
    Space::new(
        &data.name,
        &format!("{}; reversed, rotated, interleaved and strided orders; minimum {min_points:?}, epsilon {epsilons:?} times the spacing, both metrics", data.bound),
        data.size,
        move |index| describe(&make(index), dim),
        move |index, cx| {
            let coords = make2(index);
            let n = coords.len();
            if n < 2 {
                return Ok(());
            }
            let mut orders: Vec<Vec<usize>> = vec![
                (0..n).rev().collect(),
                (0..n).map(|i| (i + n / 2) % n).collect(),
                (0..n).map(|i| (i + 1) % n).collect(),
                (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
                (0..n).map(|i| i ^ 1).filter(|i| *i < n).chain((n % 2 == 1).then_some(n - 1)).collect(),
            ];
            for stride in [3, 7, 11, 31] {
                if (2..=n).all(|d| n % d != 0 || stride % d != 0) {
                    orders.push((0..n).map(|i| i * stride % n).collect());
                }
            }
            for order in &mut orders {
                // The odd man out of the pairwise swap may be there twice.
                order.dedup();
            }
            orders.retain(|o| {
                let mut sorted = o.clone();
                sorted.sort_unstable();
                sorted.into_iter().eq(0..n)
            });
            same_in_any_order(&coords, &orders, &list, &Tags { bits: 40, first: 2, count: 3 }, cx)
        },
    )
}

/// Sets too large for tags: sizes, means and outliers in other orders, where no border point has a choice.
fn large_orders(data: Data, min_points: &'static [usize], epsilons: &'static [f64]) -> Space {
    let make = data.make.clone();
    let make2 = data.make.clone();
    let dim = data.dim;
    let list = settings(min_points, epsilons, 1.0);
    Space::new(
        &format!("large-{}", data.name),
        &format!("{}; reversed, rotated and strided orders; minimum {min_points:?}, epsilon {epsilons:?}, both metrics and precisions; by sizes, means and outliers", data.bound),
        data.size,
        move |index| describe(&make(index), dim),
        move |index, cx| {
            let coords = make2(index);
            for s in &list {
                let clear = coords.len() > 5000 || {
                    let density = reference(&coords, s);
                    density.undecided().is_empty()
                };
                // The greatest sets once only.
                let other = coords.len() > 5000 && s.metric != METRICS[index as usize % 2];
                if !clear || other {
                    continue;
                }
                alike::<f64, Point2<f64>>(&coords, s, cx)?;
                alike::<f32, Point2<f32>>(&coords, s, cx)?;
            }
            Ok(())
        },
    )
}

fn alike<F: Real, P: Make<F>>(coords: &[Coords], s: &Setting, cx: &mut Cx) -> Verdict {
    let n = coords.len();
    let view = |order: &[usize]| -> Result<(Vec<(Coords, usize)>, Vec<usize>), String> {
        let data: Vec<Coords> = order.iter().map(|i| coords[*i]).collect();
        let fitted: Fitted<P> = run::<F, P>(&data, s)?;
        let mut clusters: Vec<(Coords, usize)> =
            fitted.centroids.iter().map(|c| c.coords()).zip(fitted.counts.iter().copied()).collect();
        clusters.sort_by(|a, b| (a.1, a.0[0], a.0[1]).partial_cmp(&(b.1, b.0[0], b.0[1])).expect("finite"));
        let mut outliers: Vec<usize> = fitted.outliers.iter().map(|i| order[*i]).collect();
        outliers.sort_unstable();
        Ok((clusters, outliers))
    };
    let name = |e: String| format!("{} {s:?}: {e}", F::NAME);
    let identity: Vec<usize> = (0..n).collect();
    let base = view(&identity).map_err(name)?;
    cx.step();
    cx.nontrivial += u64::from(!base.0.is_empty());
    cx.outcome(&(base.0.len(), base.1.clone()));
    let slack = reach(coords) * 16.0;
    let stride = (n / 3..).find(|s| (2..*s).all(|d| s % d != 0) && n % s != 0).unwrap_or(1);
    let orders: [(&str, Vec<usize>); 3] = [
        ("reversed", (0..n).rev().collect()),
        ("rotated", (0..n).map(|i| (i + n / 3) % n).collect()),
        ("strided", (0..n).map(|i| i * stride % n).collect()),
    ];
    for (what, order) in orders {
        let other = view(&order).map_err(name)?;
        cx.step();
        let fail = |part: &str| Err(name(format!("{part} are not the same in {what} order")));
        if other.1 != base.1 {
            return fail("the outliers");
        }
        let sizes = |v: &[(Coords, usize)]| v.iter().map(|c| c.1).collect::<Vec<_>>();
        if sizes(&other.0) != sizes(&base.0) {
            return fail("the sizes");
        }
        // Means may be rounded apart, and then sorted apart: each must be among the others.
        for (mean, size) in &base.0 {
            let from = other.0.partition_point(|c| c.1 < *size);
            let to = other.0.partition_point(|c| c.1 <= *size);
            let same = &other.0[from..to];
            let (x0, x1) = (mean[0] - 4.0 * F::SLACK * slack, mean[0] + 4.0 * F::SLACK * slack);
            let first = same.partition_point(|c| c.0[0] < x0);
            if !same[first..].iter().take_while(|c| c.0[0] <= x1).any(|c| near::<F>(&c.0, mean, P::DIM, slack)) {
                return fail("the means");
            }
        }
        cx.inner_states += 1;
    }
    cx.trace();
    Ok(())
}

/// The lines of `long_lines`, whose clusters are far from each other.
fn long_line_data() -> Data {
    Data {
        name: "lines".to_string(),
        bound: "70,000 points on a line in runs of 70,000, 300, 30 and 1".to_string(),
        size: 4,
        dim: 2,
        make: std::rc::Rc::new(|index| {
            let run = [70_000, 300, 30, 1][index as usize];
            (0..70_000)
                .map(|i| {
                    let mut c = [0.0; 5];
                    c[0] = (i + i / run * 2) as f64;
                    c
                })
                .collect()
        }),
    }
}

/// More points, and more clusters, than a 16-bit number counts, on a line, where clusters are runs.
fn long_lines(which: u8) -> Space {
    const N: usize = 70_000;
    // Points of a run, duplicates of each, and the minimum; runs are 3 apart.
    const LINES: [(usize, usize, usize); 6] =
        [(N, 1, 3), (1, 1, 1), (1, 2, 2), (30, 1, 3), (300, 1, 4), (3, 1, 2)];
    let make = |index: u64| -> (Vec<Coords>, usize) {
        let (run, copies, min_points) = LINES[index as usize];
        let coords = (0..N)
            .map(|i| {
                let spot = i / copies;
                let mut c = [0.0; 5];
                c[0] = (spot + spot / run * 2) as f64;
                c
            })
            .collect();
        (coords, min_points)
    };
    Space::new(
        "long-lines",
        &format!("{N} points on a line in runs of points with copies, with minimum: {LINES:?}; epsilon 1, both precisions"),
        LINES.len() as u64,
        move |index| {
            let (coords, min_points) = make(index);
            format!("minimum {min_points}, {}", describe(&coords, 2))
        },
        move |index, cx| {
            let (coords, min_points) = make(index);
            let setting = Setting { min_points, epsilon: 1.0, metric: METRICS[index as usize % 2] };
            line_case::<f64, Point2<f64>>(which, &coords, &setting, cx)?;
            line_case::<f32, Point2<f32>>(which, &coords, &setting, cx)
        },
    )
}

/// Points in ascending order along the first axis, with no border point between two clusters.
fn line_case<F: Real, P: Make<F>>(which: u8, coords: &[Coords], s: &Setting, cx: &mut Cx) -> Verdict {
    let n = coords.len();
    let (mut from, mut to) = (0, 0);
    let neighbors: Vec<Vec<u32>> = (0..n)
        .map(|i| {
            while coords[i][0] - coords[from][0] > s.epsilon {
                from += 1;
            }
            while to < n && coords[to][0] - coords[i][0] <= s.epsilon {
                to += 1;
            }
            (from as u32..to as u32).collect()
        })
        .collect();
    let density = Density::new(&neighbors, s.min_points);
    let fitted: Fitted<P> = run::<F, P>(coords, s).map_err(|e| format!("{} {s:?}: {e}", F::NAME))?;
    cx.step();
    cx.nontrivial += 1;
    let clusters = fitted.centroids.len();
    let fail = |what: &str| Err(format!("{} {s:?}: {what}: {clusters} clusters of {}", F::NAME, density.groups));
    let mut members = vec![Vec::new(); density.groups];
    for i in 0..n {
        if let Some(g) = density.certain(i) {
            members[g].push(i);
        }
    }
    cx.trace();
    if which == 1 {
        if clusters != density.groups {
            return fail("the number of clusters is wrong");
        }
        if !outliers_ok(&density, &fitted.outliers) {
            return fail("the outliers are wrong");
        }
        let mut sizes = fitted.counts[..clusters].to_vec();
        let mut want: Vec<usize> = members.iter().map(Vec::len).collect();
        sizes.sort_unstable();
        want.sort_unstable();
        if sizes != want {
            return fail("the sizes are wrong");
        }
        return Ok(());
    }
    if fitted.counts.len() != clusters + 1 || fitted.counts[clusters] != 0 || fitted.strays.iter().any(|c| *c != 0) {
        return fail("an identifier past the last one has a size");
    }
    if fitted.counts.iter().sum::<usize>() + fitted.outliers.len() != n {
        return fail("sizes and outliers do not add up to the number of points");
    }
    if clusters == density.groups {
        let mut got: Vec<(Coords, usize)> =
            fitted.centroids.iter().map(|c| c.coords()).zip(fitted.counts.iter().copied()).collect();
        got.sort_by(|a, b| a.0[0].total_cmp(&b.0[0]));
        let size_of_all = reach(coords);
        for ((centroid, size), list) in got.iter().zip(&members) {
            // A sum of this many single-precision numbers is off by more than a few rounding errors.
            if *size != list.len() || !near::<F>(centroid, &mean(coords, list), P::DIM, 16.0 * size_of_all) {
                return fail(&format!("the cluster around {centroid:?} of {size} is not {} around {:?}", list.len(), mean(coords, list)));
            }
        }
    }
    Ok(())
}

const GAPS: &[i32] = &[0, 1, 2, 3, 5, 6];

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    let which = match id {
        "D01" => 1,
        "D02" => 2,
        "D03" => {
            return Some(vec![
                with_signed_zeros(multisets(2, 2, tier.pick(4, 5), &[1, 2, 3], &[0.0, 1.0])),
                multisets(2, 3, 5, &[1, 2, 3, 4], &[0.5, 1.0, 1.5, 2.0]),
                multisets(2, 3, tier.pick(4, 6), &[2, 3, 4], &[1.0, 1.5]),
                multisets(1, 7, tier.pick(6, 7), &[2, 3, 4], &[1.0, 2.0]),
                shuffled(structured(2, (2..=tier.pick(60, 120)).step_by(tier.pick(2, 1)).collect(), 1.0), &[2, 3, 5, 9], &[1.0, 1.5, 4.0], 1.0),
                in_units_of(-40, shuffled(structured(2, (6..=66).step_by(tier.pick(12, 2)).collect(), 1.0), &[2, 3, 9], &[1.0, 1.5], 1.0)),
                in_units_of(30, shuffled(structured(2, (6..=66).step_by(tier.pick(12, 2)).collect(), 1.0), &[2, 3, 9], &[1.0, 1.5], 1.0)),
                large_orders(structured(2, tier.pick(vec![130, 257, 600], vec![130, 200, 257, 400, 600, 1030, 2000]), 1.0), &[2, 3, 9, 25], &[1.0, 1.5, 4.0]),
                shuffled(moved(structured(2, (6..=66).step_by(tier.pick(12, 2)).collect(), 1.0)), &[2, 3, 9], &[1.0, 1.5], 1.0),
                large_orders(long_line_data(), &[1, 3], &[1.0]),
                shuffled(structured(2, (8..=120).step_by(tier.pick(16, 4)).collect(), 0.125), &[3, 12], &[1.0, 3.0, 8.0], 0.125),
            ])
        }
        _ => return None,
    };
    let mut list = vec![long_lines(which)];
    for exponent in [-40, 30] {
        list.push(in_units_of(exponent, small(which, cube(2, 3, tier.pick(3, 4), 1.0), &[1, 2, 3], &[0.5, 1.0, 1.5], 1.0)));
        list.push(in_units_of(exponent, big(which, structured(2, (6..=66).step_by(tier.pick(12, 2)).collect(), 1.0), &[2, 3, 9], &[1.0, 1.5, 4.0], 1.0)));
    }
    list.push(small(which, moved(cube(2, 3, tier.pick(4, 5), 0.5)), &[1, 2, 3], &[0.5, 1.0, 1.5], 0.5));
    list.push(big(which, moved(structured(2, (6..=66).step_by(tier.pick(12, 2)).collect(), 1.0)), &[2, 3, 9], &[1.0, 1.5, 4.0], 1.0));
    list.push(big(which, moved(structured(5, (6..=66).step_by(tier.pick(12, 2)).collect(), 1.0)), &[2, 3, 9], &[1.0, 1.5, 4.0], 1.0));
    list.extend([
        small(which, cube(2, 3, tier.pick(5, 6), 1.0), &[0, 1, 2, 3, 4], &[0.0, 0.5, 1.0, 1.5, 2.0], 1.0),
        with_signed_zeros(small(which, cube(2, 3, tier.pick(3, 4), 1.0), &[1, 2, 3], &[0.0, 1.0, 1.5], 1.0)),
        small(which, cube(2, 3, tier.pick(3, 4), 2.0), &[1, 3, 257, 65_537, 4_294_967_297, usize::MAX], &[1.0, 1e9, f64::INFINITY], 2.0),
        small(which, cube(2, 3, tier.pick(5, 6), 0.25), &[2, 3], &[1.0, 1.5], 0.25),
        small(which, line(2, 0, GAPS, tier.pick(7, 8), 1.0), &[2, 3, 4], &[1.0, 2.0], 1.0),
        small(which, line(2, 1, GAPS, tier.pick(5, 7), 0.125), &[2, 3], &[1.0, 2.0], 0.125),
        big(which, structured(2, (0..=60).step_by(tier.pick(2, 1)).chain((61..=120).step_by(tier.pick(7, 1))).chain(tier.pick(vec![300], vec![200, 400, 800, 1500])).collect(), 1.0), &[1, 2, 3, 5, 9, 25], &[1.0, 1.5, 4.0, 10.0], 1.0),
        big(which, structured(2, (10..=120).step_by(tier.pick(10, 3)).collect(), 0.0625), &[2, 4, 25], &[1.0, 3.0, 12.0], 0.0625),
        big(which, structured(3, (0..=100).step_by(tier.pick(9, 2)).collect(), 1.0), &[2, 3, 7], &[1.0, 1.5, 3.5, 10.0], 1.0),
        big(which, structured(5, (0..=100).step_by(tier.pick(9, 2)).collect(), 0.5), &[2, 3, 7], &[1.0, 1.5, 2.5, 10.0], 0.5),
        big(which, structured(2, tier.pick(vec![600], vec![520, 600, 1030]), 1.0), &[255, 256, 257], &[0.0, 10.0, 200.0], 1.0),
    ]);
    Some(list)
}
