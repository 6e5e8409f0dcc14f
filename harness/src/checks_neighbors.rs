//! N01 and N02: radius and k-nearest search of both engines, against sorting all distances.

use crate::data::*;
use crate::engine::{guarded, Cx, Space, Tier, Verdict};
use auto_palette::verif::neighbors::{linear, tree, Search};
use auto_palette::verif::{DistanceMetric, Point2, Point3, Point5};

/// Queries for a dataset: on, between and beyond its points.
fn queries(coords: &[Coords], dim: usize, most: usize) -> Vec<Coords> {
    let mut out: Vec<Coords> = Vec::new();
    let step = coords.len().div_ceil(most).max(1);
    for (at, c) in coords.iter().enumerate().step_by(step) {
        out.push(*c);
        // Half way to another point, and just off the point on every axis.
        let other = coords[(at * 7 + 3) % coords.len()];
        let mut mid = [0.0; 5];
        let mut off = *c;
        for axis in 0..dim {
            mid[axis] = (c[axis] + other[axis]) / 2.0;
            off[axis] += if (at + axis) % 2 == 0 { 0.125 } else { -0.375 };
        }
        out.push(mid);
        out.push(off);
    }
    let (mut low, mut high) = ([0.0; 5], [0.0; 5]);
    for axis in 0..dim {
        low[axis] = coords.iter().map(|c| c[axis]).fold(0.0, f64::min) - 1.5;
        high[axis] = coords.iter().map(|c| c[axis]).fold(0.0, f64::max) + 2.25;
    }
    out.push(low);
    out.push(high);
    let mut corner = low;
    corner[0] = high[0];
    out.push(corner);
    out
}

fn lattice_queries(dim: usize, side: u64, scale: f64) -> Vec<Coords> {
    let values: Vec<f64> = match dim {
        2 => vec![-0.5, 0.0, 0.5, 1.0, side as f64],
        3 => vec![0.0, 0.5, side as f64 - 1.0],
        _ => vec![0.0, 0.75],
    };
    let count = values.len().pow(dim as u32);
    (0..count)
        .map(|mut i| {
            let mut c = [0.0; 5];
            for v in c.iter_mut().take(dim) {
                *v = values[i % values.len()] * scale;
                i /= values.len();
            }
            c
        })
        .collect()
}

/// Squared distances up to here are sums of multiples of 1/1024 which single precision holds.
const EXACT: f64 = 16384.0;

fn exact_root(v: f64) -> Option<f64> {
    let r = (v * 256.0).sqrt() / 16.0;
    (r * r == v && f64::from(r as f32) == r).then_some(r)
}

/// Radii: exactly on and just below every distance where that is exact, between all neighbouring
/// distances, and the extremes.
fn radii<F: Real>(metric: DistanceMetric, query: &Coords, coords: &[Coords], most: usize) -> Vec<f64> {
    let mut squares: Vec<f64> = coords.iter().map(|c| squared(c, query)).collect();
    squares.sort_by(f64::total_cmp);
    squares.dedup();
    let step = squares.len().div_ceil(most).max(1);
    let mut out = vec![f64::NEG_INFINITY, -1.0, -1e-9, -0.0, 0.0, 1e9, f64::MAX, f64::INFINITY];
    for (at, s) in squares.iter().enumerate().step_by(step) {
        let next = squares.get(at + 1).copied().unwrap_or(s + 1.0);
        // Never between distances which single precision may confuse.
        let apart = next - s > 1e-4 * next;
        let mut exactly = |d: f64| {
            out.push(d);
            out.extend((d > 0.0).then(|| F::below(d)));
        };
        match metric {
            DistanceMetric::SquaredEuclidean => {
                if *s < EXACT {
                    exactly(*s);
                }
                out.extend(apart.then_some((s + next) / 2.0));
            }
            DistanceMetric::Euclidean => {
                if let Some(root) = exact_root(*s).filter(|_| *s < EXACT) {
                    exactly(root);
                }
                out.extend(apart.then_some((s.sqrt() + next.sqrt()) / 2.0));
            }
        }
    }
    out
}

fn radius_case<F: Real, S: Search<F, P>, P: Make<F>>(
    engine: &S,
    name: &str,
    metric: DistanceMetric,
    coords: &[Coords],
    query: &Coords,
    radius: f64,
    cx: &mut Cx,
) -> Verdict {
    let raw = guarded(|| engine.search_radius(&P::make(query), F::of(in_unit(metric, radius))));
    cx.step();
    let fail = |what: String| {
        Err(format!(
            "{name} engine, {} {metric:?}: points within {radius} of {:?}: {what}",
            F::NAME,
            &query[..P::DIM]
        ))
    };
    let mut got = match raw {
        Ok(got) => got,
        Err(e) => return fail(e),
    };
    got.sort_by_key(|(index, _)| *index);
    let want: Vec<(usize, f64)> = coords
        .iter()
        .enumerate()
        .map(|(i, c)| (i, measure(metric, c, query)))
        .filter(|(_, d)| radius >= 0.0 && *d <= radius)
        .collect();
    let same = got.len() == want.len()
        && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && close(g.1, in_unit(metric, w.1)));
    if !same {
        return fail(format!("{got:?}, should be {want:?}"));
    }
    cx.outcome(&(want.len(), coords.len()));
    Ok(())
}

fn nearest_case<F: Real, S: Search<F, P>, P: Make<F>>(
    engine: &S,
    name: &str,
    metric: DistanceMetric,
    coords: &[Coords],
    query: &Coords,
    ks: &[usize],
    cx: &mut Cx,
) -> Verdict {
    let distance = |c: &Coords| in_unit(metric, measure(metric, c, query));
    let mut sorted: Vec<f64> = coords.iter().map(distance).collect();
    sorted.sort_by(f64::total_cmp);
    let point = P::make(query);
    for &k in ks {
        let raw = guarded(|| engine.search(&point, k));
        cx.step();
        let fail = |what: String| {
            Err(format!(
                "{name} engine, {} {metric:?}: {k} nearest to {:?}: {what}; the distances are {:?}",
                F::NAME,
                &query[..P::DIM],
                &sorted[..sorted.len().min(24)]
            ))
        };
        let got = match raw {
            Ok(got) => got,
            Err(e) => return fail(e),
        };
        if got.len() != k.min(coords.len()) {
            return fail(format!("{} points: {got:?}", got.len()));
        }
        let mut seen: Vec<usize> = got.iter().map(|g| g.0).collect();
        seen.sort_unstable();
        seen.dedup();
        if seen.len() != got.len() || seen.last().is_some_and(|i| *i >= coords.len()) {
            return fail(format!("not distinct points: {got:?}"));
        }
        for (g, want) in got.iter().zip(&sorted) {
            if !close(g.1, distance(&coords[g.0])) {
                return fail(format!("wrong distance: {got:?}"));
            }
            if !close(g.1, *want) {
                return fail(format!("not the nearest, nearest first: {got:?}"));
            }
        }
        cx.outcome(&(k.min(99), coords.len(), seen));
    }
    let raw = guarded(|| engine.search_nearest(&point));
    cx.step();
    let ok = match (&raw, sorted.first()) {
        (Ok(None), None) => true,
        (Ok(Some((index, d))), Some(want)) => {
            *index < coords.len()
                && close(*d, *want)
                && close(*d, distance(&coords[*index]))
        }
        _ => false,
    };
    if !ok {
        return Err(format!(
            "{name} engine, {} {metric:?}: the nearest to {:?} is {raw:?}; the distances are {:?}",
            F::NAME,
            &query[..P::DIM],
            &sorted[..sorted.len().min(24)]
        ));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Ask {
    Radius,
    Nearest,
}

fn examine<F: Real, P: Make<F>>(
    ask: Ask,
    coords: &[Coords],
    queries: &[Coords],
    most: usize,
    cx: &mut Cx,
) -> Verdict {
    let dataset: Vec<P> = points(coords);
    let n = coords.len();
    let mut ks: Vec<usize> = if n <= 12 {
        (0..=n + 2).collect()
    } else {
        vec![0, 1, 2, 3, 5, 8, n / 4, n / 2, n - 2, n - 1, n, n + 1]
    };
    ks.extend([1 << 32, (1 << 32) + 1, usize::MAX]);
    for metric in METRICS {
        let tree = guarded(|| tree::<F, P>(&dataset, &metric))?;
        let linear = guarded(|| linear::<F, P>(&dataset, metric))?;
        for query in queries {
            match ask {
                Ask::Radius => {
                    for radius in radii::<F>(metric, query, coords, most) {
                        radius_case::<F, _, P>(&tree, "tree", metric, coords, query, radius, cx)?;
                        radius_case::<F, _, P>(&linear, "linear", metric, coords, query, radius, cx)?;
                    }
                }
                Ask::Nearest => {
                    nearest_case::<F, _, P>(&tree, "tree", metric, coords, query, &ks, cx)?;
                    nearest_case::<F, _, P>(&linear, "linear", metric, coords, query, &ks, cx)?;
                }
            }
        }
        cx.trace();
    }
    Ok(())
}

fn over(data: Data, ask: Ask, fixed: Option<Vec<Coords>>, most: usize) -> Space {
    let make = data.make.clone();
    let make2 = data.make.clone();
    let dim = data.dim;
    Space::new(
        &data.name,
        &format!(
            "{}; both metrics, precisions and engines; {}",
            data.bound,
            match (&fixed, ask) {
                (Some(list), Ask::Radius) => format!("{} queries, radii on, just below and between all distances", list.len()),
                (Some(list), Ask::Nearest) => format!("{} queries, every k up to two past the number of points, and the greatest k", list.len()),
                (None, Ask::Radius) => format!("queries on, between and beyond points, radii on, just below and between up to {most} distances"),
                (None, Ask::Nearest) => "queries on, between and beyond points, 13 values of k".to_string(),
            }
        ),
        data.size,
        move |index| describe(&make(index), dim),
        move |index, cx| {
            let coords = make2(index);
            let asked = match &fixed {
                Some(list) => list.clone(),
                None => queries(&coords, dim, most),
            };
            if coords.len() > 1 {
                cx.nontrivial += 1;
            }
            match dim {
                2 => {
                    examine::<f64, Point2<f64>>(ask, &coords, &asked, most, cx)?;
                    examine::<f32, Point2<f32>>(ask, &coords, &asked, most, cx)
                }
                3 => {
                    examine::<f64, Point3<f64>>(ask, &coords, &asked, most, cx)?;
                    examine::<f32, Point3<f32>>(ask, &coords, &asked, most, cx)
                }
                _ => {
                    examine::<f64, Point5<f64>>(ask, &coords, &asked, most, cx)?;
                    examine::<f32, Point5<f32>>(ask, &coords, &asked, most, cx)
                }
            }
        },
    )
}

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    let ask = match id {
        "N01" => Ask::Radius,
        "N02" => Ask::Nearest,
        _ => return None,
    };
    let mut out = Vec::new();
    for scale in [1.0, 0.25] {
        for (dim, side, n) in tier.pick(
            [(2, 3, 4), (3, 2, 4), (5, 2, 2)],
            [(2, 3, 6), (3, 2, 6), (5, 2, 4)],
        ) {
            out.push(over(cube(dim, side, n, scale), ask, Some(lattice_queries(dim, side, scale)), 64));
        }
    }
    out.push(over(
        cube(3, 3, tier.pick(2, 4), 0.5),
        ask,
        Some(lattice_queries(3, 3, 0.5)),
        64,
    ));
    // The same questions in very small and in very large units.
    for exponent in [-56, 30] {
        for (dim, side, n) in tier.pick(
            [(2, 3, 3), (3, 2, 3), (5, 2, 2)],
            [(2, 3, 5), (3, 2, 5), (5, 2, 3)],
        ) {
            let lattice = Some(lattice_queries(dim, side, 1.0));
            out.push(in_units_of(exponent, over(cube(dim, side, n, 1.0), ask, lattice, 64)));
        }
        let sizes = tier.pick(vec![5, 17, 33, 66, 130], (1..=80).chain([130, 300, 1000]).collect());
        for dim in [2, 3, 5] {
            let data = structured(dim, sizes.clone(), 0.25);
            out.push(in_units_of(exponent, over(data, ask, None, tier.pick(10, 24))));
        }
    }
    // Zeros of both signs are the same place.
    for (dim, side, n) in tier.pick([(2, 3, 3), (3, 2, 3), (5, 2, 2)], [(2, 3, 5), (3, 2, 5), (5, 2, 3)]) {
        let lattice = Some(lattice_queries(dim, side, 1.0));
        out.push(with_signed_zeros(over(cube(dim, side, n, 1.0), ask, lattice, 64)));
        out.push(with_signed_zeros(over(structured(dim, vec![17, 66, 130], 0.25), ask, None, tier.pick(6, 24))));
    }
    // Far from the origin, where only differences are small.
    for (dim, side, n) in tier.pick([(2, 3, 3), (3, 2, 3), (5, 2, 2)], [(2, 3, 5), (3, 2, 5), (5, 2, 3)]) {
        let lattice = lattice_queries(dim, side, 0.25).iter().map(|c| shift(c, dim)).collect();
        out.push(over(moved(cube(dim, side, n, 0.25)), ask, Some(lattice), 64));
    }
    let sizes = tier.pick(vec![5, 17, 33, 66, 130], (1..=80).chain([130, 300, 1000]).collect());
    for dim in [2, 3, 5] {
        out.push(over(moved(structured(dim, sizes.clone(), 0.25)), ask, None, tier.pick(10, 24)));
    }
    // More points than a 16-bit number counts.
    for dim in [2, 5] {
        out.push(over(structured(dim, vec![66_000], 0.5), ask, None, 2));
    }
    let sizes: Vec<usize> = tier.pick(
        (0..=40).chain([47, 63, 64, 65, 90, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1000]).collect(),
        (0..=300).chain([511, 512, 513, 1000, 1023, 1025, 2000, 4097, 10_000]).collect(),
    );
    for (dim, scale) in [(2, 1.0), (2, 0.0625), (3, 0.25), (5, 1.0), (5, 0.0625)] {
        out.push(over(structured(dim, sizes.clone(), scale), ask, None, tier.pick(10, 24)));
    }
    Some(out)
}
