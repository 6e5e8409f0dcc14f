//! M01 and M02: point arithmetic and the metrics, over all pairs and triples of lattices; and the
//! arithmetic helpers.

use crate::data::*;
use crate::engine::{digit, guarded, Cx, Space, Tier, Verdict};
use auto_palette::verif::{Clamp, Float, Number, Point2, Point3, Point5};

/// A lattice of points: every coordinate takes every value.
#[derive(Clone)]
struct Lattice {
    values: Vec<f64>,
    dim: usize,
}

impl Lattice {
    fn len(&self) -> u64 {
        (self.values.len() as u64).pow(self.dim as u32)
    }

    fn at(&self, mut index: u64) -> Coords {
        let mut c = [0.0; 5];
        for v in c.iter_mut().take(self.dim) {
            *v = self.values[digit(&mut index, self.values.len() as u64) as usize];
        }
        c
    }
}

/// The operation on every coordinate, in the arithmetic of the precision.
fn each<F: Real>(dim: usize, f: impl Fn(usize) -> F) -> Vec<F> {
    (0..dim).map(f).collect()
}

fn arithmetic<F: Real, P>(a: &Coords, b: &Coords, scalars: &[f64], cx: &mut Cx) -> Verdict
where
    P: Make<F> + std::ops::Mul<F, Output = P> + std::ops::Div<F, Output = P>,
{
    let dim = P::DIM;
    let (p, q) = (P::make(a), P::make(b));
    let (x, y) = (p.to_vec(), q.to_vec());
    let at = |list: &[F], i: usize| list[i];
    let fail = |what: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| {
        Err(format!(
            "{} {}-dimensional {:?} and {:?}: {what} is {got:?}, should be {want:?}",
            F::NAME,
            dim,
            &a[..dim],
            &b[..dim]
        ))
    };
    if p.dim() != dim {
        return fail("the dimension", &p.dim(), &dim);
    }
    let given = each(dim, |i| F::of(a[i]));
    if x != given {
        return fail("the list of coordinates", &x, &given);
    }
    let indexed = each(dim, |i| p[i]);
    if indexed != given {
        return fail("the indexed coordinates", &indexed, &given);
    }
    let same = |got: P, want: &[F]| {
        let got = got.to_vec();
        got.len() == want.len() && got.iter().zip(want).all(|(g, w)| close(*g, w.wide()))
    };
    let check = |what: &str, got: P, in_place: P, want: Vec<F>| {
        if !same(got, &want) {
            return fail(what, &got.to_vec(), &want);
        }
        if !same(in_place, &want) {
            return fail(&format!("{what} in place"), &in_place.to_vec(), &want);
        }
        if got != in_place {
            return fail(&format!("{what} by value"), &got.to_vec(), &in_place.to_vec());
        }
        Ok(())
    };
    let mut sum = p;
    sum += q;
    check("the sum", p + q, sum, each(dim, |i| at(&x, i) + at(&y, i)))?;
    let mut difference = p;
    difference -= q;
    check("the difference", p - q, difference, each(dim, |i| at(&x, i) - at(&y, i)))?;
    cx.transitions += 4;
    for &s in scalars {
        let s = F::of(s);
        let mut product = p;
        product *= s;
        check(&format!("the product with {s:?}"), p * s, product, each(dim, |i| at(&x, i) * s))?;
        cx.transitions += 2;
        if s.wide() != 0.0 {
            let mut quotient = p;
            quotient /= s;
            check(&format!("the quotient by {s:?}"), p / s, quotient, each(dim, |i| at(&x, i) / s))?;
            cx.transitions += 2;
        }
    }
    let mut zeroed = p;
    zeroed.set_zero();
    let all_zero = a.iter().all(|v| *v == 0.0);
    if P::zero().to_vec() != each(dim, |_| F::of(0.0)) || zeroed != P::zero() {
        return fail("zero", &P::zero(), &0.0);
    }
    if p.is_zero() != all_zero || (p == q) != (a == b) {
        return fail("comparison", &(p.is_zero(), p == q), &(all_zero, a == b));
    }
    Ok(())
}

fn metric<F: Real, P: Make<F>>(a: &Coords, b: &Coords, third: &[Coords], cx: &mut Cx) -> Verdict {
    let [euclidean, squared_metric] = METRICS;
    let (p, q) = (P::make(a), P::make(b));
    let fail = |what: String| {
        Err(format!(
            "{} {:?} and {:?}: {what}",
            F::NAME,
            &a[..P::DIM],
            &b[..P::DIM]
        ))
    };
    let d: F = euclidean.measure(&p, &q);
    let s: F = squared_metric.measure(&p, &q);
    let back: F = euclidean.measure(&q, &p);
    let back_s: F = squared_metric.measure(&q, &p);
    cx.transitions += 4;
    if d != back || s != back_s {
        return fail(format!("not symmetric: {d:?} and {back:?}, squared {s:?} and {back_s:?}"));
    }
    if (d.wide() == 0.0) != (a == b) || (s.wide() == 0.0) != (a == b) {
        return fail(format!("distance {d:?}, squared {s:?}"));
    }
    let (pa, qa) = (p.coords(), q.coords());
    if !close(s, squared(&pa, &qa)) || !close(d, squared(&pa, &qa).sqrt()) {
        return fail(format!("distance {d:?}, squared {s:?}, by definition squared {}", squared(&pa, &qa)));
    }
    for c in third {
        let r = P::make(c);
        let via = euclidean.measure::<F, P>(&p, &r).wide() + euclidean.measure::<F, P>(&r, &q).wide();
        cx.transitions += 2;
        if d.wide() > via * (1.0 + 4.0 * F::SLACK) {
            return fail(format!("the way over {:?} is shorter: {via}, directly {d:?}", &c[..P::DIM]));
        }
    }
    Ok(())
}

fn space(name: &str, values: &[f64], dim: usize, thirds: u64) -> Space {
    let lattice = Lattice {
        values: values.to_vec(),
        dim,
    };
    let n = lattice.len();
    let shown = lattice.clone();
    Space::new(
        &format!("{name}{dim}"),
        &format!("all pairs of points in {dim} dimensions with coordinates {values:?}, with every {thirds}th third point; both precisions and metrics"),
        n * n,
        move |index| format!("{:?} and {:?}", &shown.at(index % n)[..dim], &shown.at(index / n)[..dim]),
        move |index, cx| {
            let (a, b) = (lattice.at(index % n), lattice.at(index / n));
            let third: Vec<Coords> = (index % thirds..n)
                .step_by(thirds as usize)
                .map(|i| lattice.at(i))
                .collect();
            let scalars = [0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -0.1, 7.25, 1e-12, 1e12];
            cx.nontrivial += u64::from(a != b);
            cx.outcome(&index);
            cx.trace();
            guarded(|| match dim {
                2 => {
                    arithmetic::<f64, Point2<f64>>(&a, &b, &scalars, cx)?;
                    arithmetic::<f32, Point2<f32>>(&a, &b, &scalars, cx)?;
                    metric::<f64, Point2<f64>>(&a, &b, &third, cx)?;
                    metric::<f32, Point2<f32>>(&a, &b, &third, cx)
                }
                3 => {
                    arithmetic::<f64, Point3<f64>>(&a, &b, &scalars, cx)?;
                    arithmetic::<f32, Point3<f32>>(&a, &b, &scalars, cx)?;
                    metric::<f64, Point3<f64>>(&a, &b, &third, cx)?;
                    metric::<f32, Point3<f32>>(&a, &b, &third, cx)
                }
                _ => {
                    arithmetic::<f64, Point5<f64>>(&a, &b, &scalars, cx)?;
                    arithmetic::<f32, Point5<f32>>(&a, &b, &scalars, cx)?;
                    metric::<f64, Point5<f64>>(&a, &b, &third, cx)?;
                    metric::<f32, Point5<f32>>(&a, &b, &third, cx)
                }
            })?
        },
    )
}

// --- M02 ----------------------------------------------------------------------------------------

fn clamps<T: Clamp + PartialOrd + Copy + std::fmt::Debug>(v: T, low: T, high: T, cx: &mut Cx) -> Verdict {
    if !(low <= high) {
        return Ok(());
    }
    cx.step();
    let got = Clamp::clamp(v, low, high);
    let want = if v < low {
        low
    } else if v > high {
        high
    } else {
        v
    };
    if got != want || !(got >= low && got <= high) {
        return Err(format!("{v:?} clamped to {low:?}..={high:?} is {got:?}"));
    }
    Ok(())
}

/// All values of a byte with all ranges, one value and lower bound to a case.
fn clamp_bytes() -> Space {
    Space::new(
        "clamp-u8",
        "all 8-bit values with all 8-bit ranges",
        1 << 16,
        |index| format!("{} and ranges from {}", index % 256, index / 256),
        |index, cx| {
            for high in 0..=255 {
                clamps((index % 256) as u8, (index / 256) as u8, high, cx)?;
            }
            cx.nontrivial += 1;
            cx.trace();
            cx.outcome(&index);
            Ok(())
        },
    )
}

/// Whole numbers around all powers of two.
fn wholes() -> Vec<u64> {
    let mut out: Vec<u64> = (0..64u32)
        .flat_map(|e| (-3i64..=3).map(move |d| (1u64 << e).wrapping_add(d as u64)))
        .chain([25, 100, 127, 128, 161, 157, 500, 1000, 66_000, 16_777_215, 16_777_217, u64::MAX])
        .collect();
    out.sort_unstable();
    out.dedup();
    out
}

fn clamp_wide() -> Space {
    let list = wholes();
    let n = list.len() as u64;
    Space::new(
        "clamp-wide",
        &format!("{n} values around all powers of two with ranges between every fifth of them, in 16, 32, 64 and 128 bits and, negated or not, in single and double precision"),
        n,
        |index| format!("value {}", wholes()[index as usize]),
        move |index, cx| {
            let v = list[index as usize];
            for low in list.iter().step_by(5) {
                for high in list.iter().skip(2).step_by(5) {
                    let (l, h) = (*low, *high);
                    if l <= u64::from(u16::MAX) && h <= u64::from(u16::MAX) && v <= u64::from(u16::MAX) {
                        clamps(v as u16, l as u16, h as u16, cx)?;
                    }
                    if l <= u64::from(u32::MAX) && h <= u64::from(u32::MAX) && v <= u64::from(u32::MAX) {
                        clamps(v as u32, l as u32, h as u32, cx)?;
                    }
                    clamps(v, l, h, cx)?;
                    clamps(u128::from(v) << 60, u128::from(l) << 60, u128::from(h) << 60, cx)?;
                    for sign in [1.0, -1.0] {
                        let (a, b) = (v as f64 * sign, -(l as f64));
                        clamps(a, b, h as f64, cx)?;
                        clamps(a as f32, b as f32, h as f32, cx)?;
                        clamps(1.0 / (a + 0.5), b.min(1.0 / (h as f64 + 0.25)), 1.0 / (h as f64 + 0.25), cx)?;
                        clamps(f64::INFINITY * sign, b, h as f64, cx)?;
                        clamps(f32::INFINITY * sign as f32, b as f32, h as f32, cx)?;
                    }
                }
            }
            cx.nontrivial += 1;
            cx.trace();
            cx.outcome(&index);
            Ok(())
        },
    )
}

/// The nearest number of a precision with that many bits of mantissa, ties to even.
fn nearest(v: u64, mantissa: u32) -> u128 {
    let v = u128::from(v);
    let bits = 128 - v.leading_zeros();
    if bits <= mantissa {
        return v;
    }
    let drop = bits - mantissa;
    let (kept, rest, half) = (v >> drop, v & ((1 << drop) - 1), 1 << (drop - 1));
    let up = rest > half || (rest == half && kept & 1 == 1);
    (kept + u128::from(up)) << drop
}

fn converts(v: u64, cx: &mut Cx) -> Verdict {
    let fail = |what: &str, got: &dyn std::fmt::Debug| Err(format!("{v} converted to {what} is {got:?}"));
    macro_rules! floats {
        ($float:ty, $mantissa:expr) => {{
            let want = nearest(v, $mantissa) as $float;
            let mut got = vec![<$float as Number>::from_u64(v), <$float as Number>::from_usize(v as usize)];
            if let Ok(v) = u32::try_from(v) {
                got.push(<$float as Number>::from_u32(v));
            }
            if let Ok(v) = u8::try_from(v) {
                got.push(<$float as Number>::from_u8(v));
            }
            cx.transitions += got.len() as u64;
            if got.iter().any(|g| *g != want) {
                return fail(stringify!($float), &got);
            }
        }};
    }
    macro_rules! integers {
        ($($int:ty)*) => {$(
            if let Ok(want) = <$int>::try_from(v) {
                let mut got = vec![<$int as Number>::from_u64(v), <$int as Number>::from_usize(v as usize)];
                if let Ok(v) = u32::try_from(v) {
                    got.push(<$int as Number>::from_u32(v));
                }
                if let Ok(v) = u8::try_from(v) {
                    got.push(<$int as Number>::from_u8(v));
                }
                cx.transitions += got.len() as u64;
                if got.iter().any(|g| *g != want) {
                    return fail(stringify!($int), &got);
                }
            }
        )*};
    }
    floats!(f32, 24);
    floats!(f64, 53);
    integers!(u8 u16 u32 u64 u128);
    // Floats from floats: exactly where they fit, and signs survive.
    for sign in [1.0, -1.0] {
        for scale in [1.0, 1.0 / 4096.0, 1.0 / 3.0] {
            let wide = v as f64 * scale * sign;
            let narrow = wide as f32;
            cx.transitions += 4;
            if <f64 as Float>::from_f64(wide) != wide || <f32 as Float>::from_f32(narrow) != narrow {
                return fail("its own precision", &wide);
            }
            if <f64 as Float>::from_f32(narrow) != f64::from(narrow) {
                return fail("double precision", &<f64 as Float>::from_f32(narrow));
            }
            // No neighbour is nearer.
            let got = <f32 as Float>::from_f64(wide);
            let error = (f64::from(got) - wide).abs();
            let next = |step: i32| f64::from(f32::from_bits((got.to_bits() as i32).wrapping_add(step) as u32));
            if (got != 0.0 && ((next(1) - wide).abs() < error || (next(-1) - wide).abs() < error)) || (got == 0.0) != (wide == 0.0) {
                return fail("single precision", &got);
            }
        }
    }
    Ok(())
}

/// Conversions of whole numbers, 4096 to a case.
fn conversions(most: u64) -> Space {
    Space::new(
        "conversions",
        &format!("all whole numbers up to {}, and those around all powers of two, in all types", most * 4096),
        most + 1,
        move |index| if index == most { "around powers of two".to_string() } else { format!("{}..", index * 4096) },
        move |index, cx| {
            let list = if index == most { wholes() } else { (index * 4096..(index + 1) * 4096).collect() };
            for v in list {
                converts(v, cx)?;
            }
            cx.inner_states += 4095;
            cx.nontrivial += 1;
            cx.trace();
            cx.outcome(&index);
            Ok(())
        },
    )
}

/// Numbers of every magnitude, from one precision to the other.
fn precisions() -> Space {
    const MANTISSAS: [u64; 12] = [0, 1, 2, 3, 1 << 28, (1 << 28) + 1, (1 << 29) - 1, 1 << 29, 3 << 28, 0x5_5555_5555_5555, 0xf_ffff_e000_0000, 0xf_ffff_ffff_ffff];
    Space::new(
        "precisions",
        "numbers of both signs with every exponent of double precision and 12 mantissas, and with every exponent of single precision and 8 mantissas, among them zero, the subnormal and the infinite ones",
        2048,
        |index| format!("exponent {index} of double precision and {} of single precision", index % 256),
        |index, cx| {
            for mantissa in MANTISSAS.into_iter().filter(|m| index < 2047 || *m == 0) {
                for sign in [0, 1u64 << 63] {
                    let wide = f64::from_bits(sign | index << 52 | mantissa);
                    let same = <f64 as Float>::from_f64(wide);
                    if same != wide {
                        return Err(format!("{wide:e} converted to f64 gives {same:e}"));
                    }
                    let got = <f32 as Float>::from_f64(wide);
                    cx.transitions += 2;
                    let fits = wide.abs() <= f64::from(f32::MAX);
                    let bounds = [f32::from_bits(got.to_bits().wrapping_sub(1)), f32::from_bits(got.to_bits().wrapping_add(1))];
                    let error = (f64::from(got) - wide).abs();
                    let nearer = bounds.iter().any(|b| b.is_finite() && (f64::from(*b) - wide).abs() < error);
                    if got.is_nan() || (fits && (!got.is_finite() || nearer)) || (!fits && got.abs() < f32::MAX) || (f64::from(got) * wide < 0.0) {
                        return Err(format!("{wide:e} converted to f32 gives {got:e}"));
                    }
                }
            }
            if index < 256 {
                for mantissa in [0u32, 1, 2, 3, 0x2a_aaaa, 0x40_0000, 0x7f_fffe, 0x7f_ffff].into_iter().filter(|m| index < 255 || *m == 0) {
                    for sign in [0, 1u32 << 31] {
                        let narrow = f32::from_bits(sign | (index as u32) << 23 | mantissa);
                        let (same, wide) = (<f32 as Float>::from_f32(narrow), <f64 as Float>::from_f32(narrow));
                        cx.transitions += 2;
                        if same != narrow || wide != f64::from(narrow) {
                            return Err(format!("{narrow:e} converted gives {same:e} as f32 and {wide:e} as f64"));
                        }
                    }
                }
            }
            cx.nontrivial += 1;
            cx.trace();
            cx.outcome(&index);
            Ok(())
        },
    )
}

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    if id == "M02" {
        return Some(vec![clamp_bytes(), clamp_wide(), conversions(tier.pick(5_000, 40_000)), precisions()]);
    }
    if id != "M01" {
        return None;
    }
    let fine = [-2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 3.0];
    let uneven = [-1000.0, -0.001, 0.0, 0.1, 0.3, 17.0, 123456.0];
    // So small that nothing next to one, and so great that one is nothing next to them.
    let extreme = [-1e15, -1e-17, 0.0, 1e-17, 2e-17, 3e-9, 1e15];
    Some(vec![
        space("extreme", &extreme, 2, 1),
        space("extreme", &extreme, 3, tier.pick(3, 1)),
        space("extreme", tier.pick(&extreme[1..5], &extreme[1..6]), 5, 61),
        space("zeros", &[-1.0, -0.0, 0.0, 2.0], 2, 1),
        space("zeros", &[-1.0, -0.0, 0.0, 2.0], 3, 1),
        space("exact", &fine, 2, 1),
        space("uneven", &uneven, 2, 1),
        space("exact", &fine, 3, tier.pick(3, 1)),
        space("uneven", &uneven, 3, tier.pick(3, 1)),
        space("exact", tier.pick(&fine[1..5], &fine[1..6]), 5, 61),
        space("uneven", tier.pick(&uneven[1..5], &uneven[1..6]), 5, 61),
    ])
}
