//! Finite families of point datasets. Coordinates are small multiples of a power of two, so that
//! every squared distance is exact in both precisions and boundaries are met exactly.
#![allow(dead_code)]

use crate::engine::{digit, sequence, sequences_up_to, Space};
use auto_palette::verif::{DistanceMetric, Float, Point, Point2, Point3, Point5};
use std::rc::Rc;

pub trait Real: Float + Into<f64> + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// Relative rounding error a few operations may add up to.
    const SLACK: f64;
    fn of(value: f64) -> Self {
        Self::from_f64(value)
    }
    fn wide(self) -> f64 {
        self.into()
    }
    /// The next number below a positive one which this precision holds.
    fn below(value: f64) -> f64;
}

impl Real for f64 {
    const NAME: &'static str = "f64";
    const SLACK: f64 = 1e-13;
    fn below(value: f64) -> f64 {
        f64::from_bits(value.to_bits() - 1)
    }
}

impl Real for f32 {
    const NAME: &'static str = "f32";
    const SLACK: f64 = 1e-6;
    fn below(value: f64) -> f64 {
        f64::from(f32::from_bits((value as f32).to_bits() - 1))
    }
}

thread_local! {
    static UNIT: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) };
}

/// The unit of length, a power of two: what the code under test gets are multiples of it, and what
/// it answers is divided by it, so that references and tolerances need not know of it.
pub fn unit() -> f64 {
    UNIT.with(|u| u.get())
}

/// A length in the current unit, as the metric measures it.
pub fn in_unit(metric: DistanceMetric, length: f64) -> f64 {
    match metric {
        DistanceMetric::Euclidean => length * unit(),
        DistanceMetric::SquaredEuclidean => length * unit() * unit(),
    }
}

/// The same space in another unit of length.
pub fn in_units_of(exponent: i32, space: Space) -> Space {
    let inner = space.run;
    Space {
        name: format!("{}-in-2^{exponent}", space.name),
        bound: format!("{}; all lengths times 2^{exponent}", space.bound),
        size: space.size,
        show: space.show,
        run: Box::new(move |index, cx| {
            struct Reset;
            impl Drop for Reset {
                fn drop(&mut self) {
                    UNIT.with(|u| u.set(1.0));
                }
            }
            let _reset = Reset;
            UNIT.with(|u| u.set(f64::from(exponent).exp2()));
            inner(index, cx)
        }),
    }
}

thread_local! {
    /// How many zeros were made, where they are to have both signs.
    static ZEROS: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}

/// The coordinate as the code under test gets it.
fn given<F: Real>(v: f64) -> F {
    let v = v * unit();
    let negative = v == 0.0
        && ZEROS.with(|z| {
            let made = z.get();
            z.set(made.map(|n| n + 1));
            // Neither all in turns nor all alike.
            made.is_some_and(|n| (n ^ (n >> 1) ^ (n >> 3)) % 2 == 0)
        });
    F::of(if negative { -0.0 } else { v })
}

/// The same space with zeros of either sign among the coordinates, which are equal numbers.
pub fn with_signed_zeros(space: Space) -> Space {
    let inner = space.run;
    Space {
        name: format!("{}-signed-zeros", space.name),
        bound: format!("{}; zeros with positive and negative sign", space.bound),
        size: space.size,
        show: space.show,
        run: Box::new(move |index, cx| {
            struct Reset;
            impl Drop for Reset {
                fn drop(&mut self) {
                    ZEROS.with(|z| z.set(None));
                }
            }
            let _reset = Reset;
            ZEROS.with(|z| z.set(Some(index)));
            inner(index, cx)
        }),
    }
}

pub type Coords = [f64; 5];

pub trait Make<F: Real>: Point<F> + PartialEq + 'static {
    const DIM: usize;
    fn make(c: &Coords) -> Self;
    fn coords(&self) -> Coords {
        let mut out = [0.0; 5];
        for (at, value) in self.to_vec().into_iter().enumerate() {
            out[at] = value.wide() / unit();
        }
        out
    }
}

impl<F: Real> Make<F> for Point2<F> {
    const DIM: usize = 2;
    fn make(c: &Coords) -> Self {
        Point2(given(c[0]), given(c[1]))
    }
}

impl<F: Real> Make<F> for Point3<F> {
    const DIM: usize = 3;
    fn make(c: &Coords) -> Self {
        Point3(given(c[0]), given(c[1]), given(c[2]))
    }
}

impl<F: Real> Make<F> for Point5<F> {
    const DIM: usize = 5;
    fn make(c: &Coords) -> Self {
        let [a, b, c, d, e] = c.map(given);
        Point5(a, b, c, d, e)
    }
}

pub fn points<F: Real, P: Make<F>>(coords: &[Coords]) -> Vec<P> {
    coords.iter().map(P::make).collect()
}

pub const METRICS: [DistanceMetric; 2] = [DistanceMetric::Euclidean, DistanceMetric::SquaredEuclidean];

pub fn squared(a: &Coords, b: &Coords) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum()
}

/// The reference distance.
pub fn measure(metric: DistanceMetric, a: &Coords, b: &Coords) -> f64 {
    match metric {
        DistanceMetric::Euclidean => squared(a, b).sqrt(),
        DistanceMetric::SquaredEuclidean => squared(a, b),
    }
}

pub fn close<F: Real>(got: F, want: f64) -> bool {
    (got.wide() - want).abs() <= F::SLACK * want.abs().max(f64::MIN_POSITIVE)
        || got.wide() == want
}

#[derive(Clone)]
pub struct Data {
    pub name: String,
    pub bound: String,
    pub size: u64,
    pub dim: usize,
    pub make: Rc<dyn Fn(u64) -> Vec<Coords>>,
}

pub fn describe(coords: &[Coords], dim: usize) -> String {
    let shown: Vec<String> = coords
        .iter()
        .take(40)
        .map(|c| format!("{:?}", &c[..dim]))
        .collect();
    let more = if coords.len() > 40 { " ..." } else { "" };
    format!("{} points {}{more}", coords.len(), shown.join(" "))
}

/// All sequences of up to `n` points of the cube 0..side in `dim` dimensions, times a scale.
pub fn cube(dim: usize, side: u64, n: u32, scale: f64) -> Data {
    let alphabet = side.pow(dim as u32);
    Data {
        name: format!("cube{dim}-{side}-x{scale}"),
        bound: format!("all sequences of up to {n} points of the {dim}-dimensional lattice with {side} values per axis, spacing {scale}"),
        size: sequences_up_to(alphabet, n),
        dim,
        make: Rc::new(move |index| {
            sequence(index, alphabet)
                .into_iter()
                .map(|mut s| {
                    let mut c = [0.0; 5];
                    for v in c.iter_mut().take(dim) {
                        *v = digit(&mut s, side) as f64 * scale;
                    }
                    c
                })
                .collect()
        }),
    }
}

/// All sequences of up to `n` points out of `positions`, on a line which runs along one axis.
pub fn line(dim: usize, axis: usize, positions: &'static [i32], n: u32, scale: f64) -> Data {
    let alphabet = positions.len() as u64;
    Data {
        name: format!("line{dim}-{axis}-x{scale}"),
        bound: format!("all sequences of up to {n} points at {positions:?} times {scale} along axis {axis} of {dim} dimensions"),
        size: sequences_up_to(alphabet, n),
        dim,
        make: Rc::new(move |index| {
            sequence(index, alphabet)
                .into_iter()
                .map(|s| {
                    let mut c = [0.0; 5];
                    c[axis] = f64::from(positions[s as usize]) * scale;
                    c
                })
                .collect()
        }),
    }
}

fn scramble(mut v: u64) -> u64 {
    v = (v ^ (v >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    v = (v ^ (v >> 27)).wrapping_mul(0x94d049bb133111eb);
    v ^ (v >> 31)
}

pub const KINDS: u64 = 14;

/// One structured dataset: kind 0..KINDS, any size.
pub fn structured_points(kind: u64, n: usize, dim: usize, scale: f64) -> Vec<Coords> {
    let side = (1..).find(|s: &usize| s.pow(dim as u32) >= n).unwrap_or(1).max(1);
    (0..n)
        .map(|i| {
            let mut c = [0.0; 5];
            for axis in 0..dim {
                let h = scramble((i * 5 + axis) as u64 + kind * 7919);
                let v = match kind {
                    // A line on the first axis, one on the last in reverse, and a diagonal.
                    0 => {
                        if axis == 0 {
                            i as i64
                        } else {
                            0
                        }
                    }
                    1 => {
                        if axis == dim - 1 {
                            (n - i) as i64
                        } else {
                            1
                        }
                    }
                    2 => i as i64 - n as i64 / 2,
                    3 => 7,
                    // A grid, row by row.
                    4 => (i / side.pow(axis as u32) % side) as i64,
                    // Scatter with few and with many ties, around zero or not.
                    5 => (h % 64) as i64,
                    6 => (h % 5) as i64 - 2,
                    7 => (h % 40) as i64 - 20,
                    // Two clusters in turns.
                    8 => (i % 2 * 40) as i64 + (h % 4) as i64,
                    // Bit reversal on the first axis, zigzag on the others.
                    9 => {
                        if axis == 0 {
                            i64::from((i as u16).reverse_bits() >> 6)
                        } else {
                            (i % 3) as i64
                        }
                    }
                    10 => ((i + axis) / 2) as i64,
                    // Growing gaps along the first axis.
                    11 => {
                        if axis == 0 {
                            (i * i % 1021) as i64
                        } else {
                            0
                        }
                    }
                    // Columns: the first axis is shared by runs of points.
                    12 => {
                        if axis == 0 {
                            (i / 7) as i64
                        } else {
                            (i % 7 * (axis + 1)) as i64
                        }
                    }
                    // Mostly duplicates of the origin with a far tail.
                    _ => {
                        if i % 4 == 3 {
                            i as i64
                        } else {
                            0
                        }
                    }
                };
                c[axis] = v as f64 * scale;
            }
            c
        })
        .collect()
}

pub fn structured(dim: usize, sizes: Vec<usize>, scale: f64) -> Data {
    let count = sizes.len() as u64;
    Data {
        name: format!(
            "structured{dim}-x{scale}-{}to{}",
            sizes.first().unwrap_or(&0),
            sizes.last().unwrap_or(&0)
        ),
        bound: format!(
            "{KINDS} kinds of structured datasets (lines, grids, scatter, duplicates, clusters) in {dim} dimensions, spacing {scale}, of {} sizes from {} to {} points",
            sizes.len(),
            sizes.first().unwrap_or(&0),
            sizes.last().unwrap_or(&0)
        ),
        size: KINDS * count,
        dim,
        make: Rc::new(move |mut index| {
            let kind = digit(&mut index, KINDS);
            structured_points(kind, sizes[index as usize], dim, scale)
        }),
    }
}

impl Data {
    /// Only the datasets of one kind out of structured ones.
    pub fn of_kind(self, kind: u64) -> Self {
        let make = self.make;
        Self {
            name: format!("kind{kind}-of-{}", self.name),
            bound: format!("{}; only kind {kind}", self.bound),
            size: self.size / KINDS,
            make: Rc::new(move |index| make(index * KINDS + kind)),
            ..self
        }
    }
}

/// Where moved datasets lie: far from the origin, on both sides of it.
pub const FAR: Coords = [-3000.0, 1000.0, -500.0, 2000.0, 700.0];

/// A point moved as far from the origin.
pub fn shift(c: &Coords, dim: usize) -> Coords {
    let mut c = *c;
    for (v, by) in c.iter_mut().zip(FAR).take(dim) {
        *v += by;
    }
    c
}

/// The same datasets far from the origin: no distance changes.
pub fn moved(data: Data) -> Data {
    let (make, dim) = (data.make, data.dim);
    Data {
        name: format!("far-{}", data.name),
        bound: format!("{}, moved by {:?}", data.bound, &FAR[..dim]),
        size: data.size,
        dim,
        make: Rc::new(move |index| make(index).iter().map(|c| shift(c, dim)).collect()),
    }
}
