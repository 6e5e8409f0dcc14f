//! P11: the order of swatches.

use crate::engine::{digit, guarded, Space, Tier};
use auto_palette::swatch::Swatch;
use std::cmp::Ordering;

/// Shares which occur: fractions of pixels, next to each other and far apart.
fn shares(most: u32, single: bool) -> Vec<f64> {
    let mut out: Vec<f64> = (1..=most).flat_map(|n| (0..=n).map(move |k| f64::from(k) / f64::from(n))).collect();
    for at in [1.0, 0.5, 1.0 / 3.0, 0.01] {
        out.push(at);
        if single {
            out.extend([f64::from(f32::from_bits((at as f32).to_bits() - 1)), f64::from(f32::from_bits((at as f32).to_bits() + 1))]);
        } else {
            out.extend([f64::from_bits(f64::to_bits(at) - 1), f64::from_bits(f64::to_bits(at) + 1)]);
        }
    }
    out.extend([1e-3, 1e-4, 1e-4 + 1e-9, 25.0 / 16_777_216.0, 26.0 / 16_777_216.0, 1e-30]);
    if single {
        out.iter_mut().for_each(|v| *v = f64::from(*v as f32));
    }
    out.sort_by(f64::total_cmp);
    out.dedup();
    out
}

/// The other attributes, of which the order must not make anything unequal unordered.
const LOOKS: [((u8, u8, u8), (u32, u32)); 5] = [
    ((0, 0, 0), (0, 0)),
    ((255, 255, 255), (7, 3)),
    ((0, 0, 1), (0, 0)),
    ((0, 0, 0), (3, 7)),
    ((0, 0, 0), (u32::MAX, 0)),
];

type Look = ((u8, u8, u8), (u32, u32));

/// Looks which a careless packing of the attributes might mix up.
fn looks(tier: Tier) -> Vec<Look> {
    let bytes: &[u8] = tier.pick(&[0, 1, 128, 255], &[0, 1, 2, 127, 128, 254, 255]);
    let words: &[u32] = tier.pick(
        &[0, 1, 255, 256, 65_535, 65_536, 1 << 24, 1 << 31, u32::MAX],
        &[0, 1, 2, 127, 128, 255, 256, 257, 4_095, 4_096, 65_535, 65_536, 65_537, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX - 1, u32::MAX],
    );
    let mut out = Vec::new();
    for r in bytes {
        for g in bytes {
            for b in bytes {
                out.extend([((*r, *g, *b), (0, 0)), ((*r, *g, *b), (1, 256))]);
            }
        }
    }
    for x in words {
        for y in words {
            out.extend([((0, 0, 0), (*x, *y)), ((1, 0, 128), (*x, *y))]);
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}

macro_rules! order {
    ($name:ident, $equal:ident, $float:ty, $single:expr) => {
        /// Swatches of the same share are equal exactly if they look the same.
        fn $equal(tier: Tier) -> Space {
            let looks = looks(tier);
            let n = looks.len() as u64;
            let swatch = |(color, position): Look| -> Swatch<$float> { Swatch { color, position, percentage: 0.25 } };
            let shown = looks.clone();
            Space::new(
                concat!("equality-", stringify!($float)),
                &format!("all pairs of {n} looks, whose colours and coordinates are around the powers of two, at the same share"),
                n * n,
                move |mut i| {
                    let (a, b) = (digit(&mut i, n), i);
                    format!("{:?} and {:?}", shown[a as usize], shown[b as usize])
                },
                move |mut i, cx| {
                    let (x, y) = (looks[digit(&mut i, n) as usize], looks[i as usize]);
                    let (a, b) = (swatch(x), swatch(y));
                    guarded(|| {
                        cx.transitions += 4;
                        cx.nontrivial += u64::from(x != y);
                        cx.outcome(&(x == y, x.0, x.1 .0));
                        cx.trace();
                        if (a == b) != (x == y) || (a != b) == (x == y) {
                            return Err(format!("{a:?} and {b:?}: equality is wrong"));
                        }
                        if a.cmp(&b) != Ordering::Equal && a.cmp(&b) != b.cmp(&a).reverse() || a.partial_cmp(&b) != Some(a.cmp(&b)) {
                            return Err(format!("{a:?} and {b:?}: the order depends on the direction"));
                        }
                        Ok(())
                    })?
                },
            )
        }

        fn $name(tier: Tier) -> Vec<Space> {
            let list = shares(tier.pick(24, 60), $single);
            let n = list.len() as u64;
            let swatch = move |share: f64, look: usize| -> Swatch<$float> {
                Swatch {
                    color: LOOKS[look].0,
                    position: LOOKS[look].1,
                    percentage: share as $float,
                }
            };
            let pair = {
                let list = list.clone();
                let shown = list.clone();
                let looks = LOOKS.len() as u64;
                Space::new(
                    concat!("pairs-", stringify!($float)),
                    &format!("all pairs of {} swatches: {n} shares with {looks} colours and positions", n * looks),
                    n * n * looks * looks,
                    move |mut i| {
                        let (a, b) = (digit(&mut i, n), digit(&mut i, n));
                        format!("shares {} and {}, looks {} and {}", shown[a as usize], shown[b as usize], i % looks, i / looks)
                    },
                    move |mut i, cx| {
                        let (x, y) = (list[digit(&mut i, n) as usize], list[digit(&mut i, n) as usize]);
                        let (lx, ly) = ((i % looks) as usize, (i / looks) as usize);
                        let (a, b) = (swatch(x, lx), swatch(y, ly));
                        guarded(|| {
                            let (ab, ba) = (a.cmp(&b), b.cmp(&a));
                            cx.transitions += 12;
                            cx.nontrivial += u64::from(x != y);
                            cx.outcome(&(ab as i8, lx, ly, x == y));
                            cx.trace();
                            let fail = |what: &str| Err(format!("{a:?} and {b:?}: {what} (compared: {ab:?}, the other way {ba:?})"));
                            if x < y && ab != Ordering::Less || x > y && ab != Ordering::Greater {
                                return fail("not ordered by share");
                            }
                            if ab != ba.reverse() {
                                return fail("the order depends on the direction");
                            }
                            if a.partial_cmp(&b) != Some(ab) {
                                return fail("partial and total order differ");
                            }
                            if (a < b, a <= b, a > b, a >= b) != (ab.is_lt(), ab.is_le(), ab.is_gt(), ab.is_ge()) {
                                return fail("the operators differ from the order");
                            }
                            let equal = x == y && LOOKS[lx] == LOOKS[ly];
                            if (a == b) != equal || (a != b) == equal || (equal && ab != Ordering::Equal) {
                                return fail("equality is wrong");
                            }
                            if a.clone() != a || a.cmp(&a) != Ordering::Equal {
                                return fail("a swatch differs from itself");
                            }
                            let (most, least) = (a.clone().max(b.clone()), a.clone().min(b.clone()));
                            if most.percentage < least.percentage || most.percentage != (x as $float).max(y as $float) {
                                return fail("the greater and the lesser of both are wrong");
                            }
                            Ok(())
                        })?
                    },
                )
            };
            let few: Vec<f64> = [0.0, 0.01, 0.25, 0.25 + 2e-7, 0.5, 1.0].to_vec();
            let shown = few.clone();
            let len = tier.pick(5u32, 6);
            let kinds = few.len() as u64 * 2;
            let sorted = Space::new(
                concat!("sorting-", stringify!($float)),
                &format!("all lists of {len} out of {kinds} swatches of 6 shares and 2 looks, sorted in four ways"),
                kinds.pow(len),
                move |mut i| {
                    let list: Vec<f64> = (0..len).map(|_| shown[digit(&mut i, kinds) as usize / 2]).collect();
                    format!("shares {list:?}")
                },
                move |mut i, cx| {
                    let list: Vec<Swatch<$float>> = (0..len)
                        .map(|_| {
                            let at = digit(&mut i, kinds) as usize;
                            swatch(few[at / 2], at % 2)
                        })
                        .collect();
                    guarded(|| {
                        let mut want: Vec<$float> = list.iter().map(|s| s.percentage).collect();
                        want.sort_by(|a, b| a.total_cmp(b));
                        let mut ways = vec![list.clone(), list.clone()];
                        ways[0].sort();
                        ways[1].sort_unstable();
                        let mut heap: std::collections::BinaryHeap<Swatch<$float>> = list.iter().cloned().collect();
                        let mut popped = Vec::new();
                        while let Some(s) = heap.pop() {
                            popped.insert(0, s);
                        }
                        ways.push(popped);
                        let mut reversed = list.clone();
                        reversed.sort_by(|a, b| b.cmp(a));
                        reversed.reverse();
                        ways.push(reversed);
                        cx.transitions += 4;
                        cx.nontrivial += 1;
                        cx.trace();
                        cx.outcome(&want.iter().map(|w| (w * 1000.0) as u64).collect::<Vec<_>>());
                        for way in &ways {
                            let got: Vec<$float> = way.iter().map(|s| s.percentage).collect();
                            if got != want {
                                return Err(format!("{list:?} are sorted to the shares {got:?}"));
                            }
                        }
                        let greatest = list.iter().max().map(|s| s.percentage);
                        if greatest != want.last().copied() {
                            return Err(format!("the greatest of {list:?} has share {greatest:?}"));
                        }
                        Ok(())
                    })?
                },
            );
            vec![pair, sorted, $equal(tier)]
        }
    };
}

order!(single, equal_single, f32, true);
order!(double, equal_double, f64, false);

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    if id != "P11" {
        return None;
    }
    let mut list = double(tier);
    list.extend(single(tier));
    Some(list)
}
