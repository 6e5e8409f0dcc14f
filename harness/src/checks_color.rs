//! C01 to C04: colour conversions, exhaustively over all 24-bit colours and lattices of L*a*b* and
//! XYZ.

use crate::engine::{Cx, Space, Tier, Verdict};
use crate::refm;
use auto_palette::verif::color::*;
use auto_palette::verif::Float;

/// What the checks need of a precision.
pub trait Real: Float + Into<f64> + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// Relative rounding error a few operations may add up to.
    const SLACK: f64;
    fn of(value: f64) -> Self {
        Self::from_f64(value)
    }
}

impl Real for f64 {
    const NAME: &'static str = "f64";
    const SLACK: f64 = 1e-13;
}

impl Real for f32 {
    const NAME: &'static str = "f32";
    const SLACK: f64 = 1e-6;
}

fn wide<F: Real>(v: [F; 3]) -> [f64; 3] {
    v.map(Into::into)
}

type Judge = fn([u8; 3], &mut Cx) -> Verdict;

/// All 24-bit colours, 256 to a case.
fn all_colors<F: Real>(judge: Judge) -> Space {
    Space::new(
        F::NAME,
        "all 16,777,216 colours, 256 to a case",
        1 << 16,
        |index| format!("{} colours ({}, {}, 0..=255)", F::NAME, index >> 8, index & 255),
        move |index, cx| {
            for b in 0..=255 {
                judge([(index >> 8) as u8, index as u8, b], cx)?;
            }
            cx.inner_states += 255;
            cx.nontrivial += 1;
            cx.outcome(&index);
            Ok(())
        },
    )
}

// --- C01 ----------------------------------------------------------------------------------------

fn lossless<F: Real>(rgb: [u8; 3], cx: &mut Cx) -> Verdict {
    let [r, g, b] = rgb;
    // Any alpha will do; conversions to XYZ drop it.
    let xyz: [F; 3] = rgba_to_xyz([r, g, b, 255]);
    let back = xyz_to_rgba(xyz);
    cx.step();
    if back[..3] != rgb {
        return Err(format!("{} {rgb:?} to XYZ {xyz:?} and back is {back:?}", F::NAME));
    }
    let lab = xyz_to_lab(xyz);
    let back = xyz_to_rgba(lab_to_xyz(lab));
    cx.step();
    if back[..3] != rgb {
        return Err(format!("{} {rgb:?} to L*a*b* {lab:?} and back is {back:?}", F::NAME));
    }
    cx.trace();
    Ok(())
}

// --- C02 ----------------------------------------------------------------------------------------

const XYZ_MAX: [f64; 3] = [0.950456, 1.0, 1.088644];
const LAB_MIN: [f64; 3] = [0.0, -128.0, -128.0];
const LAB_MAX: [f64; 3] = [100.0, 127.0, 127.0];
/// Less than a hundredth of an 8-bit step: constants of the code are rounded to six digits.
const XYZ_TOLERANCE: f64 = 6e-6;
const LAB_TOLERANCE: f64 = 0.003;

fn defined<F: Real>(rgb: [u8; 3], cx: &mut Cx) -> Verdict {
    let [r, g, b] = rgb;
    let raw: [F; 3] = rgba_to_xyz([r, g, b, 255]);
    let raw_lab = xyz_to_lab(raw);
    let (xyz, lab) = (wide(raw), wide(raw_lab));
    cx.step();
    let want = refm::xyz_of(rgb);
    let want_lab = refm::lab_of(rgb);
    let fail = |what: &str| {
        Err(format!(
            "{} {rgb:?}: {what}: XYZ {xyz:?}, L*a*b* {lab:?}; by definition {want:?}, {want_lab:?}",
            F::NAME
        ))
    };
    for k in 0..3 {
        // White's z exceeds the declared range by 4e-4 and is clamped to it.
        let clamped = want[k].clamp(0.0, XYZ_MAX[k]);
        let over = want[k] - clamped;
        if !((xyz[k] - clamped).abs() <= XYZ_TOLERANCE + over) {
            return fail("XYZ is off");
        }
        // That shift of z shows in b*.
        let shift = if k == 2 { 200.0 / 3.0 * (want[2] - XYZ_MAX[2]).max(0.0) } else { 0.0 };
        if !((lab[k] - want_lab[k]).abs() <= LAB_TOLERANCE + shift) {
            return fail("L*a*b* is off");
        }
        if !(xyz[k] >= 0.0 && xyz[k] <= XYZ_MAX[k] + 1e-6) {
            return fail("XYZ is out of range");
        }
        if !(lab[k] >= LAB_MIN[k] && lab[k] <= LAB_MAX[k]) {
            return fail("L*a*b* is out of range");
        }
    }
    if r == g && g == b && (lab[1].abs() > 0.03 || lab[2].abs() > 0.03) {
        return fail("a grey has a tint");
    }
    for k in 0..3 {
        let mut brighter = [r, g, b, 255];
        if brighter[k] == 255 {
            continue;
        }
        brighter[k] += 1;
        let other: [F; 3] = rgba_to_xyz(brighter);
        let other_lab = xyz_to_lab(other);
        cx.step();
        if other[1] < raw[1] || other_lab[0] < raw_lab[0] {
            return fail(&format!("brightening channel {k} lowers luminance or lightness"));
        }
    }
    cx.trace();
    Ok(())
}

fn alphas<F: Real>(levels: u64) -> Space {
    Space::new(
        &format!("{}-alpha", F::NAME),
        &format!("every alpha for each colour of the lattice of {levels} levels per channel"),
        levels.pow(3),
        move |index| format!("{} {:?}", F::NAME, lattice(index, levels)),
        move |index, cx| {
            let [r, g, b] = lattice(index, levels);
            let opaque: [F; 3] = rgba_to_xyz([r, g, b, 255]);
            for alpha in 0..=255 {
                let xyz: [F; 3] = rgba_to_xyz([r, g, b, alpha]);
                cx.step();
                if xyz != opaque {
                    return Err(format!("{} {:?}: {xyz:?} with alpha {alpha}, opaque {opaque:?}", F::NAME, [r, g, b]));
                }
            }
            cx.trace();
            cx.nontrivial += 1;
            cx.outcome(&index);
            Ok(())
        },
    )
}

fn lattice(mut index: u64, levels: u64) -> [u8; 3] {
    [0; 3].map(|_: u8| (crate::engine::digit(&mut index, levels) * 255 / (levels - 1)) as u8)
}

// --- C03 ----------------------------------------------------------------------------------------

/// Check one L*a*b* value, inside or outside of the declared range.
fn displayable<F: Real>(lab: [f64; 3], cx: &mut Cx) -> Verdict {
    let got = xyz_to_rgba(lab_to_xyz(lab.map(F::of)));
    cx.step();
    let mut inside = lab;
    for k in 0..3 {
        inside[k] = inside[k].clamp(LAB_MIN[k], LAB_MAX[k]);
    }
    let fail = |what: &str| Err(format!("{} L*a*b* {lab:?} gives {got:?}: {what}", F::NAME));
    if got[3] != 255 {
        return fail("it is not opaque");
    }
    if inside != lab {
        let clamped = xyz_to_rgba(lab_to_xyz(inside.map(F::of)));
        cx.step();
        if clamped != got {
            return fail(&format!("clamped to the range of L*a*b* it gives {clamped:?}"));
        }
    }
    // Out of gamut, XYZ may or may not have been clamped to its range on the way.
    let (direct, in_gamut) = refm::rgb_of_lab(inside);
    let mut xyz = refm::xyz_of_lab(inside);
    for k in 0..3 {
        xyz[k] = xyz[k].clamp(0.0, XYZ_MAX[k]);
    }
    let by_xyz = refm::linear_rgb_of_xyz(xyz).map(refm::encode);
    for k in 0..3 {
        let (a, b) = (direct[k].clamp(0.0, 255.0), by_xyz[k].clamp(0.0, 255.0));
        let channel = f64::from(got[k]);
        let within = if in_gamut {
            (channel - a).abs() <= 1.0
        } else {
            channel >= a.min(b) - 1.0 && channel <= a.max(b) + 1.0
        };
        if !within {
            return fail(&format!("channel {k} should be {a:.2} ({b:.2} by way of the XYZ range; in gamut: {in_gamut})"));
        }
    }
    if in_gamut {
        cx.nontrivial += 1;
    }
    cx.outcome(&got);
    cx.trace();
    Ok(())
}

fn lab_lattice<F: Real>(step: f64) -> Space {
    let ls = (100.0 / step) as u64 + 1;
    let abs = (255.0 / step) as u64 + 1;
    let at = move |index: u64| (index % ls) as f64 * step;
    let ab = move |index: u64| index as f64 * step - 128.0;
    Space::new(
        &format!("{}-lattice", F::NAME),
        &format!("all L*a*b* values of the declared range in steps of {step}, one line in b* to a case"),
        ls * abs,
        move |index| format!("{} L* {}, a* {}, all b*", F::NAME, at(index), ab(index / ls)),
        move |index, cx| {
            for b in 0..abs {
                displayable::<F>([at(index), ab(index / ls), ab(b)], cx)?;
            }
            cx.inner_states += abs - 1;
            Ok(())
        },
    )
}

fn lab_beyond<F: Real>() -> Space {
    const L: [f64; 13] = [-1e30, -1000.0, -50.0, -1.0, -0.001, 0.0, 37.5, 100.0, 100.001, 101.0, 128.0, 1000.0, 1e30];
    const AB: [f64; 17] = [
        -1e30, -1000.0, -256.0, -129.0, -128.001, -128.0, -64.5, -1.0, 0.0, 1.0, 64.5, 127.0, 127.001, 128.0, 255.0, 1000.0, 1e30,
    ];
    Space::new(
        &format!("{}-beyond", F::NAME),
        "all combinations of 13 values of L* and 17 of a* and b* at, around and far beyond the bounds",
        13 * 17 * 17,
        |mut i| {
            let l = L[crate::engine::digit(&mut i, 13) as usize];
            format!("{} L*a*b* ({l}, {}, {})", F::NAME, AB[(i % 17) as usize], AB[(i / 17) as usize])
        },
        |mut i, cx| {
            let l = L[crate::engine::digit(&mut i, 13) as usize];
            displayable::<F>([l, AB[(i % 17) as usize], AB[(i / 17) as usize]], cx)
        },
    )
}

/// Values off the even lattice, and many dark ones, where the curve of the lightness is straight.
fn lab_uneven<F: Real>(tier: Tier) -> Space {
    let count = tier.pick(64u64, 256);
    // The last values are the bounds themselves.
    let l = move |i: u64| if i < 60 { i as f64 * 0.171 } else { (10.3 + (i - 60) as f64 * 1.3711).min(100.0) };
    let ab = move |i: u64| (-127.93 + i as f64 * 255.0 / (count as f64 - 1.3)).min(127.0);
    Space::new(
        &format!("{}-uneven", F::NAME),
        &format!("126 lightnesses, 60 of them below 10.3, and {count} uneven values each of a* and b*, one line in b* to a case"),
        126 * count,
        move |index| format!("{} L* {}, a* {}, all b*", F::NAME, l(index % 126), ab(index / 126)),
        move |index, cx| {
            for b in 0..count {
                displayable::<F>([l(index % 126), ab(index / 126), ab(b)], cx)?;
            }
            cx.inner_states += count - 1;
            Ok(())
        },
    )
}

// --- C04 ----------------------------------------------------------------------------------------

/// Check one XYZ value, inside or outside of the declared range.
fn tristimulus<F: Real>(xyz: [f64; 3], cx: &mut Cx) -> Verdict {
    let given = xyz.map(F::of);
    let raw = xyz_to_lab(given);
    let lab = wide(raw);
    let rgba = xyz_to_rgba(given);
    cx.transitions += 2;
    let mut inside = xyz;
    for k in 0..3 {
        inside[k] = inside[k].clamp(0.0, XYZ_MAX[k]);
    }
    let want = refm::lab_of_xyz(inside);
    let fail = |what: &str| {
        Err(format!("{} XYZ {xyz:?} gives L*a*b* {lab:?} and {rgba:?}: {what}; by definition {want:?}", F::NAME))
    };
    // Rounding of the precision, before the differences which a* and b* are.
    let slack = 200.0 * F::SLACK;
    let mut representable = true;
    for k in 0..3 {
        let clamped = want[k].clamp(LAB_MIN[k], LAB_MAX[k]);
        if !((lab[k] - clamped).abs() <= LAB_TOLERANCE + slack) {
            return fail("L*a*b* is off");
        }
        if !(lab[k] >= LAB_MIN[k] && lab[k] <= LAB_MAX[k]) {
            return fail("L*a*b* is out of range");
        }
        representable &= want[k] > LAB_MIN[k] + 0.01 - f64::from(u8::from(k == 0)) && want[k] < LAB_MAX[k] - 0.01 + f64::from(u8::from(k == 0));
    }
    if representable {
        let back = wide(lab_to_xyz(raw));
        cx.step();
        for k in 0..3 {
            if !((back[k] - inside[k]).abs() <= 1e-9 + 3.0 * F::SLACK) {
                return fail(&format!("converted back it is {back:?}"));
            }
        }
        cx.nontrivial += 1;
    }
    if inside != xyz {
        let clamped = inside.map(F::of);
        cx.transitions += 2;
        if xyz_to_lab(clamped) != raw || xyz_to_rgba(clamped) != rgba {
            return fail("clamped to the range of XYZ it gives another colour");
        }
    }
    if rgba[3] != 255 {
        return fail("it is not opaque");
    }
    let channels = refm::linear_rgb_of_xyz(inside).map(refm::encode);
    for k in 0..3 {
        if !((f64::from(rgba[k]) - channels[k].clamp(0.0, 255.0)).abs() <= 1.0) {
            return fail(&format!("channel {k} should be {:.2}", channels[k]));
        }
    }
    cx.outcome(&rgba);
    cx.trace();
    Ok(())
}

fn xyz_lattice<F: Real>(steps: u64) -> Space {
    let at = move |k: usize, i: u64| XYZ_MAX[k] * i as f64 / steps as f64;
    let side = steps + 1;
    Space::new(
        &format!("{}-xyz-lattice", F::NAME),
        &format!("all XYZ values of the declared range in {steps} steps each, one line in Z to a case"),
        side * side,
        move |i| format!("{} X {}, Y {}, all Z", F::NAME, at(0, i % side), at(1, i / side)),
        move |i, cx| {
            for z in 0..side {
                tristimulus::<F>([at(0, i % side), at(1, i / side), at(2, z)], cx)?;
            }
            cx.inner_states += side - 1;
            Ok(())
        },
    )
}

/// Values in a geometric progression to very dark ones, and at, around and beyond the bounds.
fn xyz_uneven<F: Real>(dark: u64) -> Space {
    let mut values: Vec<f64> = (0..dark).map(|i| 1.08 * (-0.1 * i as f64).exp2()).collect();
    let bend = (6.0f64 / 29.0).powi(3);
    values.extend([bend, bend * 0.9999, bend * 1.0001, 0.0031308, 0.0, -0.0]);
    values.extend([-1e-9, -0.01, -1.0, -1e30, 0.95, 0.950456, 0.95046, 0.951, 1.0, 1.0000001, 1.088644, 1.08906, 1.1, 2.0, 1e30]);
    let n = values.len() as u64;
    let shown = values.clone();
    Space::new(
        &format!("{}-xyz-uneven", F::NAME),
        &format!("all combinations of {n} values of X, Y and Z, {dark} of them in a geometric progression, the others at, around and far beyond the bounds; one line in Z to a case"),
        n * n,
        move |i| format!("{} X {}, Y {}, all Z", F::NAME, shown[(i % n) as usize], shown[(i / n) as usize]),
        move |i, cx| {
            for z in &values {
                tristimulus::<F>([values[(i % n) as usize], values[(i / n) as usize], *z], cx)?;
            }
            cx.inner_states += n - 1;
            Ok(())
        },
    )
}

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    match id {
        "C01" => Some(vec![
            all_colors::<f64>(lossless::<f64>),
            all_colors::<f32>(lossless::<f32>),
        ]),
        "C02" => Some(vec![
            all_colors::<f64>(defined::<f64>),
            all_colors::<f32>(defined::<f32>),
            alphas::<f64>(tier.pick(16, 52)),
            alphas::<f32>(tier.pick(16, 52)),
        ]),
        "C03" => Some(vec![
            lab_beyond::<f64>(),
            lab_beyond::<f32>(),
            lab_uneven::<f64>(tier),
            lab_uneven::<f32>(tier),
            lab_lattice::<f64>(tier.pick(0.5, 0.25)),
            lab_lattice::<f32>(tier.pick(0.5, 0.25)),
        ]),
        "C04" => Some(vec![
            xyz_uneven::<f64>(tier.pick(140, 400)),
            xyz_uneven::<f32>(tier.pick(140, 400)),
            xyz_lattice::<f64>(tier.pick(128, 400)),
            xyz_lattice::<f32>(tier.pick(128, 400)),
        ]),
        _ => None,
    }
}
