//! P01 to P05 and P07 to P10: the palette, judged through the public API alone.

use crate::engine::{digit, guarded, Cx, Space, Tier, Verdict};
use crate::families::{self as fam, Family};
use crate::palette::*;

type Judge = fn(&Img, Prec, &mut Cx) -> Verdict;

/// Judge every image of a family in both precisions.
fn over(family: Family, judge: Judge) -> Space {
    let Family {
        name,
        bound,
        size,
        make,
    } = family;
    let make = std::rc::Rc::new(make);
    let make2 = make.clone();
    let split = |index: u64| (index / 2, PRECS[(index % 2) as usize]);
    Space::new(
        name,
        &format!("{bound}; both precisions"),
        size * 2,
        move |index| {
            let (index, prec) = split(index);
            format!("{prec:?} {}", make(index).describe())
        },
        move |index, cx| {
            let (index, prec) = split(index);
            judge(&make2(index), prec, cx)
        },
    )
}

fn observe(got: &[Sw], cx: &mut Cx) {
    cx.step();
    let bits: Vec<_> = got.iter().map(Sw::bits).collect();
    cx.outcome(&bits);
    if !got.is_empty() {
        cx.nontrivial += 1;
    }
}

// --- P01 ----------------------------------------------------------------------------------------

fn total(img: &Img, prec: Prec, cx: &mut Cx) -> Verdict {
    let got = extract(img, prec)?;
    observe(&got, cx);
    cx.trace();
    Ok(())
}

// --- P02, P03, P10: against the reference model ---------------------------------------------------

/// Call `judge` with the members of the groups for each way the undecided pixels may fall; it is
/// enough that one way fits. `None` when there are too many ways.
fn any_way(expected: &Expected, judge: &dyn Fn(&[Vec<usize>]) -> bool) -> Option<bool> {
    let mut ways: u64 = 1;
    for (_, choices) in &expected.undecided {
        ways = ways.saturating_mul(choices.len() as u64);
    }
    if ways > 256 {
        return None;
    }
    for way in 0..ways {
        let mut rest = way;
        let mut groups: Vec<Vec<usize>> =
            expected.groups.iter().map(|g| g.members.clone()).collect();
        for (pixel, choices) in &expected.undecided {
            let choice = digit(&mut rest, choices.len() as u64) as usize;
            groups[choices[choice]].push(*pixel);
        }
        if judge(&groups) {
            return Some(true);
        }
    }
    Some(false)
}

fn tell(expected: &Expected, img: &Img, got: &[Sw]) -> String {
    let groups: Vec<String> = expected
        .groups
        .iter()
        .take(12)
        .map(|g| {
            let look = expected.look(img, &g.members);
            format!(
                "[colour ({:.1}, {:.1}, {:.1}) at ({:.2}, {:.2}) with {} pixels]",
                look.color[0], look.color[1], look.color[2], look.mean.0, look.mean.1, g.members.len()
            )
        })
        .collect();
    let n = img.px.len() as f64;
    let swatches: Vec<String> = got
        .iter()
        .take(12)
        .map(|s| format!("[{:?} at {:?} with {:.3} pixels]", s.color, s.position, s.share * n))
        .collect();
    format!(
        "expected {} groups: {} and {} undecided border pixels; got {} swatches: {}",
        expected.groups.len(),
        groups.join(" "),
        expected.undecided.len(),
        got.len(),
        swatches.join(" ")
    )
}

fn with_reference(
    img: &Img,
    prec: Prec,
    cx: &mut Cx,
    fits: &dyn Fn(&Expected, &[Sw]) -> Option<bool>,
    what: &str,
) -> Verdict {
    let expected = expect(img, prec);
    let got = extract(img, prec)?;
    observe(&got, cx);
    if expected.ambiguous {
        cx.ambiguous += 1;
        return Ok(());
    }
    if got.len() != expected.groups.len() {
        return Err(format!("the number of swatches is wrong: {}", tell(&expected, img, &got)));
    }
    match fits(&expected, &got) {
        Some(true) => cx.trace(),
        Some(false) => return Err(format!("{what}: {}", tell(&expected, img, &got))),
        None => {
            // Too many ways: hold every swatch to the bounds which all ways share.
            let n = img.px.len();
            let ok = matching(got.len(), |s, g| {
                let low = expected.groups[g].members.len();
                let high = low
                    + expected
                        .undecided
                        .iter()
                        .filter(|(_, choices)| choices.contains(&g))
                        .count();
                (low..=high).any(|m| share_ok(got[s].share, m, n, prec))
            });
            if !ok {
                return Err(format!("{what}: {}", tell(&expected, img, &got)));
            }
            cx.trace();
        }
    }
    Ok(())
}

/// P02: the number of swatches and the pixels which count towards them.
fn grouping(img: &Img, prec: Prec, cx: &mut Cx) -> Verdict {
    let n = img.px.len();
    with_reference(
        img,
        prec,
        cx,
        &|expected, got| {
            any_way(expected, &|groups| {
                matching(got.len(), |s, g| share_ok(got[s].share, groups[g].len(), n, prec))
            })
        },
        "the shares do not fit the groups",
    )
}

/// P03: colour, position and share of each swatch come from one group.
fn coherent(img: &Img, prec: Prec, cx: &mut Cx) -> Verdict {
    let n = img.px.len();
    with_reference(
        img,
        prec,
        cx,
        &|expected, got| {
            any_way(expected, &|groups| {
                let looks: Vec<Look> = groups.iter().map(|g| expected.look(img, g)).collect();
                matching(got.len(), |s, g| {
                    share_ok(got[s].share, groups[g].len(), n, prec)
                        && color_ok(got[s].color, &looks[g])
                        && position_ok(got[s].position, &looks[g], img, prec)
                })
            })
        },
        "no group has this colour, position and share",
    )
}

// --- P04 ----------------------------------------------------------------------------------------

fn shares(img: &Img, prec: Prec, cx: &mut Cx) -> Verdict {
    let got = extract(img, prec)?;
    observe(&got, cx);
    let n = img.px.len() as f64;
    let mut sum = 0.0;
    let mut pixels_sum = 0.0;
    for s in &got {
        if !(s.share > 0.0 && s.share <= 1.0) {
            return Err(format!("a share is not in (0, 1]: {s:?}"));
        }
        let pixels = s.share * n;
        let tolerance = match prec {
            Prec::F64 => 1e-7,
            Prec::F32 => 1e-2,
        };
        if (pixels - pixels.round()).abs() > tolerance || pixels.round() < 1.0 {
            return Err(format!("a share is not a whole number of {n} pixels: {s:?}"));
        }
        sum += s.share;
        pixels_sum += pixels.round();
    }
    if sum > 1.0 + 1e-6 || pixels_sum > n {
        return Err(format!("the shares add up to {sum}: {got:?}"));
    }
    if let Some(at) = got.windows(2).position(|p| p[0].share > p[1].share) {
        return Err(format!("swatch {at} has a greater share than the next one: {got:?}"));
    }
    cx.trace();
    Ok(())
}

// --- P07 ----------------------------------------------------------------------------------------

fn positions(img: &Img, prec: Prec, cx: &mut Cx) -> Verdict {
    let expected = expect(img, prec);
    let got = extract(img, prec)?;
    observe(&got, cx);
    for s in &got {
        if s.position.0 >= img.w || s.position.1 >= img.h {
            return Err(format!("{s:?} lies outside the image of {}x{}", img.w, img.h));
        }
    }
    let flipped_img = img.transposed();
    let flipped = extract(&flipped_img, prec)?;
    cx.step();
    for s in &flipped {
        if s.position.0 >= img.h || s.position.1 >= img.w {
            return Err(format!("{s:?} lies outside the transposed image of {}x{}", img.h, img.w));
        }
    }
    if expected.ambiguous {
        cx.ambiguous += 1;
        return Ok(());
    }
    let n = img.px.len();
    if !expected.undecided.is_empty() || got.len() != expected.groups.len() {
        // Which group a swatch is about is for P02 and P03 to judge.
        cx.trace();
        return Ok(());
    }
    // Inside the bounding box of a group of that size, give or take a pixel.
    let looks: Vec<Look> = expected
        .groups
        .iter()
        .map(|g| expected.look(img, &g.members))
        .collect();
    let inside = |p: u32, low: u32, high: u32| i64::from(p) >= i64::from(low) - 1 && p <= high + 1;
    for s in &got {
        let fits = expected.groups.iter().zip(&looks).any(|(g, look)| {
            (share_ok(s.share, g.members.len(), n, prec) || color_ok(s.color, look))
                && inside(s.position.0, look.low.0, look.high.0)
                && inside(s.position.1, look.low.1, look.high.1)
        });
        // A swatch of neither the size nor the colour of any group is for P03 to judge.
        let known = expected
            .groups
            .iter()
            .zip(&looks)
            .any(|(g, look)| share_ok(s.share, g.members.len(), n, prec) || color_ok(s.color, look));
        if known && !fits {
            return Err(format!("a swatch lies outside its pixels: {}", tell(&expected, img, &got)));
        }
    }
    let close = |a: u32, b: u32| a.abs_diff(b) <= 1;
    if got.len() != flipped.len()
        || !matching(got.len(), |a, b| {
            let (a, b) = (&got[a], &flipped[b]);
            (a.share - b.share).abs() < 1e-6
                && close(a.position.0, b.position.1)
                && close(a.position.1, b.position.0)
        })
    {
        return Err(format!("transposing the image does not transpose the positions: {got:?} and {flipped:?}"));
    }
    cx.trace();
    Ok(())
}

// --- P08 ----------------------------------------------------------------------------------------

/// Alpha patterns: opaque is compared with each of them.
fn alpha_spaces(tier: Tier) -> Vec<Space> {
    const PATTERNS: u64 = 8;
    fn alpha(pattern: u64, i: usize, n: usize) -> u8 {
        match pattern {
            0 => 0,
            1 => 1,
            2 => 254,
            3 => 128,
            4 => (i % 256) as u8,
            5 => {
                if i % 2 == 0 {
                    0
                } else {
                    255
                }
            }
            6 => {
                if i < n / 3 {
                    0
                } else {
                    255
                }
            }
            _ => {
                if i % 37 == 5 {
                    0
                } else {
                    255
                }
            }
        }
    }
    let families = vec![
        fam::segments(tier.pick(2, 3), tier.pick(&[25, 60], &[12, 25, 60])),
        fam::lengths(481, tier.pick(600, 1200), 7),
        fam::orders(),
        fam::uniform(tier.pick(3, 9)),
        fam::tiny(tier.pick(3, 4)),
    ];
    fn faded(img: &Img, alpha: impl Fn(usize) -> u8) -> Img {
        let mut img = img.clone();
        for (i, p) in img.px.iter_mut().enumerate() {
            p[3] = alpha(i);
        }
        img
    }
    fn same(img: &Img, other: &Img, prec: Prec, cx: &mut Cx) -> Verdict {
        let got = extract(img, prec)?;
        let faded = extract(other, prec)?;
        observe(&got, cx);
        cx.step();
        if got != faded {
            return Err(format!("opaque: {got:?}; with this alpha: {faded:?}"));
        }
        cx.trace();
        Ok(())
    }
    let mut spaces: Vec<Space> = families
        .into_iter()
        .map(|Family { name, bound, size, make }| {
            let make = std::rc::Rc::new(make);
            let make2 = make.clone();
            Space::new(
                name,
                &format!("{bound}; 8 patterns of alpha values; both precisions"),
                size * 2 * PATTERNS,
                move |mut index| {
                    let pattern = digit(&mut index, PATTERNS);
                    let prec = PRECS[digit(&mut index, 2) as usize];
                    format!("{prec:?} alpha pattern {pattern} {}", make(index).describe())
                },
                move |mut index, cx| {
                    let pattern = digit(&mut index, PATTERNS);
                    let prec = PRECS[digit(&mut index, 2) as usize];
                    let img = make2(index);
                    let n = img.px.len();
                    same(&img, &faded(&img, |i| alpha(pattern, i, n)), prec, cx)
                },
            )
        })
        .collect();

    let image = |which: u64| match which {
        0 => history_image(2),
        1 => twin(0),
        2 => (fam::shapes(Tier::Quick).make)(3),
        _ => (fam::patches(1, 2).make)(1 + 3 * (14 + 31 * 16)),
    };
    spaces.push(Space::new(
        "alpha-values",
        "4 images, all of whose pixels have one alpha value, every value; or every second pixel, the others opaque; both precisions",
        4 * 256 * 2 * 2,
        move |mut index| {
            let prec = PRECS[digit(&mut index, 2) as usize];
            let every = 1 + digit(&mut index, 2);
            let value = digit(&mut index, 256);
            format!("{prec:?} alpha {value} in every {every}. pixel of {}", image(index).describe())
        },
        move |mut index, cx| {
            let prec = PRECS[digit(&mut index, 2) as usize];
            let every = 1 + digit(&mut index, 2) as usize;
            let value = digit(&mut index, 256) as u8;
            let img = image(index);
            same(&img, &faded(&img, |i| if i % every == 0 { value } else { 255 }), prec, cx)
        },
    ));
    let step = tier.pick(3u64, 1);
    spaces.push(Space::new(
        "single-pixels",
        &format!("4 images with one pixel of alpha 0, 1 or 254, every {step}. pixel; both precisions"),
        4 * 3 * 530 / step * 2,
        move |mut index| {
            let prec = PRECS[digit(&mut index, 2) as usize];
            let value = [0, 1, 254][digit(&mut index, 3) as usize];
            let which = digit(&mut index, 4);
            format!("{prec:?} alpha {value} at pixel {} of {}", index * step, image(which).describe())
        },
        move |mut index, cx| {
            let prec = PRECS[digit(&mut index, 2) as usize];
            let value = [0, 1, 254][digit(&mut index, 3) as usize];
            let img = image(digit(&mut index, 4));
            let at = (index * step) as usize;
            same(&img, &faded(&img, |i| if i == at { value } else { 255 }), prec, cx)
        },
    ));
    let Family { bound, size, make, .. } = fam::large(tier);
    let make = std::rc::Rc::new(make);
    let make2 = make.clone();
    spaces.push(Space::new(
        "large",
        &format!("{bound}; 2 patterns of alpha values; both precisions"),
        size * 2 * 2,
        move |mut index| {
            let pattern = [0, 6][digit(&mut index, 2) as usize];
            let prec = PRECS[digit(&mut index, 2) as usize];
            format!("{prec:?} alpha pattern {pattern} {}", make(index).describe())
        },
        move |mut index, cx| {
            let pattern = [0, 6][digit(&mut index, 2) as usize];
            let prec = PRECS[digit(&mut index, 2) as usize];
            let img = make2(index);
            let n = img.px.len();
            same(&img, &faded(&img, |i| alpha(pattern, i, n)), prec, cx)
        },
    ));
    spaces
}

// --- P09 ----------------------------------------------------------------------------------------

fn uniform(img: &Img, prec: Prec, cx: &mut Cx) -> Verdict {
    let got = extract(img, prec)?;
    observe(&got, cx);
    if img.w > 1 && img.h > 1 {
        // Narrow images fall into several groups, one for each column or row.
        let expected = expect(img, prec);
        let whole = expected.groups.len() == 1 && expected.groups[0].members.len() == img.px.len();
        if expected.ambiguous || !whole {
            cx.ambiguous += u64::from(expected.ambiguous);
            return Ok(());
        }
    }
    let want = img.px[0];
    let [s] = got.as_slice() else {
        return Err(format!("not exactly one swatch: {got:?}"));
    };
    if s.color != (want[0], want[1], want[2]) {
        return Err(format!("the colour is {:?}", s.color));
    }
    if (s.share - 1.0).abs() > 1e-6 {
        return Err(format!("the share is {}", s.share));
    }
    let center = |p: u32, n: u32| (f64::from(p) - (f64::from(n) - 1.0) / 2.0).abs() <= 1.0;
    if !center(s.position.0, img.w) || !center(s.position.1, img.h) {
        return Err(format!("the position is {:?}", s.position));
    }
    cx.trace();
    Ok(())
}

/// Three times eight groups of one colour each: a colour below 128 in all channels and what becomes
/// of it when 128 is added to some of them.
fn octet_colors(first: u64, stride: u64) -> Vec<[u8; 3]> {
    let mut colors = Vec::with_capacity(24);
    for octet in 0..3 {
        let v = (first + octet * stride).min((1 << 21) - 1);
        for mask in 0..8u64 {
            let channel = |c: u64| ((v >> (7 * c) & 127) | (mask >> c & 1) << 7) as u8;
            colors.push([channel(0), channel(1), channel(2)]);
        }
    }
    colors
}

fn octets(colors: &[[u8; 3]], prec: Prec, cx: &mut Cx) -> Verdict {
    let px: Vec<[u8; 3]> = colors.iter().flat_map(|c| [*c; 25]).collect();
    let mut got = extract(&Img::strip(&px, true), prec)?;
    observe(&got, cx);
    got.sort_by_key(|s| s.position);
    for (at, color) in colors.iter().enumerate() {
        let want = 12 + 25 * at as u32;
        let Some(s) = got.get(at).filter(|s| s.position.0.abs_diff(want) <= 1 && s.position.1 == 0) else {
            return Err(format!("no swatch for {color:?}, pixels {} to {}: {got:?}", 25 * at, 25 * at + 24));
        };
        if s.color != (color[0], color[1], color[2]) {
            return Err(format!("the group of {color:?}, pixels {} to {}, is shown as {:?}", 25 * at, 25 * at + 24, s.color));
        }
    }
    if got.len() != colors.len() {
        return Err(format!("{} swatches for {} groups", got.len(), colors.len()));
    }
    cx.trace();
    Ok(())
}

fn octet_spaces(tier: Tier) -> Vec<Space> {
    const ALL: u64 = 1 << 21;
    let space = |name, bound: String, size: u64, first: fn(u64) -> u64, stride: u64, precs: u64| {
        Space::new(
            name,
            &format!("strips of 600 pixels in 24 groups of one colour each: {bound}; the other colours are the same with 128 added to some channels"),
            size * precs,
            move |index| format!("{:?} {:?}", PRECS[(index % precs) as usize], octet_colors(first(index / precs), stride)),
            move |index, cx| octets(&octet_colors(first(index / precs), stride), PRECS[(index % precs) as usize], cx),
        )
    };
    match tier {
        Tier::Quick => vec![
            space("corners", "every colour whose channels are all below 16 or at least 112 and below 128; f64 and f32".into(), (32u64).pow(3), |d| {
                let channel = |c: u64| {
                    let d = d >> (5 * c) & 31;
                    (if d < 16 { d } else { 96 + d }) << (7 * c)
                };
                channel(0) | channel(1) | channel(2)
            }, 40_009, 2),
            space("octets", "every 31st colour below 128 in all channels; f64".into(), ALL / 31 / 3, |i| i * 93, 31, 1),
        ],
        Tier::Thorough => vec![space(
            "octets",
            "every colour below 128 in all channels, so all 16,777,216 colours; f64 and f32".into(),
            ALL.div_ceil(3),
            |i| i * 3,
            1,
            2,
        )],
    }
}

fn uniform_shapes(tier: Tier) -> Family {
    let mut shapes: Vec<(u32, u32)> = Vec::new();
    for len in (530..=tier.pick(900, 2600)).step_by(tier.pick(37, 13)) {
        shapes.push((1, len));
        shapes.push((len, 1));
    }
    shapes.extend(tier.pick(
        vec![(2, 530), (640, 5), (41, 211), (117, 121), (61, 201)],
        vec![(2, 530), (640, 5), (41, 211), (211, 41), (117, 121), (61, 201), (150, 150), (33, 500), (400, 50), (200, 200), (257, 181)],
    ));
    const COLORS: [[u8; 3]; 6] = [
        [255, 255, 255],
        [0, 0, 0],
        [0, 0, 255],
        [255, 255, 0],
        [1, 2, 3],
        [187, 99, 4],
    ];
    Family {
        name: "uniform-shapes",
        bound: format!("uniform images of {} shapes in 6 colours", shapes.len()),
        size: shapes.len() as u64 * 6,
        make: Box::new(move |mut index| {
            let color = COLORS[digit(&mut index, 6) as usize];
            let (w, h) = shapes[index as usize];
            Img::new(w, h, |_, _| color)
        }),
    }
}

// --- P10 ----------------------------------------------------------------------------------------

/// The patch colour is `RED`; everything else in these families is noise.
fn threshold(img: &Img, prec: Prec, cx: &mut Cx) -> Verdict {
    let expected = expect(img, prec);
    let got = extract(img, prec)?;
    observe(&got, cx);
    if expected.ambiguous {
        cx.ambiguous += 1;
        return Ok(());
    }
    let patch: Vec<usize> = (0..img.px.len())
        .filter(|&i| img.px[i][..3] == fam::RED)
        .collect();
    let place = |i: usize| (f64::from(i as u32 % img.w), f64::from(i as u32 / img.w));
    let reachable = |i: usize, j: usize| {
        let (a, b) = (place(i), place(j));
        let dx = (a.0 - b.0) / f64::from(img.w);
        let dy = (a.1 - b.1) / f64::from(img.h);
        dx * dx + dy * dy <= EPSILON * EPSILON
    };
    let dense: Vec<usize> = patch
        .iter()
        .copied()
        .filter(|&i| patch.iter().filter(|&&j| reachable(i, j)).count() >= MIN_POINTS)
        .collect();
    let counted = patch
        .iter()
        .filter(|&&i| dense.iter().any(|&j| reachable(i, j)))
        .count();
    // Several dense stretches of one colour make several swatches; they share the pixels.
    let sum: f64 = got.iter().map(|s| s.share).sum();
    if dense.is_empty() != got.is_empty() {
        return Err(format!(
            "{} of {} patch pixels are dense, and there are {} swatches",
            dense.len(),
            patch.len(),
            got.len()
        ));
    }
    if !share_ok(sum, counted, img.px.len(), prec) {
        return Err(format!(
            "{counted} pixels are in reach of dense ones, the swatches count {}",
            sum * img.px.len() as f64
        ));
    }
    if got.len() != expected.groups.len() {
        return Err(tell(&expected, img, &got));
    }
    for s in &got {
        if s.color != (fam::RED[0], fam::RED[1], fam::RED[2]) {
            return Err(format!("the patch has another colour: {s:?}"));
        }
    }
    cx.trace();
    Ok(())
}

// --- P05 ----------------------------------------------------------------------------------------

/// Images of the history alphabet, simplest first.
pub fn history_image(which: u64) -> Img {
    match which {
        0 => Img::strip(&[fam::RED; 3], false),
        1 => (fam::segments(2, &[60, 100]).make)(2 * (1 + 8 * 4)),
        2 => (fam::orders().make)(122),
        3 => (fam::patches(1, 2).make)(1 + 3 * (14 + 31 * 16)),
        4 => (fam::orders().make)(57),
        5 => single_cores(481),
        7 => single_cores(479),
        6 => shared_borders(),
        _ => twin(which - HISTORY_IMAGES),
    }
}
pub const HISTORY_IMAGES: u64 = 8;

/// Groups of 25 pixels and some of 24 and 26: of 481 pixels in all, the middle one of 25 barely
/// reaches the outermost ones; of 479, it barely does not. The swatches, most of one size, show the
/// order in which the pixels are visited.
fn single_cores(len: usize) -> Img {
    let colors = [fam::RED, fam::BLUE, fam::WHITE, fam::GREY, [40, 200, 120]];
    let mut px = Vec::new();
    for group in 0..17usize {
        let size = match group {
            5 | 11 => 24,
            8 => 26,
            14 => 40,
            _ => 25,
        };
        px.extend(vec![colors[group % 5]; size]);
        px.extend([fam::NOISE[group % 10], fam::NOISE[(group + 3) % 10]]);
    }
    px.resize(len, fam::NOISE[7]);
    Img::strip(&px, false)
}

/// Pairs of groups with one dense pixel each, and a pixel in reach of both which is not dense: it
/// belongs to the one visited first.
fn shared_borders() -> Img {
    const N: usize = 2000;
    let mut px: Vec<[u8; 3]> = (0..N).map(|i| fam::NOISE[(i * 7 + i / 10) % 10]).collect();
    for (unit, start) in (40..N - 180).step_by(191).enumerate() {
        let (a, b) = if unit % 3 == 1 { (130, 118) } else { (118, 130) };
        for k in 0..25 {
            px[start + 4 * k] = [a; 3];
            px[start + 29 + 4 * k] = [b; 3];
        }
        px[start + 48 + 14] = [124; 3];
    }
    Img::strip(&px, true)
}

/// Images which something that remembers images by a part of them would take for each other.
fn twin(which: u64) -> Img {
    let tail: Vec<[u8; 3]> = (0..40).map(|i| fam::NOISE[i % 10]).collect();
    let base = [[fam::RED; 250].as_slice(), &[fam::BLUE; 240], &tail].concat();
    let n = base.len();
    let mut px = base.clone();
    match which {
        // Two of the same pixels, upright and lying, and in two columns and rows.
        0 | 1 => {}
        11 => return Img { w: 2, h: 265, ..Img::strip(&px, true) },
        12 => return Img { w: 265, h: 2, ..Img::strip(&px, true) },
        // The same first and last pixels.
        2 => {
            px[1..250].fill(fam::BLUE);
            px[250..490].fill(fam::RED);
        }
        3 => {
            // Only alpha.
            let mut img = Img::strip(&px, false);
            img.px.iter_mut().for_each(|p| p[3] = 0);
            return img;
        }
        // Single pixels.
        4 => px[125] = fam::WHITE,
        5 => px[n - 1] = fam::RED,
        6 => px[1] = fam::BLUE,
        // The same bytes in sum.
        7 => px.iter_mut().for_each(|p| p.swap(0, 2)),
        8 => px.reverse(),
        // Shorter and longer.
        9 => px.truncate(500),
        10 => px.extend([fam::BLUE; 30]),
        13 => px[..250].fill(fam::RED2),
        _ => px = [[fam::BLUE; 240].as_slice(), &[fam::RED; 250], &tail].concat(),
    }
    Img::strip(&px, which == 1)
}
const TWINS: u64 = 15;

const MALFORMED: u64 = 6;

/// Pixels that are no image: an extraction may panic, but must not leave anything behind.
fn malformed(which: u64) -> (Vec<u8>, u32, u32) {
    let mut bytes = history_image(2).bytes();
    let n = (bytes.len() / 4) as u32;
    match which {
        // A part of a pixel.
        0 => (vec![1, 2, 3, 255, 5], 2, 1),
        1 => {
            bytes.pop();
            (bytes, n, 1)
        }
        // Too few and too many.
        2 => (bytes, n + 100, 1),
        3 => (bytes, n / 2, 1),
        // No width and no height.
        4 => (bytes, 0, n),
        _ => (bytes, n, 0),
    }
}

/// Extract in this process, after setting the hash keys, and print every result in full.
pub fn history_child(args: &[String]) {
    let keys: u64 = args[0].parse().expect("keys");
    crate::env::set_keys(keys);
    let mode = args[1].as_str();
    let surroundings = Surroundings::parse(mode);
    if let Some(s) = surroundings {
        s.enter();
    }
    // A buffer which all images share, one after the other.
    let shared = std::sync::Mutex::new(vec![0u8; 1 << 14]);
    for op in &args[2..] {
        // Tiny images first, or an operation.
        if let Some(times) = op.strip_prefix('x') {
            let times: u64 = times.parse().expect("times");
            let work = |i: u64| {
                let img = history_image(0);
                let _ = guarded(|| extract_raw(&img.bytes(), img.w, img.h, PRECS[(i % 2) as usize]));
            };
            for i in 0..times {
                if mode == "fresh" {
                    let _ = std::thread::spawn(move || work(i)).join();
                } else {
                    work(i);
                }
            }
            continue;
        }
        // Something that is no image.
        if let Some(which) = op.strip_prefix('b') {
            let which: u64 = which.parse().expect("malformed");
            let work = move || {
                let (bytes, w, h) = malformed(which / 2);
                let _ = guarded(|| extract_raw(&bytes, w, h, PRECS[(which % 2) as usize]));
            };
            if mode == "fresh" {
                let _ = std::thread::spawn(work).join();
            } else {
                work();
            }
            continue;
        }
        let op: u64 = op.parse().expect("operation");
        let show = |result: Result<Vec<Sw>, String>, changed: bool| {
            let bits = result.map(|list| list.iter().map(Sw::bits).collect::<Vec<_>>());
            format!("{bits:?} {}", if changed { "BUFFER CHANGED" } else { "" })
        };
        let prec = PRECS[(op % 2) as usize];
        let work = move || {
            let img = history_image(op / 2);
            let bytes = img.bytes();
            let before = bytes.clone();
            let result = guarded(|| extract_raw(&bytes, img.w, img.h, prec));
            show(result, bytes != before)
        };
        let line = match mode {
            _ if surroundings.is_some() => {
                let img = history_image(op / 2);
                let bytes = img.bytes();
                let before = bytes.clone();
                let at = surroundings.expect("surroundings").lay(&bytes);
                let result = guarded(|| extract_raw(at, img.w, img.h, prec));
                show(result, *at != before[..])
            }
            "fresh" => std::thread::spawn(work).join().unwrap_or_default(),
            "buffer" => {
                let img = history_image(op / 2);
                let bytes = img.bytes();
                let mut buffer = shared.lock().expect("buffer");
                let buffer = &mut buffer[..bytes.len()];
                buffer.copy_from_slice(&bytes);
                let result = guarded(|| extract_raw(buffer, img.w, img.h, prec));
                show(result, *buffer != bytes[..])
            }
            _ => work(),
        };
        println!("{line}");
    }
}

/// What surrounds an extraction and must not matter.
#[derive(Clone, Copy)]
struct Surroundings {
    clock: u64,
    processors: u64,
    place: u64,
    variables: u64,
}

const PROCESSORS: [u64; 4] = [0, 1, 2, 3];
const PLACES: [&str; 8] = [
    "at the end of a page before memory out of bounds",
    "at the start of a page after memory out of bounds",
    "one byte off the start of a page",
    "7 bytes off the start of a page",
    "below 4 GiB",
    "in read-only memory",
    "in memory shared with other processes",
    "across the 4 GiB limit",
];
const VARIABLES: [&str; 4] = [
    "variables as they are",
    "no variables at all",
    "variables for languages, time zones, numbers of threads and logs; new memory filled with 0x5a",
    "large pieces of memory from the system by themselves; new memory filled with zeros",
];

impl Surroundings {
    const ALL: u64 = (crate::env::CLOCKS.len() * PROCESSORS.len() * PLACES.len() * VARIABLES.len()) as u64;

    fn new(mut index: u64) -> Self {
        Self {
            clock: digit(&mut index, crate::env::CLOCKS.len() as u64),
            processors: PROCESSORS[digit(&mut index, 4) as usize],
            place: digit(&mut index, PLACES.len() as u64),
            variables: digit(&mut index, VARIABLES.len() as u64),
        }
    }

    fn describe(&self) -> String {
        format!(
            "{}, {} processors, pixels {}, {}",
            crate::env::CLOCKS[self.clock as usize],
            if self.processors == 0 { "all".to_string() } else { self.processors.to_string() },
            PLACES[self.place as usize],
            VARIABLES[self.variables as usize]
        )
    }

    fn mode(&self) -> String {
        format!("in,{},{},{}", self.clock, self.processors, self.place)
    }

    fn parse(mode: &str) -> Option<Self> {
        let list: Vec<u64> = mode.strip_prefix("in,")?.split(',').map(|n| n.parse().expect("number")).collect();
        Some(Self { clock: list[0], processors: list[1], place: list[2], variables: 0 })
    }

    fn dress(&self, command: &mut std::process::Command) {
        match self.variables {
            0 => {}
            1 => {
                command.env_clear();
            }
            2 => {
                command.env("MALLOC_PERTURB_", "165").env("LANG", "tr_TR.UTF-8").env("LC_ALL", "de_DE.UTF-8");
                command.env("TZ", "Asia/Kathmandu").env("RAYON_NUM_THREADS", "1").env("RUST_LOG", "trace");
                command.env("OMP_NUM_THREADS", "3").env("DEBUG", "1").env("RUST_BACKTRACE", "full").env("NO_COLOR", "1");
            }
            _ => {
                command.env("MALLOC_PERTURB_", "255").env("MALLOC_MMAP_THRESHOLD_", "16384");
                command.env("HOME", "/nonexistent").env("PATH", "").env("TMPDIR", "/nonexistent");
            }
        }
    }

    /// For this process from now on.
    fn enter(&self) {
        crate::env::set_clock(self.clock);
        if self.processors > 0 {
            unsafe {
                let mut allowed: libc::cpu_set_t = std::mem::zeroed();
                let size = std::mem::size_of_val(&allowed);
                libc::sched_getaffinity(0, size, &mut allowed);
                let mut left = self.processors;
                for cpu in 0..libc::CPU_SETSIZE as usize {
                    if libc::CPU_ISSET(cpu, &allowed) {
                        if left == 0 {
                            libc::CPU_CLR(cpu, &mut allowed);
                        }
                        left = left.saturating_sub(1);
                    }
                }
                libc::sched_setaffinity(0, size, &allowed);
            }
        }
    }

    /// Put the pixels at the place, for ever.
    fn lay(&self, bytes: &[u8]) -> &'static [u8] {
        const PAGE: usize = 4096;
        let room = bytes.len().div_ceil(PAGE) * PAGE + PAGE;
        let kind = if self.place == 6 { libc::MAP_SHARED } else { libc::MAP_PRIVATE } | libc::MAP_ANONYMOUS;
        unsafe {
            let map = |at: usize, flags: i32| {
                let map = libc::mmap(at as *mut libc::c_void, room + 2 * PAGE, libc::PROT_READ | libc::PROT_WRITE, kind | flags, -1, 0);
                assert!(map != libc::MAP_FAILED, "no memory for the pixels");
                map.cast::<u8>()
            };
            let at = match self.place {
                4 => map(0, libc::MAP_32BIT),
                7 => map((1 << 32) - PAGE - (bytes.len() / 2).div_ceil(PAGE) * PAGE, 0),
                _ => map(0, 0),
            };
            // The first and the last page are out of bounds.
            let first = at.add(PAGE);
            let end = first.add(room);
            let lies = match self.place {
                0 => end.sub(bytes.len()),
                2 => first.add(1),
                3 => first.add(7),
                7 if (at as usize) < 1 << 32 && (end as usize) > 1 << 32 => {
                    ((1usize << 32) - bytes.len() / 8 * 4) as *mut u8
                }
                _ => first,
            };
            lies.copy_from_nonoverlapping(bytes.as_ptr(), bytes.len());
            libc::mprotect(at.cast(), PAGE, libc::PROT_NONE);
            libc::mprotect(end.cast(), PAGE, libc::PROT_NONE);
            if self.place == 5 {
                libc::mprotect(first.cast(), room, libc::PROT_READ);
            }
            std::slice::from_raw_parts(lies, bytes.len())
        }
    }
}

const MODES: [(&str, &str); 3] = [
    ("same", "in one thread"),
    ("fresh", "each in its own thread"),
    ("buffer", "in one thread from one buffer"),
];

fn run_history(keys: u64, mode: &str, ops: &[u64]) -> Vec<String> {
    run_script(keys, mode, &ops.iter().map(u64::to_string).collect::<Vec<_>>())
}

fn run_script(keys: u64, mode: &str, script: &[String]) -> Vec<String> {
    run_dressed(keys, mode, script, |_| {})
}

fn run_dressed(
    keys: u64,
    mode: &str,
    script: &[String],
    dress: impl FnOnce(&mut std::process::Command),
) -> Vec<String> {
    let mut command = std::process::Command::new(std::env::current_exe().expect("exe"));
    command.arg("history").arg(keys.to_string()).arg(mode).args(script);
    dress(&mut command);
    let out = command
        .output()
        .expect("history process");
    String::from_utf8_lossy(&out.stdout)
        .lines()
        .map(str::to_string)
        .collect()
}

/// Each line of a history must be that of the operation alone.
fn compare(
    ops: &[u64],
    lines: &[String],
    base: &dyn Fn(u64) -> Result<String, String>,
    cx: &mut Cx,
) -> Verdict {
    for (at, op) in ops.iter().enumerate() {
        cx.step();
        let want = base(*op)?;
        let got = lines.get(at).cloned().unwrap_or_default();
        if got != want {
            return Err(format!("extraction {at} of the history gives {got}, in a fresh process {want}"));
        }
        if want.contains("BUFFER CHANGED") {
            return Err("extraction changes the pixel buffer".to_string());
        }
    }
    cx.trace();
    Ok(())
}

fn purity_spaces(tier: Tier) -> Vec<Space> {
    use std::cell::RefCell;
    use std::collections::HashMap;
    use std::rc::Rc;
    const OPS: u64 = HISTORY_IMAGES * 2;
    // The result of each operation in a fresh process, under fixed keys.
    let baseline: Rc<RefCell<HashMap<u64, String>>> = Rc::default();
    let base = move |op: u64| -> Result<String, String> {
        if let Some(line) = baseline.borrow().get(&op) {
            return Ok(line.clone());
        }
        let line = run_history(0, "same", &[op])
            .pop()
            .ok_or("extraction in a fresh process gives no answer")?;
        baseline.borrow_mut().insert(op, line.clone());
        Ok(line)
    };
    let base = Rc::new(base);

    let depth = tier.pick(3u32, 4);
    let base1 = base.clone();
    let histories = Space::new(
        "histories",
        &format!("all sequences of {depth} extractions over {HISTORY_IMAGES} images x 2 precisions, in a process of their own, all in one thread or each in its own; each result is compared with that of a fresh process"),
        OPS.pow(depth) * 2,
        move |mut index| {
            let same = digit(&mut index, 2) == 0;
            let ops: Vec<String> = (0..depth)
                .map(|_| {
                    let op = digit(&mut index, OPS);
                    format!("{:?} of [{}]", PRECS[(op % 2) as usize], history_image(op / 2).describe())
                })
                .collect();
            format!("{}: {}", if same { "one thread" } else { "own threads" }, ops.join("; then "))
        },
        move |mut index, cx| {
            let same = digit(&mut index, 2) == 0;
            let ops: Vec<u64> = (0..depth).map(|_| digit(&mut index, OPS)).collect();
            let lines = run_history(7, if same { "same" } else { "fresh" }, &ops);
            cx.outcome(&lines);
            cx.nontrivial += 1;
            compare(&ops, &lines, &*base1, cx)
        },
    );

    let name_op = |op: u64| format!("{:?} of [{}]", PRECS[(op % 2) as usize], history_image(op / 2).describe());
    let base1 = base.clone();
    let twins = Space::new(
        "twins",
        &format!("all ordered pairs of extractions over {TWINS} images x 2 precisions, of which each is like another in size, bytes, checksum, first and last pixels or address, and the first of the two again; in a process of their own; in one thread, each in its own thread, or from one buffer; each result is compared with that of a fresh process"),
        (TWINS * 2).pow(2) * 3,
        move |mut index| {
            let mode = digit(&mut index, 3) as usize;
            let a = HISTORY_IMAGES * 2 + digit(&mut index, TWINS * 2);
            let b = HISTORY_IMAGES * 2 + index;
            format!("{}: {}; then {}; then the first again", MODES[mode].1, name_op(a), name_op(b))
        },
        move |mut index, cx| {
            let mode = digit(&mut index, 3) as usize;
            let a = HISTORY_IMAGES * 2 + digit(&mut index, TWINS * 2);
            let b = HISTORY_IMAGES * 2 + index;
            let ops = [a, b, a];
            let lines = run_history(7, MODES[mode].0, &ops);
            cx.outcome(&lines);
            cx.nontrivial += 1;
            compare(&ops, &lines, &*base1, cx)
        },
    );

    const ALL: u64 = (HISTORY_IMAGES + TWINS) * 2;
    let strides: &'static [u64] = tier.pick(&[1, 3, 7, 11], &[1, 3, 7, 9, 11, 13, 17, 19, 21, 23]);
    let length = tier.pick(300u64, 3000);
    let base1 = base.clone();
    let long = Space::new(
        "long-histories",
        &format!("histories of {length} extractions which go round {ALL} operations (images x precisions) in strides {strides:?} from 4 starting points; in one thread, each in its own thread, or from one buffer"),
        strides.len() as u64 * 4 * 3,
        move |mut index| {
            let mode = digit(&mut index, 3) as usize;
            let start = digit(&mut index, 4) * 9;
            format!("{}: operations {start}, {start} + {}, ... modulo {ALL}", MODES[mode].1, strides[index as usize])
        },
        move |mut index, cx| {
            let mode = digit(&mut index, 3) as usize;
            let start = digit(&mut index, 4) * 9;
            let ops: Vec<u64> = (0..length).map(|i| (start + i * strides[index as usize]) % ALL).collect();
            let lines = run_history(7, MODES[mode].0, &ops);
            cx.nontrivial += 1;
            compare(&ops, &lines, &*base1, cx)
        },
    );

    let base1 = base.clone();
    let failures = Space::new(
        "failures",
        &format!("{MALFORMED} malformed images (truncated, too short, too long, without width or height; extraction may panic, and the panic is caught) x 2 precisions, once or ten times, between an extraction and two others over {HISTORY_IMAGES} images x 2 precisions; in one thread, each in its own thread, or from one buffer"),
        MALFORMED * 2 * 2 * OPS * 3,
        move |mut index| {
            let mode = digit(&mut index, 3) as usize;
            let op = digit(&mut index, OPS);
            let times = [1, 10][digit(&mut index, 2) as usize];
            let (bytes, w, h) = malformed(index / 2);
            format!("{}: {}; then {times} times {:?} of {} bytes as {w} x {h} pixels; then the first again, and another", MODES[mode].1, name_op(op), PRECS[(index % 2) as usize], bytes.len())
        },
        move |mut index, cx| {
            let mode = digit(&mut index, 3) as usize;
            let op = digit(&mut index, OPS);
            let times = [1, 10][digit(&mut index, 2) as usize];
            let ops = [op, op, (op + 3) % OPS];
            let mut script = vec![op.to_string()];
            script.extend(vec![format!("b{index}"); times]);
            script.extend(ops[1..].iter().map(u64::to_string));
            let lines = run_script(7, MODES[mode].0, &script);
            cx.outcome(&lines);
            cx.nontrivial += 1;
            compare(&ops, &lines, &*base1, cx)
        },
    );

    let depth = tier.pick(3u32, 4);
    const SHAPES: [(u32, u32); 6] = [(530, 1), (1, 530), (2, 265), (265, 2), (10, 53), (53, 10)];
    const VIEWS: u64 = SHAPES.len() as u64 * 2;
    let objects = Space::new(
        "objects",
        &format!("one `ImageData` whose width and height are set before each extraction: all sequences of {depth} over the shapes {SHAPES:?} of the same 530 pixels x 2 precisions; each result is compared with that of an `ImageData` of its own"),
        VIEWS.pow(depth),
        move |mut index| {
            let views: Vec<String> = (0..depth)
                .map(|_| {
                    let view = digit(&mut index, VIEWS) as usize;
                    format!("{:?} of {:?}", PRECS[view % 2], SHAPES[view / 2])
                })
                .collect();
            views.join(", then ")
        },
        move |mut index, cx| {
            let bytes = twin(0).bytes();
            let mut object: Option<auto_palette::image::ImageData> = None;
            for at in 0..depth {
                let view = digit(&mut index, VIEWS) as usize;
                let (w, h) = SHAPES[view / 2];
                let object = object.get_or_insert_with(|| auto_palette::image::ImageData::new(&bytes, w, h));
                (object.width, object.height) = (w, h);
                let got = guarded(|| extract_from(object, PRECS[view % 2]))?;
                let want = guarded(|| extract_raw(&bytes, w, h, PRECS[view % 2]))?;
                cx.step();
                cx.outcome(&got.iter().map(Sw::bits).collect::<Vec<_>>());
                if got.iter().map(Sw::bits).ne(want.iter().map(Sw::bits)) {
                    return Err(format!("extraction {at} gives {got:?}, with an `ImageData` of its own {want:?}"));
                }
            }
            cx.nontrivial += 1;
            cx.trace();
            Ok(())
        },
    );

    let floods: &'static [u64] = tier.pick(&[60, 250, 1000, 65_530], &[60, 125, 250, 500, 1000, 10_000, 65_530, 140_000]);
    let base1 = base.clone();
    let flood = Space::new(
        "floods",
        &format!("an extraction, {floods:?} extractions of an image of three pixels, and then ten extractions again with three of three pixels between them; 6 operations; in one thread or each in its own thread"),
        floods.len() as u64 * 6 * 2,
        move |mut index| {
            let mode = digit(&mut index, 2) as usize;
            let op = 2 + digit(&mut index, 6);
            format!("{}: {}, {} of three pixels, ten extractions", MODES[mode].1, name_op(op), floods[index as usize])
        },
        move |mut index, cx| {
            let mode = digit(&mut index, 2) as usize;
            let op = 2 + digit(&mut index, 6);
            let mut ops = vec![op];
            let mut script = vec![op.to_string(), format!("x{}", floods[index as usize])];
            for i in 0..10 {
                let op = 2 + (op + i * 7) % (ALL - 2);
                ops.push(op);
                script.push(op.to_string());
                script.push("x3".to_string());
            }
            let lines = run_script(7, MODES[mode].0, &script);
            cx.nontrivial += 1;
            compare(&ops, &lines, &*base1, cx)
        },
    );

    let base_for_surroundings = base.clone();
    let keys = tier.pick(256u64, 4096);
    let base2 = base.clone();
    let hashes = Space::new(
        "hash-keys",
        &format!("{keys} settings of the process's hash keys, which decide the iteration order of hash maps, x {HISTORY_IMAGES} images x 2 precisions"),
        keys * OPS,
        move |mut index| {
            let op = digit(&mut index, OPS);
            format!("hash keys {index}, {:?} of [{}]", PRECS[(op % 2) as usize], history_image(op / 2).describe())
        },
        move |mut index, cx| {
            let op = digit(&mut index, OPS);
            let want = base2(op)?;
            // A fresh thread draws its keys anew.
            crate::env::set_keys(index);
            let line = std::thread::spawn(move || {
                let order: Vec<usize> = (0..5usize)
                    .map(|k| (k, ()))
                    .collect::<HashMap<usize, ()>>()
                    .into_keys()
                    .collect();
                let img = history_image(op / 2);
                let bytes = img.bytes();
                let got = guarded(|| extract_raw(&bytes, img.w, img.h, PRECS[(op % 2) as usize]));
                let bits = got.map(|list| list.iter().map(Sw::bits).collect::<Vec<_>>());
                (format!("{bits:?} "), order)
            })
            .join()
            .map_err(|_| "the extracting thread ended".to_string())?;
            cx.step();
            // Count the iteration orders which the keys produce.
            cx.outcome(&line.1);
            cx.nontrivial += 1;
            if line.0 != want {
                return Err(format!("with these keys {}, otherwise {want}", line.0));
            }
            cx.trace();
            Ok(())
        },
    );

    let places = Space::new(
        "buffers",
        &format!("the same pixels at every offset 0..32 of a larger buffer, filled with 0 or 255 around them, x {HISTORY_IMAGES} images x 2 precisions"),
        32 * 2 * OPS,
        move |mut index| {
            let offset = digit(&mut index, 32);
            let fill = [0u8, 255][digit(&mut index, 2) as usize];
            format!("offset {offset}, surrounded by {fill}, {:?} of [{}]", PRECS[(index % 2) as usize], history_image(index / 2).describe())
        },
        move |mut index, cx| {
            let offset = digit(&mut index, 32) as usize;
            let fill = [0u8, 255][digit(&mut index, 2) as usize];
            let img = history_image(index / 2);
            let prec = PRECS[(index % 2) as usize];
            let bytes = img.bytes();
            let mut big = vec![fill; offset];
            big.extend_from_slice(&bytes);
            big.extend(vec![fill; 64]);
            let got = guarded(|| extract_raw(&big[offset..offset + bytes.len()], img.w, img.h, prec));
            let bits = got.map(|list| list.iter().map(Sw::bits).collect::<Vec<_>>());
            let line = format!("{bits:?} ");
            cx.step();
            cx.outcome(&line);
            cx.nontrivial += 1;
            let want = base(index)?;
            if line != want {
                return Err(format!("here {line}, otherwise {want}"));
            }
            cx.trace();
            Ok(())
        },
    );
    let base3 = base_for_surroundings;
    let orders = tier.pick(1u64, 10);
    let surroundings = Space::new(
        "surroundings",
        &format!("{} clocks x processors the process may use {PROCESSORS:?} (0: all) x {} places of the pixels x {} sets of environment variables and settings of the allocator; {OPS} extractions ({HISTORY_IMAGES} images x 2 precisions) in a process of their own, starting from {orders} of them", crate::env::CLOCKS.len(), PLACES.len(), VARIABLES.len()),
        Surroundings::ALL * orders,
        move |index| Surroundings::new(index / orders).describe(),
        move |index, cx| {
            let s = Surroundings::new(index / orders);
            let ops: Vec<u64> = (0..OPS).map(|i| (i + index % orders) % OPS).collect();
            let script: Vec<String> = ops.iter().map(u64::to_string).collect();
            let lines = run_dressed(7, &s.mode(), &script, |command| s.dress(command));
            cx.outcome(&lines);
            cx.nontrivial += 1;
            compare(&ops, &lines, &*base3, cx)
        },
    );
    vec![histories, failures, objects, hashes, places, twins, long, flood, surroundings]
}

// --- the checks ---------------------------------------------------------------------------------

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    let t = tier;
    let families = |judge: Judge, list: Vec<Family>| -> Option<Vec<Space>> {
        Some(list.into_iter().map(|f| over(f, judge)).collect())
    };
    const LENS: &[usize] = &[12, 25, 60];
    const LENS5: &[usize] = &[12, 24, 25, 26, 60];
    match id {
        "P01" => families(
            total,
            vec![
                fam::tiny(t.pick(5, 8)),
                fam::lengths(1, t.pick(700, 2000), t.pick(3, 1)),
                fam::gradients(t.pick(3, 5), 2011),
                fam::segments(t.pick(2, 4), LENS),
                fam::textures(t.pick(3, 5)),
                fam::shapes(t),
                fam::confetti(t.pick(&[300, 1100], &[250, 256, 257, 300, 700, 1100, 2200])),
                fam::crowds(t.pick(&[3, 12, 40], &[1, 2, 3, 5, 8, 12, 20, 40, 80, 130])),
                fam::blocks(t.pick(2, 4)),
                fam::uniform(t.pick(6, 18)),
                fam::noisy(t.pick(3, 6)),
                fam::large(t),
                fam::dense(t),
            ],
        ),
        "P02" => families(
            grouping,
            vec![
                fam::huge(t),
                fam::tiny(t.pick(4, 7)),
                fam::segments(t.pick(3, 4), LENS),
                fam::patches(t.pick(3, 1), t.pick(14, 30)),
                fam::holes(t.pick(10, 15)),
                fam::textures(t.pick(3, 5)),
                fam::orders(),
                fam::shapes(t),
                fam::blocks(t.pick(2, 4)),
                fam::gradients(t.pick(2, 4), 2011),
                fam::confetti(t.pick(&[300, 1100], &[250, 256, 257, 300, 700, 1100, 2200])),
                fam::crowds(t.pick(&[3, 12, 40], &[1, 2, 3, 5, 8, 12, 20, 40, 80, 130])),
                fam::lengths(1, t.pick(700, 2000), t.pick(3, 1)),
                fam::thinned(t.pick(2, 14)),
                fam::edges(t),
                fam::shared(t),
                fam::squares(t),
                fam::large(t),
                fam::dense(t),
            ],
        ),
        "P03" => families(
            coherent,
            vec![
                fam::segments(t.pick(3, 4), LENS),
                fam::orders(),
                fam::confetti(t.pick(&[300, 1100], &[250, 256, 257, 300, 700, 1100, 2200])),
                fam::crowds(t.pick(&[2, 3, 12, 40], &[1, 2, 3, 5, 8, 12, 20, 40, 80, 130])),
                fam::textures(t.pick(3, 5)),
                fam::shapes(t),
                fam::blocks(t.pick(2, 4)),
                fam::gradients(t.pick(2, 4), 2011),
                fam::patches(t.pick(5, 2), t.pick(14, 30)),
                fam::lengths(480, t.pick(700, 2000), t.pick(7, 1)),
                fam::uniform(t.pick(4, 12)),
                fam::edges(t),
                fam::shared(t),
                fam::squares(t),
                fam::large(t),
                fam::dense(t),
            ],
        ),
        "P04" => families(
            shares,
            vec![
                fam::tiny(t.pick(4, 7)),
                fam::segments(t.pick(3, 4), LENS),
                fam::orders(),
                fam::confetti(t.pick(&[300, 1100], &[250, 256, 257, 300, 700, 1100, 2200])),
                fam::crowds(t.pick(&[2, 3, 12, 40], &[1, 2, 3, 5, 8, 12, 20, 40, 80, 130])),
                fam::textures(t.pick(3, 5)),
                fam::patches(t.pick(5, 2), t.pick(14, 30)),
                fam::shapes(t),
                fam::blocks(t.pick(2, 4)),
                fam::gradients(t.pick(2, 4), 2011),
                fam::lengths(1, t.pick(700, 2000), t.pick(7, 1)),
                fam::large(t),
                fam::dense(t),
            ],
        ),
        "P05" => Some(purity_spaces(t)),
        "P07" => families(
            positions,
            vec![
                fam::lengths(1, t.pick(900, 2600), t.pick(3, 1)),
                fam::segments(t.pick(2, 4), LENS5),
                fam::shapes(t),
                fam::blocks(t.pick(2, 4)),
                fam::orders(),
                fam::confetti(t.pick(&[300, 1100], &[250, 256, 257, 300, 700, 1100, 2200])),
                fam::crowds(t.pick(&[3, 12, 40], &[1, 2, 3, 5, 8, 12, 20, 40, 80, 130])),
                fam::gradients(t.pick(2, 3), 2011),
                fam::edges(t),
                fam::shared(t),
                fam::squares(t),
                fam::large(t),
                fam::dense(t),
            ],
        ),
        "P08" => Some(alpha_spaces(t)),
        "P09" => families(
            uniform,
            vec![
                fam::uniform(t.pick(18, 64)),
                fam::uniform_steps(t.pick(6_000, 200_000)),
                uniform_shapes(t),
            ],
        )
        .map(|mut list| {
            list.extend(octet_spaces(t));
            list
        }),
        "P10" => families(
            threshold,
            vec![
                fam::patches(t.pick(2, 1), t.pick(16, 40)),
                fam::thinned(t.pick(6, 14)),
                fam::holes(t.pick(12, 16)),
                fam::rectangles(t.pick(8, 12), t.pick(2, 6)),
                fam::pairs_of_rectangles(t.pick(4, 6)),
            ],
        ),
        _ => None,
    }
}
