//! Finite families of images. Each is enumerated completely.

use crate::engine::{digit, Tier};
use crate::palette::Img;

type C3 = [u8; 3];

pub struct Family {
    pub name: &'static str,
    pub bound: String,
    pub size: u64,
    pub make: Box<dyn Fn(u64) -> Img>,
}

fn family(name: &'static str, bound: String, size: u64, make: impl Fn(u64) -> Img + 'static) -> Family {
    Family {
        name,
        bound,
        size,
        make: Box::new(make),
    }
}

pub const RED: C3 = [200, 30, 30];
/// Within reach of `RED` in colour.
pub const RED2: C3 = [203, 31, 30];
pub const BLUE: C3 = [20, 40, 200];
pub const WHITE: C3 = [240, 240, 240];
pub const GREY: C3 = [120, 120, 120];

/// Ten colours, far from each other and from the ones above.
pub const NOISE: [C3; 10] = [
    [0, 0, 0],
    [0, 255, 0],
    [255, 255, 0],
    [0, 255, 255],
    [255, 0, 255],
    [0, 110, 60],
    [120, 70, 0],
    [255, 160, 120],
    [90, 0, 110],
    [160, 200, 90],
];

/// The strip length: 25 pixels in reach span 0.0245 of it, and no pixel distance is near 0.025.
pub const LEN: usize = 530;

/// Sequences of segments on a strip.
pub fn segments(depth: u32, lens: &'static [usize]) -> Family {
    const COLORS: [C3; 4] = [RED, BLUE, RED2, WHITE];
    let symbols = (COLORS.len() * lens.len()) as u64;
    family(
        "segments",
        format!("strips of {LEN} pixels, both directions: all sequences of {depth} segments over 4 colours (two of them similar) x lengths {lens:?}, rest white"),
        symbols.pow(depth) * 2,
        move |mut index| {
            let horizontal = digit(&mut index, 2) == 1;
            let mut px = Vec::with_capacity(LEN);
            for _ in 0..depth {
                let color = COLORS[digit(&mut index, 4) as usize];
                let len = lens[digit(&mut index, lens.len() as u64) as usize];
                px.extend(std::iter::repeat(color).take(len));
            }
            px.resize(LEN, WHITE);
            Img::strip(&px, horizontal)
        },
    )
}

fn noise_strip(len: usize) -> Vec<C3> {
    (0..len).map(|i| NOISE[i % NOISE.len()]).collect()
}

/// A run, a gap and a second run of one colour on noise: everything around the density threshold.
pub fn patches(step: usize, max_gap: usize) -> Family {
    const PLACES: u64 = 3;
    let runs: Vec<usize> = (0..=30).step_by(step).collect();
    let r = runs.len() as u64;
    let gaps = max_gap as u64 + 1;
    family(
        "patches",
        format!("strips of {LEN} pixels of noise with a run, a gap and a run of one colour: runs 0..=30 step {step}, gaps 0..={max_gap}, at the start, in the middle and at the end"),
        r * r * gaps * PLACES,
        move |mut index| {
            let place = digit(&mut index, PLACES);
            let first = runs[digit(&mut index, r) as usize];
            let second = runs[digit(&mut index, r) as usize];
            let gap = digit(&mut index, gaps) as usize;
            let mut px = noise_strip(LEN);
            let total = first + gap + second;
            let start = match place {
                0 => 0,
                1 => (LEN - total) / 2,
                _ => LEN - total,
            };
            px[start..start + first].fill(RED);
            px[start + first + gap..start + total].fill(RED);
            Img::strip(&px, place == 1)
        },
    )
}

/// A patch of one colour with every pattern of holes among its last pixels.
pub fn holes(bits: u32) -> Family {
    family(
        "holes",
        format!("strips of {LEN} pixels of noise with a solid run of 20 pixels followed by every on/off pattern of {bits} pixels"),
        1 << bits,
        move |index| {
            let mut px = noise_strip(LEN);
            px[200..220].fill(RED);
            for bit in 0..bits as usize {
                if index >> bit & 1 == 1 {
                    px[220 + bit] = RED;
                }
            }
            Img::strip(&px, false)
        },
    )
}

/// Periodic textures of two or three colours.
pub fn textures(max_period: u32) -> Family {
    const COLORS: [C3; 4] = [RED, RED2, BLUE, WHITE];
    const LENS: [usize; 3] = [530, 1063, 1595];
    let per: u64 = (1..=max_period).map(|p| 4u64.pow(p)).sum();
    family(
        "textures",
        format!("strips of {LENS:?} pixels repeating every word of up to {max_period} of 4 colours"),
        per * LENS.len() as u64,
        move |mut index| {
            let len = LENS[digit(&mut index, LENS.len() as u64) as usize];
            let mut period = 1;
            while index >= 4u64.pow(period) {
                index -= 4u64.pow(period);
                period += 1;
            }
            let word: Vec<C3> = (0..period)
                .map(|_| COLORS[digit(&mut index, 4) as usize])
                .collect();
            let px: Vec<C3> = (0..len).map(|i| word[i % word.len()]).collect();
            Img::strip(&px, len % 2 == 0)
        },
    )
}

/// Strips of every length.
pub fn lengths(from: u32, to: u32, step: u32) -> Family {
    let count = u64::from((to - from) / step + 1);
    family(
        "lengths",
        format!("strips of every length {from}..={to} step {step}, both directions: uniform, and split 3:5"),
        count * 4,
        move |mut index| {
            let horizontal = digit(&mut index, 2) == 1;
            let split = digit(&mut index, 2) == 1;
            let len = (from + index as u32 * step) as usize;
            let px: Vec<C3> = (0..len)
                .map(|i| if split && i * 8 < len * 3 { BLUE } else { RED })
                .collect();
            Img::strip(&px, horizontal)
        },
    )
}

/// Images of many shapes, in columns, bands, or diagonal halves.
pub fn shapes(tier: Tier) -> Family {
    let list: Vec<(u32, u32)> = tier.pick(
        vec![(2, 530), (3, 530), (5, 570), (9, 530), (41, 211), (91, 141)],
        vec![
            (2, 530),
            (3, 530),
            (4, 610),
            (5, 570),
            (7, 650),
            (9, 530),
            (17, 490),
            (33, 530),
            (41, 211),
            (45, 321),
            (91, 141),
            (121, 121),
            (131, 173),
        ],
    );
    const PATTERNS: u64 = 8;
    family(
        "shapes",
        format!("images of {list:?} pixels and transposed, in 8 patterns of columns, bands, halves and corners"),
        list.len() as u64 * 2 * PATTERNS,
        move |mut index| {
            let pattern = digit(&mut index, PATTERNS);
            let flip = digit(&mut index, 2) == 1;
            let (w, h) = list[index as usize];
            let img = Img::new(w, h, |x, y| match pattern {
                0 => RED,
                1 => [RED, BLUE, WHITE][(x % 3) as usize],
                2 => [RED, BLUE][(y * 2 / h) as usize],
                3 => [RED, BLUE, WHITE, GREY][(y * 4 / h) as usize],
                4 => {
                    if x * h < y * w {
                        RED
                    } else {
                        BLUE
                    }
                }
                5 => {
                    if x < w.div_ceil(2) && y < h / 3 {
                        BLUE
                    } else {
                        WHITE
                    }
                }
                6 => [RED, RED2, BLUE][((x + y * 3 / h) % 3) as usize],
                _ => {
                    if y * 5 / h == 2 {
                        NOISE[((x * 7 + y * 3) % 10) as usize]
                    } else if y * 5 / h < 2 {
                        RED
                    } else {
                        WHITE
                    }
                }
            });
            if flip {
                img.transposed()
            } else {
                img
            }
        },
    )
}

/// Two by two blocks.
pub fn blocks(colors: u64) -> Family {
    const COLORS: [C3; 4] = [RED, BLUE, RED2, WHITE];
    family(
        "blocks",
        format!("121x117 pixels in 2x2 blocks, all colourings with {colors} colours"),
        colors.pow(4),
        move |mut index| {
            let block: Vec<C3> = (0..4)
                .map(|_| COLORS[digit(&mut index, colors) as usize])
                .collect();
            Img::new(121, 117, |x, y| block[(x / 50).min(1) as usize + 2 * (y / 70).min(1) as usize])
        },
    )
}

/// Gradients between all pairs of a colour lattice.
pub fn gradients(levels: u64, len: usize) -> Family {
    let count = levels.pow(3);
    let level = move |i: u64| (i * 255 / (levels - 1)) as u8;
    let color = move |mut i: u64| [0; 3].map(|_: u8| level(digit(&mut i, levels)));
    family(
        "gradients",
        format!("strips of {len} pixels running evenly from one colour to another, all ordered pairs of the {levels}-level lattice ({count} colours)"),
        count * count,
        move |mut index| {
            let a: C3 = color(digit(&mut index, count));
            let b: C3 = color(digit(&mut index, count));
            let px: Vec<C3> = (0..len)
                .map(|i| {
                    let mut c = [0u8; 3];
                    for k in 0..3 {
                        let t = i as f64 / (len - 1) as f64;
                        c[k] = (f64::from(a[k]) + (f64::from(b[k]) - f64::from(a[k])) * t).round() as u8;
                    }
                    c
                })
                .collect();
            Img::strip(&px, false)
        },
    )
}

/// Every image of a few pixels, and empty ones.
pub fn tiny(max_pixels: u32) -> Family {
    const COLORS: [C3; 3] = [RED, BLUE, WHITE];
    let mut shapes: Vec<(u32, u32)> = vec![(0, 0), (0, 3), (3, 0), (0, 1), (1, 0)];
    for w in 1..=max_pixels {
        for h in 1..=max_pixels {
            if w * h <= max_pixels {
                shapes.push((w, h));
            }
        }
    }
    let sizes: Vec<u64> = shapes.iter().map(|(w, h)| 3u64.pow(w * h)).collect();
    let total = sizes.iter().sum();
    family(
        "tiny",
        format!("every image of up to {max_pixels} pixels in every shape over 3 colours, and the empty images 0x0, 0x1, 1x0, 0x3, 3x0"),
        total,
        move |mut index| {
            let mut at = 0;
            while index >= sizes[at] {
                index -= sizes[at];
                at += 1;
            }
            let (w, h) = shapes[at];
            let px = (0..w * h)
                .map(|_| {
                    let [r, g, b] = COLORS[digit(&mut index, 3) as usize];
                    [r, g, b, 255]
                })
                .collect();
            Img { w, h, px }
        },
    )
}

/// Strips of many groups, all of which have colours of their own or recur.
pub fn crowds(counts: &'static [usize]) -> Family {
    family(
        "crowds",
        format!("strips with {counts:?} groups: equal sizes, rising sizes and falling sizes"),
        counts.len() as u64 * 3,
        move |mut index| {
            let kind = digit(&mut index, 3);
            let m = counts[index as usize];
            let mut px: Vec<C3> = Vec::new();
            // Every length is such that a group's middle is dense and no distance is borderline.
            let base = 60.max(m * 60 * 25 / 1000 * 2 + 9).max(540 / m + 7);
            for g in 0..m {
                let len = match kind {
                    0 => base,
                    1 => base + g,
                    _ => base + m - g,
                };
                let color = if m <= NOISE.len() {
                    NOISE[g]
                } else {
                    // Neighbouring groups differ by far, distant ones may share a colour.
                    let far = [[0u8, 0, 0], [255, 255, 255], [255, 0, 0], [0, 0, 255], [0, 255, 0]][g % 5];
                    [0, 1, 2].map(|k: usize| {
                        let wiggle = ((g / 5) * (17 + 13 * k) % 41) as u8;
                        if far[k] > 128 {
                            far[k] - wiggle
                        } else {
                            far[k] + wiggle
                        }
                    })
                };
                px.extend(std::iter::repeat(color).take(len));
            }
            while (px.len() as f64 * 0.025).fract() < 0.1 {
                px.push(GREY);
            }
            Img::strip(&px, kind == 1)
        },
    )
}

/// Strips in three colours whose group sizes take every order.
pub fn orders() -> Family {
    const SIZES: [usize; 5] = [40, 55, 70, 85, 100];
    family(
        "orders",
        "strips of five groups of 40, 55, 70, 85 and 100 pixels in every order, and of 2 to 5 groups of equal size".to_string(),
        120 + 4,
        move |index| {
            let mut px: Vec<C3> = Vec::new();
            if index < 120 {
                for (at, which) in crate::engine::permutation(index, 5).into_iter().enumerate() {
                    px.extend(std::iter::repeat(NOISE[at * 2 % 10]).take(SIZES[which]));
                }
            } else {
                for at in 0..(index - 118) as usize {
                    px.extend(std::iter::repeat(NOISE[at]).take(100));
                }
            }
            while px.len() < LEN {
                let at = px.len();
                px.push(NOISE[at % 10]);
            }
            Img::strip(&px, index % 2 == 1)
        },
    )
}

/// One uniform strip for every colour of a lattice.
pub fn uniform(levels: u64) -> Family {
    let level = move |i: u64| (i * 255 / (levels - 1)) as u8;
    family(
        "uniform",
        format!("uniform strips of {LEN} pixels in every colour of the lattice with {levels} levels per channel"),
        levels.pow(3),
        move |mut index| {
            let color = [0; 3].map(|_: u8| level(digit(&mut index, levels)));
            Img::strip(&[color; LEN], false)
        },
    )
}

/// Strips without structure: pixel colours step through a lattice with a fixed stride.
pub fn noisy(max: u64) -> Family {
    const STRIDES: [u64; 6] = [1, 7, 101, 4099, 65537, 9999991];
    const LENS: [usize; 2] = [530, 1061];
    family(
        "noisy",
        format!("strips of {LENS:?} pixels whose colours step through all 24-bit colours with strides {STRIDES:?} from {max} starting points each"),
        STRIDES.len() as u64 * LENS.len() as u64 * max,
        move |mut index| {
            let stride = STRIDES[digit(&mut index, 6) as usize];
            let len = LENS[digit(&mut index, 2) as usize];
            let start = index * 0x3fff1;
            let px: Vec<C3> = (0..len as u64)
                .map(|i| {
                    let v = (start + i * stride) & 0xff_ffff;
                    [(v >> 16) as u8, (v >> 8) as u8, v as u8]
                })
                .collect();
            Img::strip(&px, false)
        },
    )
}

/// Big noisy images with a few solid patches: more than 65,536 pixels, sides beyond 255 and 65,535.
/// Thin lines along the edges.
pub fn edges(tier: Tier) -> Family {
    let shapes: Vec<(u32, u32)> = tier.pick(
        vec![(601, 127), (127, 601), (1301, 127), (127, 1301), (171, 173)],
        vec![(601, 127), (127, 601), (1301, 127), (127, 1301), (171, 173), (263, 227), (227, 263), (2203, 131), (131, 2203), (521, 519)],
    );
    family(
        "edges",
        format!("images of {shapes:?} pixels with lines of 3 to 5 pixels' width along the left, right, upper or lower edge, along all of them, or in the middle, on noise"),
        shapes.len() as u64 * 6,
        move |mut index| {
            let place = digit(&mut index, 6);
            let (w, h) = shapes[index as usize];
            let avoid = [RED, BLUE, WHITE, [40, 200, 120]].map(normal);
            // So wide that the lines are dense.
            let across = |along: u32| 25u32.div_ceil(2 * (along / 40) + 1).max(3);
            let (dx, dy) = (across(h), across(w));
            Img::new(w, h, |x, y| {
                let on = |kind: u64| match kind {
                    0 => x < dx,
                    1 => x >= w - dx,
                    2 => y < dy,
                    3 => y >= h - dy,
                    _ => (w / 2..w / 2 + dx).contains(&x),
                };
                match place {
                    4 => match (0..4).find(|kind| on(*kind)) {
                        Some(kind) => return [RED, BLUE, WHITE, [40, 200, 120]][kind as usize],
                        None => {}
                    },
                    5 if on(4) => return RED,
                    0..=3 if on(place) => return RED,
                    _ => {}
                }
                quiet(y * w + x, &avoid)
            })
        },
    )
}

/// Pixels with very many others in reach.
pub fn dense(tier: Tier) -> Family {
    let reach: &'static [usize] = tier.pick(&[64, 127, 128, 256, 512], &[31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
    family(
        "dense",
        format!("strips in two colours, 5:3, of which each pixel has 2 x {reach:?} + 1 pixels in reach, both directions"),
        reach.len() as u64 * 2,
        move |mut index| {
            let horizontal = digit(&mut index, 2) == 1;
            let len = 40 * reach[index as usize] + 7;
            let px: Vec<C3> = (0..len).map(|i| if i * 8 < len * 5 { RED } else { BLUE }).collect();
            Img::strip(&px, horizontal)
        },
    )
}

/// A fixed scramble of the pixel number as a colour.
fn scrambled(mut v: u32) -> C3 {
    v = (v ^ (v >> 15)).wrapping_mul(0x2c1b_3c6d);
    v = (v ^ (v >> 12)).wrapping_mul(0x297a_2d39);
    v ^= v >> 15;
    [v as u8, (v >> 8) as u8, (v >> 16) as u8]
}

/// Noise which keeps away from the colours that matter.
fn quiet(v: u32, avoid: &[[f64; 3]]) -> C3 {
    (0..)
        .map(|turn: u32| scrambled(v.wrapping_add(turn.wrapping_mul(0x61c8_8647))))
        .find(|color| avoid.iter().all(|other| apart_by(&normal(*color), other) > 0.03))
        .expect("Some colour is far from four others")
}

pub fn large(tier: Tier) -> Family {
    let shapes: Vec<(u32, u32)> = tier.pick(
        vec![(301, 241), (241, 301), (66_001, 1), (1, 66_001), (371, 361), (521, 513)],
        vec![
            (371, 361),
            (521, 513),
            (1031, 1025),
            (257, 257),
            (301, 241),
            (241, 301),
            (1021, 67),
            (67, 1021),
            (3, 22_001),
            (22_001, 3),
            (66_001, 1),
            (1, 66_001),
            (140_001, 1),
        ],
    );
    let masks = tier.pick(3u64, 15);
    family(
        "large",
        format!("noise of {shapes:?} pixels with solid patches in {masks} subsets of four places, the last beyond pixel 65,536"),
        shapes.len() as u64 * masks,
        move |mut index| {
            let mask = if masks == 15 { digit(&mut index, masks) + 1 } else { [15, 8, 9][digit(&mut index, masks) as usize] };
            let (w, h) = shapes[index as usize];
            let n = w * h;
            let (pw, ph) = (w.div_ceil(12).min(900), h.div_ceil(12).min(900));
            let colors = [RED, BLUE, WHITE, GREY];
            let avoid = colors.map(normal);
            let places = [(0, 0), (w / 2, h / 7), (w / 5, h / 2), (w - pw, h - ph)];
            Img::new(w, h, |x, y| {
                for slot in 0..4 {
                    let (px, py) = places[slot];
                    if mask >> slot & 1 == 1 && (px..px + pw).contains(&x) && (py..py + ph).contains(&y) {
                        return colors[slot];
                    }
                }
                quiet((y * w + x) % n, &avoid)
            })
        },
    )
}

/// Square images, and some that just are not, with a patch in one quarter.
pub fn squares(tier: Tier) -> Family {
    let sides: &'static [u32] = tier.pick(&[115, 120], &[114, 115, 119, 120, 121, 127, 128, 129, 144, 161, 181]);
    family(
        "squares",
        format!("white images of {sides:?} pixels squared, and one pixel wider or taller, with a wide or a tall patch in one of four quarters"),
        sides.len() as u64 * 3 * 8,
        move |mut index| {
            let (turn, quarter, more) = (digit(&mut index, 2), digit(&mut index, 4) as u32, digit(&mut index, 3));
            let side = sides[index as usize];
            let (w, h) = (side + u32::from(more == 1), side + u32::from(more == 2));
            let (left, top) = (quarter % 2 * w / 2 + w / 20, quarter / 2 * h / 2 + h / 20);
            let (pw, ph) = if turn == 0 { (w / 3, h / 7) } else { (w / 7, h / 3) };
            Img::new(w, h, |x, y| {
                if (left..left + pw).contains(&x) && (top..top + ph).contains(&y) { RED } else { WHITE }
            })
        },
    )
}

/// Images of very many pixels with patches of hardly enough pixels.
pub fn huge(tier: Tier) -> Family {
    let sizes: &'static [(u32, u32)] = tier.pick(&[(727, 723)], &[(727, 723), (1031, 1033), (1459, 1451)]);
    family(
        "huge",
        format!("images of {sizes:?} pixels of mutually unlike colours with patches of 24, 25 and 26 pixels of one colour in three places"),
        sizes.len() as u64 * tier.pick(1, 3),
        move |mut index| {
            let (w, h) = sizes[digit(&mut index, sizes.len() as u64) as usize];
            let turn = index as u32;
            let avoid = [RED, BLUE, GREY].map(normal);
            let other: Vec<C3> = apart().iter().filter(|c| avoid.iter().all(|a| apart_by(&normal(**c), a) > 0.03)).copied().collect();
            let places = [(0, 0), (w / 3, h / 2), (w - 6, h - 5)];
            Img::new(w, h, |x, y| {
                for slot in 0..3 {
                    let (left, top) = places[slot as usize];
                    let count = 24 + (slot + turn) % 3;
                    if (left..left + 6).contains(&x) && (top..top + 5).contains(&y) && (y - top) * 6 + x - left < count {
                        return [RED, BLUE, GREY][slot as usize];
                    }
                }
                let mix = scrambled(y * w + x);
                other[(usize::from(mix[0]) + usize::from(mix[1]) * 256 + usize::from(mix[2]) * 65_536) % other.len()]
            })
        },
    )
}

/// Very many colours, none within reach of another, neighbours in the list unlike each other.
fn apart() -> &'static [C3] {
    static APART: std::sync::LazyLock<Vec<C3>> = std::sync::LazyLock::new(|| {
        const LEVELS: usize = 24;
        let level = |v: usize| (v % LEVELS * 255 / (LEVELS - 1)) as u8;
        let mut kept: Vec<(C3, [f64; 3])> = Vec::new();
        for i in 0..LEVELS.pow(3) {
            // 4,813 has no factor in common with the number of colours.
            let v = i * 4_813 % LEVELS.pow(3);
            let color = [level(v), level(v / LEVELS), level(v / LEVELS / LEVELS)];
            let lab = normal(color);
            if kept.iter().all(|(_, other)| apart_by(&lab, other) > 0.03) {
                kept.push((color, lab));
            }
        }
        kept.into_iter().map(|(color, _)| color).collect()
    });
    &APART
}

fn normal(color: C3) -> [f64; 3] {
    let lab = crate::refm::lab_of(color);
    [lab[0] / 100.0, lab[1] / 255.0, lab[2] / 255.0]
}

fn apart_by(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    (0..3).map(|c| (a[c] - b[c]).powi(2)).sum::<f64>().sqrt()
}

/// More groups than fit a byte, or ten bits: each a short run of a colour of its own.
pub fn confetti(counts: &'static [usize]) -> Family {
    family(
        "confetti",
        format!("strips of {counts:?} runs of 30 pixels, of 26 to 38, and of 30 between runs of noise, each run in a colour of its own"),
        counts.len() as u64 * 3,
        move |mut index| {
            let kind = digit(&mut index, 3);
            let m = counts[index as usize];
            let colors = apart();
            let color = |v: usize| colors[v % colors.len()];
            let mut px: Vec<C3> = Vec::new();
            for g in 0..m {
                let len = if kind == 1 { 26 + g * 7 % 13 } else { 30 };
                px.extend(std::iter::repeat(color(g)).take(len));
                if kind == 2 {
                    px.extend((0..5).map(|i| color(m + g * 5 + i)));
                }
            }
            while !(0.1..0.9).contains(&(px.len() as f64 * 0.025).fract()) || px.len() < LEN {
                px.push(color(m * 6 + px.len()));
            }
            Img::strip(&px, kind == 1)
        },
    )
}

/// Pixels which belong to either of two groups.
pub fn shared(tier: Tier) -> Family {
    const WIDTH: usize = 1010;
    const REACH: usize = 25;
    let most = tier.pick(4u64, 7);
    family(
        "shared",
        format!("strips of {WIDTH} pixels of noise, both directions: two pixels {REACH} to {} apart with 1 to 22 of their colour between them, in reach of both, and so many others on the far side that they have 23 to {} in reach", 2 * REACH - 1, 22 + most),
        22 * most * most * 2,
        move |mut index| {
            let horizontal = digit(&mut index, 2) == 1;
            let between = digit(&mut index, 22) as usize + 1;
            let [before, after] = [0; 2].map(|_| (22 + digit(&mut index, most) as usize).saturating_sub(between).min(REACH));
            let mut px: Vec<C3> = (0..WIDTH).map(|i| NOISE[i % NOISE.len()]).collect();
            let first = 400;
            let second = first + REACH - (between - 1) + REACH;
            px[first] = RED;
            px[second] = RED;
            for i in 0..before {
                px[first - REACH + i] = RED;
            }
            for i in 0..between {
                px[first + REACH - i] = RED;
            }
            for i in 0..after {
                px[second + REACH - i] = RED;
            }
            Img::strip(&px, horizontal)
        },
    )
}

/// Rectangles of one colour on noise: the density threshold in two dimensions.
pub fn rectangles(most: u64, places: u64) -> Family {
    family(
        "rectangles",
        format!("161x157 pixels of noise with a rectangle of one colour of every size from 3x3 to {most}x{most}, at {places} places, whole or without a corner, its middle or its first pixel"),
        (most - 2) * (most - 2) * places * 4,
        move |mut index| {
            let kind = digit(&mut index, 4);
            let place = digit(&mut index, places);
            let a = 3 + digit(&mut index, most - 2) as u32;
            let b = 3 + index as u32;
            let (w, h) = (161u32, 157u32);
            let (x0, y0) = [
                (0, 0),
                (w - a, h - b),
                (57, 60),
                (w - a, 0),
                (0, h - b),
                (0, 31),
            ][place as usize];
            let hole = match kind {
                0 => None,
                1 => Some((a - 1, b - 1)),
                2 => Some((a / 2, b / 2)),
                _ => Some((0, 0)),
            };
            Img::new(w, h, |x, y| {
                if (x0..x0 + a).contains(&x) && (y0..y0 + b).contains(&y) && hole != Some((x - x0, y - y0)) {
                    return RED;
                }
                NOISE[((x * 3 + y * 7 + y / 10) % 10) as usize]
            })
        },
    )
}

/// A pixel with just enough of its like within reach, which hardly see each other.
pub fn thinned(places: u64) -> Family {
    family(
        "thinned",
        format!("241x237 pixels of noise with a pixel at {places} places (middle, edges, corners and near them) and 23, 24, 25 or 40 others of its colour within reach: the farthest, the nearest, evenly chosen, or the farthest without the pixel itself"),
        places * 4 * 4,
        move |mut index| {
            let kind = digit(&mut index, 4);
            let count = [24, 23, 25, 40][digit(&mut index, 4) as usize];
            let (w, h) = (241i32, 237i32);
            let (cx, cy) = [
                (w - 7, h - 1),
                (w - 1, h - 1),
                (0, 0),
                (117, 120),
                (117, h - 1),
                (117, 0),
                (0, 120),
                (w - 1, 120),
                (w - 1, 0),
                (0, h - 1),
                (6, h - 1),
                (w - 1, h - 7),
                (3, 0),
                (1, 3),
            ][index as usize];
            let far = |x: i32, y: i32| ((x - cx) as f64 / f64::from(w)).hypot((y - cy) as f64 / f64::from(h));
            let mut others: Vec<(i32, i32)> = (cy - 7..=cy + 7)
                .flat_map(|y| (cx - 7..=cx + 7).map(move |x| (x, y)))
                .filter(|(x, y)| (0..w).contains(x) && (0..h).contains(y) && (*x, *y) != (cx, cy) && far(*x, *y) < 0.0245)
                .collect();
            others.sort_by(|a, b| far(a.0, a.1).total_cmp(&far(b.0, b.1)));
            match kind {
                1 => {}
                2 => {
                    let step = (others.len() / count).max(1);
                    others = others.into_iter().step_by(step).collect();
                }
                _ => others.reverse(),
            }
            others.truncate(count);
            if kind != 3 {
                others.push((cx, cy));
            }
            Img::new(w as u32, h as u32, |x, y| {
                if others.contains(&(x as i32, y as i32)) {
                    return RED;
                }
                // Pixels of one of these colours are farther apart than the reach.
                let v = (x % 16 * 16 + y % 16) as u8;
                [v & 0xe0, v << 3 & 0xe0, 40 + (v << 6)]
            })
        },
    )
}

/// Two rectangles which touch, or nearly do.
pub fn pairs_of_rectangles(most: u64) -> Family {
    family(
        "pairs-of-rectangles",
        format!("161x157 pixels of noise with a rectangle of 5x4 and one of every size up to {most}x{most} of the same colour, 0 to 5 pixels away to the right and 0 or 2 down"),
        most * most * 6 * 2,
        move |mut index| {
            let dx = digit(&mut index, 6) as u32;
            let dy = digit(&mut index, 2) as u32 * 2;
            let a = 1 + digit(&mut index, most) as u32;
            let b = 1 + index as u32;
            Img::new(161, 157, |x, y| {
                let first = (40..45).contains(&x) && (50..54).contains(&y);
                let (x1, y1) = (45 + dx, 50 + dy);
                let second = (x1..x1 + a).contains(&x) && (y1..y1 + b).contains(&y);
                if first || second {
                    return RED;
                }
                NOISE[((x * 3 + y * 7 + y / 10) % 10) as usize]
            })
        },
    )
}

/// One uniform strip for colours which step through all of them.
pub fn uniform_steps(count: u64) -> Family {
    let step = (1u64 << 24) / count;
    let step = step - step % 2 + 1;
    family(
        "uniform-steps",
        format!("uniform strips of {LEN} pixels in all 256 greys, all shades of the six pure hues, and {count} colours in steps of {step}"),
        256 * 7 + count,
        move |mut index| {
            let color = if index < 256 * 7 {
                let v = digit(&mut index, 256) as u8;
                [[v, v, v], [v, 0, 0], [0, v, 0], [0, 0, v], [v, v, 0], [v, 0, v], [0, v, v]][index as usize]
            } else {
                let v = ((index - 256 * 7) * step) & 0xff_ffff;
                [(v >> 16) as u8, (v >> 8) as u8, v as u8]
            };
            Img::strip(&[color; LEN], index % 2 == 0)
        },
    )
}
