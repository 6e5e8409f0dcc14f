//! Images, their extraction by the real code, and the palette the reference model expects.

use crate::engine::guarded;
use crate::refm::{lab_of, rgb_of_lab, Density};
use auto_palette::image::ImageData;
use auto_palette::swatch::Swatch;

pub const MIN_POINTS: usize = 25;
pub const EPSILON: f64 = 0.025;

#[derive(Clone, PartialEq)]
pub struct Img {
    pub w: u32,
    pub h: u32,
    pub px: Vec<[u8; 4]>,
}

impl Img {
    pub fn new(w: u32, h: u32, at: impl Fn(u32, u32) -> [u8; 3]) -> Self {
        let mut px = Vec::with_capacity((w * h) as usize);
        for y in 0..h {
            for x in 0..w {
                let [r, g, b] = at(x, y);
                px.push([r, g, b, 255]);
            }
        }
        Self { w, h, px }
    }

    /// A strip one pixel wide (or high, when `horizontal`).
    pub fn strip(pixels: &[[u8; 3]], horizontal: bool) -> Self {
        let px: Vec<[u8; 4]> = pixels.iter().map(|&[r, g, b]| [r, g, b, 255]).collect();
        let n = px.len() as u32;
        let (w, h) = if horizontal { (n, 1) } else { (1, n) };
        Self { w, h, px }
    }

    pub fn bytes(&self) -> Vec<u8> {
        self.px.iter().flatten().copied().collect()
    }

    pub fn transposed(&self) -> Self {
        let mut px = Vec::with_capacity(self.px.len());
        for x in 0..self.w {
            for y in 0..self.h {
                px.push(self.px[(y * self.w + x) as usize]);
            }
        }
        Self {
            w: self.h,
            h: self.w,
            px,
        }
    }

    /// Run-length description.
    pub fn describe(&self) -> String {
        let mut runs: Vec<([u8; 4], usize)> = Vec::new();
        for &p in &self.px {
            match runs.last_mut() {
                Some((q, n)) if *q == p => *n += 1,
                _ => runs.push((p, 1)),
            }
        }
        let total = runs.len();
        let shown: Vec<String> = runs
            .iter()
            .take(12)
            .map(|([r, g, b, a], n)| {
                if *a == 255 {
                    format!("{n}x({r},{g},{b})")
                } else {
                    format!("{n}x({r},{g},{b},{a})")
                }
            })
            .collect();
        let more = if total > 12 {
            format!(" and {} more runs", total - 12)
        } else {
            String::new()
        };
        format!("{}x{} pixels, row by row: {}{more}", self.w, self.h, shown.join(" "))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Prec {
    F64,
    F32,
}

pub const PRECS: [Prec; 2] = [Prec::F64, Prec::F32];

/// A swatch, with its share also as bits.
#[derive(Clone, Debug, PartialEq)]
pub struct Sw {
    pub color: (u8, u8, u8),
    pub position: (u32, u32),
    pub share: f64,
}

impl Sw {
    pub fn bits(&self) -> ((u8, u8, u8), (u32, u32), u64) {
        (self.color, self.position, self.share.to_bits())
    }
}

pub fn extract_raw(data: &[u8], w: u32, h: u32, prec: Prec) -> Vec<Sw> {
    extract_from(&ImageData::new(data, w, h), prec)
}

pub fn extract_from(image: &ImageData, prec: Prec) -> Vec<Sw> {
    fn convert<F: Copy>(list: Vec<Sw>, _: F) -> Vec<Sw> {
        list
    }
    match prec {
        Prec::F64 => convert(
            image
                .extract::<f64>()
                .into_iter()
                .map(|s: Swatch<f64>| Sw {
                    color: s.color,
                    position: s.position,
                    share: s.percentage,
                })
                .collect(),
            0.0f64,
        ),
        Prec::F32 => convert(
            image
                .extract::<f32>()
                .into_iter()
                .map(|s: Swatch<f32>| Sw {
                    color: s.color,
                    position: s.position,
                    share: f64::from(s.percentage),
                })
                .collect(),
            0.0f32,
        ),
    }
}

pub fn extract(img: &Img, prec: Prec) -> Result<Vec<Sw>, String> {
    let bytes = img.bytes();
    guarded(|| extract_raw(&bytes, img.w, img.h, prec))
        .map_err(|e| format!("extraction ({prec:?}) {e}"))
}

/// A group of pixels which a correct palette summarises in one swatch.
pub struct Group {
    pub members: Vec<usize>,
}

pub struct Expected {
    pub groups: Vec<Group>,
    /// Border pixels which may count towards one of several groups, with those groups.
    pub undecided: Vec<(usize, Vec<usize>)>,
    /// Rounding decides whether two pixels are within reach.
    pub ambiguous: bool,
    pub labs: Vec<[f64; 3]>,
    pub density: Density,
}

/// How far rounding and differently rounded constants may move a colour distance.
const COLOR_MARGIN: f64 = 5e-4;

pub fn expect(img: &Img, prec: Prec) -> Expected {
    let n = img.px.len();
    let mut cache = std::collections::HashMap::new();
    let labs: Vec<[f64; 3]> = img
        .px
        .iter()
        .map(|p| *cache.entry(*p).or_insert_with(|| lab_of([p[0], p[1], p[2]])))
        .collect();
    let same_margin = match prec {
        Prec::F64 => 1e-9,
        Prec::F32 => 2e-5,
    };
    let (w, h) = (i64::from(img.w), i64::from(img.h));
    let dx_max = (EPSILON * w as f64 + 1e-3).floor() as i64 + 1;
    let dy_max = (EPSILON * h as f64 + 1e-3).floor() as i64 + 1;
    // Pairs which are within reach for sure, and all that may be for all that rounding can do.
    let mut neighbors: Vec<Vec<u32>> = vec![Vec::new(); n];
    let mut perhaps: Vec<(u32, u32)> = Vec::new();
    for i in 0..n {
        let (x, y) = (i as i64 % w, i as i64 / w);
        for ny in (y - dy_max).max(0)..=(y + dy_max).min(h - 1) {
            for nx in (x - dx_max).max(0)..=(x + dx_max).min(w - 1) {
                let j = (ny * w + nx) as usize;
                let dx = (nx - x) as f64 / w as f64;
                let dy = (ny - y) as f64 / h as f64;
                let mut d2 = dx * dx + dy * dy;
                let mut margin = same_margin;
                if img.px[i][..3] != img.px[j][..3] {
                    margin = COLOR_MARGIN;
                    let (a, b) = (labs[i], labs[j]);
                    let dl = (a[0] - b[0]) / 100.0;
                    let da = (a[1] - b[1]) / 255.0;
                    let db = (a[2] - b[2]) / 255.0;
                    d2 += dl * dl + da * da + db * db;
                }
                let d = d2.sqrt();
                if (d - EPSILON).abs() < margin {
                    perhaps.push((i as u32, j as u32));
                } else if d <= EPSILON {
                    neighbors[i].push(j as u32);
                }
            }
        }
    }
    let density = Density::new(&neighbors, MIN_POINTS);
    // Density clustering is monotone in the pairs within reach: when the least and the greatest
    // set of pairs lead to the same clusters, so does every set in between.
    let ambiguous = !perhaps.is_empty() && {
        for (i, j) in perhaps {
            neighbors[i as usize].push(j);
        }
        Density::new(&neighbors, MIN_POINTS) != density
    };
    let mut groups: Vec<Group> = (0..density.groups)
        .map(|_| Group {
            members: Vec::new(),
        })
        .collect();
    for i in 0..n {
        if let Some(g) = density.certain(i) {
            groups[g].members.push(i);
        }
    }
    let undecided = density
        .undecided()
        .into_iter()
        .map(|i| (i, density.reach[i].clone()))
        .collect();
    Expected {
        groups,
        undecided,
        ambiguous,
        labs,
        density,
    }
}

/// What one group looks like as a swatch.
pub struct Look {
    pub color: [f64; 3],
    pub in_gamut: bool,
    pub mean: (f64, f64),
    pub low: (u32, u32),
    pub high: (u32, u32),
}

impl Expected {
    pub fn look(&self, img: &Img, members: &[usize]) -> Look {
        let n = members.len() as f64;
        let mut lab = [0.0; 3];
        let mut mean = (0.0, 0.0);
        let mut low = (u32::MAX, u32::MAX);
        let mut high = (0, 0);
        for &i in members {
            for (sum, v) in lab.iter_mut().zip(self.labs[i]) {
                *sum += v;
            }
            let (x, y) = (i as u32 % img.w, i as u32 / img.w);
            mean.0 += f64::from(x);
            mean.1 += f64::from(y);
            low = (low.0.min(x), low.1.min(y));
            high = (high.0.max(x), high.1.max(y));
        }
        let (color, in_gamut) = rgb_of_lab(lab.map(|v| v / n));
        Look {
            color,
            in_gamut,
            mean: (mean.0 / n, mean.1 / n),
            low,
            high,
        }
    }
}

/// How much rounding may move a mean coordinate, in pixels.
fn slack(prec: Prec, extent: u32) -> f64 {
    match prec {
        Prec::F64 => 1e-6,
        Prec::F32 => 1e-3 + f64::from(extent) * 1e-6,
    }
}

fn coordinate_ok(got: u32, mean: f64, slack: f64) -> bool {
    let got = f64::from(got);
    [mean - slack, mean + slack]
        .iter()
        .any(|m| got == m.floor() || got == m.round())
}

fn channel_ok(got: u8, want: f64, in_gamut: bool) -> bool {
    // Out of gamut the channels saturate in a way that is only pinned down loosely.
    let tolerance = if in_gamut { 1.0 } else { 14.0 };
    (f64::from(got) - want.clamp(0.0, 255.0)).abs() <= tolerance
}

pub fn color_ok(got: (u8, u8, u8), look: &Look) -> bool {
    channel_ok(got.0, look.color[0], look.in_gamut)
        && channel_ok(got.1, look.color[1], look.in_gamut)
        && channel_ok(got.2, look.color[2], look.in_gamut)
}

pub fn position_ok(got: (u32, u32), look: &Look, img: &Img, prec: Prec) -> bool {
    coordinate_ok(got.0, look.mean.0, slack(prec, img.w))
        && coordinate_ok(got.1, look.mean.1, slack(prec, img.h))
}

pub fn share_ok(got: f64, members: usize, n: usize, prec: Prec) -> bool {
    let want = members as f64 / n as f64;
    let tolerance = match prec {
        Prec::F64 => 1e-12,
        Prec::F32 => 1e-6,
    };
    (got - want).abs() <= tolerance
}

/// Whether there is a one-to-one matching of `n` left and `n` right items.
pub fn matching(n: usize, fits: impl Fn(usize, usize) -> bool) -> bool {
    fn augment(
        left: usize,
        n: usize,
        fits: &dyn Fn(usize, usize) -> bool,
        seen: &mut [bool],
        owner: &mut [Option<usize>],
    ) -> bool {
        for right in 0..n {
            if seen[right] || !fits(left, right) {
                continue;
            }
            seen[right] = true;
            if owner[right].is_none() || augment(owner[right].unwrap(), n, fits, seen, owner) {
                owner[right] = Some(left);
                return true;
            }
        }
        false
    }
    let mut owner = vec![None; n];
    (0..n).all(|left| augment(left, n, &fits, &mut vec![false; n], &mut owner))
}
