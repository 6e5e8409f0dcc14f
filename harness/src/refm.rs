//! Reference models, kept boring on purpose.
#![allow(dead_code)]

// --- colour, from the definitions ---------------------------------------------------------------

/// sRGB primaries and D65 to ten digits (IEC 61966-2-1).
const M: [[f64; 3]; 3] = [
    [0.4123907993, 0.3575843394, 0.1804807884],
    [0.2126390059, 0.7151686788, 0.0721923154],
    [0.0193308187, 0.1191947798, 0.9505321522],
];
const INV: [[f64; 3]; 3] = [
    [3.2409699419, -1.5373831776, -0.4986107603],
    [-0.9692436363, 1.8759675015, 0.0415550574],
    [0.0556300797, -0.2039769589, 1.0569715142],
];
const WHITE: [f64; 3] = [0.9504559271, 1.0, 1.0890577508];

pub fn linear(channel: u8) -> f64 {
    let v = f64::from(channel) / 255.0;
    if v <= 0.04045 {
        v / 12.92
    } else {
        ((v + 0.055) / 1.055).powf(2.4)
    }
}

pub fn xyz_of(rgb: [u8; 3]) -> [f64; 3] {
    let lin = rgb.map(linear);
    let mut out = [0.0; 3];
    for (o, row) in out.iter_mut().zip(M) {
        *o = row[0] * lin[0] + row[1] * lin[1] + row[2] * lin[2];
    }
    out
}

pub fn lab_of_xyz(xyz: [f64; 3]) -> [f64; 3] {
    let f = |t: f64| {
        if t > (6.0f64 / 29.0).powi(3) {
            t.cbrt()
        } else {
            t * (29.0f64 / 6.0).powi(2) / 3.0 + 4.0 / 29.0
        }
    };
    let [x, y, z] = [f(xyz[0] / WHITE[0]), f(xyz[1] / WHITE[1]), f(xyz[2] / WHITE[2])];
    [116.0 * y - 16.0, 500.0 * (x - y), 200.0 * (y - z)]
}

pub fn lab_of(rgb: [u8; 3]) -> [f64; 3] {
    lab_of_xyz(xyz_of(rgb))
}

pub fn xyz_of_lab(lab: [f64; 3]) -> [f64; 3] {
    let f = |t: f64| {
        if t > 6.0 / 29.0 {
            t * t * t
        } else {
            3.0 * (6.0f64 / 29.0).powi(2) * (t - 4.0 / 29.0)
        }
    };
    let l = (lab[0] + 16.0) / 116.0;
    [
        WHITE[0] * f(l + lab[1] / 500.0),
        WHITE[1] * f(l),
        WHITE[2] * f(l - lab[2] / 200.0),
    ]
}

pub fn linear_rgb_of_xyz(xyz: [f64; 3]) -> [f64; 3] {
    let mut out = [0.0; 3];
    for (o, row) in out.iter_mut().zip(INV) {
        *o = row[0] * xyz[0] + row[1] * xyz[1] + row[2] * xyz[2];
    }
    out
}

/// The companded channel on the scale 0..=255, not rounded and not clamped.
pub fn encode(lin: f64) -> f64 {
    255.0
        * if lin <= 0.0031308 {
            12.92 * lin
        } else {
            1.055 * lin.powf(1.0 / 2.4) - 0.055
        }
}

/// The sRGB colour of a L*a*b* value: the encoded channels, and whether it is in gamut.
pub fn rgb_of_lab(lab: [f64; 3]) -> ([f64; 3], bool) {
    let channels = linear_rgb_of_xyz(xyz_of_lab(lab)).map(encode);
    let inside = channels.iter().all(|c| (-0.5..=255.5).contains(c));
    (channels, inside)
}

// --- density clustering -------------------------------------------------------------------------

/// The facts which every correct density clustering of a dataset has in common.
#[derive(PartialEq)]
pub struct Density {
    pub core: Vec<bool>,
    /// Cluster of each core point, numbered in order of first core point.
    pub group: Vec<usize>,
    pub groups: usize,
    /// For each point that is not core, the clusters it may join.
    pub reach: Vec<Vec<usize>>,
}

impl Density {
    /// `neighbors[i]` lists the points within reach of `i`, itself included.
    pub fn new(neighbors: &[Vec<u32>], min_points: usize) -> Self {
        let n = neighbors.len();
        let core: Vec<bool> = neighbors.iter().map(|l| l.len() >= min_points).collect();
        let mut group = vec![usize::MAX; n];
        let mut groups = 0;
        for start in 0..n {
            if !core[start] || group[start] != usize::MAX {
                continue;
            }
            let mut stack = vec![start];
            group[start] = groups;
            while let Some(at) = stack.pop() {
                for &next in &neighbors[at] {
                    let next = next as usize;
                    if core[next] && group[next] == usize::MAX {
                        group[next] = groups;
                        stack.push(next);
                    }
                }
            }
            groups += 1;
        }
        let reach = (0..n)
            .map(|i| {
                if core[i] {
                    return Vec::new();
                }
                let mut to: Vec<usize> = neighbors[i]
                    .iter()
                    .filter(|&&j| core[j as usize])
                    .map(|&j| group[j as usize])
                    .collect();
                to.sort_unstable();
                to.dedup();
                to
            })
            .collect();
        Self {
            core,
            group,
            groups,
            reach,
        }
    }

    pub fn is_outlier(&self, i: usize) -> bool {
        !self.core[i] && self.reach[i].is_empty()
    }

    /// The only cluster a point can be in, if there is just one.
    pub fn certain(&self, i: usize) -> Option<usize> {
        if self.core[i] {
            Some(self.group[i])
        } else if self.reach[i].len() == 1 {
            Some(self.reach[i][0])
        } else {
            None
        }
    }

    /// Border points which may join one of several clusters.
    pub fn undecided(&self) -> Vec<usize> {
        (0..self.core.len())
            .filter(|&i| !self.core[i] && self.reach[i].len() > 1)
            .collect()
    }
}

// --- spanning trees -----------------------------------------------------------------------------

pub struct Sets(Vec<usize>);

impl Sets {
    pub fn new(n: usize) -> Self {
        Sets((0..n).collect())
    }

    pub fn find(&self, mut x: usize) -> usize {
        while self.0[x] != x {
            x = self.0[x];
        }
        x
    }

    /// Whether the two were apart before.
    pub fn join(&mut self, x: usize, y: usize) -> bool {
        let (x, y) = (self.find(x), self.find(y));
        self.0[x] = y;
        x != y
    }
}

/// The sorted weights of a minimum spanning tree (they are the same for all of them), by Kruskal.
pub fn spanning_weights(n: usize, weight: impl Fn(usize, usize) -> f64) -> Vec<f64> {
    let mut edges: Vec<(f64, usize, usize)> = Vec::new();
    for u in 0..n {
        for v in u + 1..n {
            edges.push((weight(u, v), u, v));
        }
    }
    edges.sort_by(|a, b| a.0.total_cmp(&b.0));
    let mut sets = Sets::new(n);
    edges
        .into_iter()
        .filter(|&(_, u, v)| sets.join(u, v))
        .map(|(w, _, _)| w)
        .collect()
}
