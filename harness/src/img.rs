//! Raster side: canvases, rendering of symbols, and running rqrr's detector over them.

use crate::engine::guard;
use crate::qr::Modules;
use rqrr::{BitGrid, DeQRError, Point, PreparedImage};

#[derive(Clone)]
pub struct Img {
    pub w: usize,
    pub h: usize,
    /// luminance, 0 = black
    pub px: Vec<u8>,
}

impl Img {
    pub fn new(w: usize, h: usize, v: u8) -> Self {
        Img { w, h, px: vec![v; w * h] }
    }
    #[inline]
    pub fn get(&self, x: usize, y: usize) -> u8 {
        self.px[y * self.w + x]
    }
    #[inline]
    pub fn set(&mut self, x: usize, y: usize, v: u8) {
        self.px[y * self.w + x] = v
    }
    /// clipped
    pub fn put(&mut self, x: i64, y: i64, v: u8) {
        if x >= 0 && y >= 0 && (x as usize) < self.w && (y as usize) < self.h {
            self.set(x as usize, y as usize, v)
        }
    }
    pub fn rect(&mut self, x: i64, y: i64, w: i64, h: i64, v: u8) {
        for yy in y..y + h {
            for xx in x..x + w {
                self.put(xx, yy, v);
            }
        }
    }
    pub fn gray(&self) -> image::GrayImage {
        image::GrayImage::from_raw(self.w as u32, self.h as u32, self.px.clone()).unwrap()
    }
}

/// one of the 8 symmetries of the square: bit 2 transposes, then bits 0..2 rotate by quarter turns
pub fn orient(m: &Modules, o: usize) -> Modules {
    let mut c = if o & 4 != 0 { m.transposed() } else { m.clone() };
    for _ in 0..o & 3 {
        let n = c.n;
        let mut r = Modules::new(n);
        for y in 0..n {
            for x in 0..n {
                r.set(x, n - 1 - y, c.get(y, x));
            }
        }
        c = r;
    }
    c
}

pub fn blit(img: &mut Img, m: &Modules, x0: i64, y0: i64, sx: usize, sy: usize, dark: u8, light: u8) {
    for y in 0..m.n {
        for x in 0..m.n {
            let v = if m.get(y, x) { dark } else { light };
            img.rect(x0 + (x * sx) as i64, y0 + (y * sy) as i64, sx as i64, sy as i64, v);
        }
    }
}

/// projective map of module coordinates to pixels: [a b c; d e f; g h 1]
#[derive(Clone, Copy, Debug)]
pub struct Homog(pub [f64; 9]);
impl Homog {
    pub fn map(&self, u: f64, v: f64) -> (f64, f64) {
        let h = &self.0;
        let d = h[6] * u + h[7] * v + h[8];
        ((h[0] * u + h[1] * v + h[2]) / d, (h[3] * u + h[4] * v + h[5]) / d)
    }
    /// maps (0,0), (1,0), (1,1), (0,1) to the given corners
    pub fn of_corners(q: [(f64, f64); 4]) -> Option<Homog> {
        let (d1, d2) = ((q[1].0 - q[2].0, q[1].1 - q[2].1), (q[3].0 - q[2].0, q[3].1 - q[2].1));
        let s = (q[0].0 - q[1].0 + q[2].0 - q[3].0, q[0].1 - q[1].1 + q[2].1 - q[3].1);
        let den = d1.0 * d2.1 - d2.0 * d1.1;
        if den.abs() < 1e-9 {
            return None;
        }
        let g = (s.0 * d2.1 - d2.0 * s.1) / den;
        let h = (d1.0 * s.1 - s.0 * d1.1) / den;
        Some(Homog([
            q[1].0 - q[0].0 + g * q[1].0,
            q[3].0 - q[0].0 + h * q[3].0,
            q[0].0,
            q[1].1 - q[0].1 + g * q[1].1,
            q[3].1 - q[0].1 + h * q[3].1,
            q[0].1,
            g,
            h,
            1.0,
        ]))
    }
    pub fn inverse(&self) -> Homog {
        let h = &self.0;
        Homog([
            h[4] * h[8] - h[5] * h[7],
            h[2] * h[7] - h[1] * h[8],
            h[1] * h[5] - h[2] * h[4],
            h[5] * h[6] - h[3] * h[8],
            h[0] * h[8] - h[2] * h[6],
            h[2] * h[3] - h[0] * h[5],
            h[3] * h[7] - h[4] * h[6],
            h[1] * h[6] - h[0] * h[7],
            h[0] * h[4] - h[1] * h[3],
        ])
    }
    pub fn mul(&self, o: &Homog) -> Homog {
        let (a, b) = (&self.0, &o.0);
        let mut r = [0.0; 9];
        for i in 0..3 {
            for j in 0..3 {
                r[i * 3 + j] = (0..3).map(|k| a[i * 3 + k] * b[k * 3 + j]).sum();
            }
        }
        Homog(r)
    }
}

/// paint the symbol under a projective map; ss×ss supersampling gives grey edges
pub fn paint_warped(img: &mut Img, m: &Modules, hm: &Homog, ss: usize, dark: u8, light: u8, quiet: f64) {
    let inv = hm.inverse();
    let n = m.n as f64;
    for y in 0..img.h {
        for x in 0..img.w {
            let mut acc = 0u32;
            let mut any = false;
            for j in 0..ss {
                for i in 0..ss {
                    let (fx, fy) = (x as f64 + (i as f64 + 0.5) / ss as f64, y as f64 + (j as f64 + 0.5) / ss as f64);
                    let (u, v) = inv.map(fx, fy);
                    let c = if u >= 0.0 && v >= 0.0 && u < n && v < n {
                        any = true;
                        if m.get(v as usize, u as usize) {
                            dark
                        } else {
                            light
                        }
                    } else if u >= -quiet && v >= -quiet && u < n + quiet && v < n + quiet {
                        any = true;
                        light
                    } else {
                        img.get(x, y)
                    };
                    acc += c as u32;
                }
            }
            if any {
                img.set(x, y, (acc / (ss * ss) as u32) as u8);
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meta {
    pub version: usize,
    pub ecc: u16,
    pub mask: u16,
}
impl From<rqrr::MetaData> for Meta {
    fn from(m: rqrr::MetaData) -> Self {
        Meta { version: m.version.0, ecc: m.ecc_level, mask: m.mask }
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct Det {
    pub size: usize,
    pub bits: Modules,
    pub bounds: [(i32, i32); 4],
    pub res: Result<(Meta, Vec<u8>), DeQRError>,
}
impl Det {
    pub fn brief(&self) -> String {
        format!(
            "grid size {} bounds {:?} -> {}",
            self.size,
            self.bounds,
            match &self.res {
                Ok((m, b)) => format!("v{} ecc{} mask{} {} bytes {:?}", m.version, m.ecc, m.mask, b.len(), String::from_utf8_lossy(&b[..b.len().min(40)])),
                Err(e) => format!("{e:?}"),
            }
        )
    }
}

pub fn read_grid<G: BitGrid>(g: &rqrr::Grid<G>) -> Det {
    let n = g.grid.size();
    let mut bits = Modules::new(n);
    for y in 0..n {
        for x in 0..n {
            bits.set(y, x, g.grid.bit(y, x));
        }
    }
    let mut out = vec![];
    let res = g.decode_to(&mut out).map(|m| (m.into(), out));
    let p = |p: Point| (p.x, p.y);
    Det { size: n, bits, bounds: [p(g.bounds[0]), p(g.bounds[1]), p(g.bounds[2]), p(g.bounds[3])], res }
}

pub fn detect_bitmap(i: &Img) -> Vec<Det> {
    let mut p = PreparedImage::prepare_from_bitmap(i.w, i.h, |x, y| i.get(x, y) < 128);
    p.detect_grids().iter().map(read_grid).collect()
}
pub fn detect_grey(i: &Img) -> Vec<Det> {
    let mut p = PreparedImage::prepare_from_greyscale(i.w, i.h, |x, y| i.get(x, y));
    p.detect_grids().iter().map(read_grid).collect()
}
pub fn try_bitmap(i: &Img) -> Result<Vec<Det>, String> {
    guard(|| detect_bitmap(i))
}
pub fn try_grey(i: &Img) -> Result<Vec<Det>, String> {
    guard(|| detect_grey(i))
}

pub fn grid_of(m: &Modules) -> rqrr::Grid<rqrr::SimpleGrid> {
    rqrr::Grid::new(rqrr::SimpleGrid::from_func(m.n, |x, y| m.get(y, x)))
}

/// decode through the public grid API, as bytes
pub fn decode_bytes(m: &Modules) -> Result<(Meta, Vec<u8>), DeQRError> {
    let mut out = vec![];
    grid_of(m).decode_to(&mut out).map(|x| (x.into(), out))
}

/// Number of dark components of a two-tone image that look like a finder pattern's ring: some row
/// shows dark-light-dark-light-dark in roughly 1:1:3:1:1, the outer runs belong to one component,
/// the middle one to another, with plausible areas. Deliberately more permissive than a detector.
/// Used as a precondition ("no look-alike besides the real finders"), never as the oracle.
pub fn finder_lookalikes(i: &Img) -> usize {
    survey(i).looks
}

pub struct Survey {
    /// shapes that look like a finder pattern
    pub looks: usize,
    /// dark regions and the size of the largest one
    pub regions: usize,
    pub largest: usize,
    /// places where a line crosses dark and light in the proportions of a finder pattern
    pub crossings: usize,
}

pub fn survey(i: &Img) -> Survey {
    let mut crossings = 0;
    let (w, h) = (i.w, i.h);
    let dark = |x: usize, y: usize| i.px[y * w + x] < 128;
    let mut label = vec![u32::MAX; w * h];
    let mut area: Vec<usize> = vec![];
    let mut stack = vec![];
    for y in 0..h {
        for x in 0..w {
            if !dark(x, y) || label[y * w + x] != u32::MAX {
                continue;
            }
            let id = area.len() as u32;
            area.push(0);
            label[y * w + x] = id;
            stack.push((x, y));
            while let Some((a, b)) = stack.pop() {
                area[id as usize] += 1;
                let mut go = |c: usize, d: usize| {
                    if dark(c, d) && label[d * w + c] == u32::MAX {
                        label[d * w + c] = id;
                        stack.push((c, d));
                    }
                };
                if a > 0 {
                    go(a - 1, b)
                }
                if b > 0 {
                    go(a, b - 1)
                }
                if a + 1 < w {
                    go(a + 1, b)
                }
                if b + 1 < h {
                    go(a, b + 1)
                }
            }
        }
    }
    let mut rings = std::collections::BTreeSet::new();
    let mut runs: Vec<(usize, usize)> = vec![]; // start, len ; alternating, first may be either colour
    for y in 0..h {
        runs.clear();
        let mut x = 0;
        while x < w {
            let c = dark(x, y);
            let s = x;
            while x < w && dark(x, y) == c {
                x += 1;
            }
            runs.push((s, x - s));
        }
        for k in 0..runs.len().saturating_sub(4) {
            let r = &runs[k..k + 5];
            if !dark(r[0].0, y) {
                continue;
            }
            let sum = r[0].1 + r[1].1 + r[3].1 + r[4].1;
            let fits = |avg: f64, tol: f64| {
                (0..5).all(|j| (r[j].1 as f64 - avg * [1.0, 1.0, 3.0, 1.0, 1.0][j]).abs() <= tol)
            };
            let ok = fits(sum as f64 / 4.0, sum as f64 / 4.0 * 0.8) || fits((sum / 4) as f64, (sum / 4) as f64 * 0.75);
            if !ok {
                continue;
            }
            crossings += 1;
            let (a, s, b) = (label[y * w + r[0].0], label[y * w + r[2].0], label[y * w + r[4].0]);
            if a == b && a != s {
                let ratio = area[s as usize] as f64 / area[a as usize] as f64;
                if ratio > 0.09 && ratio < 0.71 {
                    rings.insert(a);
                }
            }
        }
    }
    Survey { looks: rings.len(), regions: area.len(), largest: area.iter().copied().max().unwrap_or(0), crossings }
}
