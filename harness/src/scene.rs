//! Adversarial scenes for the totality / bounded-work properties: anything a caller may feed in,
//! biased towards things that look like finder patterns without being well-behaved ones.

use crate::engine::*;
use crate::img::*;
use crate::qr::*;

/// a random small symbol (byte payload) of the given version
pub fn any_symbol(s: &mut Src, ver: usize) -> (Symbol, Vec<u8>) {
    let lvl = s.range(0, 3);
    let mask = s.range(0, 7) as u16;
    let cap = data_capacity(ver, lvl);
    let over = (4 + count_bits(4, ver) + 7) / 8;
    let max = (cap - over).min((1usize << count_bits(4, ver)) - 1);
    let len = s.range(1, max);
    let mut bulk = s.bulk();
    let d: Vec<u8> = (0..len).map(|_| b' ' + bulk.below(95) as u8).collect();
    let mut b = Bits::default();
    Seg::Byte(d.clone()).emit(ver, &mut b);
    (make_symbol(ver, lvl, mask, &finish(b, cap, true, [0xec, 0x11]).unwrap(), false), d)
}

fn fill_poly(img: &mut Img, p: &[(f64, f64)], v: u8) {
    let (mut y0, mut y1) = (f64::MAX, f64::MIN);
    let (mut x0, mut x1) = (f64::MAX, f64::MIN);
    for q in p {
        y0 = y0.min(q.1);
        y1 = y1.max(q.1);
        x0 = x0.min(q.0);
        x1 = x1.max(q.0);
    }
    let ya = y0.floor().max(0.0) as usize;
    let yb = (y1.ceil().max(0.0) as usize).min(img.h);
    let xa = x0.floor().max(0.0) as usize;
    let xb = (x1.ceil().max(0.0) as usize).min(img.w);
    for y in ya..yb {
        for x in xa..xb {
            let (fx, fy) = (x as f64 + 0.5, y as f64 + 0.5);
            let mut inside = false;
            let mut j = p.len() - 1;
            for i in 0..p.len() {
                let (a, b) = (p[i], p[j]);
                if (a.1 > fy) != (b.1 > fy) && fx < (b.0 - a.0) * (fy - a.1) / (b.1 - a.1) + a.0 {
                    inside = !inside;
                }
                j = i;
            }
            if inside {
                img.set(x, y, v);
            }
        }
    }
}

/// ring + hole + stone with a common outline shape; `k` corners (3,4,5,...,large = ellipse)
pub fn blob_finder(s: &mut Src, img: &mut Img, cx: f64, cy: f64, r: f64) {
    let kind = s.below(8);
    let rot = s.float(0.0, std::f64::consts::TAU);
    let (ax, ay) = (s.float(0.3, 1.3), s.float(0.3, 1.3));
    let outline: Vec<(f64, f64)> = match kind {
        0 | 1 => vec![(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)],
        2 => (0..24).map(|i| ((i as f64 * 0.2618).cos(), (i as f64 * 0.2618).sin())).collect(),
        3 => vec![(-1.0, 1.0), (1.0, 1.0), (0.0, -1.0)],
        4 => (0..4).map(|_| (s.sym(1.3), s.sym(1.3))).collect(),
        5 => vec![(-1.0, -1.0), (1.0, -1.0), (1.0, -0.2), (-0.2, 1.0), (-1.0, 1.0)],
        6 => vec![(0.0, -1.3), (0.5, 0.0), (0.0, 1.3), (-0.5, 0.0)],
        _ => {
            let k = s.range(3, 9);
            (0..k)
                .map(|i| {
                    let a = i as f64 * std::f64::consts::TAU / k as f64;
                    let q = s.float(0.4, 1.2);
                    (q * a.cos(), q * a.sin())
                })
                .collect()
        }
    };
    let rot = if s.bool() { 0.0 } else { rot };
    let place = |f: f64, off: (f64, f64)| -> Vec<(f64, f64)> {
        outline
            .iter()
            .map(|&(x, y)| {
                let (x, y) = (x * f * ax * r, y * f * ay * r);
                (cx + off.0 + x * rot.cos() - y * rot.sin(), cy + off.1 + x * rot.sin() + y * rot.cos())
            })
            .collect()
    };
    let off = if s.chance(1, 4) { (s.sym(r * 0.2), s.sym(r * 0.2)) } else { (0.0, 0.0) };
    let hole = s.float(0.62, 0.8);
    let stone = s.float(0.3, 0.5);
    fill_poly(img, &place(1.0, (0.0, 0.0)), 0);
    fill_poly(img, &place(hole, off), 255);
    fill_poly(img, &place(stone, off), 0);
    if s.chance(1, 6) {
        // a tail attached to the ring or the stone
        let a = s.float(0.0, std::f64::consts::TAU);
        let l = s.float(1.0, 8.0) * r;
        let t = s.float(0.5, 2.5);
        let (dx, dy) = (a.cos(), a.sin());
        let st = s.float(0.0, 0.95) * r * ax;
        let p0 = (cx + dx * st, cy + dy * st);
        let p1 = (cx + dx * l, cy + dy * l);
        fill_poly(img, &[(p0.0 - dy * t, p0.1 + dx * t), (p1.0 - dy * t, p1.1 + dx * t), (p1.0 + dy * t, p1.1 - dx * t), (p0.0 + dy * t, p0.1 - dx * t)], 0);
    }
}

fn warped_finder(s: &mut Src, img: &mut Img, cx: f64, cy: f64, r: f64) {
    // the standard finder under a random projective map
    let m = {
        let mut m = Modules::new(7);
        for y in 0..7usize {
            for x in 0..7usize {
                let d = (y as i64 - 3).abs().max((x as i64 - 3).abs());
                m.set(y, x, d != 2);
            }
        }
        m
    };
    let a = s.float(0.0, std::f64::consts::TAU);
    let a = if s.bool() { 0.0 } else { a };
    let (sx, sy) = (s.float(0.3, 1.5), s.float(0.3, 1.5));
    let sh = s.sym(0.9);
    let (g, h) = (s.sym(0.22), s.sym(0.22));
    let k = r / 3.5;
    let lin = Homog([
        k * sx * a.cos(), k * (sx * sh * a.cos() - sy * a.sin()), cx,
        k * sx * a.sin(), k * (sx * sh * a.sin() + sy * a.cos()), cy,
        0.0, 0.0, 1.0,
    ]);
    let centre = Homog([1.0, 0.0, -3.5, 0.0, 1.0, -3.5, 0.0, 0.0, 1.0]);
    let persp = Homog([1.0, 0.0, 0.0, 0.0, 1.0, 0.0, g, h, 1.0]);
    paint_warped(img, &m, &lin.mul(&persp).mul(&centre), 1, 0, 255, 0.0);
}

pub fn strong_homography(s: &mut Src, n: f64, w: f64, h: f64) -> Homog {
    let a = s.float(0.0, std::f64::consts::TAU);
    let k = s.float(0.3, 1.4) * w.min(h) / n;
    let (sx, sy) = (s.float(0.4, 1.4), s.float(0.4, 1.4));
    let sh = s.sym(0.8);
    let g = s.sym(1.2) / n;
    let hh = s.sym(1.2) / n;
    let lin = Homog([
        k * sx * a.cos(), k * (sx * sh * a.cos() - sy * a.sin()), w * s.float(0.2, 0.8),
        k * sx * a.sin(), k * (sx * sh * a.sin() + sy * a.cos()), h * s.float(0.2, 0.8),
        0.0, 0.0, 1.0,
    ]);
    let persp = Homog([1.0, 0.0, 0.0, 0.0, 1.0, 0.0, g, hh, 1.0]);
    let centre = Homog([1.0, 0.0, -n / 2.0, 0.0, 1.0, -n / 2.0, 0.0, 0.0, 1.0]);
    lin.mul(&persp).mul(&centre)
}

/// A symbol seen so obliquely that its fourth corner lies near the horizon, far outside of the picture.
pub fn horizon_scene(s: &mut Src) -> Img {
    let ver = s.range(2, 7);
    let (sy, _) = any_symbol(s, ver);
    let n = sy.modules.n as f64;
    // where the diagonal meets the horizon, in modules from the first corner
    let far = n - 6.5 + s.sym(4.0);
    let share = s.float(0.4, 0.6);
    let (g, h) = (-share / far, (share - 1.0) / far);
    let k = s.float(3.0, 9.0);
    let a = if s.bool() { s.range(0, 3) as f64 * std::f64::consts::FRAC_PI_2 } else { s.float(0.0, std::f64::consts::TAU) };
    let (shear, sy2) = (s.sym(0.2), s.float(0.8, 1.2));
    let lin = |ox: f64, oy: f64| {
        Homog([
            k * a.cos(), k * (shear * a.cos() - sy2 * a.sin()), ox,
            k * a.sin(), k * (shear * a.sin() + sy2 * a.cos()), oy,
            0.0, 0.0, 1.0,
        ])
    };
    let persp = Homog([1.0, 0.0, 0.0, 0.0, 1.0, 0.0, g, h, 1.0]);
    // the picture shows the three finders
    let at = lin(0.0, 0.0).mul(&persp);
    let pts = [at.map(0.0, 0.0), at.map(n, 0.0), at.map(n, 7.0), at.map(0.0, n), at.map(7.0, n), at.map(n * 0.5, n * 0.5)];
    let lo = pts.iter().fold((f64::MAX, f64::MAX), |m, p| (m.0.min(p.0), m.1.min(p.1)));
    let hi = pts.iter().fold((f64::MIN, f64::MIN), |m, p| (m.0.max(p.0), m.1.max(p.1)));
    let pad = s.float(0.0, 12.0);
    let dim = |d: f64| (d + 2.0 * pad).clamp(1.0, 900.0) as usize;
    let mut img = Img::new(dim(hi.0 - lo.0), dim(hi.1 - lo.1), 255);
    let hm = lin(pad - lo.0, pad - lo.1).mul(&persp);
    let mut m = sy.modules;
    if s.bool() {
        // finders and timing only
        for y in 0..m.n {
            for x in 0..m.n {
                let f = |t: usize| t < 8 || t >= m.n - 8;
                if !(f(x) && f(y)) && x != 6 && y != 6 {
                    m.set(y, x, false);
                }
            }
        }
    }
    paint_warped(&mut img, &m, &hm, 1, 0, 255, 0.0);
    img
}

/// Three finder-like shapes in an L (each well formed or odd), something between them that may pass
/// for a timing pattern, something in the fourth corner that may pass for an alignment pattern.
pub fn finder_l(s: &mut Src) -> Img {
    let k = s.float(1.5, 9.0); // pixels per module
    let side = *s.pick(&[12.0, 15.0, 21.0, 25.0, 29.0, 45.0, 8.5, 90.0, 177.0, 240.0]) * s.float(0.9, 1.1);
    let k = k.min(420.0 / side).max(1.2);
    let span = k * side;
    let a = match s.below(4) {
        0 | 1 => 0.0,
        2 => s.range(0, 3) as f64 * std::f64::consts::FRAC_PI_2,
        _ => s.float(0.0, std::f64::consts::TAU),
    };
    let shear = if s.chance(1, 3) { s.sym(0.3) } else { 0.0 };
    let (dim, off) = (span * 1.6 + 10.0, span * 0.3 + s.sym(span * 0.25));
    let (w, h) = (dim as usize, (dim * s.float(0.6, 1.1)) as usize);
    let mut img = Img::new(w.max(1), h.max(1), 255);
    if s.chance(1, 4) {
        let d = s.range(1, 200) as u64;
        let mut b = s.bulk();
        let step = s.range(1, 4);
        for y in (0..h).step_by(step) {
            for x in (0..w).step_by(step) {
                if b.below(1000) < d {
                    img.rect(x as i64, y as i64, step as i64, step as i64, 0);
                }
            }
        }
    }
    let c = span / 2.0;
    let lin = |u: f64, v: f64| -> (f64, f64) {
        // modules, origin at the outer corner of the corner finder
        let (x, y) = (u * k + v * k * shear - c, v * k - c);
        (off + c + x * a.cos() - y * a.sin(), off + c + x * a.sin() + y * a.cos())
    };
    // what lies inside
    if s.chance(3, 4) {
        let period = *s.pick(&[1.0, 1.0, 1.0, 2.0, 3.0, 0.5, 0.3]);
        let thick = s.float(0.6, 2.0);
        for horiz in [true, false] {
            let mut t = 7.0;
            let mut dark = false;
            while t < side - 7.0 {
                if dark {
                    let q = |u: f64, v: f64| if horiz { lin(u, v) } else { lin(v, u) };
                    fill_poly(&mut img, &[q(t, 6.0), q(t + period, 6.0), q(t + period, 6.0 + thick), q(t, 6.0 + thick)], 0);
                }
                dark = !dark;
                t += period;
            }
        }
    }
    for _ in 0..s.range(0, 4) {
        // candidates for the alignment pattern
        let (u, v) = (side - 7.0 + s.sym(8.0), side - 7.0 + s.sym(8.0));
        let r = s.float(0.2, 2.0);
        let p = [lin(u - r, v - r), lin(u + r, v - r), lin(u + r, v + r), lin(u - r, v + r)];
        fill_poly(&mut img, &p, 0);
    }
    let spread = if s.bool() { 0.0 } else { 2.0 };
    for (u, v) in [(0.0, 0.0), (side - 7.0, 0.0), (0.0, side - 7.0)] {
        let (du, dv) = (s.sym(spread), s.sym(spread));
        l_shape(s, &mut img, &|x, y| lin(u + du + x, v + dv + y));
    }
    for _ in 0..s.range(0, 2) {
        let (u, v) = (s.float(-4.0, side), s.float(-4.0, side));
        l_shape(s, &mut img, &|x, y| lin(u + x, v + y));
    }
    img
}

fn l_shape(s: &mut Src, img: &mut Img, place: &dyn Fn(f64, f64) -> (f64, f64)) {
    let sq = vec![(0.0, 0.0), (7.0, 0.0), (7.0, 7.0), (0.0, 7.0)];
    let outline: Vec<(f64, f64)> = match s.below(14) {
        0..=5 => sq,
        6 => vec![(0.0, 0.0), (7.0, 0.0), (0.0, 7.0)],
        7 => vec![(7.0, 7.0), (7.0, 0.0), (0.0, 7.0)],
        8 => vec![(3.5, 0.0), (7.0, 7.0), (0.0, 7.0)],
        9 => vec![(3.5, 7.0), (7.0, 0.0), (0.0, 0.0)],
        10 => (0..20).map(|i| (3.5 + 3.5 * (i as f64 * 0.31416).cos(), 3.5 + 3.5 * (i as f64 * 0.31416).sin())).collect(),
        11 => sq.iter().map(|&(x, y)| (x + s.sym(3.0), y + s.sym(3.0))).collect(),
        12 => vec![(3.5, 0.0), (7.0, 3.5), (3.5, 7.0), (0.0, 3.5)],
        _ => (0..s.range(3, 8)).map(|_| (s.float(0.0, 7.0), s.float(0.0, 7.0))).collect(),
    };
    let n = outline.len() as f64;
    let cx = outline.iter().map(|p| p.0).sum::<f64>() / n;
    let cy = outline.iter().map(|p| p.1).sum::<f64>() / n;
    let (fh, fs) = if s.chance(1, 4) { (s.float(0.6, 0.85), s.float(0.25, 0.55)) } else { (5.0 / 7.0, 3.0 / 7.0) };
    let ring = |f: f64| -> Vec<(f64, f64)> { outline.iter().map(|p| place(cx + (p.0 - cx) * f, cy + (p.1 - cy) * f)).collect() };
    fill_poly(img, &ring(9.0 / 7.0), 255);
    fill_poly(img, &ring(1.0), 0);
    fill_poly(img, &ring(fh), 255);
    fill_poly(img, &ring(fs), 0);
    if s.chance(1, 10) {
        // a tail on ring or stone: stretches the region far beyond the pattern
        let (x, y) = (s.float(0.0, 7.0), s.float(0.0, 7.0));
        let (ex, ey) = (x + s.sym(40.0), y + s.sym(40.0));
        let t = s.float(0.1, 0.6);
        fill_poly(img, &[place(x - t, y - t), place(x + t, y + t), place(ex + t, ey + t), place(ex - t, ey - t)], 0);
    }
}

/// hundreds of bars in finder proportions, and big regions between them
pub fn crowded(s: &mut Src) -> Img {
    let (w, h) = (s.range(100, 1200), s.range(4, 120));
    let mut i = Img::new(w, h, 255);
    let u = s.range(1, 2);
    let mut y = 0;
    while y < h {
        let band = s.range(1, 40);
        let mut x = s.range(0, 6);
        let mut k = 0;
        while x < w {
            let l = [u, u, 3 * u, u][k % 4];
            if k % 2 == 0 {
                i.rect(x as i64, y as i64, l as i64, band as i64, 0);
            }
            x += l;
            k += 1;
        }
        if s.chance(1, 5) {
            // joins the bars of this band
            i.rect(0, (y + band - 1) as i64, w as i64, 1, 0);
        }
        y += band + s.range(0, 3);
    }
    i
}

/// up to 250 long bars in finder proportions: all of them can be remembered, every line crosses all
pub fn palisade(s: &mut Src) -> Img {
    let bars = match s.below(3) {
        0 => s.range(3, 250),
        1 => s.range(240, 250),
        _ => s.range(3, 40),
    };
    let u = s.range(1, if bars < 60 { 6 } else { 2 });
    let h = s.range(40, 600);
    let mut i = Img::new(bars * 3 * u + 20, h, 255);
    let mut x = s.range(0, 10);
    let joined = s.chance(1, 3);
    for k in 0..bars {
        let l = [u, 3 * u][k % 2];
        let (a, b) = (s.range(0, 3), s.range(0, 3));
        i.rect(x as i64, a as i64, l as i64, (h - a - b) as i64, 0);
        if joined && k % 2 == 0 && k + 2 < bars {
            // frames: the thin bars are joined in pairs around the thick one between them
            if k % 4 == 0 {
                i.rect(x as i64, 0, 6 * u as i64, 1, 0);
            }
        }
        x += l + u;
    }
    if s.bool() {
        let mut t = Img::new(i.h, i.w, 255);
        for y in 0..i.h {
            for x in 0..i.w {
                t.set(y, x, i.get(x, y));
            }
        }
        if s.bool() {
            i = t;
        }
    }
    i
}

/// images with one side beyond 16 bits, about: a symbol or its finders drawn over the whole length, or at the far end
pub fn long_scene(s: &mut Src) -> Img {
    let len = s.range(20_000, 140_000);
    let ver = s.range(1, 5);
    let (sy, _) = any_symbol(s, ver);
    let mut m = orient(&sy.modules, s.range(0, 7));
    let stretched = s.chance(2, 3);
    if stretched && s.bool() {
        // one finder
        let mut f = Modules::new(7);
        for y in 0..7usize {
            for x in 0..7usize {
                f.set(y, x, y.abs_diff(3).max(x.abs_diff(3)) != 2);
            }
        }
        m = f;
    }
    let n = m.n;
    if stretched && n > 7 && s.bool() {
        // finders only, so that nothing else stops the search
        for y in 0..n {
            for x in 0..n {
                let f = |a: usize| a < 8 || a >= n - 8;
                if !(f(x) && f(y)) && s.chance(1, 2) {
                    m.set(y, x, (x + y) % 2 == 0);
                }
            }
        }
    }
    let k = s.range(1, 2);
    let (kx, across) = if stretched { (len / n, n * k + s.range(0, 6)) } else { (k, n * k + s.range(0, 6)) };
    let mut i = Img::new(len, across, 255);
    let at = if stretched { s.irange(0, (len - kx * n) as i64) } else { (len - n * kx) as i64 - s.irange(0, 50) };
    blit(&mut i, &m, at, s.irange(0, (across - n * k) as i64), kx, k, 0, 255);
    if s.bool() {
        let mut t = Img::new(i.h, i.w, 255);
        for y in 0..i.h {
            for x in 0..i.w {
                t.set(y, x, i.get(x, y));
            }
        }
        i = t;
    }
    i
}

pub fn any_scene(s: &mut Src, c: &mut Ctx) -> Img {
    let kind = s.below(11);
    let mut img = match kind {
        0 => {
            c.label("scene", "tiny noise");
            let (w, h) = (s.range(0, 24), s.range(0, 24));
            let mut i = Img::new(w, h, 255);
            for p in i.px.iter_mut() {
                *p = s.byte();
            }
            i
        }
        1 => {
            c.label("scene", "block noise");
            let (w, h) = (s.range(1, 60), s.range(1, 60));
            let k = s.range(1, 5);
            let dens = s.range(5, 95) as u64;
            let mut b = s.bulk();
            let cells: Vec<bool> = (0..w * h).map(|_| b.below(100) < dens).collect();
            let mut i = Img::new(w * k, h * k, 255);
            for y in 0..h * k {
                for x in 0..w * k {
                    if cells[y / k * w + x / k] {
                        i.set(x, y, 0);
                    }
                }
            }
            i
        }
        10 => {
            c.label("scene", "many regions");
            let mut i = crowded(s);
            for _ in 0..s.range(0, 4) {
                let (x, y) = (s.float(0.0, i.w as f64), s.float(0.0, i.h as f64));
                let r = s.float(6.0, 30.0);
                blob_finder(s, &mut i, x, y, r);
            }
            i
        }
        2 => {
            c.label("scene", "stripes");
            let w = s.range(20, 160);
            let h = s.range(1, 90);
            let mut i = Img::new(w, h, 255);
            let mut y = 0;
            while y < h {
                let band = s.range(1, 12);
                let mut x = s.range(0, 8);
                let u = s.range(1, 5);
                for k in 0..s.range(1, 30) {
                    let l = [u, u, 3 * u, u, u][k % 5] + s.range(0, 1);
                    if k % 2 == 0 {
                        i.rect(x as i64, y as i64, l as i64, band as i64, 0);
                    }
                    x += l;
                }
                y += band + s.range(0, 3);
            }
            i
        }
        3..=6 => {
            c.label("scene", "finder-like shapes");
            finder_l(s)
        }
        7 | 8 => {
            c.label("scene", "symbol under strong perspective");
            let ver = s.range(1, 8);
            let (sy, _) = any_symbol(s, ver);
            let (w, h) = (s.range(60, 320), s.range(60, 320));
            let mut i = Img::new(w, h, 255);
            let hm = strong_homography(s, sy.modules.n as f64, w as f64, h as f64);
            paint_warped(&mut i, &sy.modules, &hm, 1, 0, 255, 0.0);
            i
        }
        _ => {
            c.label("scene", "symbol with damage");
            let ver = s.range(1, 10);
            let (sy, _) = any_symbol(s, ver);
            let k = s.range(1, 5);
            let n = sy.modules.n * k;
            let (w, h) = (n + s.range(0, 40), n + s.range(0, 40));
            let mut i = Img::new(w, h, 255);
            let (ox, oy) = (s.irange(-(n as i64) / 3, 30), s.irange(-(n as i64) / 3, 30));
            blit(&mut i, &orient(&sy.modules, s.range(0, 7)), ox, oy, k, k, 0, 255);
            for _ in 0..s.range(0, 8) {
                let (x, y) = (s.irange(0, w as i64), s.irange(0, h as i64));
                let v = *s.pick(&[0u8, 255]);
                i.rect(x, y, s.irange(1, 30), s.irange(1, 30), v);
            }
            i
        }
    };
    if img.w > 0 && img.h > 0 && s.chance(1, 6) {
        c.label("scene noise", "salt-and-pepper");
        let d = s.range(1, 60) as u64;
        let mut b = s.bulk();
        for p in img.px.iter_mut() {
            if b.below(1000) < d {
                *p = 255 - *p;
            }
        }
    }
    img
}
