//! Properties of finding codes in images.

use crate::engine::*;
use crate::gen::*;
use crate::img::*;
use crate::p_decode::damage_within;
use crate::qr::*;
use crate::scene::*;
use image::{GenericImage, GenericImageView};
use rqrr::{Point, PreparedImage};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

fn legal_size(n: usize) -> bool {
    (21..=177).contains(&n) && n % 4 == 1
}

fn briefs(d: &[Det]) -> String {
    d.iter().map(|x| x.brief()).collect::<Vec<_>>().join(" | ")
}

fn check_one(det: &[Det], sym: &Symbol, content: &[u8], what: &str) -> Outcome {
    if det.len() != 1 {
        return Err(format!("{what}: {} grids instead of one: {}", det.len(), briefs(det)));
    }
    check_det(&det[0], sym, content, what)
}

fn check_det(d: &Det, sym: &Symbol, content: &[u8], what: &str) -> Outcome {
    match &d.res {
        Ok((m, b)) => {
            let want = Meta { version: sym.ver, ecc: LEVEL_BITS[sym.lvl], mask: sym.mask };
            if b != content {
                Err(format!("{what}: wrong content, {}", d.brief()))
            } else if *m != want {
                Err(format!("{what}: metadata {m:?}, expected {want:?}"))
            } else {
                Ok(())
            }
        }
        Err(_) => Err(format!("{what}: {}", d.brief())),
    }
}

// ------------------------------------------------------------------ C13
pub fn any_image(s: &mut Src, c: &mut Ctx) -> Outcome {
    let im = if s.chance(1, 250) {
        c.label("scene", "very long");
        long_scene(s)
    } else if s.chance(1, 16) {
        c.label("scene", "fourth corner near the horizon");
        horizon_scene(s)
    } else {
        any_scene(s, c)
    };
    c.note(format!("{}x{} px", im.w, im.h));
    let mut grids = 0;
    for (name, det) in [("bitmap", try_bitmap(&im)), ("greyscale", try_grey(&im))] {
        let det = det.map_err(|p| format!("{name}: {p}"))?;
        for d in &det {
            if !legal_size(d.size) {
                return Err(format!("{name}: reported a grid of {0}x{0} modules, which no QR code has", d.size));
            }
        }
        grids += det.len();
    }
    c.label("grids", grids.min(3));
    c.nontrivial = im.px.iter().any(|&p| p < 128) && im.w * im.h > 49;
    Ok(())
}

// ------------------------------------------------------------------ C14
struct Counted {
    img: image::GrayImage,
    n: Arc<AtomicU64>,
    limit: Arc<AtomicU64>,
}
impl Counted {
    fn tick(&self) {
        let limit = self.limit.load(Ordering::Relaxed);
        if self.n.fetch_add(1, Ordering::Relaxed) > limit {
            panic!("more than {limit} pixel accesses for an image of {} pixels", self.img.width() as u64 * self.img.height() as u64);
        }
    }
}
impl Clone for Counted {
    // a copy looks at every pixel
    fn clone(&self) -> Self {
        let px = self.img.width() as u64 * self.img.height() as u64;
        self.n.fetch_add(px, Ordering::Relaxed);
        self.tick();
        Counted { img: self.img.clone(), n: self.n.clone(), limit: self.limit.clone() }
    }
}
impl GenericImageView for Counted {
    type Pixel = image::Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        self.img.dimensions()
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.img.width(), self.img.height())
    }
    fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
        self.tick();
        *self.img.get_pixel(x, y)
    }
}
impl GenericImage for Counted {
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut Self::Pixel {
        self.tick();
        self.img.get_pixel_mut(x, y)
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: Self::Pixel) {
        self.tick();
        self.img.put_pixel(x, y, p)
    }
    fn blend_pixel(&mut self, x: u32, y: u32, p: Self::Pixel) {
        self.tick();
        self.img.put_pixel(x, y, p)
    }
}

/// how many ways three finder patterns could be taken for a code
fn candidate_groups(look: usize) -> u64 {
    let k = look as u64;
    if k < 3 {
        0
    } else {
        k * (k - 1) * (k - 2) / 2
    }
}

/// worst share of each limit that was used, in thousandths
pub static WORST: [AtomicU64; 4] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];

pub fn bounded_work(s: &mut Src, c: &mut Ctx) -> Outcome {
    let im = match s.below(9) {
        8 => {
            c.label("scene", "palisade");
            palisade(s)
        }
        0 | 1 if s.chance(1, 5) => {
            c.label("scene", "fourth corner near the horizon");
            horizon_scene(s)
        }
        0 | 1 => any_scene(s, c),
        2 => {
            c.label("scene", "many regions");
            crowded(s)
        }
        _ => {
            c.label("scene", "finder-like shapes");
            finder_l(s)
        }
    };
    if im.w == 0 || im.h == 0 {
        return Ok(());
    }
    let px = (im.w * im.h) as u64;
    let n = Arc::new(AtomicU64::new(0));
    let prep = 24 * px + 1000;
    // binarising reads and writes every pixel a fixed number of times
    let lim = Arc::new(AtomicU64::new(prep));
    let mut prepared = guard(|| PreparedImage::prepare(Counted { img: im.gray(), n: n.clone(), limit: lim.clone() }))?;
    WORST[0].fetch_max(n.load(Ordering::Relaxed) * 1000 / prep, Ordering::Relaxed);
    // then the search of that image, or of one that is black and white already
    let im = if s.bool() {
        let mut bin = Img::new(im.w, im.h, 255);
        lim.store(u64::MAX, Ordering::Relaxed);
        for y in 0..im.h {
            for x in 0..im.w {
                bin.set(x, y, if prepared.get_pixel_at(x, y) == 0u8 { 255 } else { 0 });
            }
        }
        bin
    } else {
        let bw = image::GrayImage::from_fn(im.w as u32, im.h as u32, |x, y| image::Luma([(im.get(x as usize, y as usize) < 128) as u8]));
        lim.store(u64::MAX, Ordering::Relaxed);
        prepared = guard(|| PreparedImage::without_preparation(Counted { img: bw, n: n.clone(), limit: lim.clone() }))?;
        im
    };

    let v = survey(&im);
    let base = 60 * px + 10_000;
    // Regions that had to be forgotten are explored again when a line crosses them
    let again = if v.regions > 250 { 50 * v.crossings as u64 * v.largest as u64 } else { 0 };
    // Per candidate, twice: the search for an alignment pattern looks at up to 200 times its size,
    // which is at most that of the image; fitting and reading the grid cost a fixed amount per module.
    let revisit = if v.regions > 250 { 50 * px * v.largest as u64 } else { 0 };
    // a timing pattern cannot have more modules than the image has pixels along the line
    let side = (im.w.max(im.h) as u64 + 20).min(177);
    let fit = 9 * (2 * side + 150 + 25 * (side / 24 + 2) * (side / 24 + 2));
    let per_group = 1200 * px + 2 * (2 * 81 * fit + 8 * side * side) + revisit;
    let limit = base + again + per_group * candidate_groups(v.looks).min(60);
    c.note(format!("{}x{} px, {} finder-like shapes, {} regions", im.w, im.h, v.looks, v.regions));
    c.label("finder-like shapes", v.looks.min(6));
    c.label("regions", if v.regions > 250 { "more than remembered" } else { "up to 250" });
    n.store(0, Ordering::Relaxed);
    lim.store(limit, Ordering::Relaxed);
    guard(|| {
        let g = prepared.detect_grids();
        g.iter().map(read_grid).count()
    })?;
    let used = n.load(Ordering::Relaxed);
    c.nontrivial = v.looks >= 3 || v.crossings > 0;
    let r = used / px.max(1);
    let class = if v.looks >= 3 { if revisit > 0 { 0 } else { 3 } } else if again > 0 { 2 } else { 1 };
    WORST[class].fetch_max(used * 1000 / limit, Ordering::Relaxed);
    c.label("accesses per pixel", if r < 10 { "<10" } else if r < 30 { "10-29" } else if r < 100 { "30-99" } else if r < 1000 { "100-999" } else { "1000+" });
    Ok(())
}

// ------------------------------------------------------------------ C15, C20
pub struct Upright {
    pub img: Img,
    pub sym: Symbol,
    pub content: Vec<u8>,
    pub o: usize,
    /// pixels per module across and down
    pub k: (usize, usize),
    pub at: (i64, i64),
}

pub fn upright_version(s: &mut Src) -> usize {
    match s.below(12) {
        0..=7 => s.range(1, 7),
        8..=10 => s.range(1, 20),
        _ => s.range(1, 40),
    }
}

pub fn upright(s: &mut Src, max_quiet: usize, damage: bool) -> Upright {
    let ver = upright_version(s);
    let (mut sym, content) = any_symbol(s, ver);
    if damage {
        damage_within(s, &mut sym);
        redraw(&mut sym);
    }
    let n = sym.modules.n;
    let k = match s.below(40) {
        0..=24 => s.range(2, 5),
        25..=38 => s.range(2, (900 / n).clamp(2, 14)),
        _ if s.chance(1, 4) => s.range(2, (4200 / n).max(2)),
        _ => s.range(2, (2400 / n).max(2)),
    };
    let o = s.range(0, 7);
    // some pictures have oblong pixels
    let k = if s.chance(1, 5) { (k, s.range((k / 2).max(2), (k * 2).min(2400 / n).max(2))) } else { (k, k) };
    let mut q: Vec<usize> = (0..4).map(|i| s.range(0, max_quiet * if i < 2 { k.0 } else { k.1 })).collect();
    if ver < 5 && k.0 * k.1 < 20 && s.chance(1, 100) {
        // far away from one of the borders
        q[s.below(4) as usize] = s.range(5_000, 70_000);
    }
    let mut img = Img::new(n * k.0 + q[0] + q[1], n * k.1 + q[2] + q[3], 255);
    let at = (q[0] as i64, q[2] as i64);
    blit(&mut img, &orient(&sym.modules, o), at.0, at.1, k.0, k.1, 0, 255);
    Upright { img, sym, content, o, k, at }
}

/// where the corner (u, v) of the symbol as reported (mirrored or not) lies in the image
fn corner(u: &Upright, cu: f64, cv: f64) -> (f64, f64) {
    let n = u.sym.modules.n as f64;
    let (mut x, mut y) = (cu, cv);
    for _ in 0..u.o & 3 {
        let t = (n - y, x);
        x = t.0;
        y = t.1;
    }
    (u.at.0 as f64 + x * u.k.0 as f64, u.at.1 as f64 + y * u.k.1 as f64)
}

fn upright_note(c: &mut Ctx, u: &Upright) {
    c.note(format!(
        "v{}-{} mask {}, {}x{} px/module, orientation {}, at {:?} in {}x{} px, {} bytes",
        u.sym.ver,
        LEVEL_NAMES[u.sym.lvl],
        u.sym.mask,
        u.k.0,
        u.k.1,
        u.o,
        u.at,
        u.img.w,
        u.img.h,
        u.content.len()
    ));
}

pub fn clean_image(s: &mut Src, c: &mut Ctx) -> Outcome {
    let damage = s.chance(1, 4);
    let u = upright(s, 6, damage);
    upright_note(c, &u);
    c.label("codeword errors", damage);
    if finder_lookalikes(&u.img) != 3 {
        c.label("precondition", "data resembles a finder pattern");
        return Ok(());
    }
    c.label("precondition", "met");
    c.label("orientation", u.o);
    c.label("pixels", if u.k.0 == u.k.1 { "square" } else { "oblong" });
    c.nontrivial = true;
    let det = try_bitmap(&u.img)?;
    check_one(&det, &u.sym, &u.content, "clean image")?;
    let want = orient(&u.sym.modules, u.o & 4);
    if det[0].bits != want {
        let k = (0..want.m.len()).find(|&k| want.m[k] != det[0].bits.m.get(k).copied().unwrap_or(false)).unwrap_or(0);
        return Err(format!("module (row {}, column {}) is read wrongly", k / want.n, k % want.n));
    }
    Ok(())
}

fn bounds_ok(d: &Det, want: [(f64, f64); 4], tol: f64, class: usize) -> Outcome {
    for i in 0..4 {
        let (bx, by) = (d.bounds[i].0 as f64, d.bounds[i].1 as f64);
        let dist: f64 = ((bx - want[i].0).powi(2) + (by - want[i].1).powi(2)).sqrt();
        WORST[class].fetch_max((dist * 1000.0 / tol) as u64, Ordering::Relaxed);
        if dist > tol {
            return Err(format!(
                "{} corner reported at ({bx}, {by}), it is at ({:.1}, {:.1}); off by more than {tol:.1} px; bounds {:?}",
                ["top-left", "top-right", "bottom-right", "bottom-left"][i],
                want[i].0,
                want[i].1,
                d.bounds
            ));
        }
    }
    Ok(())
}

pub fn bounds(s: &mut Src, c: &mut Ctx) -> Outcome {
    if s.chance(1, 4) {
        // rotated
        let ver = if s.chance(1, 12) { s.range(7, 16) } else { s.range(2, 6) };
        let (sym, content) = any_symbol(s, ver);
        let v = view(s, &sym.modules, 12.0, 16.0, 0.2, 0.12, 1);
        c.note(format!("v{ver} {}", v.note));
        c.label("image", "rotated");
        if finder_lookalikes(&v.img) != 3 {
            c.label("precondition", "data resembles a finder pattern");
            return Ok(());
        }
        let det = try_bitmap(&v.img)?;
        let Some(d) = det.iter().find(|d| matches!(&d.res, Ok((_, b)) if *b == content)) else {
            c.label("precondition", "not decoded");
            return Ok(());
        };
        c.label("precondition", "met");
        c.nontrivial = true;
        let n = sym.modules.n as f64;
        let mut want = [v.hm.map(0.0, 0.0), v.hm.map(n, 0.0), v.hm.map(n, n), v.hm.map(0.0, n)];
        if v.mirror {
            // the picture shows the transposed symbol
            want.swap(1, 3);
        }
        return bounds_ok(d, want, 0.75 * v.k, if ver > 6 { 3 } else { 0 });
    }
    let u = upright(s, 6, false);
    upright_note(c, &u);
    c.label("image", "upright");
    if finder_lookalikes(&u.img) != 3 {
        c.label("precondition", "data resembles a finder pattern");
        return Ok(());
    }
    let det = try_bitmap(&u.img)?;
    if det.len() != 1 || det[0].res.is_err() {
        c.label("precondition", "not decoded");
        return Ok(());
    }
    c.label("precondition", "met");
    c.nontrivial = true;
    let n = u.sym.modules.n as f64;
    bounds_ok(&det[0], [corner(&u, 0.0, 0.0), corner(&u, n, 0.0), corner(&u, n, n), corner(&u, 0.0, n)], 0.15 * u.k.0.max(u.k.1) as f64 + 1.5, if u.k.0.max(u.k.1) > 8 { 2 } else { 1 })
}

// ------------------------------------------------------------------ C16
pub struct View {
    pub img: Img,
    pub hm: Homog,
    pub k: f64,
    pub mirror: bool,
    pub note: String,
}

/// the symbol seen under a random rotation, mild stretch/shear and perspective
pub fn view(s: &mut Src, m: &Modules, k0: f64, k1: f64, persp: f64, skew: f64, ss: usize) -> View {
    let k = s.float(k0, k1);
    let eighth = std::f64::consts::FRAC_PI_4;
    let th = match s.below(10) {
        0 => s.below(8) as f64 * eighth,
        1 => s.below(8) as f64 * eighth + s.sym(0.02),
        _ => s.float(0.0, std::f64::consts::TAU),
    };
    let n = m.n as f64;
    let (g, h) = match s.below(10) {
        0 => (0.0, 0.0),
        1 => (if s.bool() { persp } else { -persp } / n, if s.bool() { persp } else { -persp } / n),
        _ => (s.sym(persp) / n, s.sym(persp) / n),
    };
    let (sx, sh) = match s.below(10) {
        0 => (1.0, 0.0),
        1 => (if s.bool() { 1.0 } else { 1.0 + skew }, if s.bool() { skew } else { -skew }),
        _ => (1.0 + s.float(0.0, skew), s.sym(skew)),
    };
    let mirror = s.chance(1, 5);
    let sy = if mirror { -1.0 } else { 1.0 };
    // stretch and shear first, then rotate; never below k px/module
    let a = [k * sx, k * sh, 0.0, k * sy];
    let rot = [th.cos(), -th.sin(), th.sin(), th.cos()];
    let l = [
        rot[0] * a[0] + rot[1] * a[2],
        rot[0] * a[1] + rot[1] * a[3],
        rot[2] * a[0] + rot[3] * a[2],
        rot[2] * a[1] + rot[3] * a[3],
    ];
    let hm0 = Homog([l[0], l[1], 0.0, l[2], l[3], 0.0, 0.0, 0.0, 1.0])
        .mul(&Homog([1.0, 0.0, 0.0, 0.0, 1.0, 0.0, g, h, 1.0]))
        .mul(&Homog([1.0, 0.0, -n / 2.0, 0.0, 1.0, -n / 2.0, 0.0, 0.0, 1.0]));
    let q = 4.0;
    let cs: Vec<(f64, f64)> = [(-q, -q), (n + q, -q), (n + q, n + q), (-q, n + q)].iter().map(|p| hm0.map(p.0, p.1)).collect();
    let minx = cs.iter().map(|p| p.0).fold(f64::MAX, f64::min);
    let miny = cs.iter().map(|p| p.1).fold(f64::MAX, f64::min);
    let maxx = cs.iter().map(|p| p.0).fold(f64::MIN, f64::max);
    let maxy = cs.iter().map(|p| p.1).fold(f64::MIN, f64::max);
    let (ox, oy) = (s.float(0.0, 20.0) - minx, s.float(0.0, 20.0) - miny);
    let hm = Homog([1.0, 0.0, ox, 0.0, 1.0, oy, 0.0, 0.0, 1.0]).mul(&hm0);
    let mut img = Img::new((maxx - minx + 25.0) as usize, (maxy - miny + 25.0) as usize, 255);
    paint_warped(&mut img, m, &hm, ss, 0, 255, 0.0);
    View {
        img,
        hm,
        k,
        mirror,
        note: format!("{k:.2} px/module, {:.1} deg, perspective ({g:.4},{h:.4}), stretch {sx:.2}, shear {sh:.2}{}", th.to_degrees(), if mirror { ", mirrored" } else { "" }),
    }
}

/// uneven light, grey instead of black and white, noise
fn photograph(s: &mut Src, im: &mut Img) {
    let (hi, lo) = (s.float(120.0, 255.0), s.float(0.0, 0.4));
    let (grad, ga) = (s.float(0.0, 0.4), s.float(0.0, std::f64::consts::TAU));
    let noise = s.float(0.0, 0.1);
    let mut b = s.bulk();
    let (w, h) = (im.w as f64, im.h as f64);
    for y in 0..im.h {
        for x in 0..im.w {
            let t = ((x as f64 / w - 0.5) * ga.cos() + (y as f64 / h - 0.5) * ga.sin()) / 1.42 + 0.5;
            let base = hi * (lo + (1.0 - lo) * im.get(x, y) as f64 / 255.0);
            let v = base * (1.0 - grad * t) + hi * noise * (b.below(2001) as f64 / 1000.0 - 1.0);
            im.set(x, y, v.round().clamp(0.0, 255.0) as u8);
        }
    }
}

pub fn rotated(s: &mut Src, c: &mut Ctx) -> Outcome {
    // name, versions, pixels per module, perspective, stretch and shear
    const SMALL_V1: &str = "version 1, 5-7 px/module";
    type Class = (&'static str, &'static [usize], f64, f64, f64, f64);
    const STRICT: Class = ("version 2-6, 12-16 px/module, every view", &[2, 3, 4, 5, 6], 12.0, 16.0, 0.2, 0.12);
    const MOST: [Class; 8] = [
        ("version 2-5, 4-7 px/module", &[2, 3, 4, 5], 4.0, 7.0, 0.2, 0.12),
        ("version 2-6, strong perspective", &[2, 3, 4, 5, 6], 8.0, 12.0, 0.6, 0.12),
        ("version 2-6, strong shear", &[2, 3, 4, 5, 6], 8.0, 12.0, 0.2, 0.5),
        (SMALL_V1, &[1], 5.0, 7.0, 0.2, 0.12),
        ("version 1", &[1], 8.0, 12.0, 0.25, 0.15),
        ("version 7-12", &[7, 8, 9, 10, 12], 10.0, 14.0, 0.25, 0.15),
        ("version 13-20", &[13, 14, 15, 16, 18, 20], 12.0, 16.0, 0.25, 0.15),
        ("photographs", &[2, 3, 4, 5], 6.0, 10.0, 0.3, 0.2),
    ];
    let strict = s.chance(9, 10);
    let (name, vers, k0, k1, persp, skew) = if strict { STRICT } else { *s.pick(&MOST) };
    c.label("class", name);
    let views = if strict { 2 } else { 64 };
    let mut bad = vec![];
    let mut seen = 0;
    for _ in 0..views {
        let ver = *s.pick(vers);
        let (sym, content) = any_symbol(s, ver);
        let photo = name == "photographs";
        let (k0, k1) = if strict && s.chance(1, 20) { (k1, 2.5 * k1) } else { (k0, k1) };
        let mut v = view(s, &sym.modules, k0, k1, persp, skew, if photo { 3 } else { 1 });
        let note = format!("v{ver}-{} mask {}, {}", LEVEL_NAMES[sym.lvl], sym.mask, v.note);
        if finder_lookalikes(&v.img) != 3 {
            c.label("view", "data resembles a finder pattern");
            continue;
        }
        seen += 1;
        let det = if photo {
            photograph(s, &mut v.img);
            try_grey(&v.img)?
        } else {
            try_bitmap(&v.img)?
        };
        let r = check_one(&det, &sym, &content, "rotated");
        c.label("view", if r.is_ok() { "read" } else { "not read" });
        if r.is_err() {
            c.label("not read", name);
        }
        if let Err(e) = r {
            if std::env::var_os("VERIF_DBG").is_some() {
                eprintln!("UNREAD {name}: {note} {e}");
            }
            bad.push(format!("[{note}: {e}]"));
        } else if seen == 1 {
            c.note(note);
        }
    }
    c.nontrivial = seen > 0;
    let allowed = if strict { 0 } else if name == SMALL_V1 { views / 4 } else { views / 8 };
    if bad.len() > allowed {
        return Err(format!("{} of {seen} views not read ({name}): {}", bad.len(), bad.join(" ")));
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
pub fn lighting(s: &mut Src, c: &mut Ctx) -> Outcome {
    let ver = match s.below(8) {
        0..=6 => s.range(1, 8),
        _ => s.range(9, 20),
    };
    let (sym, content) = any_symbol(s, ver);
    let n = sym.modules.n;
    let k = s.range(2, (700 / n).clamp(2, 8));
    let q = s.range(4, 20);
    let o = s.range(0, 7);
    let (mut w, mut h) = ((n + 2 * q) * k, (n + 2 * q) * k + s.range(0, 40));
    let (mut x0, mut y0) = (q * k, q * k);
    // sometimes the code is a small part of a large picture
    let large = match s.below(60) {
        0 => (s.range(0, 5000), s.range(0, 200)),
        1 => (s.range(0, 1500), s.range(0, 1500)),
        2..=5 => (s.range(0, 400), s.range(0, 400)),
        _ => (0, 0),
    };
    if large != (0, 0) {
        x0 += s.range(0, large.0);
        y0 += s.range(0, large.1);
        w += large.0;
        h += large.1;
    }
    c.label("picture", if large == (0, 0) { "code fills it" } else if w > 1000 { "more than 1000 px wide" } else { "larger than the code" });
    let light = s.range(60, 255) as f64;
    let ratio = s.float(0.0, 0.5);
    let grad = if s.bool() { 0.0 } else { s.float(0.0, 0.5) };
    let ga = s.float(0.0, std::f64::consts::TAU);
    let noise = if s.bool() { 0.0 } else { s.float(0.0, 0.03) };
    let mut im = Img::new(w, h, 255);
    blit(&mut im, &orient(&sym.modules, o), x0 as i64, y0 as i64, k, k, 0, 255);
    c.note(format!("v{ver} {k} px/module at ({x0},{y0}) in {w}x{h} px, light {light}, dark {:.0}, falloff {grad:.2}, noise {noise:.3}, orientation {o}", light * ratio));
    if finder_lookalikes(&im) != 3 {
        c.label("precondition", "data resembles a finder pattern");
        return Ok(());
    }
    c.label("precondition", "met");
    c.label("illumination", if grad == 0.0 { "even" } else { "gradient" });
    c.label("noise", noise > 0.0);
    let mut b = s.bulk();
    for y in 0..h {
        for x in 0..w {
            let t = ((x as f64 / w as f64 - 0.5) * ga.cos() + (y as f64 / h as f64 - 0.5) * ga.sin()) / 1.42 + 0.5;
            let base = if im.get(x, y) == 0 { light * ratio } else { light };
            let v = base * (1.0 - grad * t) * (1.0 + noise * (b.below(2001) as f64 / 1000.0 - 1.0));
            im.set(x, y, v.round().clamp(0.0, 255.0) as u8);
        }
    }
    c.nontrivial = true;
    let det = try_grey(&im)?;
    check_one(&det, &sym, &content, "photographed image")
}

// ------------------------------------------------------------------ C18
struct Placed {
    sym: Symbol,
    content: Vec<u8>,
    /// centres of corner, and the two other finders
    f: [(f64, f64); 3],
    module: f64,
}

/// Could three finders that do not belong together be taken for those of one code?
fn cross_groups(p: &[Placed]) -> bool {
    let all: Vec<(usize, (f64, f64))> = p.iter().enumerate().flat_map(|(i, x)| x.f.iter().map(move |&q| (i, q))).collect();
    for (i, x) in p.iter().enumerate() {
        // axes of this code
        let e = |a: (f64, f64), b: (f64, f64)| (b.0 - a.0, b.1 - a.1);
        let ax = e(x.f[0], x.f[1]);
        let ay = e(x.f[0], x.f[2]);
        let len = (ax.0 * ax.0 + ax.1 * ax.1).sqrt();
        let (ux, uy) = ((ax.0 / len, ax.1 / len), (ay.0 / len, ay.1 / len));
        for &c in &x.f {
            let mut hs = vec![];
            let mut vs = vec![];
            for &(j, q) in &all {
                let d = e(c, q);
                let a = (d.0 * ux.0 + d.1 * ux.1).abs();
                let b = (d.0 * uy.0 + d.1 * uy.1).abs();
                if a + b < 1e-6 {
                    continue;
                }
                if b < 0.3 * a {
                    hs.push((j, a));
                }
                if a < 0.3 * b {
                    vs.push((j, b));
                }
            }
            for &(j, a) in &hs {
                for &(k, b) in &vs {
                    let own = j == i && k == i && c == x.f[0];
                    if !own && (a.min(b) / a.max(b)) > 0.65 {
                        return true;
                    }
                }
            }
        }
    }
    false
}

fn place_upright(sym: Symbol, content: Vec<u8>, img: &mut Img, o: usize, x0: i64, y0: i64, k: usize) -> Placed {
    blit(img, &orient(&sym.modules, o), x0, y0, k, k, 0, 255);
    let n = sym.modules.n as f64;
    let map = |u: f64, v: f64| {
        let (mut x, mut y) = (u, v);
        for _ in 0..o & 3 {
            let t = (n - y, x);
            x = t.0;
            y = t.1;
        }
        (x0 as f64 + x * k as f64, y0 as f64 + y * k as f64)
    };
    let f = [map(3.5, 3.5), map(n - 3.5, 3.5), map(3.5, n - 3.5)];
    Placed { sym, content, f, module: k as f64 }
}

/// which finder of the scene a point belongs to
fn nearest(p: &[Placed], q: (f64, f64)) -> Option<(usize, usize)> {
    let mut best = None;
    let mut bd = f64::MAX;
    for (i, x) in p.iter().enumerate() {
        for (j, f) in x.f.iter().enumerate() {
            let d = ((f.0 - q.0).powi(2) + (f.1 - q.1).powi(2)).sqrt();
            if d < bd {
                bd = d;
                best = Some((i, j, x.module));
            }
        }
    }
    best.filter(|b| bd < 1.5 * b.2).map(|b| (b.0, b.1))
}

pub fn many_codes(s: &mut Src, c: &mut Ctx) -> Outcome {
    let kind = s.below(4);
    let mut placed: Vec<Placed> = vec![];
    let mut img;
    // the corner of each code is the finder that is met first, its own neighbours are the most symmetric pair
    let sheet = kind == 3;
    if sheet {
        let v = match s.below(6) {
            0..=3 => s.range(1, 4),
            4 => s.range(5, 8),
            _ => s.range(9, 14),
        };
        let k = if v < 5 { s.range(2, 4) } else { 2 };
        let most = match v {
            1..=2 => 16,
            3..=4 => 10,
            5..=8 => 6,
            _ => 4,
        };
        let (cols, rows) = if s.bool() { (s.range(1, most), 1) } else { (1, s.range(1, most)) };
        let gap = s.range(4, 10);
        let n = 17 + 4 * v;
        let cell = n + gap;
        img = Img::new((cols * cell + gap) * k, (rows * cell + gap) * k, 255);
        for i in 0..cols * rows {
            let (y, d) = any_symbol(s, v);
            let (r, q) = (i / cols, i % cols);
            placed.push(place_upright(y, d, &mut img, 0, ((q * cell + gap) * k) as i64, ((r * cell + gap) * k) as i64, k));
        }
        c.label("layout", "row or column of upright codes");
        c.note(format!("{cols}x{rows} upright codes of version {v}, {k} px/module, gap {gap}"));
    } else if kind == 0 {
        // rows and columns: may be ambiguous, the claims below hold regardless
        let k = s.range(2, 4);
        let most = if s.chance(1, 30) { 6 } else { 3 };
        let (cols, rows) = (s.range(1, most), s.range(1, most));
        let same = s.bool();
        let v0 = s.range(1, 6);
        let gap = s.range(4, 12);
        let common = s.bool();
        let o0 = s.range(0, 7);
        let mut syms = vec![];
        for _ in 0..cols * rows {
            let v = if same { v0 } else { s.range(1, 6) };
            let (y, d) = any_symbol(s, v);
            syms.push((y, d, if common { o0 } else { s.range(0, 7) }));
        }
        let cell = syms.iter().map(|v| v.0.modules.n).max().unwrap() + gap;
        img = Img::new((cols * cell + gap) * k, (rows * cell + gap) * k, 255);
        for (i, (y, d, o)) in syms.into_iter().enumerate() {
            let (r, q) = (i / cols, i % cols);
            placed.push(place_upright(y, d, &mut img, o, ((q * cell + gap) * k) as i64, ((r * cell + gap) * k) as i64, k));
        }
        c.label("layout", "rows and columns");
        c.note(format!("{cols}x{rows} codes, {k} px/module, gap {gap}"));
    } else {
        // scattered: positions along a diagonal band, sizes and scales vary
        let m = if s.chance(1, 10) { s.range(6, 14) } else { s.range(2, 5) };
        let mut todo = vec![];
        let (mut w, mut h) = (0i64, 0i64);
        let mut x = s.irange(8, 40);
        let mut y = s.irange(8, 40);
        let slope = s.float(0.3, 1.5);
        for _ in 0..m {
            let ver = s.range(1, 6);
            let (sy, d) = any_symbol(s, ver);
            let k = s.range(2, 6);
            let o = s.range(0, 7);
            let sz = (sy.modules.n * k) as i64;
            todo.push((sy, d, o, x, y, k));
            w = w.max(x + sz);
            h = h.max(y + sz);
            let step = sz + 40 + s.irange(0, 120);
            if slope > 0.9 {
                y += step;
                x += (step as f64 * s.float(0.25, 0.8)) as i64;
            } else {
                x += step;
                y += (step as f64 * s.float(0.25, 0.8)) as i64;
            }
        }
        img = Img::new((w + s.irange(8, 40)) as usize, (h + s.irange(8, 40)) as usize, 255);
        for (sy, d, o, x, y, k) in todo {
            placed.push(place_upright(sy, d, &mut img, o, x, y, k));
        }
        if s.bool() {
            // the same picture seen in a mirror or turned upside down
            let mut t = Img::new(img.w, img.h, 255);
            for yy in 0..img.h {
                for xx in 0..img.w {
                    t.set(img.w - 1 - xx, yy, img.get(xx, yy));
                }
            }
            let w = img.w as f64;
            for p in placed.iter_mut() {
                for f in p.f.iter_mut() {
                    f.0 = w - f.0;
                }
            }
            img = t;
        }
        c.label("layout", "scattered");
        c.note(format!("{m} codes scattered over {}x{} px", img.w, img.h));
    }
    let clean = finder_lookalikes(&img) == 3 * placed.len();
    let ambiguous = !sheet && cross_groups(&placed);
    let det = try_bitmap(&img)?;
    if !clean {
        c.label("precondition", "data resembles a finder pattern");
        return Ok(());
    }
    c.label("precondition", if ambiguous { "ambiguous layout (weak claims only)" } else { "met" });
    c.nontrivial = placed.len() >= 2;
    // whatever is read is one of the codes, and read once
    let mut used = vec![false; placed.len()];
    let mut taken = std::collections::BTreeMap::new();
    for (gi, d) in det.iter().enumerate() {
        if let Ok((m, b)) = &d.res {
            let hit = placed.iter().enumerate().position(|(i, p)| {
                !used[i] && p.content == *b && p.sym.ver == m.version && LEVEL_BITS[p.sym.lvl] == m.ecc && p.sym.mask == m.mask
            });
            match hit {
                Some(i) => used[i] = true,
                None => return Err(format!("read something that is not there, or twice: {}; {} codes shown", d.brief(), placed.len())),
            }
        }
        // its three finders are its own
        let b = d.bounds.map(|p| (p.0 as f64, p.1 as f64));
        let n = d.size as f64;
        let Some(hm) = Homog::of_corners(b) else { continue };
        let own: Vec<_> = [(3.5, 3.5), (n - 3.5, 3.5), (3.5, n - 3.5)].iter().map(|q| nearest(&placed, hm.map(q.0 / n, q.1 / n))).collect();
        if own.iter().any(|f| f.is_none()) {
            // where this grid has its finders cannot be told from its corners
            continue;
        }
        for f in own.into_iter().flatten() {
            if let Some(g) = taken.insert(f, gi) {
                return Err(format!("two grids claim the finder at {:?}, or one claims it twice: {} | {}", placed[f.0].f[f.1], det[g].brief(), d.brief()));
            }
        }
    }
    if det.len() > placed.len() {
        return Err(format!("{} grids for {} codes: {}", det.len(), placed.len(), briefs(&det)));
    }
    if !ambiguous {
        if let Some(i) = used.iter().position(|u| !u) {
            return Err(format!(
                "code {i} (v{}, {} px/module, finders {:?}) of {} was not read; got {}",
                placed[i].sym.ver,
                placed[i].module,
                placed[i].f,
                placed.len(),
                briefs(&det)
            ));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
pub fn clutter(s: &mut Src, c: &mut Ctx) -> Outcome {
    let ver = if s.chance(1, 5) { s.range(8, 30) } else { s.range(1, 7) };
    let (sym, content) = any_symbol(s, ver);
    let k = s.range(2, 5);
    let n = sym.modules.n;
    let o = s.range(0, 7);
    let margin = 7 * k; // clear space around the code
    let (px, py) = (s.range(0, 300), s.range(0, 300));
    let (w, h) = (px + n * k + s.range(0, 300) + 2 * margin, py + n * k + s.range(0, 300) + 2 * margin);
    let mut img = Img::new(w, h, 255);
    let (x0, y0) = (px + margin, py + margin);
    let inside = |x: i64, y: i64, ww: i64, hh: i64| {
        x + ww > (x0 - margin) as i64 && y + hh > (y0 - margin) as i64 && x < (x0 + n * k + margin) as i64 && y < (y0 + n * k + margin) as i64
    };
    // bar groups with the proportions of a finder's cross-section, each bar a region of its own
    let unit = s.range(1, 3);
    let bar_h = s.range(1, 6);
    let dens = s.range(10, 100) as u64;
    let mut b = s.bulk();
    let mut bars = 0;
    let mut y = s.range(0, 4);
    while y < h {
        let mut x = b.below(8) as usize;
        while x < w {
            if b.below(100) < dens {
                let u = unit + b.below(2) as usize;
                let mut xx = x;
                for (i, l) in [u, u, 3 * u, u, u].iter().enumerate() {
                    if i % 2 == 0 && !inside(xx as i64, y as i64, *l as i64, bar_h as i64) {
                        img.rect(xx as i64, y as i64, *l as i64, bar_h as i64, 0);
                        bars += 1;
                    }
                    xx += l;
                }
            }
            x += 7 * (unit + 1) + 1 + b.below(9) as usize;
        }
        y += bar_h + 1 + b.below(4) as usize;
    }
    // and some unrelated big shapes
    for _ in 0..s.range(0, 5) {
        let (bw, bh) = (s.irange(3, 90), s.irange(3, 90));
        let (bx, by) = (s.irange(0, w as i64), s.irange(0, h as i64));
        if !inside(bx, by, bw, bh) {
            img.rect(bx, by, bw, bh, 0);
        }
    }
    blit(&mut img, &orient(&sym.modules, o), x0 as i64, y0 as i64, k, k, 0, 255);
    c.note(format!("v{ver} at {k} px/module in {w}x{h} px with {bars} bars around it, orientation {o}"));
    if finder_lookalikes(&img) != 3 {
        c.label("precondition", "something resembles a finder pattern");
        return Ok(());
    }
    c.label("precondition", "met");
    c.label("separate regions", if bars > 251 { "more than 251" } else { "up to 251" });
    c.nontrivial = bars > 0;
    let grey = s.chance(1, 2);
    c.label("given as", if grey { "greyscale" } else { "bitmap" });
    let det = if grey { try_grey(&img)? } else { try_bitmap(&img)? };
    check_one(&det, &sym, &content, "code among clutter")
}

// ------------------------------------------------------------------ C21
#[derive(Clone)]
struct OwnImage {
    w: u32,
    h: u32,
    px: Vec<image::Luma<u8>>,
}
impl GenericImageView for OwnImage {
    type Pixel = image::Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
        assert!(x < self.w && y < self.h);
        self.px[(y * self.w + x) as usize]
    }
}
impl GenericImage for OwnImage {
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut Self::Pixel {
        assert!(x < self.w && y < self.h);
        &mut self.px[(y * self.w + x) as usize]
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: Self::Pixel) {
        *self.get_pixel_mut(x, y) = p;
    }
    fn blend_pixel(&mut self, x: u32, y: u32, p: Self::Pixel) {
        *self.get_pixel_mut(x, y) = p;
    }
}

pub fn useful_scene(s: &mut Src, c: &mut Ctx) -> Img {
    match s.below(5) {
        0 => any_scene(s, c),
        4 => {
            c.label("scene", "code among many regions");
            let mut img = crowded(s);
            let v = s.range(1, 4);
            let (y, _) = any_symbol(s, v);
            let k = s.range(2, 4);
            let n = (y.modules.n * k) as i64;
            let (x, yy) = (s.irange(0, (img.w as i64 - n).max(0)), s.irange(0, (img.h as i64 - n).max(0)));
            let q = (s.range(0, 6) * k) as i64;
            img.rect(x - q, yy - q, n + 2 * q, n + 2 * q, 255);
            blit(&mut img, &orient(&y.modules, s.range(0, 7)), x, yy, k, k, 0, 255);
            img
        }
        1 => {
            c.label("scene", "two codes");
            let mut img = Img::new(s.range(160, 260), s.range(100, 140), 255);
            for i in 0..2 {
                let v = s.range(1, 3);
                let (y, _) = any_symbol(s, v);
                let (x, yy) = (4 + i * 80 + s.range(0, 6) as i64, s.irange(4, 20));
                blit(&mut img, &orient(&y.modules, s.range(0, 7)), x, yy, 2, 2, 0, 255);
            }
            img
        }
        _ => {
            c.label("scene", "one code");
            let v = s.range(1, 8);
            let (y, _) = any_symbol(s, v);
            let k = s.range(2, 5);
            let q = s.range(1, 24) as i64;
            let n = y.modules.n as i64 * k as i64;
            let mut img = Img::new((n + 2 * q) as usize, (n + 2 * q) as usize, 255);
            blit(&mut img, &orient(&y.modules, s.range(0, 7)), q, q, k, k, 0, 255);
            img
        }
    }
}

fn same(a: &[Det], b: &[Det], what: &str) -> Outcome {
    if a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y) {
        Ok(())
    } else {
        Err(format!("{what}: {} <> {}", briefs(a), briefs(b)))
    }
}

pub fn entry_points(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut img = if s.chance(1, 400) {
        // more than 16 bits wide or high, a code at the far end
        c.label("scene", "long image");
        let v = s.range(1, 3);
        let (y, _) = any_symbol(s, v);
        let long = 65_540 + s.range(0, 3000);
        let n = y.modules.n * 2;
        let (w, h) = if s.bool() { (long, n + s.range(0, 6)) } else { (n + s.range(0, 6), long) };
        let mut i = Img::new(w, h, 255);
        blit(&mut i, &orient(&y.modules, s.range(0, 7)), (w - n) as i64, (h - n) as i64, 2, 2, 0, 255);
        i
    } else {
        useful_scene(s, c)
    };
    if img.w == 0 || img.h == 0 {
        return Ok(());
    }
    if s.bool() {
        // greys
        let mut b = s.bulk();
        let (lo, hi) = (s.range(0, 100) as u64, s.range(140, 255) as u64);
        for p in img.px.iter_mut() {
            let base = if *p < 128 { lo } else { hi };
            *p = (base + b.below(12)).min(255) as u8;
        }
    }
    c.note(format!("{}x{} px", img.w, img.h));
    guard(|| -> Outcome {
        let grey = detect_grey(&img);
        c.label("grids", grey.len());
        c.nontrivial = !grey.is_empty();
        let mut a = PreparedImage::prepare(img.gray());
        let own = OwnImage { w: img.w as u32, h: img.h as u32, px: img.px.iter().map(|&p| image::Luma([p])).collect() };
        let mut b = PreparedImage::prepare(own);
        let mut z = PreparedImage::prepare_from_greyscale(img.w, img.h, |x, y| img.get(x, y));
        let mut bin = Img::new(img.w, img.h, 255);
        for y in 0..img.h {
            for x in 0..img.w {
                let p = a.get_pixel_at(x, y);
                if p != b.get_pixel_at(x, y) || p != z.get_pixel_at(x, y) {
                    return Err(format!("pixel ({x}, {y}) is binarised differently depending on the buffer"));
                }
                if p == 1u8 {
                    bin.set(x, y, 0);
                }
            }
        }
        for d in &grey {
            let copy = decode_bytes(&d.bits);
            if copy != d.res {
                return Err(format!("{} decodes differently as a grid of its modules: {copy:?}", d.brief()));
            }
        }
        let mut z2 = z.clone();
        let mut a2 = a.clone();
        let ga: Vec<Det> = a.detect_grids().iter().map(read_grid).collect();
        same(&grey, &ga, "greyscale function <> image buffer")?;
        let gb: Vec<Det> = b.detect_grids().iter().map(read_grid).collect();
        same(&grey, &gb, "greyscale function <> own image type")?;
        let gz: Vec<Det> = z.detect_grids().iter().map(read_grid).collect();
        same(&grey, &gz, "same image prepared twice")?;
        // a clone made after the search is like the original: pixels, and what a further search finds
        let mut z3 = z.clone();
        for y in 0..img.h {
            for x in 0..img.w {
                if z3.get_pixel_at(x, y) != z.get_pixel_at(x, y) {
                    return Err("a clone of a searched image has other pixels".into());
                }
            }
        }
        let again: Vec<Det> = z.detect_grids().iter().map(read_grid).collect();
        if let Some(d) = again.iter().find(|d| gz.iter().any(|e| e.bounds == d.bounds)) {
            return Err(format!("a second search finds the same code again: {}", d.brief()));
        }
        if !again.is_empty() {
            c.label("second search", "found something else");
        }
        let gc: Vec<Det> = z3.detect_grids().iter().map(read_grid).collect();
        same(&again, &gc, "second search <> search of a clone made after the first one")?;
        // clones do not see what happened to the original
        for y in 0..img.h {
            for x in 0..img.w {
                if (z2.get_pixel_at(x, y) == 1u8) != (bin.get(x, y) == 0) {
                    return Err("a clone changed when the original was searched".into());
                }
            }
        }
        let gc: Vec<Det> = z2.detect_grids().iter().map(read_grid).collect();
        same(&grey, &gc, "clone <> original")?;
        let gc: Vec<Det> = a2.detect_grids().iter().map(read_grid).collect();
        same(&grey, &gc, "clone <> original (image buffer)")?;
        // the binarised picture given as a bitmap, or as an already prepared buffer
        let gm = detect_bitmap(&bin);
        same(&grey, &gm, "greyscale <> its binarisation as bitmap")?;
        let raw = image::GrayImage::from_raw(img.w as u32, img.h as u32, bin.px.iter().map(|&p| (p == 0) as u8).collect()).unwrap();
        let mut p = PreparedImage::without_preparation(raw);
        let gp: Vec<Det> = p.detect_grids().iter().map(read_grid).collect();
        same(&grey, &gp, "greyscale <> its binarisation as prepared buffer")?;
        // the order in which a fill function is asked must not matter, nor that it is asked
        let mut asked = vec![0u32; img.w * img.h];
        let q = PreparedImage::prepare_from_bitmap(img.w, img.h, |x, y| {
            asked[y * img.w + x] += 1;
            bin.get(x, y) == 0
        });
        if q.width() != img.w || q.height() != img.h {
            return Err(format!("size {}x{} reported for {}x{}", q.width(), q.height(), img.w, img.h));
        }
        if asked.iter().any(|&a| a == 0) {
            return Err("a pixel was never asked for".into());
        }
        Ok(())
    })?
}

// ------------------------------------------------------------------ C23
pub fn exports(s: &mut Src, c: &mut Ctx) -> Outcome {
    use rqrr::BitGrid;
    let dir = std::env::temp_dir().join(format!("rqrr-verif-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).map_err(|e| format!("scratch directory: {e}"))?;
    let f = dir.join("out.png");
    let path = f.to_str().unwrap().to_string();
    let r = guard(|| -> Outcome {
        let load = || image::open(&f).map_err(|e| format!("not a readable image: {e}"));
        if s.chance(1, 6) {
            // a grid without an image, of any size
            let n = if s.chance(1, 20) { s.range(200, 700) } else { s.range(1, 200) };
            let mut b = s.bulk();
            let mut m = Modules::new(n);
            m.m.iter_mut().for_each(|v| *v = b.below(2) == 1);
            c.note(format!("stored grid of size {n}"));
            c.label("state", "stored grid");
            c.nontrivial = true;
            let g = rqrr::SimpleGrid::from_func(n, |x, y| m.get(y, x));
            let _ = std::fs::remove_file(&f);
            g.write_grid_to(&path);
            let out = load()?.to_luma8();
            if out.dimensions() != (n as u32, n as u32) {
                return Err(format!("grid image is {:?}, grid is {n}x{n}", out.dimensions()));
            }
            for y in 0..n {
                for x in 0..n {
                    let want = if m.get(y, x) { 0 } else { 255 };
                    if out.get_pixel(x as u32, y as u32).0[0] != want {
                        return Err(format!("stored grid: module (row {y}, column {x}) has the wrong colour"));
                    }
                }
            }
            return Ok(());
        }
        let img = if s.chance(1, 50) {
            c.label("scene", "large picture");
            let base = useful_scene(s, c);
            let most = if s.bool() { 30 } else { 1500 };
            let (dx, dy) = (s.range(0, 5000), s.range(0, most));
            let (dx, dy) = if s.bool() { (dx, dy) } else { (dy, dx) };
            let mut big = Img::new(base.w + dx, base.h + dy, 255);
            for y in 0..base.h {
                for x in 0..base.w {
                    big.set(x + dx, y + dy, base.get(x, y));
                }
            }
            big
        } else {
            useful_scene(s, c)
        };
        if img.w == 0 || img.h == 0 {
            return Ok(());
        }
        c.note(format!("{}x{} px", img.w, img.h));
        let mut p = PreparedImage::prepare_from_bitmap(img.w, img.h, |x, y| img.get(x, y) < 128);
        let fresh = s.bool();
        if !fresh {
            let g = p.detect_grids();
            c.label("grids", g.len());
            for d in &g {
                let _ = std::fs::remove_file(&f);
                d.grid.write_grid_to(&path);
                let out = load()?.to_luma8();
                let n = d.grid.size();
                if out.dimensions() != (n as u32, n as u32) {
                    return Err(format!("grid image is {:?}, grid is {n}x{n}", out.dimensions()));
                }
                for y in 0..n {
                    for x in 0..n {
                        let want = if d.grid.bit(y, x) { 0 } else { 255 };
                        if out.get_pixel(x as u32, y as u32).0[0] != want {
                            return Err(format!("grid image: module (row {y}, column {x}) has the wrong colour"));
                        }
                    }
                }
            }
        }
        c.label("state", if fresh { "before the search" } else { "after the search" });
        let _ = std::fs::remove_file(&f);
        p.write_state_to(&path);
        let out = load()?.to_rgb8();
        if out.dimensions() != (img.w as u32, img.h as u32) {
            return Err(format!("state image is {:?}, image is {}x{}", out.dimensions(), img.w, img.h));
        }
        c.nontrivial = true;
        let mut kinds = std::collections::BTreeMap::new();
        for y in 0..img.h {
            for x in 0..img.w {
                let v = out.get_pixel(x as u32, y as u32).0;
                let st = p.get_pixel_at(x, y);
                let white = st == 0u8;
                if white != (v == [255, 255, 255]) || white != (img.get(x, y) >= 128) {
                    return Err(format!("state image: pixel ({x}, {y}) is {v:?} for {st:?}"));
                }
                if (st == 1u8) != (v == [0, 0, 0]) {
                    return Err(format!("state image: pixel ({x}, {y}) is {v:?} for {st:?}"));
                }
                // one colour per kind of region
                if st == 2u8 || st == 3u8 {
                    let k = if st == 2u8 { 2 } else { 3 };
                    if *kinds.entry(k).or_insert(v) != v {
                        return Err(format!("state image: {st:?} is drawn in several colours"));
                    }
                }
                // a region is claimed as a whole
                for (px, py) in [(x.wrapping_sub(1), y), (x, y.wrapping_sub(1))] {
                    if !white && px < img.w && py < img.h && img.get(px, py) < 128 {
                        let o = p.get_pixel_at(px, py);
                        if o != st || out.get_pixel(px as u32, py as u32).0 != v {
                            return Err(format!("pixels ({px}, {py}) and ({x}, {y}) of one region are {o:?} and {st:?}"));
                        }
                    }
                }
            }
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    r?
}

// ------------------------------------------------------------------ C24
pub fn nothing_there(s: &mut Src, c: &mut Ctx) -> Outcome {
    let img = match s.below(3) {
        0 => any_scene(s, c),
        1 => {
            // a code without one of its finders
            c.label("scene", "code with a finder spoilt");
            let v = s.range(1, 7);
            let (mut y, _) = any_symbol(s, v);
            let n = y.modules.n;
            let (fy, fx) = *s.pick(&[(0usize, 0usize), (0, n - 7), (n - 7, 0)]);
            let how = s.below(5);
            // ring cut in two: at two places on opposite sides, lengthwise or across
            let (cut1, cut2) = (s.range(0, 6), s.range(0, 6));
            for a in 0..7 {
                for b in 0..7 {
                    match how {
                        0 => y.modules.set(fy + a, fx + b, false),
                        1 => y.modules.set(fy + a, fx + b, true),
                        2 => {
                            if (a == 0 && b == cut1) || (a == 6 && b == cut2) {
                                y.modules.set(fy + a, fx + b, false);
                            }
                        }
                        3 => {
                            if (b == 0 && a == cut1) || (b == 6 && a == cut2) {
                                y.modules.set(fy + a, fx + b, false);
                            }
                        }
                        _ => {
                            // gap in the ring, stone joined to it
                            if a == 3 {
                                y.modules.set(fy + a, fx + b, true);
                            }
                        }
                    }
                }
            }
            let k = s.range(2, 5);
            let q = s.range(1, 20) as i64;
            let d = (n * k) as i64 + 2 * q;
            let mut i = Img::new(d as usize, d as usize, 255);
            blit(&mut i, &orient(&y.modules, s.range(0, 7)), q, q, k, k, 0, 255);
            i
        }
        _ => {
            c.label("scene", "finder-like shapes");
            finder_l(s)
        }
    };
    if img.w == 0 || img.h == 0 {
        return Ok(());
    }
    c.note(format!("{}x{} px", img.w, img.h));
    let mut two = img.clone();
    for p in two.px.iter_mut() {
        *p = if *p < 128 { 0 } else { 255 };
    }
    let look = finder_lookalikes(&two);
    c.label("finder-like shapes", look.min(7));
    let det = try_bitmap(&two)?;
    c.nontrivial = look >= 1;
    if det.len() > look / 3 {
        return Err(format!("{} grids, but only {look} shapes that could be finder patterns: {}", det.len(), briefs(&det)));
    }
    for d in &det {
        if !legal_size(d.size) {
            return Err(format!("grid of {0}x{0} modules", d.size));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C25
pub fn binarise(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (w, h) = if s.chance(1, 400) { (s.size(1, 3000), s.size(1, 200)) } else { (s.size(1, 200), s.size(1, 120)) };
    let mut img = Img::new(w, h, 0);
    let kind = s.below(4);
    let mut b = s.bulk();
    match kind {
        0 => {
            let v = s.byte();
            img.px.fill(v);
            c.label("image", "uniform");
        }
        1 => {
            img.px.iter_mut().for_each(|p| *p = b.below(256) as u8);
            c.label("image", "noise");
        }
        2 => {
            let (lo, hi) = (s.byte().min(90), s.range(100, 255) as u8);
            img.px.fill(hi);
            for _ in 0..s.range(1, 30) {
                let (x, y) = (s.range(0, w - 1), s.range(0, h - 1));
                img.set(x, y, lo.min(hi / 3));
            }
            c.label("image", "dots on light ground");
        }
        _ => {
            let k = s.range(1, 8);
            for y in 0..h {
                for x in 0..w {
                    img.set(x, y, if (x / k + y / k) % 2 == 0 { 20 } else { 220 });
                }
            }
            c.label("image", "checks");
        }
    }
    c.note(format!("{w}x{h} px"));
    c.nontrivial = w * h > 1;
    guard(|| -> Outcome {
        let p = PreparedImage::prepare_from_greyscale(w, h, |x, y| img.get(x, y));
        if p.width() != w || p.height() != h {
            return Err("size changed".into());
        }
        let max = *img.px.iter().max().unwrap();
        for y in 0..h {
            for x in 0..w {
                let v = p.get_pixel_at(x, y);
                if v != 0u8 && v != 1u8 {
                    return Err(format!("pixel ({x}, {y}) is neither black nor white: {v:?}"));
                }
                let black = v == 1u8;
                if black && img.get(x, y) == max {
                    return Err(format!("pixel ({x}, {y}) is black, although no pixel is brighter ({max})"));
                }
                if !black && kind == 2 && y >= 2 && w >= 16 && img.get(x, y) < max {
                    // dark dots: only those surrounded by light ones for as far as the average reaches
                    let reach = w;
                    let lone = (0..h).all(|yy| (0..w).all(|xx| (xx, yy) == (x, y) || yy.abs_diff(y) > 2 || img.get(xx, yy) == max || xx.abs_diff(x) > reach));
                    if lone {
                        return Err(format!("lone dark pixel ({x}, {y}) of {} on {max} is white", img.get(x, y)));
                    }
                }
            }
        }
        // coordinates outside are clamped to the border
        for _ in 0..8 {
            let (x, y) = (s.irange(-300, 500) as i32, s.irange(-300, 500) as i32);
            let (cx, cy) = (x.clamp(0, w as i32 - 1), y.clamp(0, h as i32 - 1));
            if p.get_pixel_at_point(Point { x, y }) != p.get_pixel_at(cx as usize, cy as usize) {
                return Err(format!("point ({x}, {y}) is not the border pixel ({cx}, {cy})"));
            }
        }
        // a buffer that is said to be prepared must be black and white
        let mut raw: Vec<u8> = img.px.iter().map(|&p| (p < 128) as u8).collect();
        let (i, v) = (s.range(0, w * h - 1), s.range(2, 255) as u8);
        let grey = s.bool();
        if grey {
            raw[i] = v;
        }
        let raw = image::GrayImage::from_raw(w as u32, h as u32, raw).unwrap();
        let taken = std::panic::catch_unwind(|| PreparedImage::without_preparation(raw).width() == w);
        match (grey, taken) {
            (true, Ok(_)) => return Err(format!("pixel {v} at ({}, {}) was accepted as black or white", i % w, i / w)),
            (false, Err(_)) => return Err("a black and white buffer was refused".into()),
            _ => {}
        }
        // a bitmap is taken as it is
        let q = PreparedImage::prepare_from_bitmap(w, h, |x, y| img.get(x, y) < 128);
        for y in 0..h {
            for x in 0..w {
                let v = q.get_pixel_at(x, y);
                if v != (img.get(x, y) < 128) as u8 {
                    return Err(format!("bitmap pixel ({x}, {y}) became {v:?}"));
                }
            }
        }
        Ok(())
    })?
}

// ------------------------------------------------------------------ C28
pub fn stained(s: &mut Src, c: &mut Ctx) -> Outcome {
    let ver = match s.below(8) {
        0 => 1,
        1..=6 => s.range(2, 10),
        _ => s.range(11, 25),
    };
    let (mut sym, content) = any_symbol(s, ver);
    let n = sym.modules.n;
    let ap = align_positions(ver);
    let spared = s.below(3); // which timing pattern stays intact: row, column, both
    let keep = |y: usize, x: usize| {
        let finder = (y < 8 && x < 8) || (y < 8 && x >= n - 8) || (y >= n - 8 && x < 8);
        let timing = (y == 6 && spared != 1) || (x == 6 && spared != 0);
        let near = |a: usize, b: usize| a.abs_diff(b) <= 2;
        let align = ver > 1 && near(y, ap[ap.len() - 1]) && near(x, ap[ap.len() - 1]);
        finder || timing || align
    };
    let clean = sym.modules.clone();
    let tol = |s: &mut Src| s.range(1, (n / 3).max(2));
    let blots = s.range(1, 4);
    let mut b = s.bulk();
    let mut kinds = vec![];
    for _ in 0..blots {
        let (cy, cx) = if s.chance(1, 3) {
            // across a timing pattern
            let a = s.range(8, n - 9);
            if s.bool() {
                (6, a)
            } else {
                (a, 6)
            }
        } else {
            (s.range(0, n - 1), s.range(0, n - 1))
        };
        let (hh, ww) = (tol(s), tol(s));
        let kind = s.below(4);
        kinds.push((["dark", "light", "disc", "specks"][kind as usize], hh, ww));
        let disc_dark = s.bool();
        for y in cy.saturating_sub(hh / 2)..(cy + hh.div_ceil(2)).min(n) {
            for x in cx.saturating_sub(ww / 2)..(cx + ww.div_ceil(2)).min(n) {
                let v = match kind {
                    0 => true,
                    1 => false,
                    2 => {
                        let (dy, dx) = (2.0 * (y as f64 - cy as f64) / hh as f64, 2.0 * (x as f64 - cx as f64) / ww as f64);
                        if dy * dy + dx * dx > 1.0 {
                            continue;
                        }
                        disc_dark
                    }
                    _ => {
                        if b.below(4) > 0 {
                            continue;
                        }
                        !sym.modules.get(y, x)
                    }
                };
                // specks would add changes of colour to a timing pattern, of which rqrr takes the busier one
                if !keep(y, x) && !(kind == 3 && (y == 6 || x == 6)) {
                    sym.modules.set(y, x, v);
                }
            }
        }
    }
    let changed = (0..n * n).filter(|&k| clean.m[k] != sym.modules.m[k]).count();
    let readable = |m: &Modules| ref_codestream(m).ok().filter(|r| r.level_bits == LEVEL_BITS[sym.lvl] && r.mask == sym.mask);
    let Some(r) = readable(&sym.modules) else {
        c.label("precondition", "more damage than can be corrected");
        return Ok(());
    };
    if r.data != readable(&clean).unwrap().data || ref_codestream(&sym.modules.transposed()).is_ok() {
        c.label("precondition", "more damage than can be corrected");
        return Ok(());
    }
    let k = s.range(2, 6);
    let o = s.range(0, 7);
    let q = s.range(1, 6) * k;
    let mut img = Img::new(n * k + 2 * q, n * k + 2 * q, 255);
    blit(&mut img, &orient(&sym.modules, o), q as i64, q as i64, k, k, 0, 255);
    c.note(format!("v{ver}-{} mask {}, {k} px/module, orientation {o}, stains {kinds:?} change {changed} modules", LEVEL_NAMES[sym.lvl], sym.mask));
    if finder_lookalikes(&img) != 3 {
        c.label("precondition", "something resembles a finder pattern");
        return Ok(());
    }
    c.label("precondition", "met");
    c.label("timing pattern", if (0..n).any(|i| clean.get(6, i) != sym.modules.get(6, i)) { "row stained" } else if (0..n).any(|i| clean.get(i, 6) != sym.modules.get(i, 6)) { "column stained" } else { "intact" });
    c.label("modules changed", if changed == 0 { "0" } else if changed < 10 { "1-9" } else if changed < 50 { "10-49" } else { "50+" });
    c.nontrivial = changed > 0;
    let det = try_bitmap(&img)?;
    check_one(&det, &sym, &content, "stained code")?;
    if det[0].bits != orient(&sym.modules, o & 4) {
        return Err("a module is read wrongly".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ C29
/// share of [from, to] that each module covers: (module, weight)
fn coverage(n: usize, k: f64, from: f64, to: f64) -> Vec<(i64, f64)> {
    let (a, b) = (from / k, to / k);
    let mut out = vec![];
    let mut m = a.floor() as i64;
    while (m as f64) < b {
        let w = (b.min(m as f64 + 1.0) - a.max(m as f64)) / (b - a);
        if w > 0.0 && m >= 0 && (m as usize) < n {
            out.push((m, w));
        }
        m += 1;
    }
    out
}

pub fn resampled(s: &mut Src, c: &mut Ctx) -> Outcome {
    // name, versions, pixels per module, softened by up to (modules), unread
    // images allowed
    type Class = (&'static str, &'static [usize], f64, f64, f64, usize);
    const CLASSES: [Class; 6] = [
        ("version 2-4, 8-12 px/module", &[2, 3, 4], 8.0, 12.0, 0.1, 2),
        ("version 2-4, 4-6 px/module", &[2, 3, 4], 4.0, 6.0, 0.1, 8),
        ("version 2-6, 6-10 px/module, soft", &[2, 3, 4, 5, 6], 6.0, 10.0, 0.25, 8),
        ("version 5-10, 6-10 px/module", &[5, 6, 7, 8, 9, 10], 6.0, 10.0, 0.1, 8),
        ("version 1, 6-10 px/module", &[1], 6.0, 10.0, 0.1, 21),
        ("version 11-25, 8-12 px/module", &[11, 13, 15, 17, 19, 22, 25], 8.0, 12.0, 0.1, 21),
    ];
    // the last one is slow and is drawn less often
    let &(name, vers, k0, k1, soft, allowed) = if s.chance(1, 12) { &CLASSES[5] } else { s.pick(&CLASSES[..5]) };
    c.label("class", name);
    let images = 64;
    let mut bad = vec![];
    let mut seen = 0;
    for _ in 0..images {
        let ver = *s.pick(vers);
        let (sym, content) = any_symbol(s, ver);
        let n = sym.modules.n;
        let kx = s.float(k0, k1);
        let ky = if s.bool() { kx } else { (kx * s.float(0.8, 1.25)).clamp(k0, k1) };
        // how far around a pixel light is collected
        let (bx, by) = if s.bool() { (0.0, 0.0) } else { (s.float(0.0, soft * kx), s.float(0.0, soft * ky)) };
        let (light, ratio) = (s.float(80.0, 255.0), s.float(0.0, 0.4));
        let o = s.range(0, 7);
        let q = s.float(4.0, 12.0);
        let m = orient(&sym.modules, o);
        let (ox, oy) = (q * kx + s.float(0.0, 1.0), q * ky + s.float(0.0, 1.0));
        let (w, h) = ((n as f64 * kx + 2.0 * ox) as usize, (n as f64 * ky + 2.0 * oy) as usize);
        let wx: Vec<_> = (0..w).map(|x| coverage(n, kx, x as f64 - bx - ox, x as f64 + 1.0 + bx - ox)).collect();
        let mut img = Img::new(w, h, 255);
        let mut dark = vec![0.0; w * h];
        for y in 0..h {
            let wy = coverage(n, ky, y as f64 - by - oy, y as f64 + 1.0 + by - oy);
            for (x, wx) in wx.iter().enumerate() {
                let mut d = 0.0;
                for &(my, a) in &wy {
                    for &(mx, b) in wx {
                        if m.get(my as usize, mx as usize) {
                            d += a * b;
                        }
                    }
                }
                img.set(x, y, (light * (1.0 - d * (1.0 - ratio))).round() as u8);
                dark[y * w + x] = d;
            }
        }
        let note = format!(
            "v{ver}-{} mask {}, {kx:.3}x{ky:.3} px/module at ({ox:.2},{oy:.2}), softened by {bx:.2}x{by:.2} px, light {light:.0}, dark {:.0}, orientation {o}",
            LEVEL_NAMES[sym.lvl],
            sym.mask,
            light * ratio
        );
        // whichever way the pixels on the edges fall
        let lookalike = [0.1, 0.3, 0.5, 0.7, 0.9].iter().any(|&t| {
            let mut two = Img::new(w, h, 255);
            for y in 0..h {
                for x in 0..w {
                    two.set(x, y, if dark[y * w + x] > t { 0 } else { 255 });
                }
            }
            finder_lookalikes(&two) != 3
        });
        if lookalike {
            c.label("image", "data resembles a finder pattern");
            continue;
        }
        seen += 1;
        let det = try_grey(&img)?;
        let r = check_one(&det, &sym, &content, "resampled");
        c.label("image", if r.is_ok() { "read" } else { "not read" });
        if let Err(e) = r {
            c.label("not read", name);
            if std::env::var_os("VERIF_DBG").is_some() {
                eprintln!("UNREAD {name}: {note} {e}");
            }
            bad.push(format!("[{note}: {e}]"));
        } else if seen == 1 {
            c.note(note);
        }
    }
    c.nontrivial = seen > 0;
    if bad.len() > allowed {
        return Err(format!("{} of {seen} images not read ({name}): {}", bad.len(), bad.join(" ")));
    }
    Ok(())
}
