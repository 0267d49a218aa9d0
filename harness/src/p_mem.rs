//! Memory: an allocator that keeps count for each thread, and the property it decides.

use crate::engine::*;
use crate::gen::*;
use crate::img::*;
use crate::p_decode::broken_stream;
use crate::qr::*;
use crate::scene::*;
use rqrr::{BitGrid, Grid, PreparedImage};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Counting;

thread_local! {
    /// bytes this thread has allocated and not given back
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// No case comes anywhere near this; a thread that gets here would use up the machine's memory
const RUNAWAY: isize = 2 << 30;

fn grow(by: isize) -> bool {
    LIVE.try_with(|l| {
        let now = l.get() + by;
        if by > 0 && now > RUNAWAY {
            return false;
        }
        l.set(now);
        let _ = PEAK.try_with(|p| p.set(p.get().max(now)));
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if grow(l.size() as isize) {
            System.alloc(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if grow(l.size() as isize) {
            System.alloc_zeroed(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        grow(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new may be there at the same time
        if !grow(n as isize) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, n);
        grow(-(if r.is_null() { n } else { l.size() } as isize));
        r
    }
}

/// most bytes in use at a time while `f` ran, and bytes still in use afterwards
fn measure(f: &mut dyn FnMut()) -> (isize, isize) {
    let before = LIVE.get();
    PEAK.set(before);
    f();
    (PEAK.get() - before, LIVE.get() - before)
}

/// largest share of the limits used, in thousandths: image, grid
pub static WORST: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

struct Func<'a>(usize, &'a dyn Fn(usize, usize) -> bool);
impl BitGrid for Func<'_> {
    fn size(&self) -> usize {
        self.0
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        (self.1)(y, x)
    }
}

/// patterns that make a region as entangled as possible
fn entangled(s: &mut Src) -> Img {
    let big = s.chance(1, 20);
    let (w, h) = if big { (s.range(100, 2000), s.range(100, 1500)) } else { (s.range(1, 300), s.range(1, 300)) };
    let mut im = Img::new(w, h, 255);
    let mut b = s.bulk();
    let (p, q) = (s.range(2, 9), s.range(2, 9));
    let share = s.range(50, 95) as u64;
    let kind = s.below(6);
    for y in 0..h {
        for x in 0..w {
            let dark = match kind {
                // grating with holes, comb, teeth on both sides, maze, percolating noise, stairs
                0 => x % p == 0 || y % q == 0,
                1 => x % p == 0 || y == h / 2,
                2 => y % q == 0 || (x + y / q * (p / 2)) % p == 0,
                3 => (y % 2 == 0 && b.below(100) < share) || x % 2 == 0 && (y % 2 == 0 || b.below(2) == 0),
                4 => b.below(100) < share,
                _ => (x + y) % p < 2,
            };
            if dark {
                im.set(x, y, 0);
            }
        }
    }
    im
}

/// many finder patterns in rows
fn many_finders(s: &mut Src) -> Img {
    let k = s.range(1, 3);
    let (a, b) = (s.range(1, 8), s.range(1, 5));
    let (gx, gy) = (s.range(8, 24), s.range(8, 24));
    let mut im = Img::new((a * gx + 4) * k, (b * gy + 4) * k, 255);
    for j in 0..b {
        for i in 0..a {
            if s.chance(1, 10) {
                continue;
            }
            let (x, y) = (((i * gx + 2) * k + s.range(0, k)) as i64, ((j * gy + 2) * k + s.range(0, k)) as i64);
            let k = k as i64;
            im.rect(x, y, 7 * k, 7 * k, 0);
            im.rect(x + k, y + k, 5 * k, 5 * k, 255);
            im.rect(x + 2 * k, y + 2 * k, 3 * k, 3 * k, 0);
        }
    }
    im
}

pub fn memory(s: &mut Src, c: &mut Ctx) -> Outcome {
    if s.chance(1, 4) {
        return grid_memory(s, c);
    }
    let im = match s.below(5) {
        3 => {
            c.label("scene", "many finders");
            many_finders(s)
        }
        0 => {
            c.label("scene", "entangled");
            entangled(s)
        }
        1 => {
            c.label("scene", "many regions");
            crowded(s)
        }
        2 => {
            c.label("scene", "finder-like shapes");
            finder_l(s)
        }
        _ => any_scene(s, c),
    };
    let px = im.w * im.h;
    let v = survey(&im);
    let grey = s.bool();
    c.label("given as", if grey { "greyscale" } else { "bitmap" });
    c.note(format!("{}x{} px, {} regions, {} finder-like shapes, {}", im.w, im.h, v.regions, v.looks, if grey { "greyscale" } else { "bitmap" }));
    let mut grids = 0;
    let mut op = || {
        let mut p = if grey {
            PreparedImage::prepare_from_greyscale(im.w, im.h, |x, y| im.get(x, y))
        } else {
            PreparedImage::prepare_from_bitmap(im.w, im.h, |x, y| im.get(x, y) < 128)
        };
        let g = p.detect_grids();
        grids = g.len();
        for d in &g {
            let _ = d.decode();
            let mut out = vec![];
            let _ = d.decode_to(&mut out);
            let _ = d.get_raw_data();
        }
    };
    // panics are not the subject here; the first run may set up tables
    if guard(&mut op).is_err() {
        return Ok(());
    }
    let (peak, left) = measure(&mut op);
    c.label("grids", grids.min(3));
    c.nontrivial = px > 100;
    let limit = 24 * px + 250_000 + 1_000 * v.looks * v.looks;
    c.label("shapes", match v.looks { 0..=2 => "0-2", 3..=6 => "3-6", _ => "7 or more" });
    WORST[0].fetch_max(peak.max(0) as u64 * 1000 / limit as u64, Ordering::Relaxed);
    if left > 0 {
        return Err(format!("{left} bytes remain allocated after the image was searched and everything dropped"));
    }
    if peak > limit as isize {
        return Err(format!("searching an image of {px} pixels took {peak} bytes of memory, more than {limit}"));
    }
    Ok(())
}

fn grid_memory(s: &mut Src, c: &mut Ctx) -> Outcome {
    let ver = pick_version(s);
    let lvl = s.range(0, 3);
    let data = if s.bool() { broken_stream(s, c, ver, lvl) } else { simple_payload(s, ver, lvl).1 };
    let sym = make_symbol(ver, lvl, s.range(0, 7) as u16, &data, false);
    let mut m = sym.modules.clone();
    let mut b = s.bulk();
    let noise = *s.pick(&[0u64, 0, 5, 50, 500]);
    m.m.iter_mut().for_each(|v| *v ^= b.below(1000) < noise);
    c.label("scene", "grid");
    c.note(format!("v{ver}-{} grid, {noise} permille of the modules changed", LEVEL_NAMES[lvl]));
    let mirrored = s.bool();
    c.label("grid", if mirrored { "mirrored" } else { "upright" });
    let f = |y: usize, x: usize| if mirrored { m.get(x, y) } else { m.get(y, x) };
    let mut len = 0;
    let mut op = || {
        let g = Grid::new(Func(m.n, &f));
        let mut out = vec![];
        let _ = g.decode_to(&mut out);
        len = out.len();
        drop(out);
        let _ = g.decode();
        let _ = g.get_raw_data();
    };
    if guard(&mut op).is_err() {
        return Ok(());
    }
    let (peak, left) = measure(&mut op);
    c.nontrivial = len > 0;
    let limit = 48_000 + 8 * len;
    WORST[1].fetch_max(peak.max(0) as u64 * 1000 / limit as u64, Ordering::Relaxed);
    if left > 0 {
        return Err(format!("{left} bytes remain allocated after decoding a grid and dropping the result"));
    }
    if peak > limit as isize {
        return Err(format!("decoding {len} bytes took {peak} bytes of memory, more than {limit}"));
    }
    Ok(())
}
