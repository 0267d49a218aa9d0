//! Properties over histories and build configurations.

use crate::engine::*;
use crate::gen::*;
use crate::img::*;
use crate::p_decode::damage_within;
use crate::p_detect::useful_scene;
use crate::qr::*;
use crate::scene::*;
use rqrr::{BitGrid, Grid, PreparedImage, SimpleGrid};
use std::cell::{Cell, RefCell};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

include!("probe.rs");

/// One call of the library, with what must come out if that is known by construction
#[derive(Clone)]
struct Op {
    kind: usize,
    w: usize,
    h: usize,
    px: Vec<u8>,
    expect: Option<Vec<u8>>,
    note: String,
}

fn op(s: &mut Src, related: Option<&Op>) -> Op {
    let grid_op = |m: &Modules, expect: Option<Vec<u8>>, note: String| Op {
        kind: 2,
        w: m.n,
        h: m.n,
        px: m.m.iter().map(|&b| b as u8).collect(),
        expect,
        note,
    };
    if let Some(r) = related {
        if s.bool() {
            // the same thing with a small difference: what a careless cache would mix up
            let mut o = r.clone();
            o.expect = None;
            let n = o.px.len();
            if n > 0 {
                for _ in 0..s.range(1, 4) {
                    let k = s.range(0, n - 1);
                    o.px[k] = if o.kind == 2 { 1 - o.px[k] } else { 255 - o.px[k] };
                }
            }
            o.note = format!("{} with changes", r.note);
            return o;
        }
    }
    match s.below(5) {
        0 | 1 => {
            let ver = match related {
                Some(r) if r.kind == 2 && s.bool() => (r.w - 17) / 4,
                _ => pick_version(s),
            };
            let lvl = s.range(0, 3);
            let (segs, data) = simple_payload(s, ver, lvl);
            let mut sym = make_symbol(ver, lvl, s.range(0, 7) as u16, &data, false);
            match s.below(4) {
                0 => {
                    damage_within(s, &mut sym);
                    redraw(&mut sym);
                    grid_op(&sym.modules, Some(content_of(&segs)), format!("v{ver} grid, damaged"))
                }
                1 => {
                    let mut b = s.bulk();
                    sym.modules.m.iter_mut().for_each(|v| *v ^= b.below(100) < 15);
                    grid_op(&sym.modules, None, format!("v{ver} grid, destroyed"))
                }
                2 => grid_op(&sym.modules.transposed(), None, format!("v{ver} grid, mirrored")),
                _ => grid_op(&sym.modules, Some(content_of(&segs)), format!("v{ver} grid")),
            }
        }
        2 | 3 => {
            let ver = s.range(1, 5);
            let (sym, content) = any_symbol(s, ver);
            let k = s.range(2, 3);
            let q = s.range(1, 8 * k) as i64;
            let d = sym.modules.n * k + 2 * q as usize;
            let mut im = Img::new(d, d, 255);
            blit(&mut im, &orient(&sym.modules, s.range(0, 7)), q, q, k, k, 0, 255);
            let ok = finder_lookalikes(&im) == 3;
            Op { kind: 1, w: d, h: d, px: im.px, expect: ok.then_some(content), note: format!("v{ver} in a {d}x{d} image") }
        }
        _ => {
            let im = useful_scene(s, &mut Ctx::default());
            let kind = s.range(0, 1);
            Op { kind, w: im.w, h: im.h, note: format!("{}x{} scene", im.w, im.h), px: im.px, expect: None }
        }
    }
}

fn run_op(o: &Op) -> String {
    guard(|| probe(o.kind, o.w, o.h, &o.px)).unwrap_or_else(|p| p)
}

fn check_expect(o: &Op, got: &str) -> Outcome {
    if let Some(e) = &o.expect {
        let tail = format!(")) {e:?} text ");
        if !got.contains(&tail) {
            let short: String = got.chars().take(300).collect();
            return Err(format!("{}: content is not what was encoded: {short}", o.note));
        }
    }
    Ok(())
}

/// the message that asks another process for a call
fn message(o: &Op) -> Vec<u8> {
    let mut m = vec![];
    for v in [o.kind, o.w, o.h] {
        m.extend_from_slice(&(v as u32).to_le_bytes());
    }
    m.extend_from_slice(&o.px);
    m
}

fn in_new_process(o: &Op) -> std::io::Result<String> {
    let mut ch = Command::new(std::env::current_exe()?).arg("call").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
    ch.stdin.take().unwrap().write_all(&message(o))?;
    let out = ch.wait_with_output()?;
    if !out.status.success() {
        return Err(std::io::Error::other(format!("{}", out.status)));
    }
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

/// the other end of `in_new_process`
pub fn answer() -> std::io::Result<()> {
    let mut m = vec![];
    std::io::stdin().read_to_end(&mut m)?;
    let v = |i: usize| u32::from_le_bytes(m[4 * i..4 * i + 4].try_into().unwrap()) as usize;
    let o = Op { kind: v(0), w: v(1), h: v(2), px: m[12..].to_vec(), expect: None, note: String::new() };
    std::io::stdout().write_all(run_op(&o).as_bytes())
}

/// The call with a callback of the user's that does `act` when it is called for the `at`th time.
/// Returns the outcome and how often the callback was called. `in_writer`: the callback is the
/// writer, otherwise it is the function or grid that gives the modules or pixels.
fn with_callback(o: &Op, in_writer: bool, at: usize, act: &dyn Fn()) -> (String, usize) {
    struct G<'a>(&'a Op, &'a dyn Fn());
    impl BitGrid for G<'_> {
        fn size(&self) -> usize {
            self.0.w
        }
        fn bit(&self, y: usize, x: usize) -> bool {
            self.1();
            self.0.px[y * self.0.w + x] != 0
        }
    }
    struct W<'a>(Vec<u8>, &'a dyn Fn());
    impl Write for W<'_> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.1();
            self.0.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let calls = Cell::new(0usize);
    let tick = || {
        let k = calls.get();
        calls.set(k + 1);
        if k == at {
            act();
        }
    };
    let nothing = || ();
    let (t_in, t_out): (&dyn Fn(), &dyn Fn()) = if in_writer { (&nothing, &tick) } else { (&tick, &nothing) };
    let mut out = String::new();
    if o.kind == 2 {
        let mut w = W(vec![], t_out);
        let r = Grid::new(G(o, t_in)).decode_to(&mut w);
        out = format!("{r:?} {:?}", w.0);
    } else {
        let at = |x: usize, y: usize| {
            t_in();
            o.px[y * o.w + x]
        };
        let mut p = if o.kind == 0 { PreparedImage::prepare_from_greyscale(o.w, o.h, at) } else { PreparedImage::prepare_from_bitmap(o.w, o.h, |x, y| at(x, y) < 128) };
        for g in p.detect_grids() {
            let mut w = W(vec![], t_out);
            let r = g.decode_to(&mut w);
            out.push_str(&format!("{} {:?} {r:?} {:?};", g.grid.size(), g.bounds, w.0));
        }
    }
    (out, calls.get())
}

/// calls that a callback gives up by panicking, and calls made from within a callback
fn callbacks(s: &mut Src, c: &mut Ctx, ops: &[Op], alone: &[String]) -> Outcome {
    let n = ops.len();
    for _ in 0..s.range(1, 3) {
        let (i, j) = (s.range(0, n - 1), s.range(0, n - 1));
        let in_writer = s.bool();
        let Ok((plain, calls)) = guard(|| with_callback(&ops[i], in_writer, usize::MAX, &|| ())) else { continue };
        if calls == 0 {
            continue;
        }
        let at = s.range(0, calls - 1);
        if s.bool() {
            c.label("callback", "gives up");
            if guard(|| with_callback(&ops[i], in_writer, at, &|| panic!("callback gives up"))).is_ok() {
                return Err(format!("{}: a panic of the user's callback disappears", ops[i].note));
            }
        } else {
            c.label("callback", "calls the library");
            let inner = RefCell::new(String::new());
            let got = guard(|| with_callback(&ops[i], in_writer, at, &|| *inner.borrow_mut() = run_op(&ops[j])));
            if got.as_ref().ok().map(|g| &g.0) != Some(&plain) {
                return Err(format!("{} gives something else if its callback makes the call {}: {:?}", ops[i].note, ops[j].note, got.map(|g| g.0.chars().take(200).collect::<String>())));
            }
            if *inner.borrow() != alone[j] {
                return Err(format!("{} gives something else when called from a callback of {}", ops[j].note, ops[i].note));
            }
        }
    }
    for (o, a) in ops.iter().zip(alone) {
        if run_op(o) != *a {
            return Err(format!("{} gives something else after calls with callbacks that gave up or made calls of their own", o.note));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C26
pub fn histories(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = s.range(2, 5);
    let mut ops: Vec<Op> = vec![];
    for i in 0..n {
        let rel = if i > 0 && s.bool() { Some(ops[s.range(0, i - 1)].clone()) } else { None };
        let o = op(s, rel.as_ref());
        ops.push(o);
    }
    let steps: Vec<usize> = (0..s.range(n, 3 * n)).map(|_| s.range(0, n - 1)).collect();
    c.note(format!("{}; order {steps:?}", ops.iter().map(|o| o.note.as_str()).collect::<Vec<_>>().join(", ")));
    c.nontrivial = true;
    c.label("calls", steps.len());
    // what each call gives on its own, in a thread of its own
    let alone: Vec<String> = ops.iter().map(|o| std::thread::scope(|sc| sc.spawn(|| run_op(o)).join().unwrap())).collect();
    for (o, a) in ops.iter().zip(&alone) {
        check_expect(o, a)?;
    }
    // ... in a process that has never done anything else
    if s.chance(1, 2) {
        let k = s.range(0, n - 1);
        let first = match in_new_process(&ops[k]) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("a new process of the harness does not answer: {e}");
                std::process::exit(2);
            }
        };
        c.label("compared with a new process", true);
        if first != alone[k] {
            return Err(format!("{} gives something else in a new process", ops[k].note));
        }
    }
    // ... after all the others
    for (k, &i) in steps.iter().enumerate() {
        let got = run_op(&ops[i]);
        if got != alone[i] {
            return Err(format!("call {k} ({}) gives something else after {:?}", ops[i].note, &steps[..k]));
        }
    }
    // ... and while the others run
    if s.chance(1, 3) {
        c.label("concurrent", true);
        let res: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3)
                .map(|t| {
                    let (ops, steps) = (&ops, &steps);
                    sc.spawn(move || steps.iter().skip(t).step_by(2).map(|&i| (i, run_op(&ops[i]))).collect::<Vec<_>>())
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (i, got) in res.into_iter().flatten() {
            if got != alone[i] {
                return Err(format!("{} gives something else while other calls run", ops[i].note));
            }
        }
    }
    if s.chance(1, 3) {
        callbacks(s, c, &ops, &alone)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C27
struct Peer(Child);
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}

fn ask(o: &Op) -> std::io::Result<String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            let exe = crate::root().join("target/release/rqrr-nofeat");
            *p = Some(Peer(Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?));
        }
        let ch = &mut p.as_mut().unwrap().0;
        let m = message(o);
        let i = ch.stdin.as_mut().unwrap();
        i.write_all(&m)?;
        i.flush()?;
        let out = ch.stdout.as_mut().unwrap();
        let mut l = [0u8; 4];
        out.read_exact(&mut l)?;
        let mut t = vec![0u8; u32::from_le_bytes(l) as usize];
        out.read_exact(&mut t)?;
        Ok(String::from_utf8_lossy(&t).into_owned())
    })
}

pub fn configurations(s: &mut Src, c: &mut Ctx) -> Outcome {
    let o = op(s, None);
    c.note(&o.note);
    c.label("call", ["greyscale", "bitmap", "module grid"][o.kind]);
    let a = guard(|| probe(o.kind, o.w, o.h, &o.px)).unwrap_or_else(|_| "panic".into());
    c.nontrivial = a.contains("size");
    let b = match ask(&o) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("the build without image support does not answer: {e}");
            std::process::exit(2);
        }
    };
    if a != b {
        let k = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let cut = |t: &str| t.chars().skip(k.saturating_sub(40)).take(160).collect::<String>();
        return Err(format!("{}: with image support \"{}\", without \"{}\"", o.note, cut(&a), cut(&b)));
    }
    check_expect(&o, &a)
}
