//! Properties of decoding a module grid.

use crate::engine::*;
use crate::gen::*;
use crate::img::*;
use crate::qr::*;
use rqrr::{BitGrid, DeQRError, Grid};
use std::cell::Cell;
use std::io::{Error, ErrorKind, Write};

fn show(b: &[u8]) -> String {
    format!("{} bytes {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(60)]))
}

fn expect_ok(m: &Modules, sym: &Symbol, content: &[u8], what: &str) -> Outcome {
    let got = guard(|| decode_bytes(m)).map_err(|p| format!("{what}: {p}"))?;
    match got {
        Ok((meta, bytes)) => {
            let want = Meta { version: sym.ver, ecc: LEVEL_BITS[sym.lvl], mask: sym.mask };
            if bytes != content {
                return Err(format!("{what}: wrong content: got {}, encoded {}", show(&bytes), show(content)));
            }
            if meta != want {
                return Err(format!("{what}: wrong metadata: got {meta:?}, encoded {want:?}"));
            }
            Ok(())
        }
        Err(e) => Err(format!("{what}: decode failed with {e:?}, encoded {}", show(content))),
    }
}

fn sym_note(c: &mut Ctx, sym: &Symbol) {
    c.note(format!("v{}-{} mask {}", sym.ver, LEVEL_NAMES[sym.lvl], sym.mask));
}

fn vclass(v: usize) -> &'static str {
    match v {
        1..=9 => "1-9",
        10..=26 => "10-26",
        _ => "27-40",
    }
}

// ------------------------------------------------------------------ C01
pub fn round_trip(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (ver, lvl, mask) = pick_vlm(s);
    let (segs, data) = simple_payload(s, ver, lvl);
    let content = content_of(&segs);
    let sym = make_symbol(ver, lvl, mask, &data, s.bool());
    c.nontrivial = !content.is_empty();
    c.label("version", vclass(ver));
    c.label("level", LEVEL_NAMES[lvl]);
    c.label("mode", segs[0].mode());
    sym_note(c, &sym);
    c.note(describe(&segs));
    expect_ok(&sym.modules, &sym, &content, "clean symbol")
}

// ------------------------------------------------------------------ C02
pub fn segments(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (ver, lvl, mask) = if s.bool() { pick_vlm(s) } else { (pick_version(s), s.range(0, 3), s.range(0, 7) as u16) };
    let (segs, data) = mixed_payload(s, ver, lvl, c);
    let content = content_of(&segs);
    let sym = make_symbol(ver, lvl, mask, &data, s.bool());
    c.nontrivial = segs.iter().filter(|x| x.mode() != 7).count() >= 2;
    c.label("version", vclass(ver));
    for m in [1, 2, 4, 8, 7] {
        if segs.iter().any(|x| x.mode() == m) {
            c.label("segment mode present", m);
        }
    }
    sym_note(c, &sym);
    c.note(describe(&segs));
    expect_ok(&sym.modules, &sym, &content, "mixed segments")
}

// ------------------------------------------------------------------ C03
/// choose error counts per block; returns (symbol damaged, did any block reach its maximum)
pub fn damage_within(s: &mut Src, sym: &mut Symbol) -> (usize, bool) {
    let bl = blocks(sym.ver, sym.lvl);
    let pos = block_positions(sym);
    let style = s.below(4);
    let special = s.range(0, bl.len() - 1);
    let mut total = 0;
    let mut full = false;
    for (b, p) in pos.iter().enumerate() {
        let max = bl[b].1 / 2;
        let k = match style {
            0 => max,
            1 => {
                if b == special {
                    max
                } else {
                    0
                }
            }
            2 => s.range(0, max),
            _ => {
                if b == special {
                    s.range(1, max)
                } else {
                    s.range(0, 1)
                }
            }
        };
        full |= k == max;
        total += k;
        corrupt_block(s, sym, p, k);
    }
    (total, full)
}

pub fn rs_capacity(s: &mut Src, c: &mut Ctx) -> Outcome {
    // every version/level; the mask varies freely
    let i = s.sweep(160) as usize;
    let (ver, lvl, mask) = (i / 4 + 1, i % 4, s.range(0, 7) as u16);
    let (segs, data) = simple_payload(s, ver, lvl);
    let content = content_of(&segs);
    let mut sym = make_symbol(ver, lvl, mask, &data, false);
    let (total, full) = damage_within(s, &mut sym);
    redraw(&mut sym);
    c.nontrivial = total > 0;
    c.label("version", vclass(ver));
    c.label("a block at its limit", full);
    sym_note(c, &sym);
    c.note(format!("{} codeword errors over {} blocks, content {}", total, blocks(ver, lvl).len(), describe(&segs)));
    expect_ok(&sym.modules, &sym, &content, "symbol with correctable errors")
}

// ------------------------------------------------------------------ C04
fn put_format(m: &mut Modules, copy: usize, word: u16) {
    let l = layout((m.n - 17) / 4);
    let p = if copy == 0 { &l.fmt1 } else { &l.fmt2 };
    for (i, &(y, x)) in p.iter().enumerate() {
        m.set(y, x, word >> i & 1 != 0);
    }
}

fn upto3(s: &mut Src) -> u16 {
    let k = s.range(0, 3);
    s.distinct(15, k).iter().fold(0u16, |a, &b| a | 1 << b)
}

fn uncorrectable(s: &mut Src) -> u16 {
    let mut b = s.bulk();
    loop {
        let w = b.below(1 << 15) as u16;
        if decode_format(w).is_none() {
            return w;
        }
    }
}

pub fn format_info(s: &mut Src, c: &mut Ctx) -> Outcome {
    let w1 = s.sweep(1 << 15) as u16;
    let ver = match s.below(4) {
        0..=2 => s.range(1, 3),
        _ => pick_version(s),
    };
    let primary = decode_format(w1);
    let (lvl, mask) = match primary {
        Some((lb, m, _)) => (level_from_bits(lb), m),
        None => (s.range(0, 3), s.range(0, 7) as u16),
    };
    let (segs, data) = simple_payload(s, ver, lvl);
    let content = content_of(&segs);
    let sym = make_symbol(ver, lvl, mask, &data, false);
    let mut m = sym.modules.clone();
    let good = format_word(LEVEL_BITS[lvl], mask);
    let mut expect_fail = false;
    put_format(&mut m, 0, w1);
    // the dark module next to copy 2 is nobody's business either
    m.set(m.n - 8, 8, s.bool());
    match primary {
        Some((_, _, d)) => {
            c.label("first copy", format!("{d} errors"));
            let w2 = match s.below(3) {
                0 => good,
                1 => uncorrectable(s),
                _ => {
                    // a different, perfectly valid word: the first copy wins
                    format_word(s.below(4) as u16, s.below(8) as u16)
                }
            };
            put_format(&mut m, 1, w2);
        }
        None => {
            c.label("first copy", "beyond correction");
            if s.chance(1, 4) {
                expect_fail = true;
                let w2 = uncorrectable(s);
                put_format(&mut m, 1, w2);
            } else {
                let e = upto3(s);
                c.label("second copy", format!("{} errors", e.count_ones()));
                put_format(&mut m, 1, good ^ e);
            }
        }
    }
    c.nontrivial = w1 != good;
    sym_note(c, &sym);
    c.note(format!("format words read {:015b} / {:015b} (written {good:015b})", read_format_words(&m).0, read_format_words(&m).1));
    let raw = guard(|| grid_of(&m).get_raw_data().map(|r| Meta::from(r.0)))?;
    if expect_fail {
        c.label("second copy", "beyond correction");
        if raw != Err(DeQRError::FormatEcc) {
            return Err(format!("both copies beyond correction, raw data gave {raw:?} instead of FormatEcc"));
        }
        if ref_codestream(&m.transposed()).is_err() {
            let got = guard(|| decode_bytes(&m))?;
            if got != Err(DeQRError::FormatEcc) {
                return Err(format!("both copies beyond correction, decode gave {got:?} instead of FormatEcc"));
            }
        }
        return Ok(());
    }
    let want = Meta { version: ver, ecc: LEVEL_BITS[lvl], mask };
    if raw != Ok(want.clone()) {
        return Err(format!("raw data reports {raw:?}, written {want:?}"));
    }
    expect_ok(&m, &sym, &content, "format information within correction")
}

// ------------------------------------------------------------------ C05
/// Compare rqrr with the reference decoder on a module matrix of legal size. `written` are the
/// contents the matrix was made from.
fn agree(m: &Modules, c: &mut Ctx, written: &[Vec<u8>]) -> Outcome {
    let ver = (m.n - 17) / 4;
    let first = ref_codestream(m);
    let (stream, mirrored) = match &first {
        Ok(_) => (first.clone(), false),
        Err(_) => match ref_codestream(&m.transposed()) {
            Ok(x) => (Ok(x), true),
            Err(_) => (first.clone(), false),
        },
    };
    let got = guard(|| {
        let mut out = vec![];
        let r = grid_of(m).decode_to(&mut out).map(Meta::from);
        (r, out)
    })?;
    match stream {
        Err(e) => {
            c.label("reference", format!("{e:?}"));
            // With an odd number of EC codewords a word half-way between two code words may or
            // may not be given up on.
            let half_way = |m: &Modules| {
                let (w1, w2) = read_format_words(m);
                match decode_format(w1).or_else(|| decode_format(w2)) {
                    Some((lb, _, _)) => blocks(ver, level_from_bits(lb))[0].1 % 2 == 1,
                    None => false,
                }
            };
            let lenient = half_way(m) || half_way(&m.transposed());
            match got.0 {
                // beyond what is guaranteed to be correctable, but correct: nobody is harmed
                Ok(_) if written.contains(&got.1) => Ok(()),
                Ok(meta) if !lenient => Err(format!("delivered {} as {meta:?} although a block is beyond correction", show(&got.1))),
                Ok(_) => Ok(()),
                Err(g) => {
                    let want = if e == RefErr::Format { DeQRError::FormatEcc } else { DeQRError::DataEcc };
                    if g == want || lenient {
                        Ok(())
                    } else {
                        Err(format!("reported {g:?}, expected {want:?}"))
                    }
                }
            }
        }
        Ok(x) => {
            let p = ref_payload(ver, &x.data);
            c.label("reference", format!("{}{}", if mirrored { "mirrored, " } else { "" }, match &p.result { Ok(()) => "content".into(), Err(e) => format!("{e:?}") }));
            if p.undefined {
                return Ok(());
            }
            compare_payload(&p, got, &Meta { version: ver, ecc: x.level_bits, mask: x.mask })
        }
    }
}

fn compare_payload(p: &RefPayload, got: (Result<Meta, DeQRError>, Vec<u8>), want: &Meta) -> Outcome {
    match (&p.result, got.0) {
        (Ok(()), Ok(meta)) => {
            if got.1 != p.bytes {
                Err(format!("content {} differs from the reference's {}", show(&got.1), show(&p.bytes)))
            } else if meta != *want {
                Err(format!("metadata {meta:?}, expected {want:?}"))
            } else {
                Ok(())
            }
        }
        (Ok(()), Err(e)) => Err(format!("failed with {e:?}; the reference reads {}", show(&p.bytes))),
        (Err(e), Ok(_)) => Err(format!("delivered {} although the stream is broken ({e:?})", show(&got.1))),
        (Err(e), Err(g)) => {
            let want = match e {
                RefErr::Underflow => DeQRError::DataUnderflow,
                RefErr::UnknownMode => DeQRError::UnknownDataType,
                RefErr::Format => DeQRError::FormatEcc,
                RefErr::Data => DeQRError::DataEcc,
            };
            if g != want {
                return Err(format!("reported {g:?}, expected {want:?}"));
            }
            if !got.1.starts_with(&p.bytes[..p.complete]) || !p.bytes.starts_with(&got.1) {
                return Err(format!(
                    "before the error it wrote {}, which is not the content of the readable segments {}",
                    show(&got.1),
                    show(&p.bytes)
                ));
            }
            Ok(())
        }
    }
}

pub fn no_silent_corruption(s: &mut Src, c: &mut Ctx) -> Outcome {
    let ver = pick_version(s);
    let lvl = s.range(0, 3);
    let mask = s.range(0, 7) as u16;
    let (segs, data) = simple_payload(s, ver, lvl);
    let mut written = vec![content_of(&segs)];
    let mut sym = make_symbol(ver, lvl, mask, &data, false);
    sym_note(c, &sym);
    c.note(describe(&segs));
    match s.below(6) {
        5 => {
            // a multiple of a part of the generator polynomial: the first syndromes (or the last
            // ones, or those in between) look as if nothing had happened
            let bl = blocks(ver, lvl);
            let pos = block_positions(&sym);
            let b = s.range(0, bl.len() - 1);
            let e = bl[b].1;
            let k = s.range(1, e - 1);
            let from = match s.below(3) {
                0 => 0,
                1 => e - k,
                _ => s.range(0, e - k),
            };
            let mut poly = vec![1u8];
            for i in from..from + k {
                let r = GF.pow(i);
                let mut next = vec![0u8; poly.len() + 1];
                for (j, &g) in poly.iter().enumerate() {
                    next[j] ^= g;
                    next[j + 1] ^= GF.mul(g, r);
                }
                poly = next;
            }
            let f = s.byte().max(1);
            let at = s.range(0, pos[b].len() - poly.len());
            for (j, &g) in poly.iter().enumerate() {
                sym.codewords[pos[b][at + j]] ^= GF.mul(g, f);
            }
            redraw(&mut sym);
            c.label("damage", "codewords of a weaker code");
            c.note(format!("block {b}: {} words changed, syndromes {from}..{} untouched", k + 1, from + k));
            c.nontrivial = k >= e / 2;
        }
        0 | 1 => {
            // codeword errors around the limit of each block
            let bl = blocks(ver, lvl);
            let pos = block_positions(&sym);
            let target = s.range(0, bl.len() - 1);
            let mut worst = 0i64;
            for (b, p) in pos.iter().enumerate() {
                let max = bl[b].1 / 2;
                let k = if b == target { s.range(max.saturating_sub(1), max + 4) } else { s.range(0, max) };
                worst = worst.max(k as i64 - max as i64);
                corrupt_block(s, &mut sym, p, k);
            }
            c.label("damage", "codewords around the limit");
            c.note(format!("worst block {worst:+} relative to its limit"));
            redraw(&mut sym);
            c.nontrivial = worst >= 0;
        }
        2 => {
            // module noise anywhere
            let permille = s.range(1, 200) as u64;
            let mut b = s.bulk();
            for v in sym.modules.m.iter_mut() {
                if b.below(1000) < permille {
                    *v = !*v;
                }
            }
            c.label("damage", "module noise");
            c.note(format!("noise {permille}/1000"));
            c.nontrivial = true;
        }
        3 => {
            // a blot
            let n = sym.modules.n;
            for _ in 0..s.range(1, 3) {
                let (h, w) = (s.range(1, n / 2), s.range(1, n / 2));
                let (y, x) = (s.range(0, n - h), s.range(0, n - w));
                let v = s.bool();
                for yy in y..y + h {
                    for xx in x..x + w {
                        sym.modules.set(yy, xx, v);
                    }
                }
                c.note(format!("blot {w}x{h} at ({x},{y})"));
            }
            c.label("damage", "blots");
            c.nontrivial = true;
        }
        _ => {
            // another symbol's codewords with a few errors: valid, but not what was encoded first
            let (s2, d2) = simple_payload(s, ver, lvl);
            written.push(content_of(&s2));
            let other = make_symbol(ver, lvl, mask, &d2, false);
            let bl = blocks(ver, lvl);
            let pos = block_positions(&sym);
            for (b, p) in pos.iter().enumerate() {
                let k = s.range(0, bl[b].1);
                for i in s.distinct(p.len(), k.min(40)) {
                    sym.codewords[p[i]] = other.codewords[p[i]];
                }
            }
            redraw(&mut sym);
            c.label("damage", "mix of two symbols");
            c.nontrivial = true;
        }
    }
    if s.chance(1, 5) {
        sym.modules = sym.modules.transposed();
        c.note("mirrored");
    }
    agree(&sym.modules, c, &written)
}

// ------------------------------------------------------------------ C06
pub fn mirrored(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (ver, lvl, mask) = pick_vlm(s);
    let (segs, data) = simple_payload(s, ver, lvl);
    let content = content_of(&segs);
    let mut sym = make_symbol(ver, lvl, mask, &data, s.bool());
    let mut total = 0;
    if s.bool() {
        total = damage_within(s, &mut sym).0;
        redraw(&mut sym);
    }
    let mut m = sym.modules.clone();
    if s.chance(1, 3) {
        let e = upto3(s);
        put_format(&mut m, 0, format_word(LEVEL_BITS[lvl], mask) ^ e);
    }
    let t = m.transposed();
    sym_note(c, &sym);
    c.note(format!("{} with {total} codeword errors, mirrored", describe(&segs)));
    if ref_codestream(&t).is_ok() {
        c.label("direct reading", "also valid");
        return Ok(());
    }
    c.nontrivial = true;
    c.label("codeword errors", total > 0);
    c.label("version", vclass(ver));
    expect_ok(&t, &sym, &content, "mirrored symbol")
}

// ------------------------------------------------------------------ C07
pub fn raw_data(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (ver, lvl, mask) = pick_vlm(s);
    let l = layout(ver);
    let mut m = Modules::new(l.n);
    let mut b = s.bulk();
    let style = s.below(4);
    let one = s.range(0, l.order.len() - 1);
    for (i, v) in m.m.iter_mut().enumerate() {
        *v = match style {
            0 => b.below(2) == 1,
            1 => l.base.m[i],
            2 => i == l.order[one].0 * l.n + l.order[one].1,
            _ => b.below(100) < 3,
        };
    }
    let good = format_word(LEVEL_BITS[lvl], mask);
    let mut bad = false;
    match s.below(4) {
        0 => {
            let e = uncorrectable(s);
            put_format(&mut m, 0, e);
            if s.bool() {
                put_format(&mut m, 1, good);
            } else {
                let e = uncorrectable(s);
                put_format(&mut m, 1, e);
                bad = true;
            }
        }
        _ => {
            let e = upto3(s);
            put_format(&mut m, 0, good ^ e);
        }
    }
    c.nontrivial = !bad;
    c.label("format", if bad { "unreadable" } else { "readable" });
    c.note(format!("v{ver}-{} mask {mask} fill style {style}", LEVEL_NAMES[lvl]));
    let got = guard(|| grid_of(&m).get_raw_data())?;
    match got {
        Err(e) => {
            if bad && e == DeQRError::FormatEcc {
                Ok(())
            } else {
                Err(format!("failed with {e:?}"))
            }
        }
        Ok(_) if bad => Err("format information is unreadable, but raw data was returned".into()),
        Ok((meta, raw)) => {
            let want = Meta { version: ver, ecc: LEVEL_BITS[lvl], mask };
            if Meta::from(meta) != want {
                return Err(format!("metadata {:?}, expected {want:?}", Meta::from(meta)));
            }
            if raw.len != l.order.len() {
                return Err(format!("{} bits, the symbol has {} data modules", raw.len, l.order.len()));
            }
            for (k, &(y, x)) in l.order.iter().enumerate() {
                let bit = raw.data[k / 8] >> (7 - k % 8) & 1 != 0;
                if bit != m.get(y, x) {
                    return Err(format!("bit {k} is {bit}, module (row {y}, column {x}) is {}", m.get(y, x)));
                }
            }
            let total = raw.data.len() * 8;
            for k in raw.len..total {
                if raw.data[k / 8] >> (7 - k % 8) & 1 != 0 {
                    return Err(format!("bit {k} past the end is set"));
                }
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C08
pub fn function_patterns(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (ver, lvl, mask) = pick_vlm(s);
    let (segs, data) = simple_payload(s, ver, lvl);
    let content = content_of(&segs);
    let mut sym = make_symbol(ver, lvl, mask, &data, false);
    let l = layout(ver);
    let mut m = sym.modules.clone();
    let mut b = s.bulk();
    let style = s.below(4);
    let mut changed = 0;
    for i in 0..m.m.len() {
        if l.function[i] {
            let v = match style {
                0 => b.below(2) == 1,
                1 => !m.m[i],
                2 => false,
                _ => true,
            };
            changed += (v != m.m[i]) as usize;
            m.m[i] = v;
        }
    }
    let good = format_word(LEVEL_BITS[lvl], mask);
    if s.bool() {
        let e = upto3(s);
        put_format(&mut m, 0, good ^ e);
    } else {
        let e = uncorrectable(s);
        put_format(&mut m, 0, e);
        let e = upto3(s);
        put_format(&mut m, 1, good ^ e);
    }
    // remainder bits
    let ncw = sym.codewords.len() * 8;
    for k in ncw..l.order.len() {
        if b.below(2) == 1 {
            let (y, x) = l.order[k];
            m.flip(y, x);
        }
    }
    let mut total = 0;
    if s.chance(1, 3) {
        let before = sym.modules.clone();
        total = damage_within(s, &mut sym).0;
        redraw(&mut sym);
        for &(y, x) in &l.order[..ncw] {
            if before.get(y, x) != sym.modules.get(y, x) {
                m.flip(y, x);
            }
        }
    }
    c.nontrivial = changed > 0;
    c.label("version", vclass(ver));
    sym_note(c, &sym);
    c.note(format!("{changed} function modules overwritten, {} remainder modules, {total} codeword errors", l.order.len() - ncw));
    expect_ok(&m, &sym, &content, "symbol with overwritten function patterns")
}

// ------------------------------------------------------------------ C09
pub fn broken_streams(s: &mut Src, c: &mut Ctx) -> Outcome {
    let ver = match s.below(3) {
        0 => s.range(1, 3),
        1 => *s.pick(&[9usize, 10, 26, 27, 40]),
        _ => pick_version(s),
    };
    let lvl = s.range(0, 3);
    let mask = s.range(0, 7) as u16;
    let data = broken_stream(s, c, ver, lvl);
    let sym = make_symbol(ver, lvl, mask, &data, false);
    let p = ref_payload(ver, &data);
    sym_note(c, &sym);
    c.note(format!("reference: {:?} after {} complete bytes", p.result, p.complete));
    c.label("reference", if p.undefined { "not determined by the standard".into() } else { format!("{:?}", p.result) });
    let got = guard(|| {
        let mut out = vec![];
        let r = grid_of(&sym.modules).decode_to(&mut out).map(Meta::from);
        (r, out)
    })?;
    if p.undefined {
        return Ok(());
    }
    c.nontrivial = p.result.is_err();
    if p.cut == Some(false) && got.0.is_ok() {
        // nothing is left, and nothing is asked for
        c.label("cut-off count", "zero");
        return compare_payload(&RefPayload { result: Ok(()), ..p }, got, &Meta { version: ver, ecc: LEVEL_BITS[lvl], mask });
    }
    compare_payload(&p, got, &Meta { version: ver, ecc: LEVEL_BITS[lvl], mask })
}

/// the data codewords of a stream that is mostly broken somewhere
pub fn broken_stream(s: &mut Src, c: &mut Ctx, ver: usize, lvl: usize) -> Vec<u8> {
    let cap = data_capacity(ver, lvl);
    let mut b = Bits::default();
    let kind = s.below(7);
    // a few sound segments first
    for _ in 0..s.range(0, 3) {
        let mode = *s.pick(&[1usize, 2, 4, 8]);
        if let Some(max) = max_len(mode, ver, cap * 8 - b.0.len()) {
            let len = s.range(0, max.min(20));
            fill_seg(s, mode, len, false).emit(ver, &mut b);
        }
    }
    let room = cap * 8 - b.0.len();
    match kind {
        0 => {
            // a mode that does not exist (or is not supported)
            c.label("break", "unknown mode");
            if room >= 4 {
                let m = *s.pick(&[3usize, 5, 6, 9, 10, 11, 12, 13, 14, 15]);
                b.push(m, 4);
            }
        }
        1 | 2 => {
            // count says more than there is: the boundary, or far beyond
            c.label("break", "count beyond the end");
            let mode = *s.pick(&[1usize, 2, 4, 8]);
            let head = 4 + count_bits(mode, ver);
            if room >= head {
                let max = max_len(mode, ver, room).unwrap();
                let lim = (1usize << count_bits(mode, ver)) - 1;
                let n = if kind == 1 { max + s.range(0, 2) } else { s.range(max, lim.max(max)) }.min(lim);
                b.push(mode, 4);
                b.push(n, count_bits(mode, ver));
                c.note(format!("mode {mode} count {n}, at most {max} fit"));
            }
        }
        3 => {
            // an ECI header at the very end
            c.label("break", "ECI cut off");
            let keep = s.range(0, 30).min(room);
            let fill = (room - keep) / 8;
            if let Some(max) = max_len(4, ver, room.saturating_sub(keep)) {
                let len = max.min(fill);
                fill_seg(s, 4, len, false).emit(ver, &mut b);
            }
            if cap * 8 - b.0.len() >= 12 {
                b.push(7, 4);
                let f = *s.pick(&[0x00usize, 0x1a, 0x7f, 0x80, 0xbf, 0xc0, 0xdf]);
                b.push(f, 8);
            } else if cap * 8 - b.0.len() >= 4 {
                b.push(7, 4);
            }
        }
        4 => {
            // a segment whose count does not fit any more
            c.label("break", "count field cut off");
            let mode = *s.pick(&[1usize, 2, 4, 8]);
            let keep = s.range(4, 4 + count_bits(mode, ver));
            if let Some(max) = max_len(4, ver, room.saturating_sub(keep)) {
                fill_seg(s, 4, max, false).emit(ver, &mut b);
            }
            if cap * 8 - b.0.len() >= 4 {
                b.push(mode, 4);
            }
        }
        5 => {
            c.label("break", "segment then arbitrary bits");
        }
        _ => {
            c.label("break", "nothing (sound stream)");
            if room >= 4 {
                b.push(0, 4);
            }
        }
    }
    // arbitrary bits up to the capacity, for kinds that go on reading
    let mut bulk = s.bulk();
    let zero_tail = s.chance(1, 3);
    while b.0.len() < cap * 8 {
        b.0.push(!zero_tail && bulk.below(2) == 1);
    }
    finish(b, cap, false, [0, 0]).unwrap()
}

// ------------------------------------------------------------------ C10
struct Watched<'a> {
    n: usize,
    bit: &'a dyn Fn(usize, usize) -> bool,
    asked: Cell<u64>,
    limit: u64,
}
impl BitGrid for Watched<'_> {
    fn size(&self) -> usize {
        self.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        assert!(y < self.n && x < self.n, "asked for module (row {y}, column {x}) of a {0}x{0} grid", self.n);
        self.asked.set(self.asked.get() + 1);
        assert!(self.asked.get() <= self.limit, "asked for modules more than {} times for a {1}x{1} grid", self.limit, self.n);
        (self.bit)(y, x)
    }
}

pub fn any_grid(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = match s.below(6) {
        0 => s.range(0, 24),
        1 | 2 => side(pick_version(s)),
        3 => s.range(0, 200),
        4 => *s.pick(&[0usize, 1, 7, 8, 9, 17, 20, 21, 22, 24, 25, 176, 177, 178, 180, 181, 185, 255, 256, 400]),
        _ => s.range(17, 60),
    };
    let mut m = Modules::new(n);
    let legal = n >= 21 && n <= 177 && n % 4 == 1;
    let style = s.below(5);
    let mut b = s.bulk();
    match style {
        0 => m.m.iter_mut().for_each(|v| *v = b.below(2) == 1),
        1 => {
            let d = s.range(0, 100) as u64;
            m.m.iter_mut().for_each(|v| *v = b.below(100) < d)
        }
        2 => {
            let (p, q) = (s.range(1, 7), s.range(1, 7));
            for y in 0..n {
                for x in 0..n {
                    m.set(y, x, (x / p + y / q) % 2 == 0);
                }
            }
        }
        _ => {
            // a sound symbol (of a legal size near n) cut or padded to n
            let ver = ((n.max(21).min(177) - 17) / 4).max(1);
            let lvl = s.range(0, 3);
            let mut data: Vec<u8> = (0..data_capacity(ver, lvl)).map(|_| b.below(256) as u8).collect();
            match s.below(3) {
                0 => data = simple_payload(s, ver, lvl).1,
                1 => data = broken_stream(s, &mut Ctx::default(), ver, lvl),
                _ => {}
            }
            let sym = make_symbol(ver, lvl, s.range(0, 7) as u16, &data, false);
            for y in 0..n.min(sym.modules.n) {
                for x in 0..n.min(sym.modules.n) {
                    m.set(y, x, sym.modules.get(y, x));
                }
            }
            let noise = s.range(0, 30) as u64;
            if s.bool() {
                m.m.iter_mut().for_each(|v| *v ^= b.below(1000) < noise);
            }
        }
    }
    c.label("size", if legal { "a QR size" } else if n < 21 { "too small" } else if n > 177 { "too large" } else { "between QR sizes" });
    c.note(format!("{n}x{n} grid, fill style {style}"));
    c.nontrivial = n > 0 && !legal || style >= 3;
    let f = |y: usize, x: usize| m.get(y, x);
    let fresh = || Watched { n, bit: &f, asked: Cell::new(0), limit: 64 * (n * n) as u64 + 4096 };
    type R = (Result<(Meta, Vec<u8>), DeQRError>, Vec<u8>, Result<(Meta, usize, Vec<u8>), DeQRError>, Result<(Meta, String), DeQRError>);
    let run = || -> Result<R, String> {
        guard(|| {
            let mut out = vec![];
            let a = Grid::new(fresh()).decode_to(&mut out).map(|m| (m.into(), out.clone()));
            let b = Grid::new(fresh()).get_raw_data().map(|(m, r)| (m.into(), r.len, r.data.to_vec()));
            let c = Grid::new(fresh()).decode().map(|(m, t)| (m.into(), t));
            (a, out, b, c)
        })
    };
    let a = run()?;
    if run()? != a {
        return Err("decoding the same grid twice gave different results".into());
    }
    let stored = guard(|| decode_bytes(&m))?;
    if stored != a.0 {
        return Err(format!("the caller's own grid type gives {:?}, the library's {stored:?}", a.0));
    }
    c.label("result", match &a.0 { Ok(_) => "content".to_string(), Err(e) => format!("{e:?}") });
    if n < 21 || n > 180 {
        for r in [a.0.as_ref().err(), a.2.as_ref().err(), a.3.as_ref().err()] {
            if r != Some(&DeQRError::InvalidVersion) {
                return Err(format!("no QR code is {n}x{n}, but the outcome is {r:?} (None: success) instead of InvalidVersion"));
            }
        }
    }
    match (&a.0, &a.3) {
        (Ok((m, b)), Ok((m2, t))) if m == m2 && b == t.as_bytes() => Ok(()),
        (Ok((_, b)), Err(DeQRError::EncodingError)) if std::str::from_utf8(b).is_err() => Ok(()),
        (Err(e), Err(f)) if e == f => Ok(()),
        (x, y) => Err(format!("byte and string interface disagree: {x:?} / {y:?}")),
    }
}

// ------------------------------------------------------------------ C11
struct Picky {
    got: Vec<u8>,
    max_chunk: usize,
    interrupt_every: usize,
    calls: usize,
    fail_after: Option<usize>,
    zero: bool,
    kind: ErrorKind,
}
impl Write for Picky {
    fn write(&mut self, buf: &[u8]) -> Result<usize, Error> {
        self.calls += 1;
        if self.interrupt_every > 0 && self.calls % self.interrupt_every == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "again"));
        }
        let mut n = buf.len().min(self.max_chunk);
        if let Some(f) = self.fail_after {
            if self.got.len() >= f && !buf.is_empty() {
                return if self.zero { Ok(0) } else { Err(Error::new(self.kind, "full")) };
            }
            n = n.min(f - self.got.len());
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<(), Error> {
        Ok(())
    }
}

pub fn writers(s: &mut Src, c: &mut Ctx) -> Outcome {
    let ver = pick_version(s);
    let lvl = s.range(0, 3);
    let (segs, data) = mixed_payload(s, ver, lvl, &mut Ctx::default());
    let content = content_of(&segs);
    let sym = make_symbol(ver, lvl, s.range(0, 7) as u16, &data, false);
    let fail_after = if s.chance(2, 3) {
        // half of them inside the content, the boundary included
        Some(if s.bool() { s.range(0, content.len()) } else { content.len() + s.range(0, 3) })
    } else {
        None
    };
    let mut w = Picky {
        got: vec![],
        max_chunk: *s.pick(&[1000usize, 1, 2, 3]),
        interrupt_every: *s.pick(&[0usize, 2, 3, 7]),
        calls: 0,
        fail_after,
        zero: s.chance(1, 4),
        kind: *s.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::PermissionDenied]),
    };
    sym_note(c, &sym);
    c.note(format!("{}; writer: chunk {}, interrupt every {}, room {:?}", describe(&segs), w.max_chunk, w.interrupt_every, fail_after));
    let r = guard(|| grid_of(&sym.modules).decode_to(&mut w).map(Meta::from))?;
    let too_small = fail_after.is_some_and(|f| f < content.len());
    c.label("writer", if too_small { "fails within the content" } else { "takes everything" });
    c.nontrivial = too_small || w.max_chunk < 10 || w.interrupt_every > 0;
    if too_small {
        if r != Err(DeQRError::IoError) {
            return Err(format!("writer failed after {} of {} bytes, decode gave {r:?} instead of IoError", fail_after.unwrap(), content.len()));
        }
        if w.got != content[..fail_after.unwrap()] {
            return Err(format!("the writer took {}, not the first {} bytes of {}", show(&w.got), fail_after.unwrap(), show(&content)));
        }
        Ok(())
    } else {
        let want = Meta { version: ver, ecc: LEVEL_BITS[lvl], mask: sym.mask };
        if r != Ok(want.clone()) {
            return Err(format!("decode gave {r:?}, expected {want:?}"));
        }
        if w.got != content {
            return Err(format!("wrote {}, expected {}", show(&w.got), show(&content)));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C12
pub fn strings(s: &mut Src, c: &mut Ctx) -> Outcome {
    let ver = pick_version(s);
    let lvl = s.range(0, 3);
    let cap = data_capacity(ver, lvl);
    let max = max_len(4, ver, cap * 8).unwrap();
    // text over all UTF-8 lengths, then possibly broken in one place
    let target = if s.chance(1, 12) { s.range(0, max) } else { s.range(0, max.min(80)) };
    let mut text = String::new();
    // mostly a mixture, sometimes one kind of character only
    let kind = if s.chance(1, 3) { Some(s.below(7)) } else { None };
    loop {
        const SPECIAL: [char; 24] = [
            '\u{feff}', '\0', '\r', '\n', '\t', ' ', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{7f}', '\u{80}',
            '\u{85}', '\u{a0}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{202e}', '\u{301}', '\u{fb00}', '\u{1f600}', '\u{1b}',
        ];
        let kind = kind.unwrap_or_else(|| if s.chance(1, 8) { 6 } else { s.below(6) });
        let ch = match kind {
            5 => char::from_u32(0xa0 + s.below(0x60) as u32),
            6 => Some(*s.pick(&SPECIAL)),
            0 | 1 => char::from_u32(s.below(128) as u32),
            2 => char::from_u32(0x80 + s.below(0x780) as u32),
            3 => char::from_u32(0x800 + s.below(0xf800) as u32),
            _ => char::from_u32(0x10000 + s.below(0x100000) as u32),
        };
        let ch = ch.unwrap_or('\u{d7ff}');
        if text.len() + ch.len_utf8() > target {
            break;
        }
        text.push(ch);
    }
    let mut bytes = text.clone().into_bytes();
    let broken = s.below(4);
    if !bytes.is_empty() {
        let at = s.range(0, bytes.len() - 1);
        match broken {
            0 => bytes[at] = s.byte(),
            1 => bytes.truncate(at),
            2 => bytes[at] = *s.pick(&[0xffu8, 0xc0, 0xed, 0x80, 0xf8]),
            3 if s.chance(1, 4) => {
                // other encodings and forbidden forms: UTF-16, Latin-1, surrogates, overlong
                bytes = match s.below(5) {
                    0 => text.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
                    1 => [0xfe, 0xff].into_iter().chain(text.encode_utf16().flat_map(|u| u.to_be_bytes())).collect(),
                    2 => text.chars().map(|c| c as u32 as u8).collect(),
                    3 => text.encode_utf16().flat_map(|u| [0xe0 | (u >> 12) as u8, 0x80 | (u >> 6 & 63) as u8, 0x80 | (u & 63) as u8]).collect(),
                    _ => text.bytes().flat_map(|b| if b < 128 { vec![0xc0 | b >> 6, 0x80 | b & 63] } else { vec![b] }).collect(),
                };
                bytes.truncate(max);
            }
            _ => {}
        }
    }
    let valid = String::from_utf8(bytes.clone());
    let mut b = Bits::default();
    let cut = s.range(0, bytes.len());
    if s.chance(1, 8) && Seg::Byte(bytes.clone()).bit_len(ver) + 12 <= cap * 8 {
        // with a designator of an encoding in front, which changes nothing
        Seg::Eci(*s.pick(&[26, 3, 20, 25, 27, 0, 1, 899]) & 127, 1).emit(ver, &mut b);
        Seg::Byte(bytes.clone()).emit(ver, &mut b);
    } else if s.bool() && Seg::Byte(bytes.clone()).bit_len(ver) + 4 + count_bits(4, ver) <= cap * 8 {
        // a character may straddle two segments
        Seg::Byte(bytes[..cut].to_vec()).emit(ver, &mut b);
        Seg::Byte(bytes[cut..].to_vec()).emit(ver, &mut b);
    } else {
        Seg::Byte(bytes.clone()).emit(ver, &mut b);
    }
    let sym = make_symbol(ver, lvl, s.range(0, 7) as u16, &finish(b, cap, true, [0xec, 0x11]).unwrap(), false);
    sym_note(c, &sym);
    c.note(format!("content {:?}", String::from_utf8_lossy(&bytes)));
    c.label("content", if valid.is_ok() { "UTF-8" } else { "not UTF-8" });
    c.nontrivial = bytes.iter().any(|&x| x >= 0x80);
    let want = Meta { version: ver, ecc: LEVEL_BITS[lvl], mask: sym.mask };
    let got = guard(|| grid_of(&sym.modules).decode().map(|(m, t)| (Meta::from(m), t)))?;
    match (valid, got) {
        (Ok(t), Ok((m, g))) if t == g && m == want => {}
        (Err(_), Err(DeQRError::EncodingError)) => {}
        (v, g) => return Err(format!("string interface gave {g:?}, bytes are {v:?}")),
    }
    // the byte interface is not concerned with encodings
    expect_ok(&sym.modules, &sym, &bytes, "byte interface")
}

// ------------------------------------------------------------------ C22
pub fn grids_and_versions(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut n = s.sweep(440) as usize;
    if s.chance(1, 40) {
        n = s.range(440, 1500);
    }
    c.note(format!("size {n}"));
    // sizes of any magnitude
    let wild = match s.below(4) {
        0 => usize::MAX - s.range(0, 300),
        1 => (1usize << s.range(8, 63)) + s.range(0, 200),
        2 => s.range(181, 100_000),
        _ => s.bulk().next() as usize | 256,
    };
    let v = guard(|| rqrr::Version::from_size(wild).map(|v| v.0))?;
    if v != Err(DeQRError::InvalidVersion) {
        return Err(format!("size {wild}: {v:?} instead of InvalidVersion"));
    }
    // size <-> version
    let v = guard(|| rqrr::Version::from_size(n).map(|v| v.0))?;
    let legal = n >= 21 && n <= 177 && n % 4 == 1;
    if legal {
        let want = (n - 17) / 4;
        if v != Ok(want) {
            return Err(format!("size {n}: version {v:?}, expected {want}"));
        }
        let back = rqrr::Version(want).to_size();
        if back != n {
            return Err(format!("version {want}: size {back}, expected {n}"));
        }
    } else if (n < 21 || n > 180) && v != Err(DeQRError::InvalidVersion) {
        return Err(format!("size {n}: {v:?} instead of InvalidVersion"));
    }
    // a stored grid is what it was made from
    let mut b = s.bulk();
    let dens = s.range(0, 100) as u64;
    let mut m = Modules::new(n);
    m.m.iter_mut().for_each(|v| *v = b.below(100) < dens);
    let order = std::cell::RefCell::new(Vec::new());
    let g = rqrr::SimpleGrid::from_func(n, |x, y| {
        order.borrow_mut().push((x, y));
        m.get(y, x)
    });
    if order.borrow().iter().any(|&(x, y)| x >= n || y >= n) {
        return Err("the fill function was asked for a module outside of the grid".into());
    }
    if g.size() != n {
        return Err(format!("size {} instead of {n}", g.size()));
    }
    let h = g.clone();
    for y in 0..n {
        for x in 0..n {
            if g.bit(y, x) != m.get(y, x) || h.bit(y, x) != m.get(y, x) {
                return Err(format!("module (row {y}, column {x}) is not what the fill function said"));
            }
        }
    }
    let gr = Grid::new(g);
    if gr.bounds.iter().any(|p| p.x != 0 || p.y != 0) {
        return Err("a grid without image has bounds".into());
    }
    c.nontrivial = n > 0;
    c.label("size", if legal { "a QR size" } else { "other" });
    Ok(())
}
