//! Generators of payloads and symbols for the decoding properties.

use crate::engine::*;
use crate::qr::*;

pub fn describe(segs: &[Seg]) -> String {
    let mut o = String::new();
    for s in segs {
        if !o.is_empty() {
            o.push('+');
        }
        o.push_str(&match s {
            Seg::Num(d) => format!("num{}", d.len()),
            Seg::Alnum(d) => format!("alnum{}", d.len()),
            Seg::Byte(d) => format!("byte{}", d.len()),
            Seg::Kanji(d) => format!("kanji{}", d.len()),
            Seg::Eci(v, w) => format!("eci{v}/{w}B"),
        });
    }
    o
}

/// longest segment of this mode that fits into `bits`, 0 = nothing fits (None: not even empty)
pub fn max_len(mode: usize, ver: usize, bits: usize) -> Option<usize> {
    let head = 4 + count_bits(mode, ver);
    let room = bits.checked_sub(head)?;
    let n = match mode {
        1 => room / 10 * 3 + if room % 10 >= 7 { 2 } else if room % 10 >= 4 { 1 } else { 0 },
        2 => room / 11 * 2 + if room % 11 >= 6 { 1 } else { 0 },
        4 => room / 8,
        _ => room / 13,
    };
    Some(n.min((1 << count_bits(mode, ver)) - 1))
}

pub fn content_of(segs: &[Seg]) -> Vec<u8> {
    let mut v = vec![];
    for s in segs {
        s.content(&mut v);
    }
    v
}

/// fill a segment; short ones element-wise (shrinkable), long ones from a bulk stream
pub fn fill_seg(s: &mut Src, mode: usize, len: usize, text: bool) -> Seg {
    let mut bulk = s.bulk();
    let mut val = |s: &mut Src, n: u64| if len <= 24 { s.below(n) } else { bulk.below(n) };
    match mode {
        1 => Seg::Num((0..len).map(|_| b'0' + val(s, 10) as u8).collect()),
        2 => Seg::Alnum((0..len).map(|_| ALNUM[val(s, 45) as usize]).collect()),
        4 => Seg::Byte((0..len).map(|_| if text { b' ' + val(s, 95) as u8 } else { val(s, 256) as u8 }).collect()),
        _ => Seg::Kanji(
            (0..len)
                .map(|_| {
                    // lead byte 81..9f, e0..eb ; trail byte 40..7e, 80..fc (eb ends at bf)
                    let h = val(s, 43) as u8;
                    let hi = if h < 31 { 0x81 + h } else { 0xe0 + (h - 31) };
                    let l = val(s, 188) as u8;
                    let mut lo = if l < 63 { 0x40 + l } else { 0x80 + (l - 63) };
                    if hi == 0xeb && lo > 0xbf {
                        lo = 0x40 + (lo & 0x3e);
                    }
                    sjis_to_kanji(hi, lo).unwrap()
                })
                .collect(),
        ),
    }
}

pub fn seg_len(s: &mut Src, max: usize) -> usize {
    match s.below(5) {
        0 => s.range(0, max.min(6)),
        1 | 2 => s.range(0, max.min(60)),
        3 => s.range(0, max),
        _ => max - s.range(0, max.min(3)),
    }
}

/// single-segment payload
pub fn simple_payload(s: &mut Src, ver: usize, lvl: usize) -> (Vec<Seg>, Vec<u8>) {
    let cap = data_capacity(ver, lvl);
    let mode = *s.pick(&[4usize, 1, 2]);
    let max = max_len(mode, ver, cap * 8).unwrap();
    let len = seg_len(s, max);
    let segs = vec![fill_seg(s, mode, len, false)];
    let mut b = Bits::default();
    segs[0].emit(ver, &mut b);
    let data = finish(b, cap, true, [0xec, 0x11]).unwrap();
    (segs, data)
}

/// any legal sequence of segments
pub fn mixed_payload(s: &mut Src, ver: usize, lvl: usize, c: &mut Ctx) -> (Vec<Seg>, Vec<u8>) {
    let cap = data_capacity(ver, lvl);
    let mut segs: Vec<Seg> = vec![];
    let mut b = Bits::default();
    let n = s.range(1, 9);
    let tight = s.chance(1, 2);
    for k in 0..n {
        let room = cap * 8 - b.0.len();
        let seg = match s.below(7) {
            0 | 1 => (1, 0),
            2 => (2, 0),
            3 => (4, 0),
            4 => (8, 0),
            5 => (4, 0),
            _ => (7, s.range(1, 3)),
        };
        let seg = if seg.0 == 7 {
            let w = seg.1;
            if room < 4 + 8 * w {
                continue;
            }
            let v = match w {
                1 => s.below(128),
                2 => s.below(1 << 14),
                _ => s.below(1_000_000),
            };
            Seg::Eci(v as u32, w as u8)
        } else {
            let Some(max) = max_len(seg.0, ver, room) else { continue };
            let max = if tight && k + 1 == n { max } else { max.min(max / 2 + 4).min(max) };
            let len = if tight && k + 1 == n { max } else { seg_len(s, max) };
            fill_seg(s, seg.0, len, false)
        };
        seg.emit(ver, &mut b);
        segs.push(seg);
    }
    if tight {
        // use up the rest with the densest thing that fits
        for mode in [4usize, 2, 1] {
            let room = cap * 8 - b.0.len();
            if let Some(m) = max_len(mode, ver, room) {
                if m > 0 {
                    let seg = fill_seg(s, mode, m, false);
                    seg.emit(ver, &mut b);
                    segs.push(seg);
                }
            }
        }
    }
    let left = cap * 8 - b.0.len();
    c.label("free bits after the last segment", if left < 4 { "0-3 (no full terminator)" } else if left < 12 { "4-11" } else { "12+" });
    let pad = [s.byte(), s.byte()];
    let data = finish(b, cap, true, pad).unwrap();
    (segs, data)
}

/// sweep over version × level × mask
pub fn pick_vlm(s: &mut Src) -> (usize, usize, u16) {
    let i = s.sweep(1280) as usize;
    (i / 32 + 1, i / 8 % 4, (i % 8) as u16)
}

/// version biased to the small ones, reaching all
pub fn pick_version(s: &mut Src) -> usize {
    match s.below(10) {
        0..=5 => s.range(1, 6),
        6..=8 => s.range(1, 14),
        _ => s.range(1, 40),
    }
}

/// rebuild the modules of a symbol from (changed) codewords
pub fn redraw(sym: &mut Symbol) {
    sym.modules = draw(sym.ver, sym.lvl, sym.mask, &sym.codewords, &sym.remainder);
}

/// transmitted positions of each block's codewords
pub fn block_positions(sym: &Symbol) -> Vec<Vec<usize>> {
    let nb = blocks(sym.ver, sym.lvl).len();
    let il = interleave(sym.ver, sym.lvl);
    let mut v: Vec<Vec<(usize, usize)>> = vec![vec![]; nb];
    for (k, &(b, i)) in il.iter().enumerate() {
        v[b].push((i, k));
    }
    v.into_iter()
        .map(|mut x| {
            x.sort();
            x.into_iter().map(|p| p.1).collect()
        })
        .collect()
}

/// corrupt `count` distinct codewords of one block
pub fn corrupt_block(s: &mut Src, sym: &mut Symbol, pos: &[usize], count: usize) {
    if count == 0 {
        return;
    }
    let n = pos.len();
    let count = count.min(n);
    let which: Vec<usize> = match s.below(6) {
        0 => (0..count).collect(),
        1 => (n - count..n).collect(),
        2 => {
            let st = s.range(0, n - count);
            (st..st + count).collect()
        }
        _ => {
            let mut b = s.bulk();
            let mut pool: Vec<usize> = (0..n).collect();
            for i in 0..count {
                let j = i + b.below((n - i) as u64) as usize;
                pool.swap(i, j);
            }
            pool.truncate(count);
            pool
        }
    };
    let style = s.below(4);
    let mut b = s.bulk();
    let fixed = 1 + b.below(255) as u8;
    for i in which {
        let x = match style {
            0 => 1 << b.below(8),
            1 => 0xff,
            2 => fixed,
            _ => 1 + b.below(255) as u8,
        };
        sym.codewords[pos[i]] ^= x;
    }
}
