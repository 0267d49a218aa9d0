//! Independent reference model of QR Code Model 2 (ISO/IEC 18004): encoder and decoder.
//! Nothing here is derived from rqrr; tables are the ones of the standard.

pub const ECC_PER_BLOCK: [[usize; 40]; 4] = [
    // L
    [7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    // M
    [10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    // Q
    [13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    // H
    [17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];
pub const NUM_BLOCKS: [[usize; 40]; 4] = [
    [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
];
/// level index (L,M,Q,H) -> two-bit indicator of the format information
pub const LEVEL_BITS: [u16; 4] = [1, 0, 3, 2];
pub const LEVEL_NAMES: [&str; 4] = ["L", "M", "Q", "H"];
pub fn level_from_bits(b: u16) -> usize {
    LEVEL_BITS.iter().position(|&x| x == b).unwrap()
}

pub fn side(ver: usize) -> usize {
    17 + 4 * ver
}

pub fn raw_modules(ver: usize) -> usize {
    let mut r = (16 * ver + 128) * ver + 64;
    if ver >= 2 {
        let n = ver / 7 + 2;
        r -= (25 * n - 10) * n - 55;
        if ver >= 7 {
            r -= 36;
        }
    }
    r
}

pub fn align_positions(ver: usize) -> Vec<usize> {
    if ver == 1 {
        return vec![];
    }
    let n = ver / 7 + 2;
    let step = if ver == 32 { 26 } else { (ver * 4 + n * 2 + 1) / (n * 2 - 2) * 2 };
    let mut v = vec![6];
    let mut p = side(ver) - 7;
    let mut rest = vec![];
    for _ in 0..n - 1 {
        rest.push(p);
        p = p.wrapping_sub(step);
    }
    rest.reverse();
    v.extend(rest);
    v
}

/// (data codewords, ecc codewords) of each block, in block order
pub fn blocks(ver: usize, lvl: usize) -> Vec<(usize, usize)> {
    let total = raw_modules(ver) / 8;
    let nb = NUM_BLOCKS[lvl][ver - 1];
    let ecc = ECC_PER_BLOCK[lvl][ver - 1];
    let short_total = total / nb;
    let long = total % nb;
    (0..nb)
        .map(|i| {
            let t = short_total + if i >= nb - long { 1 } else { 0 };
            (t - ecc, ecc)
        })
        .collect()
}

pub fn data_capacity(ver: usize, lvl: usize) -> usize {
    blocks(ver, lvl).iter().map(|b| b.0).sum()
}

// ---------------------------------------------------------------- GF(256)
pub struct Gf {
    exp: [u8; 512],
    log: [u16; 256],
}
impl Gf {
    const fn new() -> Gf {
        let mut exp = [0u8; 512];
        let mut log = [0u16; 256];
        let mut x: u16 = 1;
        let mut i = 0;
        while i < 255 {
            exp[i] = x as u8;
            exp[i + 255] = x as u8;
            log[x as usize] = i as u16;
            x <<= 1;
            if x & 0x100 != 0 {
                x ^= 0x11d;
            }
            i += 1;
        }
        Gf { exp, log }
    }
    pub fn mul(&self, a: u8, b: u8) -> u8 {
        if a == 0 || b == 0 {
            0
        } else {
            self.exp[(self.log[a as usize] + self.log[b as usize]) as usize]
        }
    }
    pub fn inv(&self, a: u8) -> u8 {
        assert!(a != 0);
        self.exp[(255 - self.log[a as usize]) as usize]
    }
    pub fn pow(&self, e: usize) -> u8 {
        self.exp[e % 255]
    }
}
pub static GF: Gf = Gf::new();

/// remainder of data·x^n divided by ∏(x - α^i), i=0..n; highest power first
pub fn rs_encode(data: &[u8], n: usize) -> Vec<u8> {
    let mut gen = vec![1u8];
    for i in 0..n {
        let r = GF.pow(i);
        let mut next = vec![0u8; gen.len() + 1];
        for (k, &g) in gen.iter().enumerate() {
            next[k] ^= g;
            next[k + 1] ^= GF.mul(g, r);
        }
        gen = next;
    }
    let mut rem = vec![0u8; n];
    for &d in data {
        let f = d ^ rem[0];
        rem.rotate_left(1);
        rem[n - 1] = 0;
        if f != 0 {
            for k in 0..n {
                rem[k] ^= GF.mul(gen[k + 1], f);
            }
        }
    }
    rem
}

fn syndromes(word: &[u8], n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let a = GF.pow(i);
            word.iter().fold(0u8, |acc, &c| GF.mul(acc, a) ^ c)
        })
        .collect()
}

/// Peterson–Gorenstein–Zierler, bounded distance floor(n/2). Returns the corrected word and the
/// number of corrected symbols, None if no codeword lies within that distance.
pub fn rs_correct(word: &[u8], n: usize) -> Option<(Vec<u8>, usize)> {
    let s = syndromes(word, n);
    if s.iter().all(|&x| x == 0) {
        return Some((word.to_vec(), 0));
    }
    let len = word.len();
    for t in (1..=n / 2).rev() {
        // solve sum_{j=0}^{t-1} s[i+j] λ_{t-j} = s[i+t], i = 0..t
        let mut m: Vec<Vec<u8>> = (0..t).map(|i| (0..=t).map(|j| s[i + j]).collect()).collect();
        let Some(sol) = gauss(&mut m, t) else { continue };
        // sol[j] multiplies s[i+j]: λ(x) = 1 + Σ λ_k x^k with λ_{t-j} = sol[j]
        let mut lam = vec![0u8; t + 1];
        lam[0] = 1;
        for j in 0..t {
            lam[t - j] = sol[j];
        }
        let mut pos = vec![];
        for p in 0..len {
            let xi = GF.pow(255 - (p % 255));
            let mut acc = 0u8;
            for k in (0..=t).rev() {
                acc = GF.mul(acc, xi) ^ lam[k];
            }
            if acc == 0 {
                pos.push(p);
            }
        }
        if pos.len() != t {
            return None;
        }
        // magnitudes: Σ e_k α^{i p_k} = s_i, i=0..t
        let mut m: Vec<Vec<u8>> = (0..t)
            .map(|i| {
                let mut r: Vec<u8> = pos.iter().map(|&p| GF.pow(i * p)).collect();
                r.push(s[i]);
                r
            })
            .collect();
        let e = gauss(&mut m, t)?;
        let mut out = word.to_vec();
        for (k, &p) in pos.iter().enumerate() {
            out[len - 1 - p] ^= e[k];
        }
        return if syndromes(&out, n).iter().all(|&x| x == 0) {
            let c = e.iter().filter(|&&x| x != 0).count();
            Some((out, c))
        } else {
            None
        };
    }
    None
}

/// solve the t×t system [A|b]; None if singular
fn gauss(m: &mut [Vec<u8>], t: usize) -> Option<Vec<u8>> {
    for c in 0..t {
        let p = (c..t).find(|&r| m[r][c] != 0)?;
        m.swap(c, p);
        let iv = GF.inv(m[c][c]);
        for k in c..=t {
            m[c][k] = GF.mul(m[c][k], iv);
        }
        for r in 0..t {
            if r != c && m[r][c] != 0 {
                let f = m[r][c];
                for k in c..=t {
                    let v = GF.mul(f, m[c][k]);
                    m[r][k] ^= v;
                }
            }
        }
    }
    Some((0..t).map(|r| m[r][t]).collect())
}

// ---------------------------------------------------------------- symbol

#[derive(Clone, PartialEq, Eq)]
pub struct Modules {
    pub n: usize,
    pub m: Vec<bool>,
}
impl Modules {
    pub fn new(n: usize) -> Self {
        Modules { n, m: vec![false; n * n] }
    }
    #[inline]
    pub fn get(&self, y: usize, x: usize) -> bool {
        self.m[y * self.n + x]
    }
    pub fn set(&mut self, y: usize, x: usize, v: bool) {
        self.m[y * self.n + x] = v
    }
    pub fn flip(&mut self, y: usize, x: usize) {
        self.m[y * self.n + x] ^= true
    }
    pub fn transposed(&self) -> Modules {
        let mut o = Modules::new(self.n);
        for y in 0..self.n {
            for x in 0..self.n {
                o.set(x, y, self.get(y, x));
            }
        }
        o
    }
}

pub struct Layout {
    pub ver: usize,
    pub n: usize,
    /// true for every module that is not a data/remainder module
    pub function: Vec<bool>,
    /// function-pattern colours (format area left light)
    pub base: Modules,
    /// data modules (y,x) in placement order
    pub order: Vec<(usize, usize)>,
    /// format bit i (0 = least significant) at these places, copy 1 and copy 2
    pub fmt1: [(usize, usize); 15],
    pub fmt2: [(usize, usize); 15],
}

pub fn layout(ver: usize) -> std::sync::Arc<Layout> {
    use std::sync::{Arc, OnceLock};
    static CACHE: OnceLock<Vec<OnceLock<Arc<Layout>>>> = OnceLock::new();
    let c = CACHE.get_or_init(|| (0..=40).map(|_| OnceLock::new()).collect());
    c[ver].get_or_init(|| Arc::new(build_layout(ver))).clone()
}

fn build_layout(ver: usize) -> Layout {
    let n = side(ver);
    let mut base = Modules::new(n);
    let mut function = vec![false; n * n];
    let mut put = |y: usize, x: usize, v: bool, base: &mut Modules| {
        function[y * n + x] = true;
        base.set(y, x, v);
    };
    // timing
    for i in 0..n {
        put(6, i, i % 2 == 0, &mut base);
        put(i, 6, i % 2 == 0, &mut base);
    }
    // finders with separators
    for (cy, cx) in [(3i64, 3i64), (3, n as i64 - 4), (n as i64 - 4, 3)] {
        for dy in -4i64..=4 {
            for dx in -4i64..=4 {
                let (y, x) = (cy + dy, cx + dx);
                if y < 0 || x < 0 || y >= n as i64 || x >= n as i64 {
                    continue;
                }
                let d = dy.abs().max(dx.abs());
                put(y as usize, x as usize, d != 2 && d != 4, &mut base);
            }
        }
    }
    // alignment
    let ap = align_positions(ver);
    let last = ap.len().wrapping_sub(1);
    for (i, &ay) in ap.iter().enumerate() {
        for (j, &ax) in ap.iter().enumerate() {
            if (i == 0 && j == 0) || (i == 0 && j == last) || (i == last && j == 0) {
                continue;
            }
            for dy in -2i64..=2 {
                for dx in -2i64..=2 {
                    let d = dy.abs().max(dx.abs());
                    put((ay as i64 + dy) as usize, (ax as i64 + dx) as usize, d != 1, &mut base);
                }
            }
        }
    }
    // version information
    if ver >= 7 {
        let mut rem = ver as u32;
        for _ in 0..12 {
            rem = (rem << 1) ^ ((rem >> 11) * 0x1F25);
        }
        let bits = ((ver as u32) << 12) | rem;
        for i in 0..18 {
            let b = bits >> i & 1 != 0;
            let (a, c) = (n - 11 + i % 3, i / 3);
            put(c, a, b, &mut base);
            put(a, c, b, &mut base);
        }
    }
    // format
    let mut fmt1 = [(0, 0); 15];
    let mut fmt2 = [(0, 0); 15];
    for (i, f) in fmt1.iter_mut().enumerate() {
        // (row, col); bit 0..5 down column 8 rows 0..5, then 7,8 ; then row 8 leftwards
        *f = match i {
            0..=5 => (i, 8),
            6 => (7, 8),
            7 => (8, 8),
            8 => (8, 7),
            _ => (8, 14 - i),
        };
    }
    for (i, f) in fmt2.iter_mut().enumerate() {
        *f = if i < 8 { (8, n - 1 - i) } else { (n - 15 + i, 8) };
    }
    for &(y, x) in fmt1.iter().chain(fmt2.iter()) {
        put(y, x, false, &mut base);
    }
    put(n - 8, 8, true, &mut base);
    // placement order
    let mut order = vec![];
    let mut right = n as i64 - 1;
    let mut up = true;
    while right >= 1 {
        if right == 6 {
            right = 5;
        }
        for v in 0..n {
            let y = if up { n - 1 - v } else { v };
            for k in 0..2 {
                let x = right as usize - k;
                if !function[y * n + x] {
                    order.push((y, x));
                }
            }
        }
        up = !up;
        right -= 2;
    }
    assert_eq!(order.len(), raw_modules(ver));
    Layout { ver, n, function, base, order, fmt1, fmt2 }
}

pub fn mask_bit(mask: u16, y: usize, x: usize) -> bool {
    let (i, j) = (y, x);
    (match mask {
        0 => (i + j) % 2,
        1 => i % 2,
        2 => j % 3,
        3 => (i + j) % 3,
        4 => (i / 2 + j / 3) % 2,
        5 => (i * j) % 2 + (i * j) % 3,
        6 => ((i * j) % 2 + (i * j) % 3) % 2,
        7 => ((i + j) % 2 + (i * j) % 3) % 2,
        _ => unreachable!(),
    }) == 0
}

pub fn format_word(level_bits: u16, mask: u16) -> u16 {
    let d = level_bits << 3 | mask;
    let mut rem = d;
    for _ in 0..10 {
        rem = (rem << 1) ^ ((rem >> 9) * 0x537);
    }
    (d << 10 | rem) ^ 0x5412
}

#[derive(Clone)]
pub struct Symbol {
    pub ver: usize,
    pub lvl: usize,
    pub mask: u16,
    /// codewords in transmission (interleaved) order
    pub codewords: Vec<u8>,
    /// for each transmitted codeword: block it belongs to
    pub block_of: Vec<usize>,
    pub remainder: Vec<bool>,
    pub modules: Modules,
}

/// interleave map: transmitted index -> (block, index within the block incl. ecc)
pub fn interleave(ver: usize, lvl: usize) -> Vec<(usize, usize)> {
    let bl = blocks(ver, lvl);
    let maxd = bl.iter().map(|b| b.0).max().unwrap();
    let mut v = vec![];
    for i in 0..maxd {
        for (b, &(d, _)) in bl.iter().enumerate() {
            if i < d {
                v.push((b, i));
            }
        }
    }
    let e = bl[0].1;
    for i in 0..e {
        for (b, &(d, _)) in bl.iter().enumerate() {
            v.push((b, d + i));
        }
    }
    v
}

/// data: exactly data_capacity bytes
pub fn make_symbol(ver: usize, lvl: usize, mask: u16, data: &[u8], remainder_ones: bool) -> Symbol {
    let bl = blocks(ver, lvl);
    assert_eq!(data.len(), data_capacity(ver, lvl));
    let mut full: Vec<Vec<u8>> = vec![];
    let mut o = 0;
    for &(d, e) in &bl {
        let mut w = data[o..o + d].to_vec();
        o += d;
        let ecc = rs_encode(&w, e);
        w.extend(ecc);
        full.push(w);
    }
    let il = interleave(ver, lvl);
    let codewords: Vec<u8> = il.iter().map(|&(b, i)| full[b][i]).collect();
    let block_of = il.iter().map(|&(b, _)| b).collect();
    let rem = raw_modules(ver) - codewords.len() * 8;
    let remainder = vec![remainder_ones; rem];
    let modules = draw(ver, lvl, mask, &codewords, &remainder);
    Symbol { ver, lvl, mask, codewords, block_of, remainder, modules }
}

pub fn draw(ver: usize, lvl: usize, mask: u16, codewords: &[u8], remainder: &[bool]) -> Modules {
    let l = layout(ver);
    let mut m = l.base.clone();
    let f = format_word(LEVEL_BITS[lvl], mask);
    for i in 0..15 {
        let b = f >> i & 1 != 0;
        m.set(l.fmt1[i].0, l.fmt1[i].1, b);
        m.set(l.fmt2[i].0, l.fmt2[i].1, b);
    }
    for (k, &(y, x)) in l.order.iter().enumerate() {
        let b = if k < codewords.len() * 8 { codewords[k / 8] >> (7 - k % 8) & 1 != 0 } else { remainder[k - codewords.len() * 8] };
        m.set(y, x, b ^ mask_bit(mask, y, x));
    }
    m
}

// ---------------------------------------------------------------- bit streams

#[derive(Default, Clone)]
pub struct Bits(pub Vec<bool>);
impl Bits {
    pub fn push(&mut self, v: usize, n: usize) {
        for i in (0..n).rev() {
            self.0.push(v >> i & 1 != 0);
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    Num(Vec<u8>),
    Alnum(Vec<u8>),
    Byte(Vec<u8>),
    /// 13-bit values
    Kanji(Vec<u16>),
    /// assignment number and encoded width in bytes (1..=3)
    Eci(u32, u8),
}

pub const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

pub fn count_bits(mode: usize, ver: usize) -> usize {
    let g = if ver <= 9 { 0 } else if ver <= 26 { 1 } else { 2 };
    match mode {
        1 => [10, 12, 14][g],
        2 => [9, 11, 13][g],
        4 => [8, 16, 16][g],
        8 => [8, 10, 12][g],
        _ => unreachable!(),
    }
}

impl Seg {
    pub fn mode(&self) -> usize {
        match self {
            Seg::Num(_) => 1,
            Seg::Alnum(_) => 2,
            Seg::Byte(_) => 4,
            Seg::Kanji(_) => 8,
            Seg::Eci(..) => 7,
        }
    }
    pub fn bit_len(&self, ver: usize) -> usize {
        4 + match self {
            Seg::Num(d) => count_bits(1, ver) + d.len() / 3 * 10 + [0, 4, 7][d.len() % 3],
            Seg::Alnum(d) => count_bits(2, ver) + d.len() / 2 * 11 + d.len() % 2 * 6,
            Seg::Byte(d) => count_bits(4, ver) + d.len() * 8,
            Seg::Kanji(d) => count_bits(8, ver) + d.len() * 13,
            Seg::Eci(_, w) => *w as usize * 8,
        }
    }
    pub fn emit(&self, ver: usize, b: &mut Bits) {
        b.push(self.mode(), 4);
        match self {
            Seg::Num(d) => {
                b.push(d.len(), count_bits(1, ver));
                for c in d.chunks(3) {
                    let v = c.iter().fold(0usize, |a, &x| a * 10 + (x - b'0') as usize);
                    b.push(v, [0, 4, 7, 10][c.len()]);
                }
            }
            Seg::Alnum(d) => {
                b.push(d.len(), count_bits(2, ver));
                for c in d.chunks(2) {
                    let p = |x: u8| ALNUM.iter().position(|&y| y == x).unwrap();
                    if c.len() == 2 {
                        b.push(p(c[0]) * 45 + p(c[1]), 11);
                    } else {
                        b.push(p(c[0]), 6);
                    }
                }
            }
            Seg::Byte(d) => {
                b.push(d.len(), count_bits(4, ver));
                for &x in d {
                    b.push(x as usize, 8);
                }
            }
            Seg::Kanji(d) => {
                b.push(d.len(), count_bits(8, ver));
                for &x in d {
                    b.push(x as usize, 13);
                }
            }
            Seg::Eci(v, w) => match w {
                1 => b.push(*v as usize, 8),
                2 => {
                    b.push(2, 2);
                    b.push(*v as usize, 14);
                }
                _ => {
                    b.push(6, 3);
                    b.push(*v as usize, 21);
                }
            },
        }
    }
    /// the bytes a reader must deliver for this segment
    pub fn content(&self, out: &mut Vec<u8>) {
        match self {
            Seg::Num(d) | Seg::Alnum(d) | Seg::Byte(d) => out.extend_from_slice(d),
            Seg::Kanji(d) => {
                for &v in d {
                    out.extend_from_slice(&kanji_sjis(v));
                }
            }
            Seg::Eci(..) => {}
        }
    }
}

/// Shift-JIS bytes -> 13-bit value per the standard; None if outside Kanji mode's range
pub fn sjis_to_kanji(hi: u8, lo: u8) -> Option<u16> {
    let v = (hi as u16) << 8 | lo as u16;
    if !(0x40..=0xfc).contains(&lo) || lo == 0x7f {
        return None;
    }
    let d = match v {
        0x8140..=0x9ffc => v - 0x8140,
        0xe040..=0xebbf => v - 0xc140,
        _ => return None,
    };
    Some((d >> 8) * 0xc0 + (d & 0xff))
}
fn kanji_sjis(v: u16) -> [u8; 2] {
    let d = (v / 0xc0) << 8 | v % 0xc0;
    let s = if d + 0x8140 <= 0x9ffc { d + 0x8140 } else { d + 0xc140 };
    [(s >> 8) as u8, s as u8]
}

/// terminator + padding to the capacity in bytes. Returns None if it does not fit.
pub fn finish(mut b: Bits, cap_bytes: usize, terminator: bool, pad: [u8; 2]) -> Option<Vec<u8>> {
    let cap = cap_bytes * 8;
    if b.0.len() > cap {
        return None;
    }
    if terminator {
        let t = (cap - b.0.len()).min(4);
        b.push(0, t);
    }
    while b.0.len() % 8 != 0 {
        b.0.push(false);
    }
    let mut out: Vec<u8> = b.0.chunks(8).map(|c| c.iter().fold(0u8, |a, &x| a << 1 | x as u8)).collect();
    let mut i = 0;
    while out.len() < cap_bytes {
        out.push(pad[i % 2]);
        i += 1;
    }
    Some(out)
}

// ---------------------------------------------------------------- reference decoder

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefErr {
    Format,
    Data,
    Underflow,
    UnknownMode,
}

#[derive(Clone, Debug)]
pub struct RefOk {
    pub level_bits: u16,
    pub mask: u16,
    pub data: Vec<u8>,
    pub max_errors: usize,
}

/// nearest format codeword within 3 bits
pub fn decode_format(word: u16) -> Option<(u16, u16, u32)> {
    for lb in 0..4u16 {
        for m in 0..8u16 {
            let d = (format_word(lb, m) ^ word).count_ones();
            if d <= 3 {
                return Some((lb, m, d));
            }
        }
    }
    None
}

pub fn read_format_words(m: &Modules) -> (u16, u16) {
    let l = layout((m.n - 17) / 4);
    let rd = |p: &[(usize, usize); 15]| (0..15).fold(0u16, |a, i| a | (m.get(p[i].0, p[i].1) as u16) << i);
    (rd(&l.fmt1), rd(&l.fmt2))
}

/// format + error correction of one orientation, bounded distance
pub fn ref_codestream(m: &Modules) -> Result<RefOk, RefErr> {
    let ver = (m.n - 17) / 4;
    let (w1, w2) = read_format_words(m);
    let (lb, mask, _) = decode_format(w1).or_else(|| decode_format(w2)).ok_or(RefErr::Format)?;
    let lvl = level_from_bits(lb);
    let l = layout(ver);
    let bl = blocks(ver, lvl);
    let il = interleave(ver, lvl);
    let mut full: Vec<Vec<u8>> = bl.iter().map(|&(d, e)| vec![0u8; d + e]).collect();
    for (k, &(b, i)) in il.iter().enumerate() {
        let mut v = 0u8;
        for t in 0..8 {
            let (y, x) = l.order[k * 8 + t];
            v = v << 1 | (m.get(y, x) ^ mask_bit(mask, y, x)) as u8;
        }
        full[b][i] = v;
    }
    let mut data = vec![];
    let mut max_errors = 0;
    for (b, w) in full.iter().enumerate() {
        let (c, e) = rs_correct(w, bl[b].1).ok_or(RefErr::Data)?;
        max_errors = max_errors.max(e);
        data.extend_from_slice(&c[..bl[b].0]);
    }
    Ok(RefOk { level_bits: lb, mask, data, max_errors })
}

#[derive(Clone, Debug)]
pub struct RefPayload {
    /// content of everything readable, including the readable part of a segment that breaks off
    pub bytes: Vec<u8>,
    /// how much of `bytes` belongs to segments that are complete
    pub complete: usize,
    pub result: Result<(), RefErr>,
    /// the stream uses something the standard gives no meaning to (out-of-range digit group,
    /// truncated count field, reserved ECI prefix): the reader's output is not determined
    pub undefined: bool,
    /// a count field was cut off by the end; whether what is left of it is nonzero
    pub cut: Option<bool>,
}

pub fn ref_payload(ver: usize, data: &[u8]) -> RefPayload {
    let n = data.len() * 8;
    let mut p = 0usize;
    let take = |p: &mut usize, k: usize| -> usize {
        let mut v = 0;
        for _ in 0..k {
            v = v << 1 | (data[*p / 8] >> (7 - *p % 8) & 1) as usize;
            *p += 1;
        }
        v
    };
    let mut out = vec![];
    let mut complete = 0;
    let mut undefined = false;
    let mut cut = None;
    let r = (|| -> Result<(), RefErr> {
        loop {
            complete = out.len();
            if n - p < 4 {
                return Ok(());
            }
            let mode = take(&mut p, 4);
            match mode {
                0 => return Ok(()),
                7 => {
                    if n - p < 8 {
                        return Err(RefErr::Underflow);
                    }
                    let f = take(&mut p, 8);
                    let more = if f & 0x80 == 0 {
                        0
                    } else if f & 0xc0 == 0x80 {
                        8
                    } else if f & 0xe0 == 0xc0 {
                        16
                    } else {
                        undefined = true;
                        0
                    };
                    if n - p < more {
                        return Err(RefErr::Underflow);
                    }
                    take(&mut p, more);
                }
                1 | 2 | 4 | 8 => {
                    let cb = count_bits(mode, ver);
                    if n - p < cb {
                        let rest = n - p;
                        cut = Some(take(&mut p, rest) != 0);
                        return Err(RefErr::Underflow);
                    }
                    let count = take(&mut p, cb);
                    let (grp, bits): (usize, [usize; 4]) = match mode {
                        1 => (3, [0, 4, 7, 10]),
                        2 => (2, [0, 6, 11, 0]),
                        4 => (1, [0, 8, 0, 0]),
                        _ => (1, [0, 13, 0, 0]),
                    };
                    let mut left = count;
                    while left > 0 {
                        let g = left.min(grp);
                        if n - p < bits[g] {
                            return Err(RefErr::Underflow);
                        }
                        let v = take(&mut p, bits[g]);
                        match mode {
                            1 => {
                                if v >= [1, 10, 100, 1000][g] {
                                    undefined = true;
                                }
                                let s = format!("{:0w$}", v, w = g);
                                out.extend_from_slice(&s.as_bytes()[s.len() - g..]);
                            }
                            2 => {
                                if v >= [1, 45, 2025][g] {
                                    undefined = true;
                                }
                                if g == 2 {
                                    out.push(ALNUM[v / 45 % 45]);
                                }
                                out.push(ALNUM[v % 45]);
                            }
                            4 => out.push(v as u8),
                            _ => out.extend_from_slice(&kanji_sjis(v as u16)),
                        }
                        left -= g;
                    }
                }
                _ => return Err(RefErr::UnknownMode),
            }
        }
    })();
    RefPayload { bytes: out, complete, result: r, undefined, cut }
}
