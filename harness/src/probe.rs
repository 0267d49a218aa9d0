// Shared between the harness and the build without image support.

/// everything observable about a grid
fn probe_grid<G: BitGrid>(g: &Grid<G>, out: &mut String) {
    use std::fmt::Write;
    let n = g.grid.size();
    let mut hash = 0xcbf2_9ce4_8422_2325u64;
    for y in 0..n {
        for x in 0..n {
            hash = (hash ^ g.grid.bit(y, x) as u64).wrapping_mul(0x1000_0000_01b3);
        }
    }
    let mut bytes = vec![];
    let a = g.decode_to(&mut bytes).map(|m| (m.version.0, m.ecc_level, m.mask));
    let b = g.decode().map(|(m, s)| (m.version.0, m.ecc_level, m.mask, s));
    let c = g.get_raw_data().map(|(m, r)| (m.version.0, m.ecc_level, m.mask, r.len, r.data.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, &b| (h ^ b as u64).wrapping_mul(0x1000_0000_01b3))));
    let _ = write!(out, "size {n} modules {hash:016x} bounds {:?} bytes {a:?} {bytes:?} text {b:?} raw {c:?};\n", g.bounds);
}

/// 0: greyscale, 1: bitmap, 2: module grid
pub fn probe(kind: usize, w: usize, h: usize, px: &[u8]) -> String {
    let mut out = String::new();
    match kind {
        2 => {
            let g = Grid::new(SimpleGrid::from_func(w, |x, y| px[y * w + x] != 0));
            probe_grid(&g, &mut out);
        }
        _ => {
            let mut p = if kind == 0 {
                PreparedImage::prepare_from_greyscale(w, h, |x, y| px[y * w + x])
            } else {
                PreparedImage::prepare_from_bitmap(w, h, |x, y| px[y * w + x] < 128)
            };
            let mut hash = 0xcbf2_9ce4_8422_2325u64;
            for y in 0..h {
                for x in 0..w {
                    let v: u8 = p.get_pixel_at(x, y).into();
                    hash = (hash ^ v as u64).wrapping_mul(0x1000_0000_01b3);
                }
            }
            out.push_str(&format!("{}x{} pixels {hash:016x};\n", p.width(), p.height()));
            for g in p.detect_grids().iter() {
                probe_grid(g, &mut out);
            }
        }
    }
    out
}
