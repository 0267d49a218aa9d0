// Helpers of the demonstration: symbols from an independent encoder, painting, searching.

use crate::qr::*;
use rqrr::{DeQRError, Grid, MetaData, PreparedImage, SimpleGrid};

pub fn symbol(ver: usize, lvl: usize, mask: u16, segs: &[Seg]) -> Symbol {
    let mut b = Bits::default();
    for s in segs {
        s.emit(ver, &mut b);
    }
    let d = finish(b, data_capacity(ver, lvl), true, [0xec, 0x11]).expect("fits");
    make_symbol(ver, lvl, mask, &d, false)
}
pub fn text(ver: usize, lvl: usize, mask: u16, t: &str) -> Symbol {
    symbol(ver, lvl, mask, &[Seg::Byte(t.as_bytes().to_vec())])
}
pub fn grid(m: &Modules) -> Grid<SimpleGrid> {
    Grid::new(SimpleGrid::from_func(m.n, |x, y| m.get(y, x)))
}
pub fn decode(m: &Modules) -> Result<(MetaData, Vec<u8>), DeQRError> {
    let mut out = Vec::new();
    let meta = grid(m).decode_to(&mut out)?;
    Ok((meta, out))
}
/// black-and-white picture
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub px: Vec<bool>,
}
impl Pic {
    pub fn new(w: usize, h: usize) -> Pic {
        Pic { w, h, px: vec![false; w * h] }
    }
    pub fn rect(&mut self, x0: usize, y0: usize, w: usize, h: usize, v: bool) {
        for y in y0..(y0 + h).min(self.h) {
            for x in x0..(x0 + w).min(self.w) {
                self.px[y * self.w + x] = v;
            }
        }
    }
    pub fn blit(&mut self, m: &Modules, x0: usize, y0: usize, s: usize) {
        for y in 0..m.n {
            for x in 0..m.n {
                self.rect(x0 + x * s, y0 + y * s, s, s, m.get(y, x));
            }
        }
    }
    pub fn of(m: &Modules, s: usize, quiet: usize) -> Pic {
        let n = m.n * s + 2 * quiet;
        let mut p = Pic::new(n, n);
        p.blit(m, quiet, quiet, s);
        p
    }
    /// contents (or errors) of what is found
    pub fn read(&self) -> Vec<Result<Vec<u8>, DeQRError>> {
        let mut img = PreparedImage::prepare_from_bitmap(self.w, self.h, |x, y| self.px[y * self.w + x]);
        crate::read_all!(img)
    }
}
#[macro_export]
macro_rules! read_all {
    ($img:expr) => {
        $img.detect_grids()
            .iter()
            .map(|g| {
                let mut o = Vec::new();
                g.decode_to(&mut o).map(|_| o)
            })
            .collect::<Vec<Result<Vec<u8>, rqrr::DeQRError>>>()
    };
}
