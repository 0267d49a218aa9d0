//! Serves jobs on stdin/stdout for the harness: kind, width, height (u32 LE), then the pixels or
//! modules; answers with a length (u32 LE) and a text describing everything observable.
use rqrr::{BitGrid, Grid, PreparedImage, SimpleGrid};
use std::io::{Read, Write};

include!("../../harness/src/probe.rs");

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    loop {
        let mut h = [0u8; 12];
        if i.read_exact(&mut h).is_err() {
            return;
        }
        let u = |k: usize| u32::from_le_bytes(h[k..k + 4].try_into().unwrap()) as usize;
        let (kind, w, hh) = (u(0), u(4), u(8));
        let mut px = vec![0u8; w * hh];
        if i.read_exact(&mut px).is_err() {
            return;
        }
        let t = std::panic::catch_unwind(|| probe(kind, w, hh, &px)).unwrap_or_else(|_| "panic".into());
        o.write_all(&(t.len() as u32).to_le_bytes()).unwrap();
        o.write_all(t.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}
