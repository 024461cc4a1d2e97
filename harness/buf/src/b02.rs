//! The durable buffer over restarts, read plainly (B02) or through a cursor (B06).
use crate::ring::Nv;
use crate::seq::{history, Kind};
use std::time::Duration;
use vh::{Check, Rng, Scratch};

pub fn b02(c: &Check) {
  c.rule("cases are histories of reservations, commits, reads, locks and restarts on one file; non-trivial: writing wrapped and records were delivered; distinct by history");
  let dir = Scratch::new();
  c.cases(c.n(8_000, 60_000), Duration::from_secs(c.n(60, 1200)), |case, r: &mut Rng| {
    let nv = Nv { size: 40 + *r.pick(&[16u32, 24, 40, 64, 100, 128, 256, 500, 1024]) + r.below(3) as u32, crc: r.chance(3, 4), overwrite: r.chance(2, 3), block_read: r.chance(1, 3) };
    let path = dir.path().join(format!("b{case}"));
    let key = history(c, Kind::File(nv, false, path.clone()), 1, 30 + r.below(250), r, format!("case {case}, {nv:?}"));
    let _ = std::fs::remove_file(path);
    c.saw("configurations", &(nv.size, nv.crc, nv.overwrite, nv.block_read));
    c.eval(key);
  });
}

pub fn b06(c: &Check) {
  c.rule("cases are histories of reservations, commits, cursor reads, acknowledgements and restarts on one file; non-trivial: writing wrapped and records were delivered; distinct by history");
  let dir = Scratch::new();
  c.cases(c.n(8_000, 60_000), Duration::from_secs(c.n(60, 1200)), |case, r: &mut Rng| {
    let nv = Nv { size: 40 + *r.pick(&[16u32, 24, 40, 64, 100, 128, 256, 500, 1024]) + r.below(3) as u32, crc: r.chance(3, 4), overwrite: false, block_read: r.chance(1, 2) };
    let path = dir.path().join(format!("b{case}"));
    let key = history(c, Kind::File(nv, true, path.clone()), 1, 30 + r.below(250), r, format!("case {case}, {nv:?}"));
    let _ = std::fs::remove_file(path);
    c.saw("configurations", &(nv.size, nv.crc, nv.overwrite, nv.block_read));
    c.eval(key);
  });
}
