//! Runs under ThreadSanitizer and under AddressSanitizer (tools/check.py), which are the oracle; that no two reservations
//! overlap is judged here as well, by what the records hold.
use crate::conc::{judge, round, wait, Plan, Reading};
use crate::ring::*;
use crate::seq::{history, Kind};
use bd_buffer::buffer::{OptionalStatGetter, RingBuffer};
use std::sync::Arc;
use std::time::Duration;
use vh::jitter::Jitter;
use vh::{Check, Rng, Scratch};

/// What each sanitizer has to report, or it is not at work.
pub fn selftest() {
  let mut data = vec![0_u8; 64];
  let p = std::hint::black_box(data.as_mut_ptr() as usize);
  let write = move |at: usize| unsafe { std::ptr::write_volatile((p + at) as *mut u8, 1) };
  if std::env::var("H_SAN").as_deref() == Ok("address") {
    write(std::hint::black_box(64));
  } else {
    let t = std::thread::spawn(move || (0 .. 10_000).for_each(|_| write(3)));
    (0 .. 10_000).for_each(|_| write(3));
    t.join().unwrap();
  }
}

pub fn run(c: &Check) {
  c.rule("cases are rounds of racing threads on one of the buffers, and histories of one thread; non-trivial: records were delivered and some were overwritten, or writing wrapped; distinct by what was read");
  let dir = Scratch::new();
  let limit = Duration::from_secs(c.n(45, 900));
  for i in 0 .. c.n(900, 60_000) {
    if c.elapsed() > limit || c.violated() {
      break;
    }
    if c.only.is_some_and(|n| n != i) {
      continue;
    }
    match i % 6 {
      0 | 1 => crate::b01::racing(c, i),
      2 => crate::b05::round(c, i, &dir),
      3 | 4 => durable(c, i, &dir),
      _ => alone(c, i, &dir),
    }
  }
  c.add("injected delays", vh::jitter::hits());
}

fn durable(c: &Check, case: u64, dir: &Scratch) {
  let r = &mut Rng::new(c.seed ^ case.wrapping_mul(0x9e37_79b9));
  let space = *r.pick(&[64u32, 128, 500, 1024, 8192]);
  let nv = Nv { size: space + 40, crc: r.bool(), overwrite: r.chance(2, 3), block_read: r.bool() };
  let p = Plan {
    producers: 1,
    records: 50 + r.below(300) as u32,
    max: 1 + space / *r.pick(&[3, 8, 20]),
    space,
    extra: nv.extra(),
    reading: *r.pick(&[Reading::Blocking, Reading::Polling, Reading::Async]),
    slow_reader: *r.pick(&[0, 0, 5, 50]),
    slow_writer: *r.pick(&[0, 0, 2, 20]),
    locker: false,
    overwrites: nv.overwrite,
  };
  let what = format!("case {case}, {nv:?}");
  c.now(|| format!("{what}, {p:?}"));
  c.sample(|| format!("{what}, {p:?}"));
  let path = dir.path().join(format!("d{case}"));
  let s = stats();
  let ring: Arc<dyn RingBuffer> = nv.open(&path, s.clone()).unwrap();
  let jitter = Jitter::start(r.u64(), Duration::from_micros(30), Duration::from_micros(*r.pick(&[100, 400, 2000])));
  let pause = *r.pick(&[0, 0, 10, 100]);
  let seen = round(&p, &ring, &|| s.records_written.get_value(), &|| ring.shutdown(), &|r| wait(pause, r), &jitter, r);
  drop(jitter);
  drop(ring);
  let _ = std::fs::remove_file(&path);
  let missing = judge(c, &what, &p, &seen);
  c.ensure(s.records_corrupted.get_value() == 0 && s.total_data_loss.get_value() == 0, "damaged", || format!("{what}, {p:?}: {:?}", snap(&s)));
  c.add("durable: written", seen.written.len() as u64);
  c.add("durable: overwritten", missing.len() as u64);
  c.saw("durable configurations", &(nv.size, nv.crc, nv.overwrite, nv.block_read, p.reading));
  c.eval((seen.read.len() > 5).then(|| vh::hash_of(&seen.read)));
}

fn alone(c: &Check, case: u64, dir: &Scratch) {
  let r = &mut Rng::new(c.seed ^ case.wrapping_mul(0x9e37_79b9));
  let size = *r.pick(&[16u32, 24, 40, 64, 100, 128, 256, 500, 1024]) + r.below(3) as u32;
  let path = dir.path().join(format!("h{case}"));
  let (kind, producers) = if r.bool() {
    (Kind::Ram(size), 1 + r.idx(4))
  } else {
    let overwrite = r.bool();
    let nv = Nv { size: 40 + size, crc: r.bool(), overwrite, block_read: r.bool() };
    (Kind::File(nv, !overwrite && r.bool(), path.clone()), 1)
  };
  let key = history(c, kind, producers, 30 + r.below(250), r, format!("case {case}, {size} bytes, {producers} producers"));
  let _ = std::fs::remove_file(&path);
  c.saw("configurations of histories", &(size, producers));
  c.eval(key);
}
