//! The in-memory buffer: random histories of one thread with an exact oracle, and racing threads.
use crate::conc::*;
use crate::ring::*;
use crate::seq::{history, Kind};
use bd_buffer::buffer::{OptionalStatGetter, RingBuffer, VolatileRingBuffer};
use std::sync::Arc;
use std::time::Duration;
use vh::jitter::Jitter;
use vh::{Check, Rng};

pub fn run(c: &Check) {
  c.rule("cases are histories of one thread, or rounds of racing threads; non-trivial: writing wrapped and records were delivered; distinct by history, or by what was read");
  if c.only.is_none_or(|n| n < 1_000_000) {
    c.cases(c.n(15_000, 200_000), Duration::from_secs(c.n(60, 300)), |case, r: &mut Rng| {
      let size = *r.pick(&[16u32, 24, 40, 64, 100, 128, 256, 500, 1024]) + r.below(3) as u32;
      let producers = 1 + r.idx(4);
      let key = history(c, Kind::Ram(size), producers, 30 + r.below(250), r, format!("case {case}, {size} bytes, {producers} producers"));
      c.saw("configurations", &(size, producers));
      c.eval(key);
    });
  }
  for i in 0 .. c.n(1_000, 30_000) {
    if c.only.is_some_and(|n| n != 1_000_000 + i) {
      continue;
    }
    if c.elapsed() > Duration::from_secs(c.n(15, 840)) || c.violated() {
      break;
    }
    racing(c, 1_000_000 + i);
  }
  c.add("injected delays", vh::jitter::hits());
}

pub fn plan(r: &mut Rng) -> Plan {
  let space = *r.pick(&[64u32, 128, 500, 1024, 8192]);
  Plan {
    producers: 1 + r.idx(4),
    records: 30 + r.below(200) as u32,
    max: 1 + space / *r.pick(&[3, 8, 20]),
    space,
    extra: 4,
    reading: *r.pick(&[Reading::Blocking, Reading::Polling, Reading::Async]),
    slow_reader: *r.pick(&[0, 0, 5, 50, 50, 300]),
    slow_writer: *r.pick(&[0, 0, 2, 20]),
    locker: r.chance(1, 3),
    overwrites: true,
  }
}

pub fn racing(c: &Check, case: u64) {
  let r = &mut Rng::new(c.seed ^ case.wrapping_mul(0x9e37_79b9));
  let p = plan(r);
  c.now(|| format!("case {case}, {p:?}"));
  c.sample(|| format!("case {case}, {p:?}"));
  let s = stats();
  let ring: Arc<dyn RingBuffer> = VolatileRingBuffer::new("t".to_string(), p.space, s.clone());
  let jitter = Jitter::start(r.u64(), Duration::from_micros(30), Duration::from_micros(*r.pick(&[100, 400, 2000])));
  let pause = *r.pick(&[0, 0, 10, 100]);
  let seen = round(&p, &ring, &|| s.records_written.get_value(), &|| ring.shutdown(), &|r| wait(pause, r), &jitter, r);
  drop(jitter);
  let what = format!("case {case}");
  let missing = judge(c, &what, &p, &seen);
  let bytes = |w: &[Written]| w.iter().map(|w| u64::from(w.size)).sum::<u64>();
  let n = seen.written.len() as u64;
  let m = missing.len() as u64;
  let all = bytes(&seen.written);
  let (rn, rb) = seen.refused.iter().fold((0, 0), |a, (k, v)| (a.0 + v.0, a.1 + if *k == "InvalidArgument" { 0 } else { v.1 }));
  let want = Snap {
    written: n,
    read: n - m,
    overwritten: m,
    refused: rn,
    b_written: all,
    b_read: all - bytes(&missing),
    b_overwritten: bytes(&missing),
    b_refused: rb,
    t_written: all + 4 * n,
    t_read: all - bytes(&missing) + 4 * (n - m),
    corrupted: 0,
    loss: 0,
  };
  let got = snap(&s);
  c.ensure(got == want, "counts", || format!("{what}, {p:?}: counted {got:?}, and it was {want:?}"));
  c.add("raced: written", n);
  c.add("raced: overwritten", m);
  c.add("raced: refused", rn);
  c.add("raced: locks", seen.locks);
  c.saw("racing configurations", &(p.producers, p.space, p.reading, p.locker));
  c.eval((m > 0 && n > m).then(|| vh::hash_of(&seen.read)));
}
