//! Instants, durations and rounding.
use bd_time::{OffsetDateTimeExt, ProtoDurationExt, SystemTimeProvider, TestTimeProvider, TimeDurationExt, TimeProvider, TimestampExt, ToProtoDuration};
use protobuf::well_known_types::{duration::Duration as PDuration, timestamp::Timestamp};
use protobuf::Message;
use std::time::Duration;
use time::{OffsetDateTime, UtcOffset};
use vh::{Check, Rng};

const G: i128 = 1_000_000_000;
// 1 January of the year -9999 and the last second of 9999.
const LO: i64 = -377_705_116_800;
const HI: i64 = 253_402_300_799;

fn nanos(r: &mut Rng) -> i64 {
  match r.below(4) {
    0 => 0,
    1 => *r.pick(&[1, 999_999_999, 999_999, 1_000_000, 500_000_000, 999_000_000]),
    _ => r.range(0, 999_999_999),
  }
}

fn instant(r: &mut Rng) -> OffsetDateTime {
  let s = match r.below(8) {
    0 => *r.pick(&[0, -1, 1, LO, HI, -62_135_596_800, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, 951_782_400]),
    1 => r.range(-100_000, 100_000),
    2 => r.range(LO, HI),
    3 => r.range(-30_000, 30_000) * 86_400,
    4 => r.range(0, 40_000_000) * 60,
    _ => r.range(1_500_000_000, 1_900_000_000),
  };
  let t = OffsetDateTime::from_unix_timestamp_nanos(i128::from(s) * G + i128::from(nanos(r))).unwrap();
  if r.chance(1, 4) && s > LO + 100_000 && s < HI - 100_000 {
    let q = r.range(-86_000, 86_000) as i32;
    t.to_offset(UtcOffset::from_whole_seconds(q).unwrap())
  } else {
    t
  }
}

fn seconds(r: &mut Rng) -> i64 {
  match r.below(6) {
    0 => 0,
    1 => *r.pick(&[1, -1, i64::MAX, i64::MIN, 315_576_000_000, -315_576_000_000, 1 << 31, 1 << 32, -(1 << 32)]),
    2 => r.range(-5, 5),
    3 => r.u64() as i64,
    _ => r.range(-1_000_000, 1_000_000),
  }
}

fn instants(c: &Check, r: &mut Rng, case: u64) {
  let t = instant(r);
  let ns = t.unix_timestamp_nanos();
  let p = t.into_proto();
  let q = Timestamp::parse_from_bytes(&p.write_to_bytes().unwrap()).unwrap();
  c.ensure(
    (0 .. 1_000_000_000).contains(&q.nanos) && i128::from(q.seconds) * G + i128::from(q.nanos) == ns,
    "instant-to-wire",
    || format!("case {case}: {t} becomes {} s {} ns", q.seconds, q.nanos),
  );
  let back = q.to_offset_date_time();
  c.ensure(back == t && back.unix_timestamp_nanos() == ns, "instant-from-wire", || {
    format!("case {case}: {t} comes back as {back}")
  });
  c.ensure(i128::from(t.unix_timestamp_ms()) == ns.div_euclid(1_000_000), "milliseconds", || {
    format!("case {case}: {t} is {} ms", t.unix_timestamp_ms())
  });

  let k = match r.below(6) {
    0 => 1,
    1 => *r.pick(&[7, 60, 300, 3600, 86_400, 604_800, 31_536_000, 1 << 31, 1 << 33]),
    2 => r.range(1, 100),
    3 => r.range(1, 1 << 34),
    _ => *r.pick(&[60, 300, 900]),
  };
  let interval = time::Duration::seconds(k) + time::Duration::nanoseconds(if r.chance(1, 4) { nanos(r) } else { 0 });
  let step = i128::from(k) * G;
  let (lo, hi) = (ns.div_euclid(step) * step, -((-ns).div_euclid(step)) * step);
  let fits = |x: i128| x >= i128::from(LO) * G && x <= i128::from(HI) * G;
  if fits(lo) {
    let f = t.floor(interval);
    c.ensure(f.unix_timestamp_nanos() == lo, "floor", || format!("case {case}: {t} down to {interval} is {f}"));
  }
  if fits(hi) {
    let f = t.ceil(interval);
    c.ensure(f.unix_timestamp_nanos() == hi, "ceil", || format!("case {case}: {t} up to {interval} is {f}"));
    c.count(if lo == hi { "aligned" } else { "unaligned" });
  }
  c.eval(Some(vh::hash_of(&(ns, k))));
  c.sample(|| format!("{t}, interval {interval}"));
}

fn durations(c: &Check, r: &mut Rng, case: u64) {
  let s = seconds(r);
  let n = if r.chance(1, 3) { 0 } else { nanos(r) };
  let n = if s < 0 || (s == 0 && r.bool()) { -n } else { n };
  let total = i128::from(s) * G + i128::from(n);
  let d = time::Duration::new(s, n as i32);
  c.ensure(d.whole_nanoseconds() == total, "harness", || format!("{d}"));
  let p = d.into_proto();
  let q = PDuration::parse_from_bytes(&p.write_to_bytes().unwrap()).unwrap();
  let same_sign = q.seconds == 0 || q.nanos == 0 || (q.seconds < 0) == (q.nanos < 0);
  c.ensure(
    same_sign && q.nanos.abs() < 1_000_000_000 && i128::from(q.seconds) * G + i128::from(q.nanos) == total,
    "duration-to-wire",
    || format!("case {case}: {d:?} becomes {} s {} ns", q.seconds, q.nanos),
  );
  c.ensure(q.to_time_duration() == d, "duration-from-wire", || {
    format!("case {case}: {d:?} comes back as {:?}", q.to_time_duration())
  });
  let abs = q.to_std_duration_absolute();
  c.ensure(abs.as_nanos() as i128 == total.abs(), "duration-absolute", || format!("case {case}: {d:?} gives {abs:?}"));
  let checked = q.to_std_duration_checked();
  c.ensure(checked == (total >= 0).then_some(abs), "duration-checked", || format!("case {case}: {d:?} gives {checked:?}"));
  if total >= 0 {
    let p = abs.into_proto();
    c.ensure((p.seconds, p.nanos) == (s, n as i32), "std-duration-to-wire", || {
      format!("case {case}: {abs:?} becomes {} s {} ns", p.seconds, p.nanos)
    });
  }
  c.eval(Some(vh::hash_of(&(total, 1))));
}

async fn clock(c: &Check, r: &mut Rng, case: u64) {
  if r.chance(1, 20) {
    // No duration at all: what waits for it neither panics nor waits for long.
    let d = time::Duration::ZERO;
    let t = tokio::time::Instant::now();
    let mut i = match r.below(3) {
      0 => d.interval(),
      1 => d.interval_at(),
      _ => d.jittered_interval_at(),
    };
    for _ in 0 .. 4 {
      i.tick().await;
    }
    d.sleep().await;
    let _ = d.timeout(std::future::pending::<()>()).await;
    c.ensure(t.elapsed() <= Duration::from_millis(10), "timers of no duration", || format!("case {case}: {:?}", t.elapsed()));
    return;
  }
  let ms = match r.below(4) {
    0 => r.range(1, 5),
    1 => r.range(1, 86_400_000),
    _ => r.range(1, 100_000),
  };
  let d = time::Duration::milliseconds(if r.chance(1, 4) { -ms } else { ms });
  let std = Duration::from_millis(ms as u64);
  // Timers of tokio have a resolution of a millisecond.
  let ok = |from: tokio::time::Instant, want: Duration| {
    let e = from.elapsed();
    e >= want && e <= want + Duration::from_millis(1)
  };
  let now = tokio::time::Instant::now;
  let t = now();
  c.ensure(d.add_tokio_now() == t + std && d.add_tokio_instant(t + std) == t + std * 2, "instants", || format!("case {case}: {d}"));
  let what = r.below(6);
  let good = match what {
    0 => {
      d.sleep().await;
      ok(t, std)
    },
    1 => {
      d.advance().await;
      t.elapsed() == std
    },
    2 => {
      let mut i = d.interval();
      i.tick().await;
      let a = ok(t, Duration::ZERO);
      i.tick().await;
      let b = ok(t, std);
      i.tick().await;
      a && b && ok(t, std * 2)
    },
    3 => {
      let mut i = d.interval_at();
      i.tick().await;
      let a = ok(t, std);
      i.tick().await;
      a && ok(t, std * 2)
    },
    4 => {
      let d = time::Duration::milliseconds(ms);
      let mut i = d.jittered_interval_at();
      i.tick().await;
      let first = t.elapsed();
      let a = first <= std + Duration::from_millis(1);
      c.saw("tenths of a jittered interval", &(first.as_millis() * 10 / (ms as u128 + 1)));
      i.tick().await;
      let gap = t.elapsed() - first;
      a && gap <= std + Duration::from_millis(2) && gap + Duration::from_millis(2) >= std
    },
    _ => {
      let long = r.bool();
      let inner = if long { std + Duration::from_millis(2) } else { std - Duration::from_millis(1) };
      let x = d.timeout(tokio::time::sleep(inner)).await;
      x.is_err() == long && ok(t, if long { std } else { inner })
    },
  };
  c.ensure(good, "timers", || format!("case {case}: timer kind {what} of {d} took {:?}", t.elapsed()));
  c.saw("timers", &what);
  c.eval(Some(vh::hash_of(&(ms, what, 2))));
}

async fn provider(c: &Check, r: &mut Rng, case: u64) {
  let mut now = OffsetDateTime::from_unix_timestamp(r.range(0, 2_000_000_000)).unwrap();
  let p = TestTimeProvider::new(now);
  let q = p.clone();
  for _ in 0 .. r.range(1, 8) {
    let d = time::Duration::milliseconds(r.range(-5_000, 5_000_000));
    match r.below(4) {
      0 => {
        p.advance(d);
        now += d;
      },
      1 => {
        now += d;
        q.set_time(now);
      },
      2 => {
        q.sleep(d).await;
        now += d;
      },
      _ => {
        let other = now + d;
        let g = p.temp_set_time(other);
        let a = q.now() == other;
        let h = q.temp_set_time(other + d);
        let b = p.now() == other + d;
        drop(h);
        let e = p.now() == other;
        drop(g);
        c.ensure(a && b && e, "guard", || format!("case {case}: a temporary time of {other}"));
      },
    }
    c.ensure(p.now() == now && q.now() == now, "test-clock", || format!("case {case}: {} instead of {now}", p.now()));
  }
  let a = std::time::SystemTime::now();
  let t = SystemTimeProvider.now();
  let b = std::time::SystemTime::now();
  c.ensure(OffsetDateTime::from(a) <= t && t <= OffsetDateTime::from(b), "system-clock", || format!("{t}"));
  c.eval(None);
}

pub fn run(c: &Check) {
  c.rule("cases are an instant with an interval, a duration, a timer on a paused clock or a history of the test clock; distinct by value");
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
  c.cases(c.n(400_000, 20_000_000), Duration::from_secs(c.n(8, 600)), |case, r| match r.below(100) {
    0 ..= 59 => instants(c, r, case),
    60 ..= 89 => durations(c, r, case),
    90 ..= 96 => rt.block_on(clock(c, r, case)),
    _ => rt.block_on(provider(c, r, case)),
  });
}
