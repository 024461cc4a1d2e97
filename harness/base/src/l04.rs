//! Throttled warnings.
use bd_log::rate_limit_log::{error_every, warn_every, WarnTracker};
use bd_log::log_every;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration as Std, Instant};
use time::Duration;
use vh::{logcap, Check, Rng};

fn site(i: usize, d: Duration, id: &str) {
  match i {
    0 => warn_every!(d, "site {}", id),
    1 => warn_every!(d, "site {}", id),
    2 => error_every!(d, "site {}", id),
    3 => log_every!(log::Level::Info, d, "site {}", id),
    _ => error_every!(d, "site {}", id),
  }
}
const LEVELS: [log::Level; 5] =
  [log::Level::Warn, log::Level::Warn, log::Level::Error, log::Level::Info, log::Level::Error];

fn interval(r: &mut Rng) -> Duration {
  match r.below(8) {
    0 => Duration::ZERO,
    1 => Duration::nanoseconds(1),
    2 => Duration::milliseconds(r.range(1, 50)),
    3 => Duration::seconds(1),
    4 => Duration::minutes(1),
    5 => Duration::seconds(15),
    6 => Duration::new(r.range(0, 3), r.range(0, 999_999_999) as i32),
    _ => Duration::hours(r.range(1, 400)),
  }
}

fn step(r: &mut Rng, d: Duration) -> Std {
  let base = Std::try_from(d).unwrap_or(Std::ZERO);
  match r.below(8) {
    0 | 1 => Std::ZERO,
    2 => Std::from_nanos(1),
    3 => base,
    4 => base + Std::from_nanos(1),
    5 => base.saturating_sub(Std::from_nanos(1)),
    6 => base / 2,
    _ => Std::from_millis(r.below(5000)),
  }
}

pub fn run(c: &Check) {
  c.rule("cases are histories of throttled attempts with the steps and intervals between them; non-trivial: at least one emission and one suppression, distinct by the history of decisions");
  logcap::install(log::LevelFilter::Debug);
  // When each macro site last emitted, on the fake clock of its own runtime, is not comparable over
  // runtimes: one runtime for all macro histories.
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
  let mut last: [Option<tokio::time::Instant>; 5] = [None; 5];
  c.cases(c.n(2_500, 60_000), Std::from_secs(c.n(6, 600)), |case, r| {
    if case % 3 == 0 {
      rt.block_on(async {
        logcap::drain();
        let d0 = interval(r);
        for k in 0 .. r.range(5, 40) {
          let i = r.idx(5);
          let d = if r.chance(1, 4) { interval(r) } else { d0 };
          let st = step(r, d);
          if !st.is_zero() {
            tokio::time::advance(st).await;
          }
          let now = tokio::time::Instant::now();
          let due = last[i].is_none_or(|l| Duration::try_from(now - l).unwrap() > d);
          let id = format!("{case}/{k}");
          site(i, d, &id);
          let got: Vec<_> = logcap::drain().into_iter().filter(|l| l.text == format!("site {id}")).map(|l| l.level).collect();
          let want = if due { LEVELS[i] } else { log::Level::Debug };
          c.count(if due { "macro_emitted" } else { "macro_suppressed" });
          c.ensure(got == [want], "macro-site", || {
            format!("case {case}: site {i}, interval {d:?}, {:?} since its last emission: logged at {got:?}, expected {want}", last[i].map(|l| now - l))
          });
          if due {
            last[i] = Some(now);
          }
        }
        c.eval(Some(r.u64()));
      });
      return;
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let tracker = Arc::new(WarnTracker::default());
    let other = WarnTracker::default();
    if case % 3 == 1 {
      // One caller.
      let mut decisions = vec![];
      rt.block_on(async {
        let mut last = None;
        let d0 = interval(r);
        for k in 0 .. r.range(5, 60) {
          let d = if r.chance(1, 5) { interval(r) } else { d0 };
          let st = step(r, d);
          if !st.is_zero() {
            tokio::time::advance(st).await;
          }
          if r.chance(1, 6) {
            let _ = other.should_warn(d);
          }
          let now = tokio::time::Instant::now();
          let want = last.is_none_or(|l| Duration::try_from(now - l).unwrap() > d);
          let got = tracker.should_warn(d);
          c.count(if got { "emitted" } else { "suppressed" });
          c.ensure(got == want, "single", || {
            format!("case {case}, attempt {k}: interval {d:?}, {:?} since the last emission: emitted {got}, expected {want}", last.map(|l| now - l))
          });
          if got {
            last = Some(now);
          }
          decisions.push((got, st));
        }
      });
      let both = decisions.iter().any(|d| d.0) && decisions.iter().any(|d| !d.0);
      c.eval(both.then(|| vh::hash_of(&decisions)));
    } else {
      // Many callers at each instant of a clock that stands still between the rounds.
      let n = r.range(2, 8) as usize;
      let rounds = r.range(3, 12) as usize;
      let d = interval(r);
      let steps: Vec<Std> = (0 .. rounds).map(|_| step(r, d)).collect();
      let barrier = Barrier::new(n + 1);
      let hits = AtomicU64::new(0);
      let handle = rt.handle().clone();
      std::thread::scope(|s| {
        for _ in 0 .. n {
          let (b, h, t, hits) = (&barrier, handle.clone(), tracker.clone(), &hits);
          s.spawn(move || {
            let _g = h.enter();
            for _ in 0 .. rounds {
              b.wait();
              for _ in 0 .. 3 {
                if t.should_warn(d) {
                  hits.fetch_add(1, Ordering::SeqCst);
                }
              }
              b.wait();
            }
          });
        }
        let mut since: Option<Std> = None;
        let mut hist = vec![];
        for (i, st) in steps.iter().enumerate() {
          if !st.is_zero() {
            rt.block_on(tokio::time::advance(*st));
          }
          since = since.map(|x| x + *st);
          let due = since.is_none_or(|x| Duration::try_from(x).unwrap() > d);
          hits.store(0, Ordering::SeqCst);
          barrier.wait();
          barrier.wait();
          let got = hits.load(Ordering::SeqCst);
          c.add("racing_attempts", 3 * n as u64);
          c.ensure(got == u64::from(due), "racing", || {
            format!("case {case}, round {i}: {n} threads, interval {d:?}, {since:?} since the last emission: {got} emissions, expected {}", u64::from(due))
          });
          if due {
            since = Some(Std::ZERO);
          }
          hist.push((got, *st));
        }
        c.eval(Some(vh::hash_of(&(n, hist))));
      });
    }
  });
  // The real clock: emissions and refusals of threads that hammer one tracker.
  for round in 0 .. c.n(6, 60) {
    c.now(|| format!("real clock, round {round}"));
    let d = Std::from_micros(200 + 700 * round);
    let tracker = WarnTracker::default();
    let calls = Mutex::new(Vec::new());
    let t0 = Instant::now();
    std::thread::scope(|s| {
      for _ in 0 .. 4 {
        s.spawn(|| {
          let mut mine = vec![];
          while t0.elapsed() < Std::from_millis(60) {
            let b = t0.elapsed();
            let w = tracker.should_warn(Duration::try_from(d).unwrap());
            mine.push((b, t0.elapsed(), w));
          }
          calls.lock().unwrap().extend(mine);
        });
      }
    });
    let calls = calls.into_inner().unwrap();
    let mut em: Vec<_> = calls.iter().filter(|x| x.2).copied().collect();
    em.sort();
    c.add("hammer_calls", calls.len() as u64);
    c.add("hammer_emissions", em.len() as u64);
    for w in em.windows(2) {
      c.ensure(w[1].1 - w[0].0 > d, "too-soon", || {
        format!("real clock: emissions at {:?} and {:?} with interval {d:?}", w[0], w[1])
      });
    }
    // A refusal needs an emission less than an interval before.
    for x in calls.iter().filter(|x| !x.2) {
      let i = em.partition_point(|e| e.0 <= x.1);
      let ok = em[.. i].iter().rev().take(6).any(|e| x.0.saturating_sub(e.1) <= d);
      if !c.ensure(ok, "due-suppressed", || format!("real clock: attempt {x:?} refused with no emission within {d:?} before it")) {
        break;
      }
    }
    c.eval(Some(vh::hash_of(&em)));
  }
}
