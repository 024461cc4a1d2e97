//! S02: activity-based sessions against a model, over histories of reads, starts, clock steps and
//! restarts, and with racing threads.

use crate::store::{Mem, Op};
use bd_session::activity_based::{self, Callbacks};
use bd_session::Strategy;
use bd_time::TimeProvider;
use parking_lot::Mutex;
use std::sync::Arc;
use std::time::Duration as Std;
use time::{Duration, OffsetDateTime};
use vh::Check;

struct Clock(Mutex<OffsetDateTime>);
#[async_trait::async_trait]
impl TimeProvider for Clock {
  fn now(&self) -> OffsetDateTime {
    *self.0.lock()
  }
  async fn sleep(&self, _: Duration) {
    std::future::pending().await
  }
}

#[derive(Default)]
struct Cb(Mutex<Vec<String>>);
struct CbHandle(Arc<Cb>);
impl Callbacks for CbHandle {
  fn session_id_changed(&self, id: &str) {
    self.0 .0.lock().push(id.to_string());
  }
}

/// How old the persisted activity may be while the session is in use.
const THROTTLE: Duration = Duration::seconds(15);

pub fn run(c: &Check) {
  c.rule("Each case: a random history of session reads, starts, flushes, clock steps around the threshold (also backwards, also sub-second) and restarts, with a random threshold, judged step by step against a model; distinct by the sequence of (operation, session changed).");
  let n = c.n(1500, 40_000);
  c.cases(n, Std::from_secs(c.n(20, 400)), |i, r| {
    let mem = Mem::new(r.u64());
    let threshold = *r.pick(&[
      Duration::ZERO,
      Duration::seconds(1),
      Duration::milliseconds(1500),
      Duration::seconds(20),
      Duration::minutes(30),
      Duration::days(3),
    ]);
    let base = OffsetDateTime::from_unix_timestamp(1_700_000_000 + r.below(1_000_000) as i64).unwrap();
    let clock = Arc::new(Clock(Mutex::new(base)));
    let cb = Arc::new(Cb::default());
    let make = || {
      Arc::new(Strategy::ActivityBased(activity_based::Strategy::new(
        threshold,
        mem.store(),
        Arc::new(CbHandle(cb.clone())),
        clock.clone(),
      )))
    };
    let mut s = make();
    // Model.
    let mut session: Option<String> = None; // current in this process, once known
    let mut last = base; // last activity
    let mut previous: Option<String> = None; // last session of the preceding process
    let mut ended: Option<(String, OffsetDateTime, OffsetDateTime)> = None; // session, oldest and newest activity a restart may find
    let mut shape = vec![];
    let mut trace = vec![];
    let mut seen = std::collections::HashSet::new();
    for _ in 0 .. 40 {
      let op = r.below(10);
      let now0 = *clock.0.lock();
      cb.0.lock().clear();
      let mut changed = 0u8;
      match op {
        0 ..= 4 => {
          let now = now0;
          let got = s.session_id();
          let told = cb.0.lock().clone();
          let mut expect_change: Option<bool> = None;
          match (&session, &ended) {
            (Some(_), _) => expect_change = Some(now < last || now - last > threshold),
            (None, Some((_, lo, hi))) => {
              // The restart found an activity time between lo and hi.
              let f = |l: OffsetDateTime| now < l || now - l > threshold;
              if f(*lo) == f(*hi) {
                expect_change = Some(f(*lo));
              }
            },
            (None, None) => {},
          }
          let old = session.clone().or_else(|| ended.as_ref().map(|e| e.0.clone()));
          if let Some(old) = &old {
            let did = got != *old;
            changed = u8::from(did);
            if let Some(e) = expect_change {
              c.count(if e { "rotation expected" } else { "no rotation expected" });
              c.ensure(did == e, if e { "session-not-rotated" } else { "session-rotated-early" }, || {
                format!("case {i}: threshold {threshold}, {now} after last activity {last} (restart window {ended:?}): {old} -> {got}; {trace:?}")
              });
            } else {
              c.count("rotation left open by throttling");
            }
            if did {
              c.ensure(told == vec![got.clone()], "change-not-reported-once", || format!("case {i}: {told:?} for {got}; {trace:?}"));
              c.ensure(seen.insert(got.clone()), "session-reused", || format!("case {i}: {got}"));
            } else {
              c.ensure(told.is_empty(), "report-without-change", || format!("case {i}: {told:?}; {trace:?}"));
            }
          } else {
            c.count("very first session");
            c.ensure(told == vec![got.clone()], "first-session-not-reported-once", || format!("case {i}: {told:?} for {got}"));
            seen.insert(got.clone());
            changed = 2;
          }
          c.ensure(!got.is_empty(), "empty-session", || format!("case {i}"));
          session = Some(got);
          last = now;
        },
        5 => {
          s.start_new_session();
          // The identifier is learnt from the next read, at the same instant: no rotation.
          let told = cb.0.lock().clone();
          c.ensure(told.len() <= 1, "change-not-reported-once", || format!("case {i}: {told:?}"));
          if r.chance(1, 3) {
            // The process ends right after the start, before anyone read the identifier.
            s = make();
            let p = s.previous_process_session_id();
            let fresh = p.as_ref().is_some_and(|p| !seen.contains(p));
            c.ensure(fresh, "started-session-lost", || format!("case {i}: the process after one that ended right after a start finds {p:?}, sessions known {seen:?}; {trace:?}"));
            c.count("explicit start, then an immediate end");
            session = None;
            if let Some(p) = p {
              seen.insert(p.clone());
              ended = Some((p.clone(), now0, now0));
              previous = Some(p);
            }
            trace.push(format!("5x@{}", (now0 - base).whole_milliseconds()));
            shape.push((op, 4));
            continue;
          }
          let got = s.session_id();
          c.ensure(seen.insert(got.clone()), "start-kept-session", || format!("case {i}: {got}; {trace:?}"));
          if session.is_none() {
            // previous stays what the last process left.
          }
          session = Some(got);
          last = now0;
          changed = 3;
          c.count("explicit start");
        },
        6 => s.flush(),
        7 => {
          let p = s.previous_process_session_id();
          c.ensure(p == previous, "wrong-previous-session", || format!("case {i}: {p:?} instead of {previous:?}; {trace:?}"));
          c.count("previous session judged");
        },
        8 => {
          let step = match r.below(8) {
            0 => threshold,
            1 => threshold + Duration::nanoseconds(1),
            2 => threshold + Duration::milliseconds(1),
            3 => -Duration::milliseconds(1 + r.below(5000) as i64),
            4 => THROTTLE,
            5 => THROTTLE + Duration::seconds(1),
            6 => threshold / 2,
            _ => Duration::milliseconds(r.below(40_000) as i64),
          };
          let mut t = clock.0.lock();
          *t = t.saturating_add(step);
        },
        _ => {
          // The process ends and another starts.
          if let Some(cur) = session.take() {
            if r.bool() {
              s.flush();
              ended = Some((cur.clone(), last, last));
            } else {
              ended = Some((cur.clone(), last - THROTTLE, last));
            }
            previous = Some(cur);
          }
          s = make();
          c.count("restart");
        },
      }
      trace.push(format!("{op}@{}", (now0 - base).whole_milliseconds()));
      shape.push((op, changed));
    }
    c.eval(Some(vh::hash_of(&(shape, threshold))));
    c.sample(|| format!("case {i} (threshold {threshold}): operations@ms {}", trace.join(" ")));
  });

  // Threads, clock stepped in between: at each instant one session, one report per session.
  let n = c.n(150, 3000);
  c.cases(n, Std::from_secs(c.n(15, 120)), |i, r| {
    let mem = Mem::new(r.u64());
    mem.delay.store(*r.pick(&[0, 100]), std::sync::atomic::Ordering::SeqCst);
    let clock = Arc::new(Clock(Mutex::new(OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap())));
    let cb = Arc::new(Cb::default());
    let s = Arc::new(Strategy::ActivityBased(activity_based::Strategy::new(
      Duration::seconds(10),
      mem.store(),
      Arc::new(CbHandle(cb.clone())),
      clock.clone(),
    )));
    let mut ids: Vec<String> = vec![];
    for round in 0 .. 4 {
      let barrier = std::sync::Barrier::new(4);
      let got: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0 .. 4)
          .map(|_| {
            let (s, barrier) = (s.clone(), &barrier);
            sc.spawn(move || {
              barrier.wait();
              let a = s.session_id();
              vec![a, s.session_id()]
            })
          })
          .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
      });
      c.ensure(got.iter().all(|g| *g == got[0]), "two-sessions-at-once", || format!("case {i} round {round}: {got:?}"));
      c.ensure(!ids.contains(&got[0]), "session-not-rotated", || format!("case {i} round {round}"));
      ids.push(got[0].clone());
      let told = cb.0.lock().clone();
      c.ensure(told == ids, "change-not-reported-once", || format!("case {i} round {round}: {told:?} for {ids:?}"));
      *clock.0.lock() += Duration::seconds(11);
      c.count("racing round");
    }
    c.eval(None);
  });

  // At any moment in the use of a session, a restart finds an activity that is recent enough.
  let n = c.n(60, 2000);
  c.cases(n, Std::from_secs(10), |i, r| {
    let mem = Mem::new(r.u64());
    let clock = Arc::new(Clock(Mutex::new(OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap())));
    let make = |m: &Arc<Mem>, t| {
      Strategy::ActivityBased(activity_based::Strategy::new(t, m.store(), Arc::new(CbHandle(Arc::default())), clock.clone()))
    };
    let mut s = make(&mem, Duration::minutes(30));
    if r.bool() {
      s.session_id();
      s = make(&mem, Duration::minutes(30));
    }
    for k in 0 .. 60 {
      let id = s.session_id();
      let now = *clock.0.lock();
      // A copy of the storage, restarted with a threshold that the oldest allowed activity meets.
      let copy = Mem::new(1);
      *copy.map.lock() = mem.map.lock().clone();
      let t = THROTTLE + Duration::milliseconds(r.below(100_000) as i64);
      *clock.0.lock() = now - THROTTLE + t;
      let got = make(&copy, t).session_id();
      c.ensure(got == id, "persisted-activity-too-old", || format!("case {i}, read {k}: a restart {} after the last read, threshold {t}: {id} -> {got}", t - THROTTLE));
      *clock.0.lock() = now + Duration::milliseconds(*r.pick(&[500, 3000, 7500, 14_900, 15_000, 15_100, 20_000]) - r.below(400) as i64);
      c.count("restart probed");
    }
    c.eval(None);
  });

  // Persistence is throttled while the session is merely used.
  let n = c.n(40, 400);
  c.cases(n, Std::from_secs(10), |i, r| {
    let mem = Mem::new(r.u64());
    let clock = Arc::new(Clock(Mutex::new(OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap())));
    let s = Strategy::ActivityBased(activity_based::Strategy::new(
      Duration::minutes(30),
      mem.store(),
      Arc::new(CbHandle(Arc::default())),
      clock.clone(),
    ));
    let mut total = Duration::ZERO;
    for _ in 0 .. 200 {
      s.session_id();
      let d = Duration::milliseconds(r.below(2000) as i64);
      total += d;
      *clock.0.lock() += d;
    }
    let sets = mem.take_ops().iter().filter(|o| matches!(o, Op::Set(..))).count() as i64;
    let most = total.whole_seconds() / THROTTLE.whole_seconds() + 2;
    c.ensure(sets <= most, "persisted-too-often", || format!("case {i}: {sets} writes in {total}, at most {most}"));
    c.count("throttling judged");
    c.eval(None);
  });
}
