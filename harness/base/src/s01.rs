//! S01: fixed sessions under racing readers and starters, failing callbacks, re-entrant callbacks
//! and restarts. The history of every run is recorded and judged afterwards.

use crate::k02::stored_strings;
use crate::store::Mem;
use bd_session::fixed::{self, Callbacks};
use bd_session::Strategy;
use parking_lot::Mutex;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Weak};
use std::time::Duration;
use vh::{Check, Rng};

static CLOCK: AtomicU64 = AtomicU64::new(1);
fn tick() -> u64 {
  CLOCK.fetch_add(1, Ordering::SeqCst)
}

thread_local! {
  /// How often this thread ran the callback.
  static CALLS: Cell<u64> = const { Cell::new(0) };
  static LAST: Cell<Option<usize>> = const { Cell::new(None) };
}

/// One run of the identifier callback: what it answered, None when it failed.
#[derive(Clone, Debug)]
struct Made {
  id: Option<String>,
  at: u64,
}

#[derive(Default)]
struct Inside {
  session: Vec<String>,
  previous: Vec<Option<String>>,
  calls_of_start: u64,
}

struct Cb {
  made: Mutex<Vec<Made>>,
  serial: AtomicU64,
  fail: AtomicU64,
  fail_at: AtomicU64,
  rng: Mutex<Rng>,
  delay_us: u64,
  running: AtomicBool,
  overlapped: AtomicBool,
  reenter: AtomicU64,
  strategy: Mutex<Weak<Strategy>>,
  inside: Mutex<Inside>,
  gate: Mutex<Option<Arc<(Barrier, Barrier)>>>,
}

impl Cb {
  fn new(r: &mut Rng, tag: u64) -> Arc<Self> {
    Arc::new(Self {
      made: Mutex::default(),
      serial: AtomicU64::new(tag * 1_000_000),
      fail: AtomicU64::new(0),
      fail_at: AtomicU64::new(u64::MAX),
      rng: Mutex::new(r.fork()),
      delay_us: *r.pick(&[0, 0, 40, 400]),
      running: AtomicBool::new(false),
      overlapped: AtomicBool::new(false),
      reenter: AtomicU64::new(0),
      strategy: Mutex::new(Weak::new()),
      inside: Mutex::default(),
      gate: Mutex::default(),
    })
  }
}

struct CbHandle(Arc<Cb>);

impl Callbacks for CbHandle {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    let c = &self.0;
    CALLS.with(|n| n.set(n.get() + 1));
    if c.running.swap(true, Ordering::SeqCst) && c.reenter.load(Ordering::SeqCst) == 0 {
      c.overlapped.store(true, Ordering::SeqCst);
    }
    if c.delay_us > 0 {
      std::thread::sleep(Duration::from_micros(c.delay_us));
    }
    let gate = c.gate.lock().clone();
    if let Some(g) = gate {
      g.0.wait();
      g.1.wait();
    }
    let what = c.reenter.load(Ordering::SeqCst);
    if what != 0 {
      let s = c.strategy.lock().clone().upgrade();
      if let Some(s) = s {
        if what & 1 != 0 {
          let id = s.session_id();
          c.inside.lock().session.push(id);
        }
        if what & 2 != 0 {
          let before = CALLS.with(Cell::get);
          s.start_new_session();
          c.inside.lock().calls_of_start += CALLS.with(Cell::get) - before;
        }
        if what & 4 != 0 {
          let p = s.previous_process_session_id();
          c.inside.lock().previous.push(p);
        }
        if what & 1 != 0 {
          // After a refused start it is still refused.
          let id = s.session_id();
          c.inside.lock().session.push(id);
        }
      }
    }
    let fails = {
      let f = c.fail.load(Ordering::SeqCst);
      (f > 0 && c.rng.lock().chance(f, 256)) || c.made.lock().len() as u64 == c.fail_at.load(Ordering::SeqCst)
    };
    let id = (!fails).then(|| format!("session-{}", c.serial.fetch_add(1, Ordering::SeqCst)));
    let mut m = c.made.lock();
    LAST.with(|l| l.set(Some(m.len())));
    m.push(Made { id: id.clone(), at: tick() });
    drop(m);
    c.running.store(false, Ordering::SeqCst);
    id.ok_or_else(|| anyhow::anyhow!("injected callback failure"))
  }
}

fn strategy(mem: &Arc<Mem>, cb: &Arc<Cb>) -> Arc<Strategy> {
  let s = Arc::new(Strategy::Fixed(fixed::Strategy::new(mem.store(), Arc::new(CbHandle(cb.clone())))));
  *cb.strategy.lock() = Arc::downgrade(&s);
  s
}

#[derive(Clone, Debug)]
enum Ev {
  Read { from: u64, to: u64, got: String, made: Option<usize> },
  Start { from: u64, to: u64, made: Option<usize> },
  Prev { got: Option<String> },
}

fn history(c: &Check, s: &Arc<Strategy>, r: &mut Rng, threads: usize, ops: usize) -> Vec<Ev> {
  let all = Mutex::new(vec![]);
  let barrier = Barrier::new(threads);
  std::thread::scope(|sc| {
    for _ in 0 .. threads {
      let mut r = r.fork();
      let (all, barrier, s) = (&all, &barrier, s.clone());
      sc.spawn(move || {
        let mut mine = vec![];
        barrier.wait();
        for _ in 0 .. ops {
          LAST.with(|l| l.set(None));
          let from = tick();
          match r.below(6) {
            0 => {
              s.start_new_session();
              mine.push(Ev::Start { from, to: tick(), made: LAST.with(Cell::get) });
            },
            1 => mine.push(Ev::Prev { got: s.previous_process_session_id() }),
            _ => {
              let got = s.session_id();
              mine.push(Ev::Read { from, to: tick(), got, made: LAST.with(Cell::get) });
            },
          }
          if r.chance(1, 4) {
            std::thread::yield_now();
          }
        }
        all.lock().extend(mine);
      });
    }
  });
  c.add("operations recorded", (threads * ops) as u64);
  all.into_inner()
}

/// Judges one process's history. Returns the session that was current at its end, if any.
fn judge(c: &Check, what: &str, evs: &[Ev], made: &[Made], previous: &Option<Option<String>>) -> Option<String> {
  let mut windows: Vec<Option<(u64, u64, bool)>> = vec![None; made.len()];
  let mut by_start = 0;
  for e in evs {
    match e {
      Ev::Read { from, to, made: Some(k), .. } => windows[*k] = Some((*from, *to, false)),
      Ev::Start { from, to, made: Some(k) } => {
        windows[*k] = Some((*from, *to, true));
        by_start += 1;
      },
      Ev::Start { made: None, .. } => c.violation("start-without-callback", what),
      _ => {},
    }
  }
  let lazy = made.len() - by_start;
  c.ensure(lazy <= 1, "callback-run-too-often", || format!("{what}: {lazy} identifiers were generated without a start: {made:?}"));
  if lazy == 1 {
    c.ensure(matches!(windows[0], Some((_, _, false))), "callback-run-after-start", || format!("{what}: {windows:?}"));
  }
  // Resolve failed callbacks: the random identifier is whatever was read.
  let mut name: Vec<Option<String>> = made.iter().map(|m| m.id.clone()).collect();
  let mut known: HashMap<String, usize> =
    name.iter().enumerate().filter_map(|(i, n)| n.clone().map(|n| (n, i))).collect();
  for e in evs {
    if let Ev::Read { got, made: Some(k), .. } = e {
      if name[*k].is_none() {
        name[*k] = Some(got.clone());
        known.insert(got.clone(), *k);
      }
    }
  }
  for e in evs {
    if let Ev::Read { from, to, got, made: own } = e {
      c.count("session read judged");
      if let Some(k) = own {
        c.ensure(name[*k].as_ref() == Some(got), "read-differs-from-generated", || format!("{what}: {e:?}, generated {:?}", name[*k]));
      }
      let k = match known.get(got) {
        Some(k) => *k,
        None => {
          // A random identifier of a start whose callback failed.
          let is_uuid = uuid::Uuid::parse_str(got).is_ok();
          let cand = (0 .. made.len()).find(|k| {
            name[*k].is_none()
              && windows[*k].map_or(false, |w| w.0 <= *to)
              && windows.get(*k + 1).map_or(true, |n| n.map_or(true, |n| n.1 >= *from))
          });
          match (is_uuid, cand) {
            (true, Some(k)) => {
              name[k] = Some(got.clone());
              known.insert(got.clone(), k);
              k
            },
            _ => {
              c.violation("unknown-session", &format!("{what}: {e:?} is none of {made:?}"));
              continue;
            },
          }
        },
      };
      // Identifiers are in the order they became current. k must have been begun, and its
      // successor not finished before this read began.
      let begun = windows[k].map_or(true, |w| w.0 <= *to);
      let next_done = windows.get(k + 1).and_then(|w| *w).map_or(false, |w| w.1 < *from);
      c.ensure(begun, "session-from-the-future", || format!("{what}: {e:?}, window {:?}", windows[k]));
      c.ensure(!next_done, "stale-session", || format!("{what}: {e:?} after {:?} was complete", windows[k + 1]));
    }
    if let (Ev::Prev { got }, Some(p)) = (e, previous) {
      c.count("previous session judged");
      c.ensure(got == p, "wrong-previous-session", || format!("{what}: previous {got:?}, expected {p:?}"));
    }
  }
  let _ = made.iter().map(|m| m.at).collect::<Vec<_>>();
  name.last().cloned().flatten()
}

pub fn run(c: &Check) {
  c.rule("Each case: a chain of processes over one storage; in each, 1-6 threads read the session, start sessions and read the previous one, with callback delays and failures; reads are judged against real time and generation order. Plus re-entrant callbacks and callers arriving while a callback runs. Distinct by the sequence of operation outcomes.");
  let n = c.n(400, 8000);
  c.cases(n, Duration::from_secs(c.n(20, 400)), |i, r| {
    let mem = Mem::new(r.u64());
    let mut previous: Option<Option<String>> = Some(None);
    let mut shape = vec![];
    for p in 0 .. 2 + r.idx(3) {
      let cb = Cb::new(r, (p + 1) as u64);
      let threads = 1 + r.idx(6);
      // With several threads one failing callback at most, so that its random identifier is known.
      if threads == 1 {
        cb.fail.store(*r.pick(&[0, 0, 60, 256]), Ordering::SeqCst);
      } else {
        cb.fail_at.store(r.below(8), Ordering::SeqCst);
      }
      mem.delay.store(*r.pick(&[0, 0, 200]), Ordering::SeqCst);
      let set_fails = r.chance(1, 8);
      mem.faults(0, if set_fails { 256 } else { 0 }, 0);
      let s = strategy(&mem, &cb);
      let ops = 2 + r.idx(12);
      let evs = history(c, &s, r, threads, ops);
      let made = cb.made.lock().clone();
      let what = format!("case {i} process {p}");
      c.ensure(!cb.overlapped.load(Ordering::SeqCst), "callbacks-overlap", || what.clone());
      let last = judge(c, &what, &evs, &made, &previous);
      if !made.is_empty() {
        let now = s.session_id();
        if let Some(l) = &last {
          c.ensure(now == *l, "last-session-not-current", || format!("{what}: {now} instead of {l}"));
        }
        if let Some(p) = &previous {
          c.ensure(s.previous_process_session_id() == *p, "wrong-previous-session", || what.clone());
        }
        c.ensure(s.session_id() == now, "session-unstable", || what.clone());
        // What the next process must report.
        previous = if set_fails {
          // Storage failed: the last that could be stored, which is what is there.
          Some(stored_strings(&mem).into_iter().next())
        } else {
          Some(Some(now))
        };
        if set_fails {
          c.count("process whose storage failed");
        }
      }
      shape.push((threads, ops, made.len(), set_fails));
      c.count("process");
    }
    c.eval(Some(vh::hash_of(&shape)));
    c.sample(|| format!("case {i}: (threads, operations each, identifiers generated, storage failed) per process {shape:?}"));
  });

  // Re-entrant callbacks. A deadlock here must not take the checker with it: own thread.
  let n = c.n(60, 600);
  c.cases(n, Duration::from_secs(c.n(30, 120)), |i, r| {
    let what = 1 + r.below(7);
    let first_by_start = r.bool();
    let restarted = r.bool();
    let mem = Mem::new(r.u64());
    let mut prev = None;
    if restarted {
      let cb = Cb::new(r, 90);
      let s = strategy(&mem, &cb);
      prev = Some(s.session_id());
    }
    let cb = Cb::new(r, 91);
    let s = strategy(&mem, &cb);
    cb.reenter.store(what, Ordering::SeqCst);
    let (tx, rx) = std::sync::mpsc::channel();
    let s2 = s.clone();
    std::thread::spawn(move || {
      if first_by_start {
        s2.start_new_session();
      }
      let a = s2.session_id();
      s2.start_new_session();
      let b = s2.session_id();
      let p = s2.previous_process_session_id();
      let _ = tx.send((a, b, p));
    });
    let label = format!(
      "case {i}: callback calls{}{}{}",
      if what & 1 != 0 { " session_id" } else { "" },
      if what & 2 != 0 { " start_new_session" } else { "" },
      if what & 4 != 0 { " previous_process_session_id" } else { "" }
    );
    match rx.recv_timeout(Duration::from_secs(20)) {
      Err(_) => {
        let sig = if what & 4 != 0 { "callback-deadlock-previous" } else { "callback-deadlock" };
        c.violation(sig, &format!("{label}: no answer within 20 s"));
      },
      Ok((a, b, p)) => {
        c.count("re-entrant callback judged");
        let made = cb.made.lock().clone();
        c.ensure(made.len() == 2, "re-entrant-start-not-refused", || format!("{label}: {made:?}"));
        if made.len() == 2 {
          c.ensure(Some(&a) == made[0].id.as_ref() && Some(&b) == made[1].id.as_ref(), "re-entrant-call-changed-session", || format!("{label}: {a} {b} {made:?}"));
        }
        let ins = cb.inside.lock();
        c.ensure(ins.calls_of_start == 0, "re-entrant-start-not-refused", || format!("{label}: it ran the callback {} times", ins.calls_of_start));
        for x in &ins.session {
          c.ensure(!x.is_empty(), "re-entrant-read-empty", || label.clone());
        }
        c.ensure(p == prev, "wrong-previous-session", || format!("{label}: {p:?} instead of {prev:?}"));
        for x in &ins.previous {
          c.ensure(x.is_none() || *x == prev, "re-entrant-previous-wrong", || format!("{label}: {x:?} instead of {prev:?}"));
        }
      },
    }
    c.eval(Some(vh::hash_of(&("re", what, first_by_start, restarted))));
  });

  // Whatever the callback answers is the session, also to the next process.
  let n = c.n(100, 2000);
  c.cases(n, Duration::from_secs(10), |i, r| {
    struct Says(Vec<String>, Arc<AtomicU64>);
    impl Callbacks for Says {
      fn generate_session_id(&self) -> anyhow::Result<String> {
        Ok(self.0[self.1.fetch_add(1, Ordering::SeqCst) as usize].clone())
      }
    }
    let ids: Vec<String> = (0 .. 8)
      .map(|_| match r.below(4) {
        0 => String::new(),
        1 => "x".repeat(r.range(1, 70_000) as usize),
        _ => r.string(),
      })
      .collect();
    let calls = Arc::new(AtomicU64::new(0));
    let mem = Mem::new(1);
    let mut used = 0;
    let mut before = None;
    while used < 6 {
      let s = Strategy::Fixed(fixed::Strategy::new(mem.store(), Arc::new(Says(ids.clone(), calls.clone()))));
      for k in 0 .. r.range(1, 3) {
        if r.bool() {
          c.ensure(s.previous_process_session_id() == before, "wrong-previous-session", || format!("case {i}, before the session is read: {:?} instead of {before:?}", s.previous_process_session_id()));
        }
        if k > 0 || r.bool() {
          s.start_new_session();
        }
        let got = s.session_id();
        used += 1;
        c.ensure(got == ids[used - 1] && s.session_id() == got, "read-differs-from-generated", || format!("case {i}: {got:?} instead of {:?}", ids[used - 1]));
        c.ensure(s.previous_process_session_id() == before, "wrong-previous-session", || format!("case {i}: {:?} instead of {before:?}", s.previous_process_session_id()));
        c.count("odd identifier judged");
      }
      before = Some(ids[used - 1].clone());
    }
    c.eval(None);
  });

  // A caller that arrives while another thread's callback runs gets the session, not a stand-in.
  let n = c.n(40, 400);
  c.cases(n, Duration::from_secs(c.n(10, 60)), |i, r| {
    let mem = Mem::new(r.u64());
    let cb = Cb::new(r, 95);
    let s = strategy(&mem, &cb);
    let gate = Arc::new((Barrier::new(2), Barrier::new(2)));
    *cb.gate.lock() = Some(gate.clone());
    let by_start = r.bool();
    let s1 = s.clone();
    let a = std::thread::spawn(move || {
      if by_start {
        s1.start_new_session();
      }
      s1.session_id()
    });
    gate.0.wait();
    let others: Vec<_> = (0 .. 3)
      .map(|_| {
        let s = s.clone();
        std::thread::spawn(move || s.session_id())
      })
      .collect();
    std::thread::sleep(Duration::from_millis(3));
    *cb.gate.lock() = None;
    gate.1.wait();
    let a = a.join().unwrap();
    for o in others {
      let o = o.join().unwrap();
      c.ensure(o == a, "caller-during-callback-got-another-session", || format!("case {i}: {o} instead of {a}"));
      c.count("caller during a callback judged");
    }
    c.ensure(cb.made.lock().len() == 1, "callback-run-too-often", || format!("case {i}"));
    c.eval(None);
  });
}
