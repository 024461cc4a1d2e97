//! Completion signals.
use bd_completion::{Receiver, Sender};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vh::{logcap, Check};

/// Counts what becomes of a value.
#[derive(Debug)]
struct Val {
  id: u64,
  body: Vec<u8>,
  drops: Arc<AtomicU64>,
}
impl Drop for Val {
  fn drop(&mut self) {
    self.drops.fetch_add(1, Ordering::SeqCst);
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum S {
  Send,
  Drop,
  Panic,
  SendFromTask,
  DropInTask,
  AbortedTask,
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum R {
  Blocking,
  Task,
  Drop,
  /// Polled, then given up.
  GivenUp,
}

fn pause(us: u64) {
  match us {
    0 => {},
    1 => std::thread::yield_now(),
    _ => {
      let t = Instant::now();
      while t.elapsed() < Duration::from_micros(us) {
        std::hint::spin_loop();
      }
    },
  }
}

pub fn run(c: &Check) {
  c.rule("cases are pairs of what the sender and the receiver do with delays on either side; non-trivial: both sides ran at the same time or the signal was lost; distinct by behaviours, delays and outcome");
  logcap::install(log::LevelFilter::Debug);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
  // Meanwhile: pairs of which one side waits long.
  let waits: Vec<u64> = if c.thorough() { vec![3, 7, 13, 31, 35, 62, 66, 125] } else { vec![2, 4, 7, 11, 13] };
  let waits = waits.into_iter().map(|s| (s, std::thread::spawn(move || long(s)))).collect::<Vec<_>>();
  c.cases(c.n(30_000, 1_000_000), Duration::from_secs(c.n(12, 600)), |case, r| {
    let s = *r.pick(&[S::Send, S::Send, S::Send, S::SendFromTask, S::Drop, S::Panic, S::DropInTask, S::AbortedTask]);
    let v = *r.pick(&[R::Blocking, R::Blocking, R::Task, R::Task, R::Task, R::Drop, R::GivenUp]);
    let delays = [0, 1, 5, 20, 60];
    let (ds, dr) = (*r.pick(&delays), *r.pick(&delays));
    let body = { let n = r.idx(40); r.bytes(n) };
    let drops = Arc::new(AtomicU64::new(0));
    let val = Val { id: case, body: body.clone(), drops: drops.clone() };
    let (tx, rx): (Sender<Val>, Receiver<Val>) = Sender::new();
    let h = rt.handle().clone();
    let sequential = r.chance(1, 6);
    let sender = move || {
      pause(ds);
      match s {
        S::Send => tx.send(val),
        S::Drop => drop((tx, val)),
        S::Panic => {
          let _ = vh::no_panic(|| {
            let _t = tx;
            drop(val);
            panic!("sender");
          });
        },
        S::SendFromTask => h.block_on(async { tx.send(val) }),
        S::DropInTask => {
          drop(val);
          h.block_on(async { h.spawn(async move { drop(tx) }).await.unwrap() });
        },
        S::AbortedTask => {
          drop(val);
          let t = h.spawn(async move {
            let _t = tx;
            std::future::pending::<()>().await;
          });
          t.abort();
        },
      }
    };
    let h = rt.handle().clone();
    let receiver = move || -> Option<anyhow::Result<Val>> {
      pause(dr);
      match v {
        R::Blocking => Some(rx.blocking_recv()),
        R::Task => Some(h.block_on(async { h.spawn(rx.recv()).await.unwrap() })),
        R::Drop => {
          drop(rx);
          None
        },
        R::GivenUp => h.block_on(async { tokio::time::timeout(Duration::from_micros(30), rx.recv()).await.ok() }),
      }
    };
    let got = if sequential {
      sender();
      receiver()
    } else {
      let t = std::thread::spawn(move || vh::no_panic(sender));
      let g = receiver();
      let x = t.join().unwrap();
      c.ensure(x.is_ok(), "sender-panic", || format!("case {case}: sending panicked: {x:?}"));
      g
    };
    logcap::drain();
    let sends = matches!(s, S::Send | S::SendFromTask);
    let desc = format!("case {case}: sender {s:?} after {ds} us, receiver {v:?} after {dr} us, received {got:?}");
    match (&got, v) {
      (None, R::Drop | R::GivenUp) => {},
      (Some(Ok(x)), _) => {
        c.ensure(sends, "invented", || desc.clone());
        c.ensure(x.id == case && x.body == body, "changed", || desc.clone());
        c.ensure(drops.load(Ordering::SeqCst) == 0, "copied", || desc.clone());
        c.count("received");
      },
      (Some(Err(_)), _) => {
        c.ensure(!sends, "lost", || desc.clone());
        c.count("reported_lost");
      },
      (None, _) => c.violation("hang", &desc),
    }
    drop(got);
    // An aborted task goes away on its own time.
    c.ensure(drops.load(Ordering::SeqCst) == 1, "duplicated-or-leaked", || desc.clone());
    c.eval(Some(vh::hash_of(&(s, v, ds, dr, sequential, desc.len() % 7))));
    c.sample(|| desc);
  });
  for (s, t) in waits {
    c.add("long waits", 6);
    for e in t.join().unwrap() {
      c.violation("long-wait", &format!("after {s} s: {e}"));
    }
  }
}

/// Values sent, and senders dropped, `secs` after the receivers started to wait; and values received
/// that long after they were sent.
fn long(secs: u64) -> Vec<String> {
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let mut bad = vec![];
  let (t1, r1) = Sender::<u64>::new();
  let (t2, r2) = Sender::<u64>::new();
  let (t3, r3) = Sender::<u64>::new();
  let (t4, r4) = Sender::<u64>::new();
  let (t5, r5) = Sender::<u64>::new();
  let (t6, r6) = Sender::<u64>::new();
  t5.send(5);
  t6.send(6);
  let a = std::thread::spawn(move || r1.blocking_recv());
  let b = rt.spawn(r2.recv());
  let d = std::thread::spawn(move || r3.blocking_recv());
  let e = rt.spawn(r4.recv());
  std::thread::sleep(Duration::from_secs(secs));
  t1.send(1);
  t2.send(2);
  drop((t3, t4));
  let mut got = vec![(a.join().unwrap(), Some(1))];
  got.push((rt.block_on(b).unwrap(), Some(2)));
  got.push((d.join().unwrap(), None));
  got.push((rt.block_on(e).unwrap(), None));
  got.push((r5.blocking_recv(), Some(5)));
  got.push((rt.block_on(r6.recv()), Some(6)));
  for (i, (g, want)) in got.into_iter().enumerate() {
    if g.as_ref().ok().copied() != want {
      bad.push(format!("pair {}: received {g:?} instead of {want:?}", i + 1));
    }
  }
  bad
}
