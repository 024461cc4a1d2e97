//! G01: the bounded queue, from one thread against a model, and from racing threads whose
//! histories are judged by what every operation may have seen.
use bd_logger::verif_driver::queue::{channel, AsyncLogBufferMessage, LogLine, MemorySized, Receiver, Sender, TrySendError};
use bd_logger::{log_level, AnnotatedLogField, LogField, LogFieldKind, LogFieldValue, LogType};
use std::collections::VecDeque;
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};
use vh::jitter::Jitter;
use vh::{Check, Rng};

#[derive(Debug, Clone, PartialEq)]
struct Msg {
  id: (usize, usize),
  size: usize,
}
impl MemorySized for Msg {
  fn size(&self) -> usize {
    self.size
  }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Out {
  Sent,
  Count,
  Size,
  Closed,
}

fn send(tx: &Sender<Msg>, m: Msg) -> (Out, Option<Msg>) {
  match tx.try_send(m) {
    Ok(()) => (Out::Sent, None),
    Err(TrySendError::FullCountOverflow(m)) => (Out::Count, Some(m)),
    Err(TrySendError::FullSizeOverflow(m)) => (Out::Size, Some(m)),
    Err(TrySendError::Closed(m)) => (Out::Closed, Some(m)),
  }
}

struct Unpark(std::thread::Thread);
impl Wake for Unpark {
  fn wake(self: Arc<Self>) {
    self.0.unpark();
  }
}
/// Waits for f for at most `limit`; Err when it is not done by then.
fn block_on<T>(f: impl Future<Output = T>, limit: Duration) -> Result<T, ()> {
  let waker: Waker = Arc::new(Unpark(std::thread::current())).into();
  let mut cx = Context::from_waker(&waker);
  let mut f = std::pin::pin!(f);
  let end = Instant::now() + limit;
  loop {
    if let Poll::Ready(t) = f.as_mut().poll(&mut cx) {
      return Ok(t);
    }
    let now = Instant::now();
    if now >= end {
      return Err(());
    }
    std::thread::park_timeout(end - now);
  }
}
fn now_or_never<T>(f: impl Future<Output = T>) -> Option<T> {
  match std::pin::pin!(f).poll(&mut Context::from_waker(&Arc::new(Unpark(std::thread::current())).into())) {
    Poll::Ready(t) => Some(t),
    Poll::Pending => None,
  }
}

fn size(r: &mut Rng, cap: usize) -> usize {
  match r.below(8) {
    0 => 0,
    1 => cap,
    2 => cap + 1 + r.idx(3),
    3 => cap / 2,
    4 => 1,
    _ => r.idx(cap / 3 + 2),
  }
}

pub fn run(c: &Check) {
  c.rule("Each case is a queue with random limits: a random sequence of sends and receives by one thread, each compared with a model of the held messages and bytes; or rounds of 2-5 racing senders and a receiver with delays injected at arbitrary instructions, every operation's interval recorded, then judged: received once and in order per sender, the least that was held never above a limit, and every refusal possible with the most that can have been held or been under way. Between rounds the empty queue must take exactly its limits again. In further cases the receiver is dropped under 1-4 sending threads, sixty times: every send ends refused, and no message is alive after. Distinct by the sequence or interleaving of outcomes.");
  c.assume("A refusal is judged against the most that may have been held or under way during the call: a send that is itself refused may keep its bytes reserved for the moment of its call.");
  let limit = Duration::from_secs(c.n(14, 400));
  c.cases(c.n(8000, 200_000), limit, |i, r| match i % 8 {
    0 ..= 3 => sequential(c, i, r),
    4 => sizes(c, i, r),
    7 if i % 32 == 7 => ending(c, i, r),
    _ => concurrent(c, i, r),
  });
  c.add("delays", vh::jitter::hits());
}

fn sequential(c: &Check, case: u64, r: &mut Rng) {
  let count = 1 + r.idx(6);
  let cap = *r.pick(&[0usize, 1, 10, 100, 1000]);
  let (tx, rx) = channel::<Msg>(count, cap);
  let mut txs = vec![tx];
  let mut rx = Some(rx);
  let mut held: VecDeque<Msg> = VecDeque::new();
  let mut hist = vec![];
  for n in 0 .. r.range(5, 60) as usize {
    let bytes: usize = held.iter().map(|m| m.size).sum();
    match r.below(20) {
      0 => { let t = txs[0].clone(); txs.push(t) },
      1 if r.chance(1, 10) => rx = None,
      2 ..= 8 => if let Some(rx) = &mut rx {
        // Also when it is empty: a receive that is given up takes nothing.
        let got = now_or_never(rx.recv());
        hist.push(format!("recv {got:?}"));
        let want = held.pop_front();
        if !c.ensure(got == want.clone().map(Some), "what is received", || format!("case {case}: limits ({count}, {cap}): {got:?}, expected {want:?} after {hist:?}")) {
          return;
        }
      },
      _ => {
        let m = Msg { id: (0, n), size: size(r, cap) };
        let want = if bytes + m.size > cap { Out::Size } else if rx.is_none() { Out::Closed } else if held.len() >= count { Out::Count } else { Out::Sent };
        let (got, back) = send(r.pick(&txs), m.clone());
        hist.push(format!("send {} {got:?}", m.size));
        let ok = got == want || rx.is_none() && got == Out::Closed;
        c.count(&format!("{got:?} by one thread"));
        if !c.ensure(ok && (got == Out::Sent || back.as_ref() == Some(&m)), "the outcome of a send", || format!("case {case}: limits ({count}, {cap}): {got:?} {back:?}, expected {want:?} after {hist:?}")) {
          return;
        }
        if got == Out::Sent {
          held.push_back(m);
        }
      },
    }
  }
  if let Some(rx) = &mut rx {
    txs.clear();
    for want in held {
      let got = now_or_never(rx.recv());
      c.ensure(got == Some(Some(want.clone())), "what is received", || format!("case {case}: {got:?} at the end, expected {want:?}"));
    }
    let got = now_or_never(rx.recv());
    c.ensure(got == Some(None), "what is received", || format!("case {case}: {got:?} after the last message of senders that are gone"));
  }
  c.eval(Some(vh::hash_of(&(count, cap, &hist))));
}

/// What a message of the logger counts for is no less than what it carries.
fn sizes(c: &Check, case: u64, r: &mut Rng) {
  let text = |r: &mut Rng| -> (LogFieldValue, usize) {
    let n = match r.below(4) { 0 => 0, 1 => 3000 + r.idx(100_000), _ => r.idx(50) };
    if r.bool() { (LogFieldValue::String("x".repeat(n)), n) } else { (LogFieldValue::Bytes(vec![0; n]), n) }
  };
  for _ in 0 .. 20 {
    let mut carried = 0;
    let m = match r.below(6) {
      0 => {
        let (value, n) = text(r);
        let key = "k".repeat(r.idx(2000));
        carried += n + key.len();
        AsyncLogBufferMessage::AddLogField(LogField { key, value })
      },
      1 => {
        let key = "k".repeat(r.idx(2000));
        carried += key.len();
        AsyncLogBufferMessage::RemoveLogField(key)
      },
      2 => AsyncLogBufferMessage::FlushState(r.bool().then(|| bd_completion_sender())),
      _ => {
        let mut some = |r: &mut Rng| {
          (0 .. r.below(5)).map(|_| {
            let (value, n) = text(r);
            let key = "k".repeat(r.idx(30));
            carried += n + key.len();
            AnnotatedLogField { field: LogField { key, value }, kind: if r.bool() { LogFieldKind::Ootb } else { LogFieldKind::Custom } }
          }).collect::<Vec<_>>()
        };
        let (fields, matching_fields) = (some(r), some(r));
        let (message, n) = text(r);
        carried += n;
        AsyncLogBufferMessage::EmitLog(LogLine {
          log_level: log_level::INFO,
          log_type: LogType::Normal,
          message,
          fields,
          matching_fields,
          attributes_overrides: None,
          log_processing_completed_tx: None,
        })
      },
    };
    let counted = m.size();
    c.count("messages sized");
    c.ensure(counted >= carried, "what a message counts for", || format!("case {case}: {carried} bytes of names and values count as {counted}: {m:.200?}"));
    // It is what is taken and given back by the queue.
    let (tx, mut rx) = channel::<AsyncLogBufferMessage>(4, counted);
    let sent = tx.try_send(m).is_ok();
    let over = tx.try_send(AsyncLogBufferMessage::RemoveLogField("k".into())).is_err();
    let back = now_or_never(rx.recv()).flatten().map(|m| tx.try_send(m).is_ok());
    c.ensure(sent && over && back == Some(true), "the bound in bytes", || format!("case {case}: a message of {counted} bytes: sent {sent}, next refused {over}, sent again {back:?}"));
  }
  c.eval(None);
}
fn bd_completion_sender() -> bd_completion::Sender<()> {
  bd_completion::Sender::new().0
}

struct Rec {
  from: u64,
  to: u64,
  msg: Msg,
  out: Out,
}
struct Got {
  from: u64,
  to: u64,
  msg: Msg,
}

fn concurrent(c: &Check, case: u64, r: &mut Rng) {
  let threads = 2 + r.idx(4);
  let count = *r.pick(&[1usize, 2, 3, 8, 1000]);
  let cap = *r.pick(&[10usize, 50, 1000]);
  let (tx, rx) = channel::<Msg>(count, cap);
  let rx = Arc::new(Mutex::new(rx));
  let j = Jitter::start(r.u64(), Duration::from_micros(3 + r.below(60)), Duration::from_micros(15 + r.below(50)));
  for round in 0 .. 3 {
    let per = r.range(2, 40) as usize;
    let receive = round != 0;
    let plans: Vec<Vec<usize>> = (0 .. threads).map(|_| (0 .. per).map(|_| size(r, cap)).collect()).collect();
    let clock = Arc::new(AtomicU64::new(1));
    let tick = |c: &AtomicU64| c.fetch_add(1, Ordering::SeqCst);
    let start = Arc::new(Barrier::new(threads + usize::from(receive)));
    let over = Arc::new(AtomicBool::new(false));
    let hs: Vec<_> = plans
      .into_iter()
      .enumerate()
      .map(|(t, plan)| {
        let (tx, clock, start, h) = (tx.clone(), clock.clone(), start.clone(), j.handle());
        std::thread::spawn(move || {
          let _e = h.enroll();
          start.wait();
          plan
            .into_iter()
            .enumerate()
            .map(|(n, size)| {
              let msg = Msg { id: (t, n), size };
              let from = tick(&clock);
              let (out, back) = send(&tx, msg.clone());
              let to = tick(&clock);
              assert!(out == Out::Sent || back == Some(msg.clone()));
              Rec { from, to, msg, out }
            })
            .collect::<Vec<_>>()
        })
      })
      .collect();
    let receiver = receive.then(|| {
      let (rx, clock, start, h, over) = (rx.clone(), clock.clone(), start.clone(), j.handle(), over.clone());
      std::thread::spawn(move || {
        let _e = h.enroll();
        let mut rx = rx.lock().unwrap();
        start.wait();
        let mut got = vec![];
        loop {
          let last = over.load(Ordering::SeqCst);
          let from = tick(&clock);
          match block_on(rx.recv(), Duration::from_micros(200)) {
            Ok(Some(msg)) => got.push(Got { from, to: tick(&clock), msg }),
            Ok(None) => panic!("the queue ends while there are senders"),
            Err(()) if last => return got,
            Err(()) => {},
          }
        }
      })
    });
    let mut sends = vec![];
    for h in hs {
      sends.extend(h.join().expect("sender"));
    }
    over.store(true, Ordering::SeqCst);
    let mut gots = receiver.map(|h| h.join().expect("receiver")).unwrap_or_default();
    let left = {
      let mut rx = rx.lock().unwrap();
      drain(&mut rx)
    };
    let end = clock.load(Ordering::SeqCst);
    gots.extend(left.into_iter().map(|msg| Got { from: end, to: end + 1, msg }));
    judge(c, case, count, cap, &sends, &gots);
    c.saw("interleavings", &sends.iter().map(|s| (s.from, s.out as u8)).collect::<Vec<_>>());
    // Nothing is held: exactly the limits fit again.
    let mut rx = rx.lock().unwrap();
    let (a, _) = send(&tx, Msg { id: (99, 0), size: cap + 1 });
    let (b, _) = send(&tx, Msg { id: (99, 1), size: cap });
    let (d, _) = send(&tx, Msg { id: (99, 2), size: 1 });
    let mut fit = 1;
    while send(&tx, Msg { id: (99, 3), size: 0 }).0 == Out::Sent {
      fit += 1;
    }
    drain(&mut rx);
    c.ensure((a, b, d, fit) == (Out::Size, Out::Sent, Out::Size, count), "space is given back", || {
      format!("case {case}: of an empty queue of ({count}, {cap}) after round {round}: {a:?} for {}, {b:?} for {cap}, {d:?} for 1 more, and {fit} messages", cap + 1)
    });
  }
  c.eval(Some(vh::hash_of(&(case, threads))));
}

/// A message whose life is seen from outside.
struct Live(Arc<()>);
impl MemorySized for Live {
  fn size(&self) -> usize {
    1
  }
}
impl std::fmt::Display for Live {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "live")
  }
}

/// The receiver goes away while threads send: what it has not received is dropped then, and is not
/// kept for as long as there are senders.
fn ending(c: &Check, case: u64, r: &mut Rng) {
  let j = Jitter::start(r.u64(), Duration::from_micros(3 + r.below(60)), Duration::from_micros(15 + r.below(50)));
  for _ in 0 .. 60 {
    let threads = 1 + r.idx(4);
    let (tx, mut rx) = channel::<Live>(100_000, 100_000);
    let token = Arc::new(());
    let start = Arc::new(Barrier::new(threads + 1));
    let hs: Vec<_> = (0 .. threads)
      .map(|_| {
        let (tx, token, start, h) = (tx.clone(), token.clone(), start.clone(), j.handle());
        std::thread::spawn(move || {
          let _e = h.enroll();
          start.wait();
          let mut sent = 0u64;
          let end = Instant::now() + Duration::from_secs(10);
          loop {
            match tx.try_send(Live(token.clone())) {
              Ok(()) => sent += 1,
              Err(TrySendError::Closed(_)) => return Some(sent),
              Err(_) if Instant::now() < end => {},
              Err(_) => return None,
            }
          }
        })
      })
      .collect();
    let (some, wait) = (r.idx(40), r.below(60));
    start.wait();
    let end = Instant::now() + Duration::from_micros(wait);
    while Instant::now() < end {
      std::hint::spin_loop();
    }
    for _ in 0 .. some {
      let _ = now_or_never(rx.recv());
    }
    drop(rx);
    let sent: Vec<_> = hs.into_iter().map(|h| h.join().expect("sender")).collect();
    c.count("receivers gone under senders");
    c.add("sent around the end", sent.iter().flatten().sum());
    if !c.ensure(sent.iter().all(Option::is_some), "a queue without a receiver is closed", || format!("case {case}: {sent:?}")) {
      return;
    }
    let kept = Arc::strong_count(&token) - 1;
    if !c.ensure(kept == 0, "nothing is kept without a receiver", || format!("case {case}: {kept} messages are alive after the receiver and every send, of {sent:?}")) {
      return;
    }
    drop(tx);
  }
}

fn drain(rx: &mut Receiver<Msg>) -> Vec<Msg> {
  let mut v = vec![];
  while let Some(Some(m)) = now_or_never(rx.recv()) {
    v.push(m);
  }
  v
}

fn judge(c: &Check, case: u64, count: usize, cap: usize, sends: &[Rec], gots: &[Got]) {
  let show = || {
    let mut v: Vec<_> = sends.iter().map(|s| (s.from, s.to, format!("{:?}:{} {:?}", s.msg.id, s.msg.size, s.out))).collect();
    v.extend(gots.iter().map(|g| (g.from, g.to, format!("got {:?}", g.msg.id))));
    v.sort();
    format!("case {case}: limits ({count}, {cap}): {v:?}").chars().take(3000).collect::<String>()
  };
  // Once, in order per sender, what was sent.
  let mut last = std::collections::HashMap::new();
  for g in gots {
    let n = last.insert(g.msg.id.0, g.msg.id.1);
    if !c.ensure(n.is_none_or(|n| n < g.msg.id.1), "order per sender", || format!("{:?} after {n:?}; {}", g.msg.id, show())) {
      return;
    }
  }
  let sent: Vec<&Rec> = sends.iter().filter(|s| s.out == Out::Sent).collect();
  let mut a: Vec<_> = sent.iter().map(|s| s.msg.id).collect();
  let mut b: Vec<_> = gots.iter().map(|g| g.msg.id).collect();
  a.sort_unstable();
  b.sort_unstable();
  if !c.ensure(a == b, "accepted messages are received once", || show()) {
    return;
  }
  c.add("accepted by racing threads", sent.len() as u64);
  let got = |id: (usize, usize)| gots.iter().find(|g| g.msg.id == id).unwrap();
  let life: Vec<(u64, u64, u64, u64, usize)> = sent.iter().map(|s| { let g = got(s.msg.id); (s.from, s.to, g.from, g.to, s.msg.size) }).collect();
  // The least that can be held right after each accepted send.
  for s in &sent {
    let held = || life.iter().filter(|l| l.1 <= s.to && l.2 > s.to);
    let (n, bytes) = (held().count(), held().map(|l| l.4).sum::<usize>());
    if !c.ensure(n <= count && bytes <= cap, "the limits", || format!("{n} messages of {bytes} bytes at {}; {}", s.to, show())) {
      return;
    }
  }
  for s in sends.iter().filter(|s| s.out != Out::Sent) {
    let held = || life.iter().filter(|l| l.0 <= s.to && l.3 >= s.from);
    let ok = match s.out {
      Out::Count => { c.count("refused for their number"); held().count() >= count },
      Out::Size => {
        c.count("refused for their bytes");
        let under_way: usize = sends.iter().filter(|o| o.out != Out::Sent && o.msg.id != s.msg.id && o.from <= s.to && o.to >= s.from).map(|o| o.msg.size).sum();
        held().map(|l| l.4).sum::<usize>() + under_way + s.msg.size > cap
      },
      _ => false,
    };
    if !c.ensure(ok, "refusals", || format!("{:?} {:?} while it fits; {}", s.msg, s.out, show())) {
      return;
    }
  }
}
