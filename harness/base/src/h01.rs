//! Component shutdown.
use bd_shutdown::{ComponentShutdown, ComponentShutdownTrigger, ComponentStatus};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::future::Future;
use std::sync::Arc;
use std::time::{Duration, Instant};
use vh::{logcap, Check, Rng};

#[derive(Default)]
struct Seen {
  triggered: AtomicBool,
  returned: AtomicBool,
  /// Tokens that have not started to be dropped.
  live: AtomicI64,
  early: AtomicU64,
  missed: AtomicU64,
  observed: AtomicU64,
  before_trigger: AtomicU64,
  hung: AtomicU64,
}

struct Tok {
  t: ComponentShutdown,
  s: Arc<Seen>,
}
impl Tok {
  fn new(t: ComponentShutdown, s: &Arc<Seen>) -> Self {
    s.live.fetch_add(1, Ordering::SeqCst);
    Self { t, s: s.clone() }
  }
  fn dup(&self) -> Self {
    Self::new(self.t.clone(), &self.s)
  }
  fn status(&self) -> bool {
    let on = self.t.component_status() == ComponentStatus::PendingShutdown;
    if on && !self.s.triggered.load(Ordering::SeqCst) {
      self.s.before_trigger.fetch_add(1, Ordering::SeqCst);
    }
    on
  }
  fn woke(&self) {
    if !self.s.triggered.load(Ordering::SeqCst) {
      self.s.before_trigger.fetch_add(1, Ordering::SeqCst);
    }
    if self.t.component_status() != ComponentStatus::PendingShutdown {
      self.s.missed.fetch_add(1, Ordering::SeqCst);
    }
    self.s.observed.fetch_add(1, Ordering::SeqCst);
  }
}
impl Drop for Tok {
  fn drop(&mut self) {
    self.s.live.fetch_sub(1, Ordering::SeqCst);
  }
}

const LONG: Duration = Duration::from_secs(40);

fn boxed(
  t: Tok,
  seed: u64,
  handle: Option<bd_shutdown::ComponentShutdownTriggerHandle>,
  depth: u32,
) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> {
  Box::pin(component(t, seed, handle, depth))
}

async fn component(mut t: Tok, seed: u64, handle: Option<bd_shutdown::ComponentShutdownTriggerHandle>, depth: u32) {
  let mut r = Rng::new(seed);
  let s = t.s.clone();
  let mut children = vec![];
  for _ in 0 .. r.range(0, 5) {
    match r.below(8) {
      0 => tokio::task::yield_now().await,
      1 => tokio::time::sleep(Duration::from_micros(r.below(800))).await,
      2 if depth < 3 => {
        // A child, from a clone.
        let (d, seed) = (t.dup(), r.u64());
        children.push(tokio::spawn(boxed(d, seed, handle.clone(), depth + 1)));
      },
      3 if depth < 3 => {
        // A child, through the handle, while this token holds the trigger.
        if let Some(h) = &handle {
          let d = Tok::new(h.make_shutdown(), &s);
          let seed = r.u64();
          children.push(tokio::spawn(boxed(d, seed, handle.clone(), depth + 1)));
        }
      },
      4 => {
        // A wait that is given up and started again.
        for _ in 0 .. r.range(1, 3) {
          if tokio::time::timeout(Duration::from_micros(r.below(600)), t.t.cancelled()).await.is_ok() {
            t.woke();
          }
        }
      },
      5 => {
        // A clone that waits for nothing.
        let d = t.dup();
        d.status();
        drop(d);
      },
      6 => {
        t.status();
      },
      _ => {
        // Gone before the end.
        if r.chance(1, 4) {
          return;
        }
      },
    }
  }
  if r.chance(1, 8) {
    // Holds its token without waiting, until it is told otherwise.
    let t0 = Instant::now();
    while !t.status() && t0.elapsed() < LONG {
      tokio::time::sleep(Duration::from_micros(300)).await;
    }
    if !t.status() {
      s.hung.fetch_add(1, Ordering::SeqCst);
    }
    s.observed.fetch_add(1, Ordering::SeqCst);
  } else if tokio::time::timeout(LONG, t.t.cancelled()).await.is_err() {
    s.hung.fetch_add(1, Ordering::SeqCst);
  } else {
    t.woke();
    // Again, and through a clone, and through a clone's fresh wait.
    let mut d = t.dup();
    for _ in 0 .. 2 {
      if tokio::time::timeout(LONG, t.t.cancelled()).await.is_err() || tokio::time::timeout(LONG, d.t.cancelled()).await.is_err() {
        s.hung.fetch_add(1, Ordering::SeqCst);
      }
    }
  }
  // Some linger after they have seen it.
  if r.chance(1, 3) {
    tokio::time::sleep(Duration::from_micros(r.below(3000))).await;
  }
  for ch in children {
    if r.bool() {
      let _ = ch.await;
    }
  }
  // Checked as long as a token is held: the trigger must still be waiting.
  if s.returned.load(Ordering::SeqCst) {
    s.early.fetch_add(1, Ordering::SeqCst);
  }
  drop(t);
}

pub fn run(c: &Check) {
  c.rule("cases are trees of tokens over tasks and threads, with a trigger pulled at a random time; non-trivial: at least one token observed the shutdown; distinct by the seed of the tree and what was observed");
  logcap::install(log::LevelFilter::Off);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
  // Meanwhile: tokens that are held long, and waits that last long.
  let waits: Vec<u64> = if c.thorough() { vec![3, 7, 13, 31, 35, 62, 66, 125] } else { vec![2, 4, 7, 11, 13] };
  let waits = waits.into_iter().map(|s| (s, std::thread::spawn(move || long(s)))).collect::<Vec<_>>();
  c.cases(c.n(2_500, 100_000), Duration::from_secs(c.n(8, 900)), |case, r| {
    let s = Arc::new(Seen::default());
    let trigger = ComponentShutdownTrigger::default();
    let handles: Vec<_> = (0 .. r.below(3)).map(|_| trigger.make_handle()).collect();
    let blocking = r.chance(1, 40);
    // Told only.
    let told = !blocking && r.chance(1, 6);
    let n = r.below(6);
    let mut tasks = vec![];
    let mut threads = vec![];
    for _ in 0 .. n {
      let t = match handles.last() {
        Some(h) if r.bool() => Tok::new(h.make_shutdown(), &s),
        _ => Tok::new(trigger.make_shutdown(), &s),
      };
      let (seed, h) = (r.u64(), handles.last().filter(|_| r.bool()).cloned());
      if r.chance(1, 5) {
        threads.push(std::thread::spawn(move || {
          tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(component(t, seed, h, 2));
        }));
      } else {
        tasks.push(rt.spawn(component(t, seed, h, 0)));
      }
    }
    // A token that is never used, dropped before or after the trigger.
    let idle = r.chance(1, 4).then(|| Tok::new(trigger.make_shutdown(), &s));
    if r.bool() {
      std::thread::sleep(Duration::from_micros(r.below(900)));
    }
    let (s2, rh) = (s.clone(), rt.handle().clone());
    let puller = std::thread::spawn(move || {
      s2.triggered.store(true, Ordering::SeqCst);
      if blocking {
        trigger.shutdown_blocking();
      } else if told {
        trigger.shutdown_nonblocking();
        return 0;
      } else {
        rh.block_on(trigger.shutdown());
      }
      let live = s2.live.load(Ordering::SeqCst);
      s2.returned.store(true, Ordering::SeqCst);
      live
    });
    if let Some(t) = idle {
      let t0 = Instant::now();
      while !t.status() && t0.elapsed() < LONG {
        std::thread::sleep(Duration::from_micros(100));
      }
      c.ensure(t.status(), "unseen", || format!("case {case}: a token does not show the shutdown"));
      std::thread::sleep(Duration::from_micros(r.below(if blocking { 150_000 } else { 2_500 })));
      c.ensure(!s.returned.load(Ordering::SeqCst), "early-return", || format!("case {case}: the trigger returned while a token was held"));
    }
    // Handles do not hold the trigger back.
    let t0 = Instant::now();
    while !puller.is_finished() && t0.elapsed() < LONG * 2 {
      std::thread::sleep(Duration::from_micros(50));
    }
    if told {
      c.ensure(t0.elapsed() < LONG / 2, "hang", || format!("case {case}: a trigger that does not wait took {:?}", t0.elapsed()));
    }
    if !puller.is_finished() {
      c.violation("hang", &format!("case {case}: the trigger has not returned, {} tokens are live, {} handles, blocking {blocking}", s.live.load(Ordering::SeqCst), handles.len()));
      return;
    }
    let live = puller.join().unwrap();
    c.ensure(live == 0, "early-return", || format!("case {case}: the trigger returned with {live} tokens alive (blocking {blocking})"));
    // A token made afterwards shows the shutdown at once.
    for h in &handles {
      let mut t = h.make_shutdown();
      let ok = t.component_status() == ComponentStatus::PendingShutdown
        && rt.block_on(async { tokio::time::timeout(LONG, t.cancelled()).await.is_ok() });
      c.ensure(ok, "late-token", || format!("case {case}: a token made after shutdown does not show it"));
    }
    for t in threads {
      t.join().unwrap();
    }
    rt.block_on(async {
      for t in tasks {
        t.await.unwrap();
      }
    });
    let g = |a: &AtomicU64| a.load(Ordering::SeqCst);
    c.ensure(g(&s.hung) == 0, "unseen", || format!("case {case}: {} waits did not end", g(&s.hung)));
    c.ensure(g(&s.early) == 0, "early-return", || format!("case {case}: the trigger returned while tokens were held, or one showed it early"));
    c.ensure(g(&s.before_trigger) == 0, "premature", || format!("case {case}: a wait ended before the trigger"));
    c.ensure(g(&s.missed) == 0, "status", || format!("case {case}: a wait ended but the status is still running"));
    let o = g(&s.observed);
    c.add("tokens_that_observed_it", o);
    c.count(if blocking { "blocking_triggers" } else if told { "nonblocking_triggers" } else { "async_triggers" });
    c.eval((o > 0).then(|| vh::hash_of(&(case, o, n))));
  });
  for k in 0 .. c.n(24, 200) {
    signals(c, k);
  }
  // Nothing held: at once.
  for blocking in [false, true] {
    let t = ComponentShutdownTrigger::default();
    let _h = t.make_handle();
    drop(t.make_shutdown());
    let p = { let rh = rt.handle().clone(); std::thread::spawn(move || if blocking { t.shutdown_blocking() } else { rh.block_on(t.shutdown()) }) };
    let t0 = Instant::now();
    while !p.is_finished() && t0.elapsed() < LONG {
      std::thread::sleep(Duration::from_millis(1));
    }
    c.ensure(p.is_finished(), "hang", || format!("the trigger hangs with no token (blocking {blocking})"));
  }
  for (s, t) in waits {
    c.add("long waits", 4);
    for e in t.join().unwrap() {
      c.violation("long-wait", &format!("after {s} s: {e}"));
    }
  }
  for n in [1usize, 7, 64, 300] {
    many(c, n, &rt);
  }
}

/// Tokens dropped `secs` after the trigger was pulled, and triggers pulled `secs` after the waits began.
fn long(secs: u64) -> Vec<String> {
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let mut bad = vec![];
  let wait = Duration::from_secs(secs);
  let mut pulls = vec![];
  for blocking in [false, true] {
    // The token is held for long.
    let t = ComponentShutdownTrigger::default();
    let token = t.make_shutdown();
    let rh = rt.handle().clone();
    let p = std::thread::spawn(move || if blocking { t.shutdown_blocking() } else { rh.block_on(t.shutdown()) });
    pulls.push((blocking, token, p));
  }
  let late = ComponentShutdownTrigger::default();
  let mut waiting = late.make_shutdown();
  let woken = Arc::new(AtomicBool::new(false));
  let w = woken.clone();
  let waiter = rt.spawn(async move {
    waiting.cancelled().await;
    w.store(true, Ordering::SeqCst);
    waiting.component_status()
  });
  std::thread::sleep(wait);
  if woken.load(Ordering::SeqCst) {
    bad.push("a wait ended without the trigger".to_string());
  }
  for (blocking, token, p) in pulls {
    if p.is_finished() {
      bad.push(format!("the trigger returned while a token was held (blocking {blocking})"));
    }
    drop(token);
    let t0 = Instant::now();
    while !p.is_finished() && t0.elapsed() < LONG {
      std::thread::sleep(Duration::from_millis(2));
    }
    if !p.is_finished() {
      bad.push(format!("the trigger has not returned after the last token (blocking {blocking})"));
    }
  }
  rt.block_on(async {
    if tokio::time::timeout(LONG, late.shutdown()).await.is_err() {
      bad.push("the late trigger has not returned".to_string());
    } else if waiter.await.unwrap() != ComponentStatus::PendingShutdown {
      bad.push("the late wait ended without the shutdown".to_string());
    }
  });
  bad
}

/// Many tokens at once, each dropped when it sees the shutdown, the last one later.
fn many(c: &Check, n: usize, rt: &tokio::runtime::Runtime) {
  let t = ComponentShutdownTrigger::default();
  let h = t.make_handle();
  let dropped = Arc::new(AtomicU64::new(0));
  let tasks: Vec<_> = (0 .. n)
    .map(|i| {
      let (mut token, d) = (if i % 2 == 0 { h.make_shutdown() } else { t.make_shutdown() }, dropped.clone());
      rt.spawn(async move {
        token.cancelled().await;
        if i == 0 {
          tokio::time::sleep(Duration::from_millis(20)).await;
        }
        d.fetch_add(1, Ordering::SeqCst);
        drop(token);
      })
    })
    .collect();
  std::thread::sleep(Duration::from_millis(2));
  let r = rt.block_on(async { tokio::time::timeout(LONG, t.shutdown()).await });
  let d = dropped.load(Ordering::SeqCst);
  c.ensure(r.is_ok() && d == n as u64, "many", || format!("{n} tokens: {r:?}, {d} of them had been dropped"));
  rt.block_on(async {
    for t in tasks {
      let _ = t.await;
    }
  });
}

/// The wait for a signal, in a process of its own.
fn signals(c: &Check, k: u64) {
  let how = format!("{k}");
  let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["child", "H01", &how]).output().expect("child");
  let out = String::from_utf8_lossy(&o.stdout).into_owned();
  c.ensure(o.status.success() && out.trim() == "OK", "signal", || format!("way {k}: {out} {} {}", o.status, String::from_utf8_lossy(&o.stderr)));
  c.count("signals");
}

pub fn child(a: &[String]) {
  use std::os::unix::process::CommandExt as _;
  let k: u64 = a[0].parse().unwrap();
  let (name, multi, waiters, delay) = (if k % 2 == 0 { "TERM" } else { "INT" }, k / 2 % 2 == 0, 1 + k / 4 % 3, k / 12 % 3);
  let mut b = if multi { tokio::runtime::Builder::new_multi_thread() } else { tokio::runtime::Builder::new_current_thread() };
  let rt = b.worker_threads(2).enable_all().build().unwrap();
  let raise = || {
    let s = std::process::Command::new("/bin/sh").arg0("sh").args(["-c", &format!("kill -{name} {}", std::process::id())]).status().unwrap();
    assert!(s.success());
  };
  rt.block_on(async {
    let mut all: Vec<_> = (0 .. waiters).map(|_| Box::pin(bd_shutdown::real_graceful_shutdown())).collect();
    for w in &mut all {
      // From the first poll on nothing is missed.
      if std::future::poll_fn(|cx| std::task::Poll::Ready(w.as_mut().poll(cx).is_ready())).await {
        println!("it ended without a signal");
        std::process::exit(1);
      }
    }
    if delay > 0 {
      let _ = tokio::time::timeout(Duration::from_millis(20 * delay), &mut all[0]).await.is_ok().then(|| println!("ended early"));
    }
    // Others do not count.
    let _ = std::process::Command::new("/bin/sh").args(["-c", &format!("kill -CONT {}", std::process::id())]).status();
    raise();
    if waiters == 2 || k % 5 == 0 {
      // It may come while nobody polls.
      tokio::time::sleep(Duration::from_millis(20)).await;
    }
    for w in all {
      if tokio::time::timeout(Duration::from_secs(20), w).await.is_err() {
        println!("SIG{name} was missed");
        std::process::exit(1);
      }
    }
    // The next wait is for the next one.
    let mut next = Box::pin(bd_shutdown::real_graceful_shutdown());
    if tokio::time::timeout(Duration::from_millis(5), &mut next).await.is_ok() {
      println!("a wait ended by a signal before it");
      std::process::exit(1);
    }
    raise();
    if tokio::time::timeout(Duration::from_secs(20), next).await.is_err() {
      println!("the second SIG{name} was missed");
      std::process::exit(1);
    }
  });
  println!("OK");
}
