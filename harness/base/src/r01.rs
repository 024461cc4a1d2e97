//! The watched configuration file.
use bd_runtime_config::loader::{ConfigPtr, Loader, StatsCallbacks, WatchedFileLoader};
use serde::Deserialize;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use vh::{logcap, Check, Rng, Scratch};

#[derive(Deserialize, Debug, Clone)]
struct Ser {
  version: u64,
  fill: String,
  tail: u64,
}
#[derive(Debug, PartialEq)]
struct Conf {
  version: u64,
  ok: bool,
}

#[derive(Clone, Default)]
struct St {
  good: Arc<AtomicU64>,
  bad: Arc<AtomicU64>,
  io: Arc<AtomicU64>,
}
impl StatsCallbacks for St {
  fn on_deserialize_success(&self) {
    self.good.fetch_add(1, Ordering::SeqCst);
  }
  fn on_deserialize_failure(&self) {
    self.bad.fetch_add(1, Ordering::SeqCst);
  }
  fn on_io_failure(&self) {
    self.io.fetch_add(1, Ordering::SeqCst);
  }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Kind {
  Good,
  Malformed,
  Missing,
}

fn content(r: &mut Rng, k: Kind, v: u64) -> Vec<u8> {
  let fill = "f".repeat(r.idx(6) * 3000);
  match k {
    Kind::Good => format!("version: {v}\nfill: \"{fill}\"\ntail: {v}\n").into_bytes(),
    _ => match r.below(6) {
      0 => vec![],
      1 => b"version: [".to_vec(),
      2 => format!("version: {v}\nfill: \"{fill}\"\n").into_bytes(),
      3 => format!("version: x\nfill: a\ntail: {v}\n").into_bytes(),
      4 => format!("version: {v}\nfill: \"{fill}\ntail: {v}").into_bytes(),
      _ => b"\t: : :".to_vec(),
    },
  }
}

/// Puts versions of the file in place by renames in the watched directory.
struct Site {
  dir: PathBuf,
  links: bool,
  n: u64,
}
impl Site {
  fn file(&self) -> PathBuf {
    self.dir.join("conf.yaml")
  }
  fn put(&mut self, r: &mut Rng, k: Kind, v: u64) {
    self.n += 1;
    let body = content(r, k, v);
    if self.links {
      // As Kubernetes does it: a fresh directory, then the link to it is exchanged.
      let d = self.dir.join(format!("..{}", self.n));
      std::fs::create_dir(&d).unwrap();
      if k != Kind::Missing {
        std::fs::write(d.join("conf.yaml"), body).unwrap();
      }
      let tmp = self.dir.join("..tmp");
      symlink(&d, &tmp).unwrap();
      std::fs::rename(&tmp, self.dir.join("..data")).unwrap();
      if self.n > 3 {
        let _ = std::fs::remove_dir_all(self.dir.join(format!("..{}", self.n - 3)));
      }
    } else if k == Kind::Missing {
      let _ = std::fs::rename(self.file(), self.dir.join("gone"));
    } else {
      let tmp = self.dir.join("new");
      std::fs::write(&tmp, body).unwrap();
      std::fs::rename(&tmp, self.file()).unwrap();
    }
  }
}

fn conv(fallback: bool) -> impl Fn(Option<Ser>) -> ConfigPtr<Conf> + Send + 'static {
  move |s| match s {
    Some(s) => Some(Arc::new(Conf { version: s.version, ok: s.version == s.tail && s.fill.bytes().all(|b| b == b'f') })),
    None if fallback => Some(Arc::new(Conf { version: u64::MAX, ok: true })),
    None => None,
  }
}

/// Waits in vain for that long once; the verdict is then clear, and the rest is brief.
fn wait(d: u64, mut f: impl FnMut() -> bool) -> bool {
  static IN_VAIN: AtomicU64 = AtomicU64::new(0);
  let t0 = Instant::now();
  let d = if IN_VAIN.load(Ordering::SeqCst) > 0 { 1 } else { d };
  loop {
    if f() {
      return true;
    }
    if t0.elapsed() > Duration::from_secs(d) {
      IN_VAIN.store(1, Ordering::SeqCst);
      return f();
    }
    std::thread::sleep(Duration::from_micros(150));
  }
}

fn view(w: &tokio::sync::watch::Receiver<ConfigPtr<Conf>>) -> Option<u64> {
  w.borrow().as_ref().map(|c| c.version)
}

fn one(c: &Check, rt: &tokio::runtime::Runtime, case: u64, r: &mut Rng) {
  let dir = Scratch::new();
  let fallback = r.bool();
  let none = fallback.then_some(u64::MAX);
  let expected = |k: Kind, v: u64| if k == Kind::Good { Some(v) } else { none };
  let mut site = Site { dir: dir.path().to_path_buf(), links: r.bool(), n: 0 };
  let pick = |r: &mut Rng| match r.below(10) {
    0 | 1 => Kind::Malformed,
    2 => Kind::Missing,
    _ => Kind::Good,
  };
  if site.links {
    symlink("..data/conf.yaml", site.file()).unwrap();
  }
  let mut k = pick(r);
  let mut v = 1;
  site.put(r, k, v);
  let st = St::default();
  let l: Arc<dyn Loader<Conf>> = WatchedFileLoader::new_loader(&site.dir, site.file(), conv(fallback), st.clone()).expect("loader");
  let first = l.snapshot_watch();
  c.ensure(view(&first) == expected(k, v), "first-load", || format!("case {case}: the first load of a {k:?} file shows {:?}", *first.borrow()));
  let slow = r.bool();
  let mut history = vec![(k, site.links, slow)];
  let stop = Arc::new(AtomicBool::new(false));
  let pollers: Vec<_> = (0 .. r.range(1, 3)).map(|i| {
    let (l, stop) = (l.clone(), stop.clone());
    let fresh = i > 0;
    std::thread::spawn(move || {
      let mut w = l.snapshot_watch();
      let (mut seen, mut last, mut bad) = (0u64, 0u64, None);
      while !stop.load(Ordering::Relaxed) {
        if fresh {
          w = l.snapshot_watch();
        }
        if let Some(x) = w.borrow_and_update().as_ref() {
          if !x.ok {
            bad = Some(format!("a mixed version was shown: {x:?}"));
          } else if x.version != u64::MAX {
            if x.version < last {
              bad = Some(format!("version {} was shown after {last}", x.version));
            }
            seen += u64::from(x.version != last);
            last = x.version;
          }
        }
        std::thread::yield_now();
      }
      (seen, bad)
    })
  }).collect();
  let mut late: Option<tokio::sync::watch::Receiver<_>> = None;
  let n = if slow { r.range(1, 6) } else { r.range(2, 60) };
  for _ in 0 .. n {
    k = pick(r);
    v += 1;
    let before = [&st.good, &st.bad, &st.io].map(|a| a.load(Ordering::SeqCst));
    let was_missing = !site.file().exists();
    site.put(r, k, v);
    history.push((k, false, false));
    if slow {
      // A file that is moved away twice does not move the second time.
      if k == Kind::Missing && was_missing && !site.links {
        continue;
      }
      let i = match k {
        Kind::Good => 0,
        Kind::Malformed => 1,
        Kind::Missing => 2,
      };
      let a = [&st.good, &st.bad, &st.io][i];
      c.ensure(wait(30, || a.load(Ordering::SeqCst) > before[i]), "not-counted", || {
        format!("case {case}: replacement by a {k:?} file was not counted within 30 s, history {history:?}")
      });
      c.ensure(wait(30, || view(&first) == expected(k, v)), "not-shown", || {
        format!("case {case}: 30 s after replacement by a {k:?} file, version {v}, the view is {:?}, history {history:?}", *first.borrow())
      });
      c.count("replacements_awaited");
    } else if r.chance(1, 10) {
      std::thread::sleep(Duration::from_micros(r.below(1500)));
    }
    if late.is_none() && r.chance(1, 3) {
      late = Some(l.snapshot_watch());
    }
    c.count("replacements");
  }
  let views: Vec<_> = [Some(first.clone()), late, Some(l.snapshot_watch())].into_iter().flatten().collect();
  for w in &views {
    c.ensure(wait(30, || view(w) == expected(k, v)), "no-convergence", || {
      format!("case {case}: 30 s after the last of {n} replacements ({k:?}, version {v}) a view is {:?}", *w.borrow())
    });
  }
  stop.store(true, Ordering::Relaxed);
  for p in pollers {
    let (seen, bad) = p.join().unwrap();
    c.add("versions_seen_by_pollers", seen);
    if let Some(b) = bad {
      c.violation("order", &format!("case {case}: {b}, history {history:?}"));
    }
  }
  // Shutdown, several times, some of them at once.
  let racing = r.bool();
  let done = rt.block_on(async {
    tokio::time::timeout(Duration::from_secs(60), async {
      if racing {
        let (a, b) = (l.clone(), l.clone());
        let (x, y) = tokio::join!(tokio::spawn(async move { a.shutdown().await }), tokio::spawn(async move { b.shutdown().await }));
        x.unwrap();
        y.unwrap();
      }
      l.shutdown().await;
      l.shutdown().await;
    })
    .await
  });
  c.ensure(done.is_ok(), "shutdown", || format!("case {case}: shutdown takes over 60 s"));
  let loads = [&st.good, &st.bad, &st.io].map(|a| a.load(Ordering::SeqCst));
  site.put(r, Kind::Good, 1_000_000);
  std::thread::sleep(Duration::from_millis(r.below(12)));
  c.ensure(view(&first) == expected(k, v) && loads == [&st.good, &st.bad, &st.io].map(|a| a.load(Ordering::SeqCst)), "after-shutdown", || {
    format!("case {case}: after shutdown the view went from version {v} to {:?}", *first.borrow())
  });
  c.count("shutdowns");
  c.eval(Some(vh::hash_of(&history)));
  c.sample(|| format!("links {}, fallback {fallback}: {history:?}", site.links));
}

/// Lots of other events in the directory while the loader is busy.
fn storm(c: &Check, rt: &tokio::runtime::Runtime, r: &mut Rng, files: usize) {
  let dir = Scratch::new();
  let mut site = Site { dir: dir.path().to_path_buf(), links: false, n: 0 };
  site.put(r, Kind::Good, 1);
  let gate = Arc::new((Mutex::new(false), Condvar::new()));
  let (g, f) = (gate.clone(), conv(false));
  let l: Arc<dyn Loader<Conf>> = WatchedFileLoader::new_loader(
    &site.dir,
    site.file(),
    move |s: Option<Ser>| {
      let mut shut = g.0.lock().unwrap();
      while *shut {
        shut = g.1.wait(shut).unwrap();
      }
      f(s)
    },
    St::default(),
  )
  .expect("loader");
  let w = l.snapshot_watch();
  *gate.0.lock().unwrap() = true;
  site.put(r, Kind::Good, 2);
  std::thread::sleep(Duration::from_millis(30));
  let other = site.dir.join("other");
  for i in 0 .. files {
    if i % 500 == 0 {
      c.count("storm_progress");
    }
    std::fs::write(&other, b"x").unwrap();
  }
  site.put(r, Kind::Good, 3);
  *gate.0.lock().unwrap() = false;
  gate.1.notify_all();
  c.ensure(wait(60, || view(&w) == Some(3)), "storm", || {
    format!("60 s after the last replacement, made while {files} other writes to the directory were pending, the view is {:?}", *w.borrow())
  });
  site.put(r, Kind::Good, 4);
  c.ensure(wait(60, || view(&w) == Some(4)), "after-storm", || format!("after the storm a replacement is not seen: {:?}", *w.borrow()));
  c.add("other_events", files as u64);
  rt.block_on(l.shutdown());
  c.eval(Some(files as u64));
}

/// Replacements made while a load is under way, that of the loader's start included.
fn during(c: &Check, rt: &tokio::runtime::Runtime, case: u64, r: &mut Rng) {
  let dir = Scratch::new();
  let mut site = Site { dir: dir.path().to_path_buf(), links: r.bool(), n: 0 };
  if site.links {
    symlink("..data/conf.yaml", site.file()).unwrap();
  }
  let first = *r.pick(&[Kind::Good, Kind::Malformed, Kind::Missing]);
  site.put(r, first, 1);
  let (last, f, file, links) = (1 + r.range(1, 8) as u64, conv(false), site.file(), site.links);
  let skip = r.bool();
  let site = Mutex::new((site, 1u64, Rng::new(r.below(1 << 40))));
  let l: Arc<dyn Loader<Conf>> = WatchedFileLoader::new_loader(
    dir.path(),
    file,
    move |s: Option<Ser>| {
      let mut g = site.lock().unwrap();
      let (site, v, r) = &mut *g;
      // The contents were read, and are out of date by the time they are in force.
      while *v < last {
        *v += 1;
        site.put(r, Kind::Good, *v);
        if !skip {
          break;
        }
      }
      f(s)
    },
    St::default(),
  )
  .expect("loader");
  let w = l.snapshot_watch();
  c.ensure(wait(30, || view(&w) == Some(last)), "during-load", || {
    format!("case {case}: 30 s after the last of {} replacements (links {links}, at first {first:?}), each made while a load was under way, the view is {:?}", last - 1, *w.borrow())
  });
  c.add("replacements_during_a_load", last - 1);
  rt.block_on(l.shutdown());
  c.eval(Some(vh::hash_of(&(format!("{first:?}"), links, last, skip))));
}

pub fn run(c: &Check) {
  c.rule("cases are histories of good, malformed and missing files put in place by renames, slow or at full speed, ended by shutdown; all non-trivial; distinct by history");
  c.assume("a renamed directory entry is announced by the kernel in order");
  logcap::install(log::LevelFilter::Off);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
  let _g = rt.enter();
  c.cases(c.n(160, 6_000), Duration::from_secs(c.n(12, 900)), |case, r| one(c, &rt, case, r));
  let mut r = Rng::new(c.seed);
  for case in 0 .. c.n(40, 1000) {
    c.now(|| format!("replacement during load {case}"));
    during(c, &rt, case, &mut r);
  }
  for files in [50usize, 12_000] {
    c.now(|| format!("storm of {files}"));
    storm(c, &rt, &mut r, files);
  }
  let _: Option<&Path> = None;
}
