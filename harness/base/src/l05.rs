//! Replacing the log filter at run time. Everything that is written goes to stderr, which this
//! process has redirected to a file.
use bd_log::SwapLogger;
use std::collections::HashMap;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vh::{Check, Rng, Scratch};

const TARGETS: [&str; 6] = ["alpha", "alpha::beta", "alpha::beta::c", "alphabet", "gamma", "zz"];
const LEVELS: [log::Level; 5] =
  [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace];

macro_rules! ev {
  ($t:literal, $l:expr, $id:expr) => {
    match $l {
      0 => tracing::event!(target: $t, tracing::Level::ERROR, "id<{}>", $id),
      1 => tracing::event!(target: $t, tracing::Level::WARN, "id<{}>", $id),
      2 => tracing::event!(target: $t, tracing::Level::INFO, "id<{}>", $id),
      3 => tracing::event!(target: $t, tracing::Level::DEBUG, "id<{}>", $id),
      _ => tracing::event!(target: $t, tracing::Level::TRACE, "id<{}>", $id),
    }
  };
}
/// One record through one of the two interfaces.
fn emit(tracing_side: bool, t: usize, l: usize, id: u64) {
  if tracing_side {
    match t {
      0 => ev!("alpha", l, id),
      1 => ev!("alpha::beta", l, id),
      2 => ev!("alpha::beta::c", l, id),
      3 => ev!("alphabet", l, id),
      4 => ev!("gamma", l, id),
      _ => ev!("zz", l, id),
    }
  } else {
    log::log!(target: TARGETS[t], LEVELS[l], "id<{id}>");
  }
}

#[derive(Clone, Debug, Hash, PartialEq)]
struct Filter {
  /// Target prefix and how many of LEVELS it admits.
  d: Vec<(Option<&'static str>, usize)>,
}
impl Filter {
  fn new(r: &mut Rng) -> Self {
    let mut d = vec![];
    if r.chance(4, 5) {
      d.push((None, r.idx(6)));
    }
    let mut t: Vec<&'static str> = TARGETS.to_vec();
    t.push("al");
    t.push("nobody");
    r.shuffle(&mut t);
    let n = r.idx(4) + usize::from(d.is_empty());
    for t in t.into_iter().take(n) {
      d.push((Some(t), r.idx(6)));
    }
    r.shuffle(&mut d);
    Self { d }
  }
  fn text(&self, r: &mut Rng) -> String {
    const N: [&str; 6] = ["off", "error", "warn", "info", "debug", "trace"];
    self
      .d
      .iter()
      .map(|(t, l)| {
        let n = if r.chance(1, 5) { N[*l].to_uppercase() } else { N[*l].to_string() };
        match t {
          None => n,
          Some(t) if *l == 5 && r.chance(1, 3) => (*t).to_string(),
          Some(t) => format!("{t}={n}"),
        }
      })
      .collect::<Vec<_>>()
      .join(",")
  }
  fn admits(&self, t: usize, l: usize) -> bool {
    self
      .d
      .iter()
      .filter(|(p, _)| p.is_none_or(|p| TARGETS[t].starts_with(p)))
      .max_by_key(|(p, _)| p.map_or(0, |p| p.len() + 1))
      .is_some_and(|(_, n)| l < *n)
  }
}

struct Out {
  f: std::fs::File,
  at: u64,
}
impl Out {
  /// How often each identifier was written since the last call.
  fn ids(&mut self) -> HashMap<u64, u32> {
    let mut s = vec![];
    self.f.seek(SeekFrom::Start(self.at)).unwrap();
    self.f.read_to_end(&mut s).unwrap();
    self.at += s.len() as u64;
    let s = String::from_utf8_lossy(&s);
    let mut m = HashMap::new();
    for p in s.split("id<").skip(1) {
      if let Some(n) = p.split('>').next().and_then(|n| n.parse().ok()) {
        *m.entry(n).or_insert(0) += 1;
      }
    }
    m
  }
}

static ID: AtomicU64 = AtomicU64::new(1);

/// Emits one record of each kind and says which were written: (interface, target, level) -> times.
fn probe(out: &mut Out, threads: bool) -> HashMap<(bool, usize, usize), u32> {
  out.ids();
  let all: Vec<_> = (0 .. 2 * 6 * 5).map(|i| (i % 2 == 1, (i / 2) % 6, i / 12)).collect();
  let ids: Mutex<HashMap<u64, (bool, usize, usize)>> = Mutex::default();
  let go = |part: &[(bool, usize, usize)]| {
    for k in part {
      let id = ID.fetch_add(1, Ordering::SeqCst);
      ids.lock().unwrap().insert(id, *k);
      emit(k.0, k.1, k.2, id);
    }
  };
  if threads {
    std::thread::scope(|s| {
      for p in all.chunks(15) {
        s.spawn(|| go(p));
      }
    });
  } else {
    go(&all);
  }
  let got = out.ids();
  let ids = ids.into_inner().unwrap();
  let mut m: HashMap<_, _> = all.into_iter().map(|k| (k, 0)).collect();
  for (id, n) in got {
    if let Some(k) = ids.get(&id) {
      *m.get_mut(k).unwrap() += n;
    }
  }
  m
}

fn wrong(f: &Filter, m: &HashMap<(bool, usize, usize), u32>) -> Vec<String> {
  let mut v: Vec<_> = m
    .iter()
    .filter(|(k, n)| **n != u32::from(f.admits(k.1, k.2)))
    .map(|(k, n)| format!("{} {} {} written {n} times, expected {}", if k.0 { "tracing" } else { "log" }, LEVELS[k.2], TARGETS[k.1], u32::from(f.admits(k.1, k.2))))
    .collect();
  v.sort();
  v
}

pub fn run(c: &Check) {
  c.rule("cases are filter replacements, one after the other or racing; non-trivial: the filter admits some records and refuses some; distinct by the filters");
  let dir = Scratch::new();
  let path = dir.path().join("stderr");
  let w = std::fs::File::options().create(true).append(true).open(&path).unwrap();
  let keep = unsafe { libc::dup(2) };
  unsafe { libc::dup2(w.as_raw_fd(), 2) };
  let mut out = Out { f: std::fs::File::open(&path).unwrap(), at: 0 };
  SwapLogger::initialize();
  // The default admits info and above.
  let default = Filter { d: vec![(None, 3)] };
  let m = probe(&mut out, true);
  let bad = wrong(&default, &m);
  c.ensure(bad.is_empty(), "initial", || format!("after initialize: {bad:?}"));

  c.cases(c.n(400, 20_000), Duration::from_secs(c.n(6, 900)), |case, r| {
    let f = Filter::new(r);
    let text = f.text(r);
    if r.chance(1, 4) {
      std::thread::scope(|s| s.spawn(|| SwapLogger::swap(&text)).join().unwrap()).unwrap();
    } else {
      SwapLogger::swap(&text).unwrap();
    }
    let m = probe(&mut out, r.chance(1, 4));
    c.add("records", m.len() as u64);
    c.add("written", m.values().map(|n| u64::from(*n)).sum());
    let bad = wrong(&f, &m);
    c.ensure(bad.is_empty(), "after-replacement", || format!("case {case}: filter {text:?}: {bad:?}"));
    let some = m.values().any(|n| *n > 0) && m.values().any(|n| *n == 0);
    c.eval(some.then(|| vh::hash_of(&f)));
    c.sample(|| text);
  });

  // Racing replacements: the outcome is one of the filters, for every record.
  c.cases(c.n(250, 8_000), Duration::from_secs(c.n(6, 900)), |case, r| {
    let n = r.range(2, 5) as usize;
    let fs: Vec<(Filter, String)> = (0 .. n).map(|_| { let f = Filter::new(r); let t = f.text(r); (f, t) }).collect();
    let barrier = std::sync::Barrier::new(n);
    let reps = r.range(1, 6);
    std::thread::scope(|s| {
      for (_, t) in &fs {
        let b = &barrier;
        s.spawn(move || {
          for _ in 0 .. reps {
            b.wait();
            SwapLogger::swap(t).unwrap();
          }
        });
      }
    });
    let m = probe(&mut out, false);
    let bad: Vec<_> = fs.iter().map(|(f, _)| wrong(f, &m)).collect();
    c.add("racing_replacements", n as u64 * reps as u64);
    c.ensure(bad.iter().any(Vec::is_empty), "racing-replacements", || {
      format!("case {case}: after racing replacements by {:?} the records written fit none: {bad:?}", fs.iter().map(|f| &f.1).collect::<Vec<_>>())
    });
    c.eval(Some(vh::hash_of(&fs)));
  });

  // Many quick races, whose outcome is probed in full only where the maximum level is not the
  // one the records show.
  let mut r = Rng::new(c.seed ^ 77);
  let t0 = Instant::now();
  let lim = Duration::from_secs(c.n(4, 120));
  let jitter = vh::jitter::Jitter::start(c.seed, Duration::from_micros(40), Duration::from_micros(40));
  while t0.elapsed() < lim && c.only.is_none() {
    let levels: Vec<usize> = { let mut l: Vec<usize> = (0 .. 6).collect(); r.shuffle(&mut l); l.truncate(r.range(2, 4) as usize); l };
    const N: [&str; 6] = ["off", "error", "warn", "info", "debug", "trace"];
    let rounds = 400;
    let n = levels.len();
    let go = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
      for l in &levels {
        let (go, done, jitter) = (&go, &done, &jitter);
        s.spawn(move || {
          let _e = jitter.enroll();
          for i in 1 ..= rounds {
            while go.load(Ordering::Acquire) < i {
              std::hint::spin_loop();
            }
            SwapLogger::swap(N[*l]).unwrap();
            done.fetch_add(1, Ordering::AcqRel);
          }
        });
      }
      for i in 1 ..= rounds {
        done.store(0, Ordering::Release);
        go.store(i, Ordering::Release);
        while done.load(Ordering::Acquire) < n as u64 {
          std::hint::spin_loop();
        }
        let max = log::max_level() as usize;
        // What the filter in place admits, through the interface the maximum level of `log` does not touch.
        let admitted = [
          tracing::enabled!(target: "zz", tracing::Level::ERROR),
          tracing::enabled!(target: "zz", tracing::Level::WARN),
          tracing::enabled!(target: "zz", tracing::Level::INFO),
          tracing::enabled!(target: "zz", tracing::Level::DEBUG),
          tracing::enabled!(target: "zz", tracing::Level::TRACE),
        ];
        if max != admitted.iter().filter(|a| **a).count() {
          let m = probe(&mut out, false);
          let bad: Vec<_> = levels.iter().map(|l| wrong(&Filter { d: vec![(None, *l)] }, &m)).collect();
          c.ensure(bad.iter().any(Vec::is_empty), "racing-replacements", || {
            format!("after racing replacements by {:?} the records written fit none: {bad:?}", levels.iter().map(|l| N[*l]).collect::<Vec<_>>())
          });
        }
      }
    });
    c.add("quick_races", rounds);
    c.eval(Some(vh::hash_of(&levels)));
  }
  drop(jitter);
  c.add("injected_delays", vh::jitter::hits());

  // Records admitted by both filters while they are exchanged.
  c.cases(c.n(6, 80), Duration::from_secs(c.n(8, 600)), |case, r| {
    let (mut a, mut b) = (Filter::new(r), Filter::new(r));
    // Something both admit.
    let t = r.idx(6);
    let l = r.idx(4);
    for f in [&mut a, &mut b] {
      f.d.retain(|d| d.0 != Some(TARGETS[t]));
      f.d.push((Some(TARGETS[t]), l + 1 + r.idx(2)));
    }
    let both: Vec<_> = (0 .. 30).map(|i| (i % 6, i / 6)).filter(|(t, l)| a.admits(*t, *l) && b.admits(*t, *l)).collect();
    let none: Vec<_> = (0 .. 30).map(|i| (i % 6, i / 6)).filter(|(t, l)| !a.admits(*t, *l) && !b.admits(*t, *l)).collect();
    let (ta, tb) = (a.text(r), b.text(r));
    SwapLogger::swap(&ta).unwrap();
    out.ids();
    let stop = AtomicBool::new(false);
    let sent: Mutex<HashMap<u64, (bool, bool, usize, usize)>> = Mutex::default();
    let mut swaps = 0u64;
    std::thread::scope(|s| {
      for k in 0 .. 3u64 {
        let (stop, sent, both, none) = (&stop, &sent, &both, &none);
        let mut r = Rng::new(case * 7 + k);
        s.spawn(move || {
          let mut mine = HashMap::new();
          while !stop.load(Ordering::Relaxed) && mine.len() < 12_000 {
            let side = r.bool();
            let want = none.is_empty() || r.chance(7, 8);
            let (t, l) = *r.pick(if want { both } else { none });
            let id = ID.fetch_add(1, Ordering::SeqCst);
            mine.insert(id, (want, side, t, l));
            emit(side, t, l, id);
          }
          sent.lock().unwrap().extend(mine);
        });
      }
      let t0 = Instant::now();
      while t0.elapsed() < Duration::from_millis(300) {
        SwapLogger::swap(if swaps % 2 == 0 { &tb } else { &ta }).unwrap();
        swaps += 1;
      }
      stop.store(true, Ordering::Relaxed);
    });
    let got = out.ids();
    let sent = sent.into_inner().unwrap();
    c.add("replacements_under_load", swaps);
    c.add("records_under_load", sent.len() as u64);
    let mut bad = vec![];
    for (id, (want, side, t, l)) in &sent {
      let n = got.get(id).copied().unwrap_or(0);
      if n != u32::from(*want) {
        bad.push(format!("{} {} {} written {n} times, expected {}", if *side { "tracing" } else { "log" }, LEVELS[*l], TARGETS[*t], u32::from(*want)));
      }
    }
    c.ensure(bad.is_empty(), "during-replacement", || {
      format!("case {case}: while {ta:?} and {tb:?} were exchanged {swaps} times, {} of {} records went wrong: {:?}", bad.len(), sent.len(), &bad[.. bad.len().min(5)])
    });
    c.eval(Some(vh::hash_of(&(a, b))));
    // Keep the file small.
    std::fs::File::options().write(true).open(&path).unwrap().set_len(0).unwrap();
    out.at = 0;
  });
  unsafe { libc::dup2(keep, 2) };
}
