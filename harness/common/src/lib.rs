//! What every check shares: a seeded generator, the record of what was observed, the verdict, the
//! evidence file, a watchdog, and a log capture.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod jitter;
pub mod logcap;

// ---------------------------------------------------------------------------------------------
// Generator

/// xoshiro256** seeded by splitmix64.
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut x = seed;
    let mut n = || {
      x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
      let mut z = x;
      z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
      z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
      z ^ (z >> 31)
    };
    Self([n(), n(), n(), n()])
  }
  pub fn u64(&mut self) -> u64 {
    let s = &mut self.0;
    let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    r
  }
  pub fn u32(&mut self) -> u32 {
    (self.u64() >> 32) as u32
  }
  /// Uniform below n.
  pub fn below(&mut self, n: u64) -> u64 {
    if n == 0 {
      0
    } else {
      ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
    }
  }
  pub fn idx(&mut self, n: usize) -> usize {
    self.below(n as u64) as usize
  }
  /// Uniform in lo..=hi.
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    (i128::from(lo) + i128::from(self.below((i128::from(hi) - i128::from(lo) + 1) as u64))) as i64
  }
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    self.below(den) < num
  }
  pub fn bool(&mut self) -> bool {
    self.u64() >> 63 == 1
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.idx(v.len())]
  }
  pub fn bytes(&mut self, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
      v.extend_from_slice(&self.u64().to_le_bytes());
    }
    v.truncate(n);
    v
  }
  /// A string from a pool meant to trip parsers, encoders and maps.
  pub fn string(&mut self) -> String {
    match self.below(12) {
      0 => String::new(),
      1 => "\0".into(),
      2 => "é✓\u{1F980}".into(),
      3 => " ".repeat(self.idx(5)),
      4 => "a".repeat(self.idx(400)),
      5 => format!("{}", self.u64()),
      6 => format!("_{}", self.below(50)),
      7 => "label_overflow\n\r\t\"'\\:;,{}[]".into(),
      _ => {
        let n = self.idx(12);
        (0 .. n).map(|_| *self.pick(&[b'a', b'b', b'Z', b'0', b'9', b'.', b'-', b'_', b'/']) as char).collect()
      },
    }
  }
  pub fn ident(&mut self, n: u64) -> String {
    format!("{}{}", ["k", "key", "name", "x"][self.idx(4)], self.below(n))
  }
  pub fn shuffle<T>(&mut self, v: &mut [T]) {
    for i in (1 .. v.len()).rev() {
      v.swap(i, self.idx(i + 1));
    }
  }
  pub fn fork(&mut self) -> Self {
    Self::new(self.u64())
  }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  t.hash(&mut h);
  h.finish()
}

// ---------------------------------------------------------------------------------------------
// Verdict and evidence

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

pub struct Check {
  pub id: String,
  pub tier: Tier,
  pub seed: u64,
  /// Only this case, when replaying.
  pub only: Option<u64>,
  level: &'static str,
  evidence: Option<PathBuf>,
  replay_dir: PathBuf,
  known: Vec<String>,
  start: Instant,
  state: Mutex<State>,
}

#[derive(Default)]
struct State {
  rule: String,
  evaluations: u64,
  distinct: HashSet<u64>,
  counts: BTreeMap<String, u64>,
  sets: BTreeMap<String, HashSet<u64>>,
  samples: Vec<String>,
  sample_skip: u64,
  assumptions: Vec<String>,
  known_seen: BTreeMap<String, String>,
  violations: Vec<(String, String)>,
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicBool = AtomicBool::new(false);
static CURRENT: Mutex<String> = Mutex::new(String::new());

thread_local! {
  static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// The last panic message of this thread.
pub fn last_panic() -> String {
  PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// Runs f; a panic comes back as its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  PANIC.with(|p| p.borrow_mut().take());
  catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
    let m = e
      .downcast_ref::<String>()
      .cloned()
      .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
      .unwrap_or_default();
    let at = last_panic();
    if at.is_empty() { m } else { at }
  })
}

pub fn quiet_panics() {
  std::panic::set_hook(Box::new(|i| {
    let m = i
      .payload()
      .downcast_ref::<String>()
      .cloned()
      .or_else(|| i.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
      .unwrap_or_default();
    let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    if std::env::var_os("VH_PANICS").is_some() {
      eprintln!("panic: {m} at {at}");
    }
    PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {at}")));
  }));
}

impl Check {
  pub fn thorough(&self) -> bool {
    self.tier == Tier::Thorough
  }
  /// n in the quick tier, m in the thorough one.
  pub fn n(&self, quick: u64, thorough: u64) -> u64 {
    if self.thorough() { thorough } else { quick }
  }
  pub fn rule(&self, r: &str) {
    self.state.lock().unwrap().rule = r.to_string();
  }
  pub fn assume(&self, a: &str) {
    self.state.lock().unwrap().assumptions.push(a.to_string());
  }
  pub fn elapsed(&self) -> Duration {
    self.start.elapsed()
  }
  /// One observed occurrence of `what`.
  pub fn count(&self, what: &str) {
    self.add(what, 1);
  }
  pub fn add(&self, what: &str, n: u64) {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let mut s = self.state.lock().unwrap();
    *s.counts.entry(what.to_string()).or_default() += n;
  }
  pub fn counted(&self, what: &str) -> u64 {
    self.state.lock().unwrap().counts.get(what).copied().unwrap_or(0)
  }
  /// A value of `what` was seen; the evidence says how many distinct ones were.
  pub fn saw<T: Hash + ?Sized>(&self, what: &str, v: &T) {
    self.state.lock().unwrap().sets.entry(what.to_string()).or_default().insert(hash_of(v));
  }
  /// One case was judged. `key` is what makes it distinct, None when it was trivial.
  pub fn eval(&self, key: Option<u64>) {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let mut s = self.state.lock().unwrap();
    s.evaluations += 1;
    if let Some(k) = key {
      s.distinct.insert(k);
    }
  }
  /// Keeps a few cases, spread over the run.
  pub fn sample(&self, f: impl FnOnce() -> String) {
    let mut s = self.state.lock().unwrap();
    if s.sample_skip > 0 {
      s.sample_skip -= 1;
      return;
    }
    let n = s.samples.len();
    if n >= 8 {
      return;
    }
    s.sample_skip = 3u64.pow(n as u32);
    let mut t = f();
    if t.len() > 1500 {
      let mut i = 1500;
      while !t.is_char_boundary(i) {
        i -= 1;
      }
      t.truncate(i);
      t.push_str(" …");
    }
    s.samples.push(t);
  }
  /// The property does not hold. `sig` names what fails, `detail` is the input or history.
  pub fn violation(&self, sig: &str, detail: &str) {
    let mut s = self.state.lock().unwrap();
    if let Some(k) = self.known.iter().find(|k| k.as_str() == sig) {
      s.known_seen.entry(k.clone()).or_insert_with(|| detail.to_string());
      return;
    }
    if s.violations.len() < 20 && s.violations.iter().filter(|v| v.0 == sig).count() < 3 {
      s.violations.push((sig.to_string(), detail.to_string()));
    }
  }
  pub fn ensure(&self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
    if !ok {
      self.violation(sig, &detail());
    }
    ok
  }
  pub fn violated(&self) -> bool {
    !self.state.lock().unwrap().violations.is_empty()
  }
  /// What is being run, for the watchdog's report.
  pub fn now(&self, what: impl FnOnce() -> String) {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    *CURRENT.lock().unwrap() = what();
  }

  /// Runs `cases` seeded cases, or the one being replayed, and stops at `limit`.
  /// A panic of a case is a violation.
  pub fn cases(&self, cases: u64, limit: Duration, mut f: impl FnMut(u64, &mut Rng)) {
    let t0 = Instant::now();
    let range = self.only.map_or(0 .. cases, |c| c .. c + 1);
    for i in range {
      if t0.elapsed() > limit {
        self.count("stopped_at_the_time_limit");
        break;
      }
      if self.state.lock().unwrap().violations.len() >= 5 {
        break;
      }
      let mut rng = Rng::new(self.seed.wrapping_mul(0x1_0000_0001).wrapping_add(i));
      self.now(|| format!("case {i} of seed {}", self.seed));
      if let Err(p) = no_panic(|| f(i, &mut rng)) {
        self.violation("panic", &format!("case {i} of seed {}: panic: {p}", self.seed));
      }
    }
  }

  fn finish(&self) -> i32 {
    let s = self.state.lock().unwrap();
    DONE.store(true, Ordering::SeqCst);
    let mut j = String::new();
    let tier = if self.thorough() { "thorough" } else { "quick" };
    let _ = write!(
      j,
      "{{\n  \"property\": {},\n  \"tier\": \"{tier}\",\n  \"seed\": {},\n  \"level\": \"{}\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}]",
      js(&self.id),
      self.seed,
      self.level,
      s.evaluations,
      s.distinct.len(),
      js(&s.rule),
      s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(j, ",\n    \"observed\": {{");
    let mut first = true;
    for (k, v) in &s.counts {
      let _ = write!(j, "{}\n      {}: {v}", if first { "" } else { "," }, js(k));
      first = false;
    }
    for (k, v) in &s.sets {
      let _ = write!(j, "{}\n      {}: {}", if first { "" } else { "," }, js(&format!("distinct {k}")), v.len());
      first = false;
    }
    let _ = write!(j, "\n    }}\n  }},\n  \"assumptions\": [{}],\n", s.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "  \"known_findings_seen\": [{}],\n", s.known_seen.keys().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "  \"violations\": {},\n  \"wall_s\": {:.2}\n}}\n", s.violations.len(), self.start.elapsed().as_secs_f64());
    if let Some(p) = &self.evidence {
      if let Some(d) = p.parent() {
        let _ = std::fs::create_dir_all(d);
      }
      std::fs::write(p, &j).expect("evidence");
    }
    for k in &s.known_seen {
      println!("KNOWN-FINDING: property={} {} ({})", self.id, k.0, one_line(k.1, 300));
    }
    for (i, (sig, detail)) in s.violations.iter().enumerate() {
      let p = write_replay(&self.replay_dir, &self.id, tier, self.seed, i, sig, detail);
      println!("VIOLATION property={} replay={} {} {}", self.id, p.display(), sig, one_line(detail, 400));
    }
    println!(
      "{}: {} cases, {} distinct, {} violations, {:.1} s",
      self.id,
      s.evaluations,
      s.distinct.len(),
      s.violations.len(),
      self.start.elapsed().as_secs_f64()
    );
    i32::from(!s.violations.is_empty())
  }
}

fn write_replay(dir: &Path, id: &str, tier: &str, seed: u64, i: usize, sig: &str, detail: &str) -> PathBuf {
  let _ = std::fs::create_dir_all(dir);
  let p = dir.join(format!("{id}-{seed}-{i}.txt"));
  let _ = std::fs::write(
    &p,
    format!(
      "property: {id}\nwhat fails: {sig}\nrerun: VERIF_SEED={seed} bash tools/check.sh {id} {tier}\n\n{detail}\n"
    ),
  );
  p
}

fn one_line(s: &str, n: usize) -> String {
  s.chars().map(|c| if c.is_control() { ' ' } else { c }).take(n).collect()
}

pub fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      },
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

/// Entry point of a harness: `<bin> <ID> --tier T --seed N --evidence P --replays D --known F`.
/// `run` decides; it is given the property's id.
pub fn main(run: impl FnOnce(&Check)) {
  let mut args = std::env::args().skip(1);
  let id = args.next().expect("property id");
  let mut c = Check {
    id,
    tier: Tier::Quick,
    seed: 1,
    only: None,
    level: "exploration",
    evidence: None,
    replay_dir: PathBuf::from("/tmp"),
    known: vec![],
    start: Instant::now(),
    state: Mutex::default(),
  };
  let mut stall = 150u64;
  while let Some(a) = args.next() {
    let v = args.next().expect("value");
    match a.as_str() {
      "--tier" => c.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
      "--seed" => c.seed = v.parse().expect("seed"),
      "--case" => c.only = Some(v.parse().expect("case")),
      "--evidence" => c.evidence = Some(v.into()),
      "--replays" => c.replay_dir = v.into(),
      "--stall" => stall = v.parse().expect("stall"),
      "--known" => {
        // finding: property=<id> sig=<sig> <what>
        for l in std::fs::read_to_string(&v).unwrap_or_default().lines() {
          let mut w = l.split_whitespace();
          if w.next() == Some("finding:") && w.next() == Some(&format!("property={}", c.id)) {
            if let Some(s) = w.next().and_then(|s| s.strip_prefix("sig=")) {
              c.known.push(s.to_string());
            }
          }
        }
      },
      _ => panic!("{a}"),
    }
  }
  quiet_panics();
  // Nothing may hang: no case moves for `stall` seconds only if something is stuck.
  let (id, dir, seed) = (c.id.clone(), c.replay_dir.clone(), c.seed);
  let tier = if c.thorough() { "thorough" } else { "quick" };
  std::thread::spawn(move || {
    let mut last = (PROGRESS.load(Ordering::Relaxed), Instant::now());
    loop {
      std::thread::sleep(Duration::from_millis(500));
      let p = PROGRESS.load(Ordering::Relaxed);
      if p != last.0 || DONE.load(Ordering::SeqCst) {
        last = (p, Instant::now());
      } else if last.1.elapsed() > Duration::from_secs(stall) {
        let cur = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
        let detail = format!("nothing moved for {stall} s, while running: {cur}");
        let p = write_replay(&dir, &id, tier, seed, 99, "stuck", &detail);
        println!("VIOLATION property={id} replay={} stuck {}", p.display(), one_line(&detail, 300));
        unsafe { libc::_exit(1) };
      }
    }
  });
  let died = no_panic(|| run(&c));
  if let Err(p) = died {
    c.violation("panic", &format!("panic outside a case: {p}"));
  }
  let code = c.finish();
  use std::io::Write;
  let _ = std::io::stdout().flush();
  // Without destructors: threads of the code under test may still be running.
  unsafe { libc::_exit(code) };
}

// ---------------------------------------------------------------------------------------------
// Scratch directories

pub struct Scratch(PathBuf);

impl Scratch {
  pub fn new() -> Self {
    static N: AtomicU64 = AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!("vh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    // (One of a process that was killed may have had the same number.)
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).expect("scratch");
    Self(p)
  }
  pub fn path(&self) -> &Path {
    &self.0
  }
}
impl Default for Scratch {
  fn default() -> Self {
    Self::new()
  }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}
