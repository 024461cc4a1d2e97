//! Starts, updates, safe marks, crashes at any file operation and damaged files, against the set of states
//! the cache may be in.
use bd_client_common::error::{Reporter, UnexpectedErrorHandler};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value::Type, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{ConfigLoader, FeatureFlag, RuntimeManager, Snapshot, Watch};
use bd_runtime::{bool_feature_flag, duration_feature_flag, int_feature_flag};
use fault::Plan;
use protobuf::Message;
use std::borrow::Cow;
use std::collections::{BTreeSet, HashMap};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vh::jitter::Jitter;
use vh::{Check, Rng};

/// How often a configuration may be applied without having been marked safe.
const ALLOWED: u32 = 6;
/// A count that is not a number, is missing, or has more than one digit.
const ODD: u32 = ALLOWED + 2;

pub struct Silent;
impl Reporter for Silent {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<Cow<'_, str>, Cow<'_, str>>) {}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum V {
  I(u32),
  B(bool),
  D(time::Duration),
}

/// One registered watch, whatever its type.
trait Eye: Send {
  fn read(&self) -> V;
  fn changed(&self) -> bool;
  fn mark(&mut self) -> V;
}

macro_rules! eye {
  ($t:ty, $v:path) => {
    impl<C: FeatureFlag<$t> + Send> Eye for Watch<$t, C> {
      fn read(&self) -> V {
        $v(Watch::read(self))
      }
      fn changed(&self) -> bool {
        self.has_changed()
      }
      fn mark(&mut self) -> V {
        $v(self.read_mark_update())
      }
    }
  };
}
eye!(u32, V::I);
eye!(bool, V::B);
eye!(time::Duration, V::D);

struct Flag {
  path: &'static str,
  default: V,
  register: fn(&ConfigLoader) -> anyhow::Result<Box<dyn Eye>>,
  /// The same path as another type, which must be refused.
  wrong: fn(&ConfigLoader) -> bool,
}

macro_rules! flags {
  ($($m:ident $wm:ident $wd:expr, $n:ident $w:ident $p:literal $d:expr, $v:path;)*) => {
    $( $m!($n, $p, $d); $wm!($w, $p, $wd); )*
    const FLAGS: &[Flag] = &[$( Flag {
      path: $p,
      default: $v($d),
      register: |l| Ok(Box::new($n::register(l)?)),
      wrong: |l| $w::register(l).is_err(),
    } ),*];
  };
}

flags! {
  int_feature_flag bool_feature_flag false, I0 WI0 "t.i0" 7, V::I;
  int_feature_flag bool_feature_flag false, I1 WI1 "t.i1" 0, V::I;
  int_feature_flag duration_feature_flag time::Duration::ZERO, I2 WI2 "t.i2" u32::MAX, V::I;
  bool_feature_flag int_feature_flag 0, B0 WB0 "t.b0" false, V::B;
  bool_feature_flag int_feature_flag 0, B1 WB1 "t.b1" true, V::B;
  bool_feature_flag duration_feature_flag time::Duration::ZERO, B2 WB2 "b" true, V::B;
  duration_feature_flag int_feature_flag 0, D0 WD0 "t.d0" time::Duration::milliseconds(1500), V::D;
  duration_feature_flag bool_feature_flag true, D1 WD1 "t.d1" time::Duration::ZERO, V::D;
}

fn value(v: V) -> Value {
  Value {
    type_: Some(match v {
      V::I(i) => Type::UintValue(i),
      V::B(b) => Type::BoolValue(b),
      V::D(d) => Type::UintValue(d.whole_milliseconds() as u32),
    }),
    ..Default::default()
  }
}

fn some_value(r: &mut Rng, kind: V) -> V {
  match kind {
    V::I(_) => V::I(*r.pick(&[0, 1, 2, 7, u32::MAX])),
    V::B(_) => V::B(r.bool()),
    V::D(_) => V::D(time::Duration::milliseconds(i64::from(*r.pick(&[0u32, 1, 1500, 60_000, u32::MAX])))),
  }
}

struct Cfg {
  update: RuntimeUpdate,
  values: HashMap<&'static str, V>,
}

impl Cfg {
  fn new(r: &mut Rng, n: usize) -> Self {
    let mut values = HashMap::new();
    for f in FLAGS {
      if r.chance(3, 5) {
        values.insert(f.path, some_value(r, f.default));
      }
    }
    let mut all: HashMap<String, Value> = HashMap::new();
    for _ in 0 .. *r.pick(&[0, 0, 0, 3, 3, 60]) {
      all.insert(r.string(), Value { type_: Some(Type::StringValue(r.string())), ..Default::default() });
    }
    for f in FLAGS {
      all.remove(f.path);
      if let Some(v) = values.get(f.path) {
        all.insert(f.path.to_string(), value(*v));
      }
    }
    // Not always with a nonce, nor with a runtime when it is empty.
    let runtime = if values.is_empty() && r.bool() { None } else { Some(Runtime { values: all, ..Default::default() }) };
    let update = RuntimeUpdate {
      version_nonce: if r.chance(1, 8) { String::new() } else { format!("v{n}") },
      runtime: runtime.into(),
      ..Default::default()
    };
    Self { update, values }
  }
  fn get(&self, f: &Flag) -> V {
    self.values.get(f.path).copied().unwrap_or(f.default)
  }
}

fn read(s: &Snapshot, f: &Flag) -> V {
  match f.default {
    V::I(d) => V::I(s.get_integer(f.path, d)),
    V::B(d) => V::B(s.get_bool(f.path, d)),
    V::D(d) => V::D(s.get_duration(f.path, d)),
  }
}

type State = (Option<usize>, u32);

struct World<'a> {
  c: &'a Check,
  case: u64,
  dir: &'a Path,
  cfgs: Vec<Cfg>,
  states: BTreeSet<State>,
  loader: Option<(Arc<ConfigLoader>, RuntimeManager)>,
  current: Option<usize>,
  watches: Vec<(usize, Box<dyn Eye>, V, bool)>,
  log: Vec<String>,
  /// Applied from the cache since the last update or safe mark.
  unsafe_starts: u32,
}

impl World<'_> {
  fn say(&self, what: &str) -> String {
    format!("case {}: {what}; states {:?}; steps: {}", self.case, self.states, self.log[self.log.len().saturating_sub(14) ..].join(" | "))
  }
  fn check(&self, what: &str, ok: bool, f: impl FnOnce() -> String) {
    self.c.ensure(ok, what, || self.say(&f()));
  }
  fn loader(&self) -> &ConfigLoader {
    &self.loader.as_ref().unwrap().0
  }
  fn value(&self, f: &Flag) -> V {
    self.current.map_or(f.default, |i| self.cfgs[i].get(f))
  }

  fn plan(&mut self, r: &mut Rng, faulty: bool) {
    let plan = if !faulty || r.chance(2, 3) {
      Plan::Never
    } else {
      let n = r.below(7);
      match r.below(6) {
        0 => Plan::Before(n),
        1 => Plan::After(n),
        2 | 3 => Plan::Torn(n),
        4 => Plan::Fail(n, n + 1 + r.below(6)),
        _ => Plan::Unreadable(r.below(3), 3),
      }
    };
    if plan != Plan::Never {
      self.log.push(format!("{plan:?}"));
    }
    fault::arm(self.dir, plan, *r.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES]));
  }

  fn agree(&mut self, what: &str) {
    let s = self.loader().snapshot();
    for f in FLAGS {
      let (got, want) = (read(&s, f), self.value(f));
      self.check("value", got == want, || format!("after {what} {} is {got:?} instead of {want:?}", f.path));
    }
    let nonce = self.loader.as_ref().unwrap().1.version_nonce();
    let want = self.current.map(|i| self.cfgs[i].update.version_nonce.clone());
    self.check("nonce", nonce == want, || format!("after {what} the version is {nonce:?} instead of {want:?}"));
    let mut ws = std::mem::take(&mut self.watches);
    for (i, w, last, changed) in &mut ws {
      let want = self.value(&FLAGS[*i]);
      *changed |= want != *last;
      *last = want;
      self.check("watch", w.read() == want, || format!("after {what} a watch of {} has {:?} instead of {want:?}", FLAGS[*i].path, w.read()));
      self.check("watch-changed", w.changed() == *changed, || format!("after {what} a watch of {} says it changed: {}", FLAGS[*i].path, w.changed()));
    }
    self.watches = ws;
  }

  fn register(&mut self, r: &mut Rng) {
    let i = r.idx(FLAGS.len());
    let f = &FLAGS[i];
    let again = self.watches.iter().any(|w| w.0 == i);
    match (f.register)(self.loader()) {
      Ok(w) => {
        let now = self.value(f);
        self.check("registered", w.read() == now && !w.changed(), || format!("a new watch of {} has {:?} instead of {now:?}, changed {}", f.path, w.read(), w.changed()));
        self.watches.push((i, w, now, false));
      },
      Err(e) => self.check("registered", false, || format!("{} cannot be watched: {e}", f.path)),
    }
    if r.bool() {
      let refused = (f.wrong)(self.loader());
      self.check("wrong-type", refused, || format!("{} can be watched as another type (watched before: {again})", f.path));
      self.c.count("watches_of_another_type");
    }
    self.c.count("watches");
  }

  /// Returns false if the process died.
  fn start(&mut self, r: &mut Rng, faulty: bool) -> bool {
    let l = ConfigLoader::new(self.dir);
    self.loader = Some((l.clone(), RuntimeManager::new(l.clone())));
    self.current = None;
    self.watches.clear();
    for _ in 0 .. r.below(4) {
      self.register(r);
    }
    self.log.push("start".into());
    let counted = || std::fs::read_to_string(self.dir.join("runtime/retry_count")).ok().and_then(|s| s.parse::<u32>().ok());
    let before = counted();
    self.plan(r, faulty);
    let by_manager = r.bool();
    if by_manager {
      self.loader.as_ref().unwrap().1.handle_cached_config();
    } else {
      l.handle_cached_config();
    }
    let rep = fault::disarm();
    let disturbed = rep.dead || rep.hits > 0;
    let grown = |s: &State| (s.0, if s.1 == ODD { ODD } else { (s.1 + 1).min(ALLOWED + 1) });
    let mut next = BTreeSet::new();
    if rep.dead {
      self.c.count("deaths_while_starting");
      for s in &self.states {
        next.extend([*s, grown(s), (None, 0)]);
        if s.1 == ODD {
          // Of more than one digit, some may have been written.
          next.extend((0 ..= ALLOWED + 1).map(|k| (s.0, k)));
        }
      }
      self.states = next;
      return false;
    }
    let nonce = self.loader.as_ref().unwrap().1.version_nonce();
    let applied = nonce.is_some();
    let snap = l.snapshot();
    for s in &self.states {
      let may = s.0.is_some() && s.1 < ALLOWED;
      match (applied, s.0) {
        (true, Some(i)) if may => {
          let cfg = &self.cfgs[i];
          if nonce.as_ref() == Some(&cfg.update.version_nonce) && FLAGS.iter().all(|f| read(&snap, f) == cfg.get(f)) {
            next.insert(grown(s));
            if disturbed {
              // The copy may have been damaged when it was written back.
              next.extend([*s, (None, 0)]);
            }
            self.current = Some(i);
          }
        },
        (false, _) if disturbed => next.extend([*s, grown(s), (None, 0)]),
        (false, _) if !may => {
          next.insert((None, 0));
        },
        _ => {},
      }
    }
    if next.is_empty() {
      let got = if applied { format!("the version {nonce:?} with {:?}", FLAGS.iter().map(|f| read(&snap, f)).collect::<Vec<_>>()) } else { "nothing".into() };
      self.check("start", false, || format!("{got} was loaded by a start (disturbed: {disturbed})"));
      return false;
    }
    self.states = next;
    if applied {
      self.unsafe_starts += 1;
      self.c.count("starts_with_the_cache");
      let after = std::fs::read_to_string(self.dir.join("runtime/retry_count")).ok();
      let counts = after.as_ref().is_some_and(|s| s.parse::<u32>().is_ok_and(|n| before.is_some_and(|b| n > b)));
      self.check("counted", counts, || format!("the cache was applied while its count went from {before:?} to {after:?}"));
      let n = self.unsafe_starts;
      self.check("too-often", n <= ALLOWED, || format!("{n} starts with what was never marked safe"));
    } else {
      self.unsafe_starts = 0;
      self.c.count("starts_without");
      if !disturbed {
        let left: Vec<_> = std::fs::read_dir(self.dir.join("runtime")).map_or(vec![], |d| d.flatten().map(|e| e.path()).collect());
        self.check("left", left.is_empty(), || format!("{left:?} is left of a discarded cache"));
      }
    }
    self.agree("start");
    true
  }

  fn update(&mut self, r: &mut Rng, faulty: bool) -> bool {
    let i = self.cfgs.len();
    let cfg = if i > 0 && r.chance(1, 5) {
      // The same once more, or an earlier one.
      let o = &self.cfgs[r.idx(i)];
      Cfg { update: o.update.clone(), values: o.values.clone() }
    } else {
      Cfg::new(r, i)
    };
    self.cfgs.push(cfg);
    self.log.push(format!("update {i}"));
    self.plan(r, faulty);
    let u = &self.cfgs[i].update;
    if r.bool() {
      self.loader().update_snapshot(u);
    } else {
      self.loader.as_ref().unwrap().1.process_update(u);
    }
    let rep = fault::disarm();
    self.c.count("updates");
    self.current = Some(i);
    if rep.dead || rep.hits > 0 {
      let mut next: BTreeSet<State> = self.states.iter().flat_map(|s| [*s, (Some(i), s.1)]).collect();
      next.extend([(Some(i), 0), (None, 0)]);
      if !rep.dead {
        // What was there before could not be replaced; a death must not give it more starts.
        next.extend(self.states.iter().map(|s| (s.0, 0)));
      }
      self.states = next;
    } else if ["update.pb", "retry_count"].iter().all(|f| self.dir.join("runtime").join(f).is_file()) {
      self.states = [(Some(i), 0)].into();
    } else {
      // It could not be wiped or made again.
      self.states = [(None, 0)].into();
    }
    self.unsafe_starts = 0;
    if rep.dead {
      self.c.count("deaths_while_updating");
      return false;
    }
    self.agree("an update");
    true
  }

  fn safe(&mut self, r: &mut Rng, faulty: bool) -> bool {
    self.log.push("safe".into());
    self.plan(r, faulty);
    if r.bool() {
      self.loader().mark_safe();
    } else {
      self.loader.as_ref().unwrap().1.server_is_available();
    }
    let rep = fault::disarm();
    self.unsafe_starts = 0;
    let reset: BTreeSet<State> = self.states.iter().map(|s| (s.0, 0)).collect();
    if rep.dead || rep.hits > 0 {
      self.states.extend(reset);
      self.states.insert((None, 0));
    } else {
      self.states = reset;
    }
    self.c.count("safe_marks");
    !rep.dead
  }

  /// Between two lives.
  fn damage(&mut self, r: &mut Rng) {
    let pb = self.dir.join("runtime/update.pb");
    let count = self.dir.join("runtime/retry_count");
    let gone = |w: &mut Self| w.states = [(None, 0)].into();
    if r.bool() {
      let Ok(mut b) = std::fs::read(&pb) else { return };
      if b.is_empty() {
        return;
      }
      // What an earlier version wrote has no checksum.
      let sealed = b.first() == Some(&0x78);
      let how = r.below(7);
      match how {
        0 => {
          let _ = std::fs::remove_file(&pb);
          gone(self);
        },
        1 if sealed => {
          let n = if r.bool() { r.idx(b.len()) } else { r.idx(b.len().min(5)) };
          std::fs::write(&pb, &b[.. n]).unwrap();
          gone(self);
        },
        2 if sealed && b.len() > 6 => {
          for _ in 0 .. 1 + r.below(3) {
            let i = 1 + r.idx(b.len() - 1);
            b[i] ^= 1 << r.below(8);
          }
          std::fs::write(&pb, &b).unwrap();
          self.states.insert((None, 0));
        },
        3 => {
          let mut g = vec![*r.pick(&[0x78, 0xff, 0x07])];
          let n = r.idx(60);
          g.extend(r.bytes(n));
          if g[0] == 0x07 {
            // No field has that number and kind.
            g.push(0x07);
          }
          std::fs::write(&pb, &g).unwrap();
          gone(self);
        },
        4 => {
          let _ = std::fs::remove_file(&pb);
          std::fs::create_dir(&pb).unwrap();
          gone(self);
        },
        5 => {
          // More after the end.
          let n = 1 + r.idx(20);
          b.extend(r.bytes(n));
          if sealed {
            std::fs::write(&pb, &b).unwrap();
            self.states.insert((None, 0));
          }
        },
        _ => {
          // As an earlier version wrote it.
          let Some(&(Some(i), _)) = self.states.iter().next() else { return };
          let u = self.cfgs[i].update.write_to_bytes().unwrap();
          if self.states.len() > 1 || u.is_empty() {
            return;
          }
          std::fs::write(&pb, u).unwrap();
        },
      }
      self.log.push(format!("damage {how} to the configuration"));
    } else {
      if !count.is_file() {
        return;
      }
      let s: &[u8] = *r.pick::<&[u8]>(&[
        &b""[..], b"0", b"1", b"5", b"6", b"7", b"99", b"4294967294", b"4294967295", b"4294967296", b"-1", b"x", b"1 ", b"1\n", b"\xff", b"0x1", b"1.0",
      ]);
      let k = std::str::from_utf8(s).ok().filter(|s| s.bytes().all(|b| b.is_ascii_digit())).and_then(|s| s.parse::<u32>().ok());
      if r.chance(1, 8) {
        let _ = std::fs::remove_file(&count);
        if r.bool() {
          std::fs::create_dir(&count).unwrap();
        }
        self.states = self.states.iter().map(|s| (s.0, ODD)).collect();
      } else {
        std::fs::write(&count, s).unwrap();
        match k {
          Some(k) => {
            self.states = self.states.iter().map(|s| (s.0, if k > 8 { ODD } else { k.min(ALLOWED + 1) })).collect();
            self.unsafe_starts = 0;
          },
          None => self.states = self.states.iter().map(|s| (s.0, ODD)).collect(),
        }
      }
      self.log.push(format!("count {:?}", String::from_utf8_lossy(s)));
    }
    self.c.count("damages");
  }
}

fn history(c: &Check, r: &mut Rng, case: u64) {
  let dir = vh::Scratch::new();
  let mut w = World {
    c,
    case,
    dir: dir.path(),
    cfgs: vec![],
    states: [(None, 0)].into(),
    loader: None,
    current: None,
    watches: vec![],
    log: vec![],
    unsafe_starts: 0,
  };
  let faulty = r.chance(1, 2);
  // Few histories would otherwise get to the limit.
  let quiet = r.chance(2, 5);
  for _ in 0 .. r.range(2, 24) {
    if c.violated() {
      break;
    }
    if !w.start(r, faulty) {
      continue;
    }
    for _ in 0 .. r.below(if quiet { 2 } else { 6 }) {
      let alive = match r.below(if quiet && w.cfgs.len() > 0 { 14 } else { 6 }) {
        0 | 1 => w.update(r, faulty),
        2 => w.safe(r, faulty),
        3 if !w.watches.is_empty() => {
          let i = r.idx(w.watches.len());
          let v = w.watches[i].1.mark();
          let (k, _, want, changed) = &mut w.watches[i];
          *changed = false;
          let (k, want) = (*k, *want);
          w.check("watch", v == want, || format!("reading a watch of {} gives {v:?} instead of {want:?}", FLAGS[k].path));
          true
        },
        _ => {
          w.register(r);
          true
        },
      };
      if !alive {
        break;
      }
    }
    if r.chance(1, if quiet { 12 } else { 4 }) {
      w.damage(r);
    }
  }
  c.saw("sets of possible states", &w.states);
  c.eval((w.cfgs.len() > 0).then(|| vh::hash_of(&w.log)));
  c.sample(|| w.log.join(" | "));
}

/// Updates while others read and register: nobody sees a mixture, and nobody misses the last one.
fn concurrent(c: &Check, r: &mut Rng, case: u64, jitter: &Jitter) {
  let dir = vh::Scratch::new();
  let update = |n: u32| RuntimeUpdate {
    version_nonce: format!("{n}"),
    runtime: Some(Runtime {
      values: FLAGS.iter().filter(|f| matches!(f.default, V::I(_) | V::D(_))).map(|f| (f.path.to_string(), value(V::I(n)))).collect(),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  };
  for round in 0 .. 12 {
    let l = ConfigLoader::new(dir.path());
    l.update_snapshot(&update(0));
    let n = 1 + r.below(12) as u32;
    let stop = Arc::new(AtomicBool::new(false));
    let seen = Arc::new(AtomicU64::new(0));
    let ready = Arc::new(std::sync::Barrier::new(5));
    let threads: Vec<_> = (0 .. 4)
      .map(|t| {
        let (l, stop, seen, pool, mut r, ready) = (l.clone(), stop.clone(), seen.clone(), jitter.handle(), r.fork(), ready.clone());
        std::thread::spawn(move || {
          let _e = pool.enroll();
          let mut bad = vec![];
          let mut last = 0;
          let mut eyes: Vec<(usize, Box<dyn Eye>)> = vec![];
          let mut order: Vec<usize> = (0 .. FLAGS.len()).collect();
          r.shuffle(&mut order);
          ready.wait();
          loop {
            let end = stop.load(Ordering::SeqCst);
            if t < 2 {
              let s = l.snapshot();
              let g: Vec<_> = FLAGS.iter().map(|f| read(&s, f)).filter_map(|v| match v { V::I(i) => Some(i), V::D(d) => Some(d.whole_milliseconds() as u32), V::B(_) => None }).collect();
              if g.iter().any(|x| *x != g[0]) || g[0] < last {
                bad.push(format!("a snapshot with {g:?} after {last}"));
              }
              last = g[0];
              seen.fetch_add(1, Ordering::Relaxed);
            } else if let Some(i) = order.pop() {
              if let Ok(w) = (FLAGS[i].register)(&l) {
                eyes.push((i, w));
              }
              for _ in 0 .. r.below(4000) {
                std::hint::spin_loop();
              }
            }
            if (end && (t < 2 || order.is_empty())) || bad.len() > 3 {
              return (bad, eyes);
            }
          }
        })
      })
      .collect();
    let e = jitter.enroll();
    ready.wait();
    for i in 1 ..= n {
      l.update_snapshot(&update(i));
    }
    drop(e);
    stop.store(true, Ordering::SeqCst);
    for t in threads {
      let (bad, eyes) = t.join().unwrap();
      c.ensure(bad.is_empty(), "mixture", || format!("case {case} round {round}: {bad:?}"));
      for (i, w) in eyes {
        let want = match FLAGS[i].default {
          V::I(_) => V::I(n),
          V::D(_) => V::D(time::Duration::milliseconds(i64::from(n))),
          b => b,
        };
        c.ensure(w.read() == want, "missed", || format!("case {case} round {round}: a watch of {} is {:?} after the last update to {want:?}", FLAGS[i].path, w.read()));
        c.count("watches_registered_during_updates");
      }
    }
    c.add("snapshots_during_updates", seen.load(Ordering::Relaxed));
    c.eval(Some(vh::hash_of(&(case, round, n))));
  }
}

pub fn run(c: &Check) {
  c.rule("cases are histories of starts, updates, safe marks, faults and damage, or readers during updates; non-trivial: with an update; distinct by history");
  UnexpectedErrorHandler::set_reporter(Arc::new(Silent));
  let jitter = Jitter::start(c.seed, Duration::from_micros(60), Duration::from_micros(150));
  c.cases(c.n(6_000, 600_000), Duration::from_secs(c.n(12, 900)), |case, r| {
    if case % 60 == 59 {
      concurrent(c, r, case, &jitter);
    } else if let Err(e) = vh::no_panic(|| history(c, r, case)) {
      fault::disarm();
      c.violation("panic", &format!("case {case}: {e}"));
    }
  });
}
