//! Feature flags.
use bd_runtime_config::feature_flags::{new_memory_feature_flags_loader, FeatureFlags};
use bd_runtime_config::loader::StatsCallbacks;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vh::{logcap, Check, Rng, Scratch};

#[derive(Clone, Debug, PartialEq, Hash)]
enum V {
  B(bool),
  I(u64),
  S(String),
}

#[derive(Clone, Default)]
struct St(Arc<AtomicU64>);
impl StatsCallbacks for St {
  fn on_deserialize_success(&self) {
    self.0.fetch_add(1, Ordering::SeqCst);
  }
  fn on_deserialize_failure(&self) {}
  fn on_io_failure(&self) {}
}

fn int(r: &mut Rng) -> u64 {
  match r.below(10) {
    0 => 0,
    1 => 1,
    2 => 9_999,
    3 => 10_000,
    4 => 10_001,
    5 => u64::MAX,
    6 => u64::from(u32::MAX) + r.below(3),
    7 => (1 << 63) + r.below(2),
    _ => r.below(12_000),
  }
}

fn flags(r: &mut Rng) -> BTreeMap<String, V> {
  let mut m = BTreeMap::new();
  for _ in 0 .. r.below(14) {
    let k = if r.chance(2, 3) { r.ident(20) } else { r.string() };
    let v = match r.below(6) {
      0 | 1 => V::B(r.bool()),
      2 | 3 => V::I(int(r)),
      4 => V::S((*r.pick(&["true", "false", "0", "10000", "null", "~", "1.5", "-3", "", "yes", "0x10", "1e3"])).to_string()),
      _ => V::S(r.string()),
    };
    m.insert(k, v);
  }
  m
}

/// Double quoted YAML, so that no string is read as anything else.
fn quote(s: &str) -> String {
  let mut o = String::from("\"");
  for ch in s.chars() {
    match ch {
      '"' | '\\' => {
        o.push('\\');
        o.push(ch);
      },
      c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\x{:02x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn yaml(r: &mut Rng, m: &BTreeMap<String, V>) -> String {
  if m.is_empty() {
    return "values: {}\n".into();
  }
  let mut es: Vec<_> = m.iter().collect();
  r.shuffle(&mut es);
  let mut s = "values:\n".to_string();
  for (k, v) in es {
    let v = match v {
      V::B(b) => b.to_string(),
      V::I(i) => i.to_string(),
      V::S(t) => quote(t),
    };
    s.push_str(&format!("  {}: {v}\n", quote(k)));
  }
  s
}

fn judge(c: &Check, r: &mut Rng, f: &dyn FeatureFlags, m: &BTreeMap<String, V>, what: &str) {
  let mut names: Vec<String> = m.keys().cloned().collect();
  for _ in 0 .. 4 {
    names.push(r.string());
    names.push(r.ident(20));
  }
  if let Some(k) = m.keys().next() {
    names.push(format!("{k} "));
    names.push(k.to_uppercase());
  }
  for n in names {
    let v = m.get(&n);
    for d in [false, true] {
      let want = if let Some(V::B(b)) = v { *b } else { d };
      let got = f.get_bool(&n, d);
      c.ensure(got == want, "bool", || format!("{what}: get_bool({n:?}, {d}) is {got} for {v:?}"));
      if let Some(want) = match v {
        Some(V::I(0)) => Some(false),
        Some(V::I(i)) if *i >= 10_000 => Some(true),
        Some(V::I(_)) => None,
        _ => Some(d),
      } {
        for _ in 0 .. 3 {
          let got = f.feature_enabled(&n, d);
          c.ensure(got == want, "enabled", || format!("{what}: feature_enabled({n:?}, {d}) is {got} for {v:?}"));
        }
      }
      c.add("reads", 4);
    }
    let d = int(r);
    let want = if let Some(V::I(i)) = v { *i } else { d };
    let got = f.get_integer(&n, d);
    c.ensure(got == want, "integer", || format!("{what}: get_integer({n:?}, {d}) is {got} for {v:?}"));
    let d = Arc::new(r.string());
    let want = if let Some(V::S(s)) = v { s.clone() } else { (*d).clone() };
    let got = f.get_string(&n, &d);
    c.ensure(*got == want, "string", || format!("{what}: get_string({n:?}, {d:?}) is {got:?} for {v:?}"));
    c.add("reads", 2);
  }
}

pub fn run(c: &Check) {
  c.rule("cases are flag maps read by every name, type and default, and replaced at run time; non-trivial: at least one flag; distinct by the map");
  logcap::install(log::LevelFilter::Warn);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let _g = rt.enter();
  c.cases(c.n(250, 10_000), Duration::from_secs(c.n(10, 600)), |case, r| {
    let dir = Scratch::new();
    let file = dir.path().join("flags.yaml");
    let mut m = flags(r);
    std::fs::write(&file, yaml(r, &m)).unwrap();
    let st = St::default();
    let l = new_memory_feature_flags_loader(dir.path(), &file, st.clone()).expect("loader");
    let early = l.snapshot_watch();
    judge(c, r, &early, &m, &format!("case {case}, first load"));
    judge(c, r, &**early.borrow().as_ref().unwrap(), &m, &format!("case {case}, first load"));
    c.eval((!m.is_empty()).then(|| vh::hash_of(&m)));
    for k in 0 .. r.below(4) {
      m = flags(r);
      let marker = V::I(case * 10 + k);
      m.insert("the marker".into(), marker.clone());
      let tmp = dir.path().join("tmp");
      std::fs::write(&tmp, yaml(r, &m)).unwrap();
      std::fs::rename(&tmp, &file).unwrap();
      let t0 = Instant::now();
      let V::I(want) = marker else { unreachable!() };
      while early.get_integer("the marker", u64::MAX) != want && t0.elapsed() < Duration::from_secs(30) {
        std::thread::sleep(Duration::from_micros(200));
      }
      c.ensure(t0.elapsed() < Duration::from_secs(30), "update", || format!("case {case}: update {k} is not visible after 30 s"));
      let late = l.snapshot_watch();
      judge(c, r, &early, &m, &format!("case {case}, early holder, update {k}"));
      judge(c, r, &late, &m, &format!("case {case}, late holder, update {k}"));
      c.count("updates");
      c.eval(Some(vh::hash_of(&m)));
    }
    c.sample(|| format!("{m:?}"));
    rt.block_on(l.shutdown());
  });

  // The share of enabled evaluations.
  let dir = Scratch::new();
  let file = dir.path().join("flags.yaml");
  let shares = [1u64, 2, 7, 100, 1000, 2500, 5000, 7777, 9000, 9900, 9998, 9999];
  let mut s = "values:\n".to_string();
  for p in shares {
    s.push_str(&format!("  share{p}: {p}\n"));
  }
  std::fs::write(&file, s).unwrap();
  let l = new_memory_feature_flags_loader(dir.path(), &file, St::default()).expect("loader");
  let w = l.snapshot_watch();
  let f = w.borrow().clone().unwrap();
  std::thread::scope(|sc| {
    for p in shares {
      let f = f.clone();
      sc.spawn(move || {
        let n = c.n(if p < 50 || p > 9_950 { 1_500_000 } else { 200_000 }, 20_000_000);
        let name = format!("share{p}");
        let d = p % 2 == 0;
        let mut hits = 0u64;
        let mut runs = 0u64;
        let mut last = false;
        for i in 0 .. n {
          let x = f.feature_enabled(&name, d);
          hits += u64::from(x);
          runs += u64::from(i > 0 && x != last);
          last = x;
          if i % 65_536 == 0 {
            c.count("share_progress");
          }
        }
        let q = p as f64 / 10_000.0;
        let (nf, hf) = (n as f64, hits as f64);
        let sd = (nf * q * (1.0 - q)).sqrt();
        c.add("share_evaluations", n);
        c.ensure((hf - nf * q).abs() < 6.5 * sd + 1.0, "share", || format!("a rollout of {p} of 10000 was enabled {hits} of {n} times, {:.1} standard deviations off", (hf - nf * q) / sd));
        // Evaluations are independent of each other: the answer flips as often as it should.
        let e = 2.0 * q * (1.0 - q) * nf;
        c.ensure((runs as f64 - e).abs() < 8.0 * (e + 4.0).sqrt() * 1.5, "independence", || format!("a rollout of {p}: the answer changed {runs} times in {n}, expected about {e:.0}"));
        c.eval(Some(p));
      });
    }
  });
  rt.block_on(l.shutdown());
}
