//! Server metrics: series, updates and gathering.
use bd_server_stats::stats::{Collector, CounterWrapper, GatherMetrics, Scope};
use prometheus::proto::{MetricFamily, MetricType};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vh::{Check, Rng};

pub type Labels = BTreeMap<String, String>;

pub fn series(fams: &[MetricFamily]) -> Vec<(String, Labels, f64, u64, Vec<u64>)> {
  let mut v = vec![];
  for f in fams {
    for m in f.get_metric() {
      let l: Labels = m.get_label().iter().map(|l| (l.get_name().to_string(), l.get_value().to_string())).collect();
      let (val, n, b) = match f.get_field_type() {
        MetricType::COUNTER => (m.get_counter().get_value(), 0, vec![]),
        MetricType::GAUGE => (m.get_gauge().get_value(), 0, vec![]),
        _ => {
          let h = m.get_histogram();
          (h.get_sample_sum(), h.get_sample_count(), h.get_bucket().iter().map(|b| b.get_cumulative_count()).collect())
        },
      };
      v.push((f.get_name().to_string(), l, val, n, b));
    }
  }
  v
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum K {
  Counter,
  Gauge,
  Histogram,
  Vec,
}

const BUCKETS: [f64; 12] = [1.0, 2.0, 3.0, 5.0, 8.0, 10.0, 13.0, 20.0, 25.0, 40.0, 50.0, 60.0];

/// A series: what it is called and what was done to it.
struct Ser {
  name: String,
  labels: Labels,
  kind: K,
  issued: AtomicU64,
  done: AtomicU64,
  level: AtomicI64,
  sum: AtomicU64,
  buckets: [AtomicU64; BUCKETS.len()],
  obtained: AtomicBool,
}

/// A scope for `name`, by one of many ways, and the rest of the name.
fn way(r: &mut Rng, c: &Collector, name: &str, labels: &Labels, junk: bool) -> (Scope, String, HashMap<String, String>) {
  let segs: Vec<&str> = name.split(':').collect();
  let mut cuts: Vec<usize> = (1 .. segs.len()).filter(|_| r.bool()).collect();
  cuts.push(segs.len());
  let mut at = 0;
  let mut parts = vec![];
  for x in cuts {
    parts.push(segs[at .. x].join(":"));
    at = x;
  }
  let last = parts.pop().unwrap();
  let mut s = if r.bool() || parts.is_empty() { c.scope("") } else { c.scope(&parts.remove(0)) };
  // The labels are spread over the scopes, some with a value that an inner one replaces.
  let mut todo: Vec<_> = labels.iter().collect();
  r.shuffle(&mut todo);
  let mut stages: Vec<Option<String>> = parts.into_iter().map(Some).collect();
  for _ in 0 .. r.idx(3) {
    stages.insert(r.idx(stages.len() + 1), None);
  }
  let mut set: HashMap<String, String> = HashMap::new();
  for st in stages {
    let mut l = HashMap::new();
    for (k, v) in &todo {
      if r.chance(1, 3) {
        let v = if junk && r.bool() { "junk".to_string() } else { (*v).clone() };
        set.insert((*k).clone(), v.clone());
        l.insert((*k).clone(), v);
      }
    }
    let e = st.unwrap_or_default();
    s = if l.is_empty() && r.bool() { s.scope(&e) } else { s.scope_with_labels(&e, l) };
  }
  // Whatever is missing or wrong comes last.
  let rest: HashMap<String, String> = labels.iter().filter(|(k, v)| set.get(*k) != Some(v)).map(|(k, v)| (k.clone(), v.clone())).collect();
  (s, last, rest)
}

struct Chained(Collector);
impl GatherMetrics for Chained {
  fn gather(&self) -> Vec<MetricFamily> {
    self.0.gather()
  }
}

pub fn run(c: &Check) {
  c.rule("cases are sets of series obtained and updated by racing threads along different scopes while gatherings go on; non-trivial: at least two threads updated one series; distinct by the series and their final values");
  c.cases(c.n(2_000, 60_000), Duration::from_secs(c.n(8, 900)), |case, r| {
    let col = Collector::default();
    let chained: Vec<Collector> = (0 .. if r.bool() { 0 } else { r.range(1, 6) }).map(|_| Collector::default()).collect();
    for second in &chained {
      col.chain(Arc::new(Chained(second.clone())));
    }
    let bulk = if r.chance(1, 12) { r.range(30, 400) } else { 0 };
    for n in 0 .. bulk {
      col.scope("bulk").counter(&format!("n{n}")).inc_by(n as u64);
    }
    let callbacks = Arc::new(AtomicU64::new(0));
    let cb = callbacks.clone();
    let seen = col.scope("callbacks").gauge("seen");
    let seen2 = chained.last().map(|c| c.scope("callbacks").gauge("seen_chained"));
    col.add_gather_callback(move || {
      let n = cb.fetch_add(1, Ordering::SeqCst) as i64 + 1;
      seen.set(n);
      if let Some(s) = &seen2 {
        s.set(n);
      }
    });
    // Each full name has one kind and one set of label names.
    let mut all: BTreeMap<(String, Labels), Ser> = BTreeMap::new();
    let mut kinds: HashMap<String, (K, Vec<String>)> = HashMap::new();
    for _ in 0 .. r.range(2, 14) {
      let depth = r.range(1, 4);
      let name = (0 .. depth).map(|_| (*r.pick(&["a", "b", "ab", "c_d"])).to_string()).collect::<Vec<_>>().join(":");
      let fresh = (
        *r.pick(&[K::Counter, K::Counter, K::Gauge, K::Histogram, K::Vec]),
        ["X", "x", "y", "z"].iter().filter(|_| r.chance(1, 2)).map(|s| (*s).to_string()).collect::<Vec<_>>(),
      );
      let (kind, keys) = kinds.entry(name.clone()).or_insert(fresh).clone();
      if kind == K::Vec && keys.is_empty() {
        kinds.remove(&name);
        continue;
      }
      let labels: Labels = keys.into_iter().map(|k| (k, if r.chance(1, 4) {
          (*r.pick(&["1", "1,y=2", "2,y=3", "3", "V1", "v1 "])).to_string()
        } else if r.chance(1, 6) { format!("{}$", r.string().replace(['\0', '\r', '$'], "")) } else { format!("v{}", r.below(3)) })).collect();
      all.entry((name.clone(), labels.clone())).or_insert_with(|| Ser {
        name,
        labels,
        kind,
        issued: AtomicU64::new(0),
        done: AtomicU64::new(0),
        level: AtomicI64::new(0),
        sum: AtomicU64::new(0),
        buckets: Default::default(),
        obtained: AtomicBool::new(false),
      });
    }
    let all: Vec<Ser> = all.into_values().collect();
    if all.is_empty() {
      return;
    }
    // Vectors are registered once.
    let vecs: HashMap<String, prometheus::IntCounterVec> = kinds
      .iter()
      .filter(|(_, k)| k.0 == K::Vec)
      .map(|(n, k)| {
        let (s, last, _) = way(r, &col, n, &Labels::new(), false);
        let keys: Vec<&str> = k.1.iter().map(String::as_str).collect();
        (n.clone(), s.counter_vec(&last, &keys))
      })
      .collect();
    let threads = r.range(1, 6) as u64;
    let stop = AtomicBool::new(false);
    let errors: Mutex<Vec<String>> = Mutex::default();
    let shared: Mutex<HashMap<usize, prometheus::IntCounter>> = Mutex::default();
    std::thread::scope(|s| {
      let mut hs = vec![];
      for _ in 0 .. threads {
        let mut r = r.fork();
        let (col, all, vecs, shared) = (&col, &all, &vecs, &shared);
        hs.push(s.spawn(move || {
          for _ in 0 .. r.range(5, 60) {
            let i = r.idx(all.len());
            let ser = &all[i];
            let (scope, last, rest) = way(&mut r, col, &ser.name, &ser.labels, true);
            let n = if r.chance(1, 20) { r.below(1 << 34) + 5 } else { r.below(4) + 1 };
            match ser.kind {
              K::Counter => {
                let h = if rest.is_empty() && r.bool() {
                  scope.counter(&last)
                } else if r.chance(1, 5) {
                  shared.lock().unwrap().get(&i).cloned().unwrap_or_else(|| scope.counter_with_labels(&last, rest))
                } else {
                  scope.counter_with_labels(&last, rest)
                };
                ser.obtained.store(true, Ordering::SeqCst);
                ser.issued.fetch_add(n, Ordering::SeqCst);
                match if n > 4 { 1 + r.below(2) } else { r.below(3) } {
                  0 => (0 .. n).for_each(|_| h.inc()),
                  1 => CounterWrapper::make_dyn(h.clone()).inc_by(n),
                  _ => {
                    let d = CounterWrapper::make_dyn(h.clone());
                    d.inc();
                    h.inc_by(n - 1);
                  },
                }
                ser.done.fetch_add(n, Ordering::SeqCst);
                shared.lock().unwrap().insert(i, h);
              },
              K::Vec => {
                let v: Vec<&str> = ser.labels.values().map(String::as_str).collect();
                let h = vecs[&ser.name].with_label_values(&v);
                ser.obtained.store(true, Ordering::SeqCst);
                ser.issued.fetch_add(n, Ordering::SeqCst);
                h.inc_by(n);
                ser.done.fetch_add(n, Ordering::SeqCst);
              },
              K::Gauge => {
                let h = scope.scope_with_labels("", rest).gauge(&last);
                ser.obtained.store(true, Ordering::SeqCst);
                let d = r.range(-5, 9);
                ser.issued.fetch_add(1, Ordering::SeqCst);
                h.add(d);
                ser.level.fetch_add(d, Ordering::SeqCst);
              },
              K::Histogram => {
                let sc = scope.scope_with_labels("", rest);
                let h = sc.histogram_with_buckets(&last, &BUCKETS);
                ser.obtained.store(true, Ordering::SeqCst);
                let x = r.below(70);
                ser.issued.fetch_add(1, Ordering::SeqCst);
                h.observe(x as f64);
                ser.done.fetch_add(1, Ordering::SeqCst);
                ser.sum.fetch_add(x, Ordering::SeqCst);
                for (b, l) in ser.buckets.iter().zip(BUCKETS) {
                  b.fetch_add(u64::from(x as f64 <= l), Ordering::SeqCst);
                }
              },
            }
          }
        }));
      }
      {
        let (col, all, stop, errors, callbacks) = (&col, &all, &stop, &errors, &callbacks);
        s.spawn(move || {
          while !stop.load(Ordering::SeqCst) {
            let before: Vec<_> = all.iter().map(|s| (s.obtained.load(Ordering::SeqCst), s.done.load(Ordering::SeqCst))).collect();
            let calls = callbacks.load(Ordering::SeqCst);
            let g = series(&col.gather());
            let mut bad = vec![];
            if callbacks.load(Ordering::SeqCst) != calls + 1 {
              bad.push(format!("the gathering called the callback {} times", callbacks.load(Ordering::SeqCst) - calls));
            }
            for (ser, (got, done)) in all.iter().zip(before) {
              let m: Vec<_> = g.iter().filter(|x| x.0 == ser.name && x.1 == ser.labels).collect();
              if m.len() > 1 || (got && m.is_empty()) {
                bad.push(format!("{} {:?} is gathered {} times", ser.name, ser.labels, m.len()));
              }
              if let (Some(m), K::Counter | K::Vec) = (m.first(), ser.kind) {
                if (m.2 as u64) < done || m.2 as u64 > ser.issued.load(Ordering::SeqCst) {
                  bad.push(format!("{} {:?} is {} with {done} updates before and {} after", ser.name, ser.labels, m.2, ser.issued.load(Ordering::SeqCst)));
                }
              }
            }
            c.count("gatherings");
            if !bad.is_empty() {
              errors.lock().unwrap().append(&mut bad);
              return;
            }
          }
        });
      }
      for h in hs {
        if let Err(e) = h.join() {
          let m = e.downcast_ref::<String>().cloned().unwrap_or_default();
          errors.lock().unwrap().push(format!("a thread panicked: {m}"));
        }
      }
      stop.store(true, Ordering::SeqCst);
    });
    for e in errors.into_inner().unwrap() {
      c.violation("while-running", &format!("case {case}: {e}"));
    }
    for (n, second) in chained.iter().enumerate() {
      second.scope("second").counter(&format!("other{n}")).inc_by(7 + n as u64);
    }
    // Every gathering runs the callbacks, also among others.
    let (each, before) = (r.range(1, 12) as u64, callbacks.load(Ordering::SeqCst));
    std::thread::scope(|s| {
      for _ in 0 .. threads {
        s.spawn(|| (0 .. each).for_each(|_| drop(col.gather())));
      }
    });
    let ran = callbacks.load(Ordering::SeqCst) - before;
    c.ensure(ran == each * threads, "callbacks", || format!("case {case}: {threads} threads with {each} gatherings each ran the callback {ran} times"));
    let text = String::from_utf8_lossy(&col.prometheus_output()).into_owned();
    let g = series(&col.gather());
    let mut expected = vec![("stats:label_tracker:label_overflow".to_string(), Labels::new())];
    for n in 0 .. chained.len() {
      expected.push(("stats:label_tracker:label_overflow".to_string(), Labels::new()));
      let name = format!("second:other{n}");
      c.ensure(g.iter().any(|x| x.0 == name && x.2 == (7 + n) as f64), "chained", || format!("case {case}: the counter of chained collector {n} is not gathered"));
      c.ensure(text.lines().any(|x| x == format!("{name} {}", 7 + n)), "chained-text", || format!("case {case}: the counter of chained collector {n} is not in the text"));
      expected.push((name, Labels::new()));
    }
    for n in 0 .. bulk {
      expected.push((format!("bulk:n{n}"), Labels::new()));
    }
    let calls = callbacks.load(Ordering::SeqCst) as f64;
    for name in ["callbacks:seen", "callbacks:seen_chained"].iter().take(if chained.is_empty() { 1 } else { 2 }) {
      expected.push(((*name).to_string(), Labels::new()));
      let got: Vec<f64> = g.iter().filter(|x| x.0 == *name).map(|x| x.2).collect();
      c.ensure(got == [calls], "callback-first", || format!("case {case}: the gathering, the callback's run {calls}, has {name} = {got:?}"));
    }
    let mut finals = vec![];
    for ser in &all {
      let desc = || format!("case {case}: {:?} {} {:?}", ser.kind, ser.name, ser.labels);
      let m: Vec<_> = g.iter().filter(|x| x.0 == ser.name && x.1 == ser.labels).collect();
      if !ser.obtained.load(Ordering::SeqCst) {
        c.ensure(m.is_empty(), "invented-series", desc);
        continue;
      }
      expected.push((ser.name.clone(), ser.labels.clone()));
      if !c.ensure(m.len() == 1, "series-count", || format!("{} is gathered {} times", desc(), m.len())) {
        continue;
      }
      let (issued, done) = (ser.issued.load(Ordering::SeqCst), ser.done.load(Ordering::SeqCst));
      let m = m[0];
      c.add("updates", issued);
      finals.push((ser.name.clone(), ser.labels.clone(), m.2.to_bits()));
      match ser.kind {
        K::Counter | K::Vec => {
          c.ensure(issued == done && m.2 == done as f64, "counter", || format!("{} is {} after updates of {done}", desc(), m.2));
          if ser.labels.values().all(|v| v.bytes().all(|b| b.is_ascii_alphanumeric())) {
            let l: Vec<_> = ser.labels.iter().map(|(k, v)| format!("{k}=\"{v}\"")).collect();
            let line = if l.is_empty() { format!("{} {done}", ser.name) } else { format!("{}{{{}}} {done}", ser.name, l.join(",")) };
            c.ensure(text.lines().filter(|x| **x == line).count() == 1, "text", || format!("{}: the text has no line {line:?}", desc()));
          }
        },
        K::Gauge => {
          c.ensure(m.2 == ser.level.load(Ordering::SeqCst) as f64, "gauge", || format!("{} is {} after updates of {}", desc(), m.2, ser.level.load(Ordering::SeqCst)));
        },
        K::Histogram => {
          let b: Vec<u64> = ser.buckets.iter().map(|b| b.load(Ordering::SeqCst)).collect();
          let ok = m.3 == done && m.2 == ser.sum.load(Ordering::SeqCst) as f64 && (m.4 == b || (m.4.len() == b.len() + 1 && m.4[.. b.len()] == b[..]));
          c.ensure(ok, "histogram", || format!("{} is {m:?} after {done} observations, sum {:?}, buckets {b:?}", desc(), ser.sum));
        },
      }
    }
    let mut got: Vec<_> = g.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
    got.sort();
    expected.sort();
    c.ensure(got == expected, "series-set", || format!("case {case}: gathered {got:?}, expected {expected:?}"));
    c.add("series", all.len() as u64);
    c.eval((threads > 1).then(|| vh::hash_of(&finals)));
    c.sample(|| format!("{threads} threads: {finals:?}"));
  });
  // Label sets that read alike.
  let col = Collector::default();
  let set = |x: &str, y: &str| HashMap::from([("x".to_string(), x.to_string()), ("y".to_string(), y.to_string())]);
  let alike = [("1,y=2", "3"), ("1", "2,y=3"), ("1\",y=\"2", "3"), ("1", "2\",y=\"3"), ("1;y=2", "3"), ("1", "2;y=3"), ("1_y_2", "3"), ("1", "2_y_3"), ("12", "3"), ("1", "23"), ("", "123"), ("123", "")];
  for (n, (x, y)) in alike.iter().enumerate() {
    col.scope("s").counter_with_labels("c", set(x, y)).inc_by(1 << n);
    col.scope("s").scope_with_labels("", set(x, y)).gauge("g").add(1 << n);
    col.scope("s").scope_with_labels("", set(x, y)).histogram("h").observe(f64::from(1 << n));
  }
  for s in series(&col.gather()) {
    if let (Some(x), Some(y)) = (s.1.get("x"), s.1.get("y")) {
      let n = alike.iter().position(|a| (a.0, a.1) == (x.as_str(), y.as_str()));
      c.ensure(n.is_some_and(|n| s.2 == f64::from(1 << n)), "mixed-up", || format!("of {alike:?}, each updated by a power of two of its own: {s:?}"));
      c.count("series_with_labels_alike");
    }
  }
  c.ensure(c.only.is_some() || c.counted("series_with_labels_alike") == 3 * alike.len() as u64, "series-count", || format!("{} of {} series with labels alike", c.counted("series_with_labels_alike"), 3 * alike.len()));
}
