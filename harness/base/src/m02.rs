//! Label cardinality.
use crate::m01::series;
use bd_server_stats::stats::{Collector, LabeledCounter, LabeledGauge, LabeledHistogram};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use std::time::Duration;
use vh::{Check, Rng};

const OVER: &str = "label_overflow";

enum M {
  C(LabeledCounter),
  G(LabeledGauge),
  H(LabeledHistogram),
}
impl M {
  /// One request and `n` updates.
  fn hit(&self, labels: &[String], n: u64) {
    let l: Vec<&str> = labels.iter().map(String::as_str).collect();
    match self {
      M::C(m) => {
        let mut x = m.new_metric();
        x.get(&l).inc();
        for _ in 1 .. n {
          x.get(&l).inc();
        }
      },
      M::G(m) => {
        let mut x = m.new_metric();
        for _ in 0 .. n {
          x.get(&l).inc();
        }
      },
      M::H(m) => {
        let mut x = m.new_metric();
        for _ in 0 .. n {
          x.get(&l).observe(1.0);
        }
      },
    }
  }
}

struct Met {
  name: String,
  keys: Vec<&'static str>,
  m: M,
}

const KEYS: [[&str; 2]; 3] = [["path", "code"], ["user", "path"], ["kind", "zone"]];

fn metrics(r: &mut Rng, col: &Collector) -> Vec<Met> {
  (0 .. r.range(1, 3))
    .map(|i| {
      let keys: Vec<&'static str> = KEYS[r.idx(3)][.. 1 + r.idx(2)].to_vec();
      let mut sc = col.scope("s");
      if r.chance(1, 3) {
        sc = sc.scope_with_labels("", [("fixed".to_string(), "v".to_string())].into());
      }
      let b = sc.labeled_metric_builder(&keys);
      let name = format!("m{i}");
      let m = match r.below(4) {
        0 => M::G(b.build_gauge(&name)),
        1 => M::H(b.build_histogram(&name)),
        2 => M::H(b.build_histogram_with_buckets(&name, &[1.0, 2.0])),
        _ => M::C(b.build_counter(&name)),
      };
      Met { name: format!("s:{name}"), keys, m }
    })
    .collect()
}

/// (metric, label values in the order of its keys) -> updates, and the overflow counter.
fn state(col: &Collector, ms: &[Met]) -> (BTreeMap<(usize, Vec<String>), u64>, u64) {
  let mut out = BTreeMap::new();
  let mut over = 0;
  for (n, l, v, cnt, b) in series(&col.gather()) {
    if n == "stats:label_tracker:label_overflow" {
      over = v as u64;
    }
    if let Some(i) = ms.iter().position(|m| m.name == n) {
      let vals = ms[i].keys.iter().map(|k| l[*k].clone()).collect();
      out.insert((i, vals), if b.is_empty() { v as u64 } else { cnt });
    }
  }
  (out, over)
}

fn pairs<'a>(m: &Met, vals: &'a [String]) -> Vec<(&'static str, &'a String)> {
  m.keys.iter().copied().zip(vals).collect()
}

pub fn run(c: &Check) {
  c.rule("cases are sequences and interleavings of labelled requests against a small limit; non-trivial: at least one request was refused; distinct by the final series");
  c.assume("label names without an underscore, so that a name and a value are told apart");
  c.cases(c.n(4_000, 100_000), Duration::from_secs(c.n(8, 900)), |case, r| {
    let limit = r.below(14);
    let col = Collector::new_with_label_limit(limit);
    let ms = metrics(r, &col);
    let pool = r.range(1, 9) as u64;
    // Every value ends in the only '$' it has: no two tuples of values concatenate to the same text.
    let value = |r: &mut Rng| if r.chance(1, 10) { format!("{}$", r.string().replace(['\0', '\r', '$'], "")) } else { format!("v{}$", r.below(pool)) };
    if case % 2 == 0 {
      // One caller: every request is judged.
      let mut requested: BTreeSet<(&str, String)> = BTreeSet::new();
      let mut admitted: BTreeSet<(&str, String)> = BTreeSet::new();
      let mut refused = 0;
      let mut before = state(&col, &ms);
      for k in 0 .. r.range(4, 50) {
        let i = r.idx(ms.len());
        let vals: Vec<String> = ms[i].keys.iter().map(|_| value(r)).collect();
        if vals.iter().any(|v| v.contains(OVER)) {
          continue;
        }
        let n = 1 + r.below(3);
        ms[i].m.hit(&vals, n);
        let after = state(&col, &ms);
        let ps: Vec<_> = pairs(&ms[i], &vals).into_iter().map(|(a, b)| (a, b.clone())).collect();
        requested.extend(ps.iter().cloned());
        let own = (i, vals.clone());
        let over = (i, vec![OVER.to_string(); vals.len()]);
        let delta = |k: &(usize, Vec<String>)| after.0.get(k).copied().unwrap_or(0) - before.0.get(k).copied().unwrap_or(0);
        let text = format!("case {case}, request {k}: limit {limit}, {} {vals:?}, {n} updates, admitted {admitted:?}, refused {refused}: {:?} -> {:?}", ms[i].name, before, after);
        let desc = || text.clone();
        let known = ps.iter().all(|p| admitted.contains(p));
        if delta(&own) == n && after.1 == before.1 {
          c.count("own_series");
        } else if delta(&over) == n {
          refused += 1;
          c.count("overflowed");
          c.ensure(after.1 == before.1 + 1, "overflow-count", desc);
          c.ensure(!known, "admitted-refused", desc);
          c.ensure(requested.len() as u64 > limit, "refused-below-limit", desc);
        } else {
          c.violation("lost", &desc());
        }
        if delta(&own) == n {
          admitted.extend(ps);
        }
        // Nothing else moved.
        let others = after.0.iter().all(|(k, v)| *k == own || *k == over || before.0.get(k) == Some(v));
        let sum = |s: &BTreeMap<_, u64>| s.values().sum::<u64>();
        c.ensure(others && sum(&after.0) == sum(&before.0) + n, "other-series", desc);
        c.ensure(admitted.len() as u64 <= limit, "limit", desc);
        before = after;
      }
      c.eval((refused > 0).then(|| vh::hash_of(&before)));
      c.sample(|| format!("limit {limit}: {before:?}"));
      return;
    }
    // Racing callers.
    let t = r.range(2, 7) as u64;
    let sent: Mutex<BTreeMap<(usize, Vec<String>), u64>> = Mutex::default();
    let reqs = std::sync::atomic::AtomicU64::new(0);
    let barrier = std::sync::Barrier::new(t as usize);
    std::thread::scope(|s| {
      for _ in 0 .. t {
        let mut r = r.fork();
        let (ms, sent, barrier, reqs) = (&ms, &sent, &barrier, &reqs);
        s.spawn(move || {
          barrier.wait();
          for _ in 0 .. r.range(3, 40) {
            let i = r.idx(ms.len());
            let vals: Vec<String> = ms[i].keys.iter().map(|_| format!("v{}$", r.below(pool * 2))).collect();
            ms[i].m.hit(&vals, 1);
            reqs.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            *sent.lock().unwrap().entry((i, vals)).or_default() += 1;
          }
        });
      }
    });
    let sent = sent.into_inner().unwrap();
    let (got, over) = state(&col, &ms);
    let desc = || format!("case {case}: {t} threads, limit {limit}, sent {sent:?}, gathered {got:?}, overflow {over}");
    let mut admitted = BTreeSet::new();
    let mut overflowed = 0;
    for i in 0 .. ms.len() {
      let total = |m: &BTreeMap<(usize, Vec<String>), u64>| m.iter().filter(|(k, _)| k.0 == i).map(|x| *x.1).sum::<u64>();
      c.ensure(total(&sent) == total(&got), "lost", desc);
    }
    for ((i, vals), n) in &got {
      if vals.iter().all(|v| v == OVER) {
        overflowed += n;
        continue;
      }
      c.ensure(sent.get(&(*i, vals.clone())).is_some_and(|s| n <= s), "mixed", desc);
      if *n > 0 {
        admitted.extend(pairs(&ms[*i], vals).into_iter().map(|(a, b)| (a, b.clone())));
      }
    }
    c.ensure(overflowed == over, "overflow-count", desc);
    c.ensure(admitted.len() as u64 <= limit + t, "limit", desc);
    // Afterwards, alone: what has its own series keeps it, and a full tracker admits nothing new.
    for (k, _) in got.iter().filter(|(k, n)| **n > 0 && !k.1.iter().any(|v| v == OVER)) {
      ms[k.0].m.hit(&k.1, 1);
      let (now, o) = state(&col, &ms);
      c.ensure(now[k] == got[k] + 1 && o == over, "admitted-refused", desc);
    }
    if over > 0 && admitted.len() as u64 >= limit {
      let fresh = vec!["fresh$".to_string(); ms[0].keys.len()];
      ms[0].m.hit(&fresh, 1);
      let (now, o) = state(&col, &ms);
      c.ensure(o == over + 1 && !now.contains_key(&(0, fresh)), "limit", desc);
    }
    c.add("racing_requests", reqs.into_inner());
    c.eval((over > 0).then(|| vh::hash_of(&got)));
  });
  // A labelled histogram has the buckets it was given.
  let mut r = Rng::new(c.seed ^ 5);
  for n in [0usize, 1, 3, 10, 11, 12, 40] {
    let col = Collector::new_with_label_limit(100);
    let buckets: Vec<f64> = (1 ..= n).map(|i| (i * i) as f64).collect();
    let b = col.scope("s").labeled_metric_builder(&["path"]);
    let mut m = b.build_histogram_with_buckets("m", &buckets).new_metric();
    let vals: Vec<f64> = (0 .. 50).map(|_| r.below(2000) as f64).collect();
    for v in &vals {
      m.get(&"p".to_string()).observe(*v);
    }
    let s = series(&col.gather()).into_iter().find(|s| s.0 == "s:m").unwrap();
    let expected: Vec<u64> = buckets.iter().map(|b| vals.iter().filter(|v| *v <= b).count() as u64).collect();
    // No bucket at all means the usual ones.
    c.ensure(s.3 == 50 && (n == 0 || s.4.starts_with(&expected) && s.4.len() <= n + 1), "buckets", || format!("{n} buckets {buckets:?}: {s:?}, expected {expected:?}"));
  }
  // Every refusal is counted, however many there are.
  let col = Collector::new_with_label_limit(3);
  let b = col.scope("s").labeled_metric_builder(&["path"]);
  let m = Met { name: "s:m".into(), keys: vec!["path"], m: M::C(b.build_counter("m")) };
  let (n, ms) = (c.n(5_000, 200_000) as u64, [m]);
  for i in 0 .. n {
    ms[0].m.hit(&[format!("p{i}$")], 1);
  }
  let (got, over) = state(&col, &ms);
  c.ensure(got.len() == 4 && got.values().sum::<u64>() == n && over == n - 3, "many-refusals", || format!("{n} label values, limit 3: {got:?}, overflow {over}"));
  // Two label sets whose values concatenate to the same text.
  let col = Collector::new_with_label_limit(100);
  let b = col.scope("s").labeled_metric_builder(&["path", "code"]);
  let m = Met { name: "s:m".into(), keys: vec!["path", "code"], m: M::C(b.build_counter("m")) };
  m.m.hit(&["ab".into(), "c".into()], 1);
  m.m.hit(&["a".into(), "bc".into()], 1);
  let (got, _) = state(&col, &[m]);
  c.ensure(got.len() == 2, "concatenated-label-values", || format!("the label sets (ab, c) and (a, bc) share a series: {got:?}"));
}
