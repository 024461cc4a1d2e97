//! Metrics in memory: what is recorded appears in exactly one snapshot.
use crate::c02::Silent;
use crate::world::{add, add_all, configure, timed, totals, val, Id, MemFs, Proc, Totals, Val};
use bd_client_common::error::UnexpectedErrorHandler;
use bd_client_stats_store::{BoundedCollector, BoundedScope, Collector, Counter, CounterWrapper, Error, Histogram, MetricData, Scope};
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::metric::Metric;
use bd_runtime::runtime::ConfigLoader;
use bd_stats_common::DynCounter;
use bd_time::SystemTimeProvider;
use protobuf::Message;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vh::jitter::Jitter;
use vh::{Check, Rng};

// ---------------------------------------------------------------------------------------------
// One thread, against a model

#[derive(Default)]
struct M {
  hist: bool,
  counter: u64,
  values: Vec<f64>,
  handles: usize,
}

enum Handle {
  Counter(Counter),
  Wrapped(DynCounter),
  Hist(Histogram),
}

enum Any {
  Free(Scope),
  Bounded(BoundedScope),
}

fn labels(r: &mut Rng) -> BTreeMap<String, String> {
  match r.below(3) {
    0 => BTreeMap::new(),
    _ => (0 .. 1 + r.below(2)).map(|i| (format!("l{i}"), ["", "a", "b"][r.idx(3)].to_string())).collect(),
  }
}

/// A scope and a name in it, and the name of the metric that it means.
fn place(r: &mut Rng, free: Option<&Collector>, bounded: &BoundedCollector) -> (Any, String, String) {
  let parts: Vec<&str> = (0 .. r.below(4)).map(|_| *r.pick(&["a", "b", "ab"])).collect();
  let name = (*r.pick(&["a", "x", "x_total", "y", ""])).to_string();
  // The same scope can be made at once or in steps.
  let cut = r.idx(parts.len() + 1);
  let head = parts[.. cut].join(":");
  let any = match free {
    Some(c) => Any::Free(parts[cut ..].iter().fold(c.scope(&head), |s, p| s.scope(p))),
    None => Any::Bounded(parts[cut ..].iter().fold(bounded.scope(&head), |s, p| s.scope(p))),
  };
  let full = if parts.is_empty() { name.clone() } else { format!("{}:{name}", parts.join(":")) };
  (any, name, full)
}

/// A metric that was dropped may come back as another kind.
fn kind(id: &Id, hist: bool) -> Id {
  (format!("{}{}", id.0, if hist { "#h" } else { "" }), id.1.clone())
}

fn model(c: &Check, r: &mut Rng, case: u64) {
  let free = r.bool().then(Collector::default);
  let mut limit = *r.pick(&[0u32, 1, 3, 8]);
  let (tx, rx) = tokio::sync::watch::channel(limit);
  let bounded = free.as_ref().map_or_else(|| BoundedCollector::new(Some(rx)), |f| f.inner().clone());
  let mut m: BTreeMap<Id, M> = BTreeMap::new();
  let mut held: Vec<(Id, Handle)> = vec![];
  let mut total = Totals::new();
  let mut taken = Totals::new();
  let mut snapped = Totals::new();
  let mut merged: BTreeMap<Id, MetricData> = BTreeMap::new();
  let mut steps = 0;
  let mut snaps = 0;
  for _ in 0 .. r.range(5, 120) {
    steps += 1;
    match r.below(12) {
      0 ..= 2 => {
        let (at, name, full) = place(r, free.as_ref(), &bounded);
        let l = labels(r);
        let l = if r.bool() { BTreeMap::new() } else { l };
        let id = (full, l.clone());
        let mut hist = r.bool();
        if let (Some(x), true) = (m.get(&id), free.is_some() || r.chance(4, 5)) {
          hist = x.hist;
        }
        // The unbounded kind has histograms without labels only.
        if free.is_some() && hist && !l.is_empty() {
          continue;
        }
        let got: Result<Handle, Error> = match (&at, hist) {
          (Any::Free(s), false) if l.is_empty() && r.bool() => Ok(Handle::Counter(s.counter(&name))),
          (Any::Free(s), false) => Ok(Handle::Counter(s.counter_with_labels(&name, l.clone()))),
          (Any::Free(s), true) => Ok(Handle::Hist(s.histogram(&name))),
          (Any::Bounded(s), false) if l.is_empty() && r.bool() => s.counter(&name).map(Handle::Counter),
          (Any::Bounded(s), false) => s.counter_with_labels(&name, l.clone()).map(Handle::Counter),
          (Any::Bounded(s), true) if l.is_empty() && r.bool() => s.histogram(&name).map(Handle::Hist),
          (Any::Bounded(s), true) => s.histogram_with_labels(&name, l.clone()).map(Handle::Hist),
        };
        let want = match m.get(&id) {
          Some(x) if x.hist != hist => "changed type",
          None if free.is_none() && m.len() >= limit as usize => "overflow",
          _ => "ok",
        };
        let is = match &got {
          Ok(_) => "ok",
          Err(Error::ChangedType) => "changed type",
          Err(Error::Overflow) => "overflow",
        };
        c.count(is);
        c.ensure(is == want, "metric-creation", || format!("case {case}: {id:?} with {} of {limit} metrics gives {is} instead of {want}", m.len()));
        if let Ok(h) = got {
          let e = m.entry(id.clone()).or_insert_with(|| M { hist, ..Default::default() });
          e.handles += 1;
          let h = match h {
            Handle::Counter(x) if r.chance(1, 4) => Handle::Wrapped(CounterWrapper::make_dyn(x)),
            h => h,
          };
          held.push((id, h));
        }
      },
      3 ..= 6 if !held.is_empty() => {
        let (id, h) = r.pick(&held);
        let x = m.get_mut(id).unwrap();
        let v = r.range(0, 100_000) as u64;
        for _ in 0 .. *r.pick(&[1, 1, 2, 5, 6, 40]) {
          let one = match h {
            Handle::Counter(k) if r.bool() => {
              k.inc();
              Val::Counter(1)
            },
            Handle::Counter(k) => {
              k.inc_by(v);
              Val::Counter(v)
            },
            Handle::Wrapped(k) if r.bool() => {
              k.inc();
              Val::Counter(1)
            },
            Handle::Wrapped(k) => {
              k.inc_by(v);
              Val::Counter(v)
            },
            Handle::Hist(k) => {
              k.observe(v as f64);
              Val::Hist(1, v as f64)
            },
          };
          match &one {
            Val::Counter(n) => x.counter += n,
            Val::Hist(_, v) => x.values.push(*v),
          }
          add(&mut total, &kind(id, x.hist), &one);
        }
        if let Handle::Counter(k) = h {
          c.ensure(k.get() == x.counter, "counter-value", || format!("case {case}: {id:?} is {} instead of {}", k.get(), x.counter));
        }
      },
      7 if !held.is_empty() => {
        let (id, _) = held.swap_remove(r.idx(held.len()));
        m.get_mut(&id).unwrap().handles -= 1;
      },
      8 => {
        let id = match held.first() {
          Some((id, _)) if r.bool() => id.clone(),
          _ => (place(r, free.as_ref(), &bounded).2, labels(r)),
        };
        let x = m.get(&id);
        let k = bounded.find_counter(&id.0, id.1.clone());
        let h = bounded.find_histogram(&id.0, id.1.clone());
        let want = (x.is_some_and(|x| !x.hist), x.is_some_and(|x| x.hist));
        c.ensure((k.is_some(), h.is_some()) == want && k.map_or(0, |k| k.get()) == x.map_or(0, |x| x.counter), "find", || {
          format!("case {case}: looking for {id:?} (counter, histogram) is not {want:?}")
        });
      },
      9 if free.is_none() => {
        limit = *r.pick(&[0u32, 1, 3, 8, 100]);
        tx.send_replace(limit);
      },
      10 if free.is_some() => {
        // A timer observes once, when it ends.
        let (id, h) = ((format!("timed{}", r.below(2)), BTreeMap::new()), ());
        let () = h;
        let hist = free.as_ref().unwrap().scope("").histogram(&id.0);
        let t0 = Instant::now();
        drop(hist.start_timer());
        let most = t0.elapsed().as_secs_f64();
        let Some(MetricData::Histogram(s)) = MetricData::Histogram(hist).snap() else {
          c.violation("timer", &format!("case {case}: a timer observed nothing"));
          continue;
        };
        let Data::InlineHistogramValues(v) = MetricData::Histogram(s).to_proto() else { continue };
        c.ensure(v.values.len() == 1 && v.values[0] >= 0.0 && v.values[0] <= most, "timer", || {
          format!("case {case}: a timer within {most} s observed {:?}", v.values)
        });
        m.entry(id).or_insert_with(|| M { hist: true, ..Default::default() });
      },
      _ => {
        // As the flusher does, or partly.
        let all = r.bool();
        let mut seen = BTreeMap::new();
        let forget = r.bool();
        let mut kept = vec![];
        bounded.retain(|id, d| {
          let id = (id.name.clone(), id.labels.clone().into_iter().collect::<BTreeMap<_, _>>());
          let referenced = d.multiple_references();
          let s = if all || id.0.len() % 2 == 0 { Some(d.snap()) } else { None };
          let keep = referenced || !forget;
          if keep {
            kept.push(id.clone());
          }
          seen.insert(id, (s, referenced));
          keep
        });
        snaps += 1;
        c.ensure(seen.keys().eq(m.keys()), "metrics", || {
          format!("case {case}: there are {:?} instead of {:?}", seen.keys().collect::<Vec<_>>(), m.keys().collect::<Vec<_>>())
        });
        for (id, (s, referenced)) in seen {
          let Some(x) = m.get_mut(&id) else { continue };
          c.ensure(referenced == (x.handles > 0), "referenced", || format!("case {case}: {id:?} with {} handles: {referenced}", x.handles));
          let Some(s) = s else { continue };
          let want = if x.hist {
            (!x.values.is_empty()).then(|| Val::Hist(x.values.len() as u64, x.values.iter().sum()))
          } else {
            (x.counter > 0).then_some(Val::Counter(x.counter))
          };
          let got = s.as_ref().map(|d| {
            let p = Metric { data: Some(d.to_proto()), ..Default::default() };
            let p = Metric::parse_from_bytes(&p.write_to_bytes().unwrap()).unwrap();
            val(&p).unwrap()
          });
          c.ensure(got == want, "snapshot", || format!("case {case}: {id:?} snapshot is {got:?} instead of {want:?}"));
          if let Some(Data::InlineHistogramValues(v)) = s.as_ref().map(MetricData::to_proto) {
            c.ensure(v.values == x.values, "values", || format!("case {case}: {id:?} has values {:?} instead of {:?}", v.values, x.values));
          }
          if let (Some(s), Some(v)) = (s, got) {
            let id = kind(&id, x.hist);
            add(&mut taken, &id, &v);
            add(&mut snapped, &id, &v);
            // Into what was taken before, with or without a way through its stored form.
            let s = if r.bool() { MetricData::from_proto(s.to_proto()).unwrap() } else { s };
            match merged.remove(&id) {
              None => {
                merged.insert(id.clone(), s);
              },
              Some(old) => {
                let old = if r.bool() { MetricData::from_proto(old.to_proto()).unwrap() } else { old };
                match (&old, &s) {
                  (MetricData::Counter(a), MetricData::Counter(b)) => a.inc_by(b.get()),
                  (MetricData::Histogram(a), MetricData::Histogram(b)) => a.merge_from(b),
                  _ => {},
                }
                merged.insert(id.clone(), old);
              },
            }
          }
          x.counter = 0;
          x.values.clear();
        }
        // A metric that was dropped with data in it was dropped by this harness.
        m.retain(|id, x| {
          let keep = kept.contains(id);
          if !keep {
            let left = if x.hist { Val::Hist(x.values.len() as u64, x.values.iter().sum()) } else { Val::Counter(x.counter) };
            add(&mut taken, &kind(id, x.hist), &left);
          }
          keep
        });
        c.count("snapshots");
      },
    }
  }
  for (id, x) in &m {
    add(&mut taken, &kind(id, x.hist), &if x.hist { Val::Hist(x.values.len() as u64, x.values.iter().sum()) } else { Val::Counter(x.counter) });
  }
  taken.retain(|_, v| !matches!(v, Val::Counter(0) | Val::Hist(0, _)));
  total.retain(|_, v| !matches!(v, Val::Counter(0) | Val::Hist(0, _)));
  c.ensure(taken == total, "balance", || format!("case {case}: {taken:?} instead of {total:?}"));
  let merged: Totals = merged
    .into_iter()
    .map(|(id, d)| (id, val(&Metric { data: Some(d.to_proto()), ..Default::default() }).unwrap()))
    .collect();
  c.ensure(merged == snapped, "merged", || format!("case {case}: the snapshots were merged to {merged:?} instead of {snapped:?}"));
  c.eval((snaps > 0 && steps > 10).then(|| vh::hash_of(&format!("{total:?}"))));
}

// ---------------------------------------------------------------------------------------------
// Threads and the real flusher

fn concurrent(c: &Check, r: &mut Rng, case: u64, dir: &vh::Scratch, jitter: &Jitter) {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let fs = MemFs::default();
  let loader = ConfigLoader::new(dir.path());
  configure(&loader, &[("stats.max_aggregated_files", 1_000_000)]);
  let threads = 1 + r.idx(4);
  let ms = r.range(20, 120) as u64;
  let names = 1 + r.below(3);
  let rests = r.below(3);
  rt.block_on(async {
    let mut p = Proc::start(&fs, Arc::new(SystemTimeProvider), &loader);
    let stop = Arc::new(AtomicBool::new(false));
    let joins: Vec<_> = (0 .. threads)
      .map(|_| {
        let (mut r, stop, stats, dynamic) = (r.fork(), stop.clone(), p.stats.clone(), p.dynamic.clone());
        let pool = jitter.handle();
        std::thread::spawn(move || {
          let _e = pool.enroll();
          let mut t = Totals::new();
          let held = stats.scope("held").counter("c");
          let hist = stats.scope("held").histogram("h");
          while !stop.load(Ordering::Relaxed) {
            let n = r.below(names);
            let v = 1 + r.below(9);
            match r.below(6) {
              0 => {
                held.inc();
                add(&mut t, &("held:c".into(), BTreeMap::new()), &Val::Counter(1));
              },
              1 => {
                hist.observe(v as f64);
                add(&mut t, &("held:h".into(), BTreeMap::new()), &Val::Hist(1, v as f64));
              },
              2 => {
                stats.scope("s").counter(&format!("c{n}")).inc_by(v);
                add(&mut t, &(format!("s:c{n}"), BTreeMap::new()), &Val::Counter(v));
              },
              3 => {
                stats.scope("s").histogram(&format!("h{n}")).observe(v as f64);
                add(&mut t, &(format!("s:h{n}"), BTreeMap::new()), &Val::Hist(1, v as f64));
              },
              4 => {
                let l: BTreeMap<String, String> = [("k".to_string(), format!("{n}"))].into();
                dynamic.record_dynamic_counter("d", l.clone(), v);
                add(&mut t, &("d".into(), l), &Val::Counter(v));
              },
              _ => {
                let l: BTreeMap<String, String> = [("k".to_string(), format!("{n}"))].into();
                dynamic.record_dynamic_histogram("dh", l.clone(), v as f64);
                add(&mut t, &("dh".into(), l), &Val::Hist(1, v as f64));
              },
            }
            // Time for a snapshot that finds nothing.
            match rests {
              0 => {},
              1 => (0 .. r.below(2_000)).for_each(|_| std::hint::spin_loop()),
              _ => {
                if r.chance(1, 4) {
                  std::thread::sleep(Duration::from_micros(r.below(300)));
                }
              },
            }
          }
          t
        })
      })
      .collect();
    let mut arrived = Totals::new();
    let mut flushes = 0u64;
    let pool = jitter.handle();
    let _e = pool.enroll();
    let t0 = Instant::now();
    let mut step = 0;
    let mut joins = Some(joins);
    let mut total = Totals::new();
    loop {
      let last = t0.elapsed() > Duration::from_millis(ms);
      if last {
        stop.store(true, Ordering::SeqCst);
        for j in joins.take().unwrap() {
          add_all(&mut total, &j.join().unwrap());
        }
      }
      let (tx, rx) = bd_completion::Sender::new();
      p.trigger.flush(Some(tx)).await.unwrap();
      c.ensure(rx.recv().await.is_ok(), "flush", || format!("case {case}: a flush was not completed"));
      flushes += 1;
      step += 1;
      while last || step % 16 == 0 {
        let _ = p.upload_ticks.send(()).await;
        p.settle().await;
        let mut any = false;
        while let Some(u) = p.take() {
          any = true;
          add_all(&mut arrived, &totals(&u.payload));
          p.answer(true);
          p.settle().await;
        }
        if !any || !last {
          break;
        }
      }
      if last {
        break;
      }
    }
    let times = match arrived.iter().find(|(k, _)| timed(k)) {
      Some((_, Val::Hist(n, _))) => *n,
      _ => 0,
    };
    c.ensure(times + 1 == flushes, "flush-times", || format!("case {case}: {times} flushes were timed, there were {flushes}"));
    arrived.retain(|k, _| !timed(k));
    c.ensure(arrived == total, "lost-or-doubled", || {
      let d: Vec<_> = total.keys().chain(arrived.keys()).collect::<std::collections::BTreeSet<_>>().into_iter().filter(|k| total.get(k) != arrived.get(k)).map(|k| format!("{k:?}: recorded {:?}, arrived {:?}", total.get(k), arrived.get(k))).collect();
      format!("case {case}, {threads} threads, {flushes} flushes: {}", d.join("; "))
    });
    c.add("recordings_by_threads", total.values().map(|v| match v { Val::Counter(n) | Val::Hist(n, _) => *n }).sum());
    c.add("concurrent_flushes", flushes);
    c.eval(Some(vh::hash_of(&format!("{total:?}"))));
    c.sample(|| format!("{threads} threads for {ms} ms, {flushes} flushes, {} metrics", total.len()));
    p.kill().await;
  });
}

/// Handles from before a snapshot that record once, while it is taken, and are gone. The metrics have nothing
/// else that would keep them.
fn last_words(c: &Check, r: &mut Rng, case: u64, dir: &vh::Scratch, jitter: &Jitter) {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let fs = MemFs::default();
  let loader = ConfigLoader::new(dir.path());
  configure(&loader, &[("stats.max_aggregated_files", 1_000_000), ("stats.max_dynamic_stats", 100_000)]);
  let threads = 2 + r.idx(3);
  let each = 20 + r.below(60);
  let rounds = 60;
  rt.block_on(async {
    let mut p = Proc::start(&fs, Arc::new(SystemTimeProvider), &loader);
    let (ready, go) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let joins: Vec<_> = (0 .. threads)
      .map(|t| {
        let (mut r, stats, ready, go) = (r.fork(), p.stats.clone(), ready.clone(), go.clone());
        let pool = jitter.handle();
        std::thread::spawn(move || {
          let mut total = Totals::new();
          for round in 1 ..= rounds {
            let scope = stats.scope("w");
            let names: Vec<_> = (0 .. each).map(|i| format!("{t}_{i}{}", if i % 3 == 0 { "h" } else { "c" })).collect();
            let mut held: Vec<_> = names
              .iter()
              .map(|n| if n.ends_with('h') { Handle::Hist(scope.histogram(n)) } else { Handle::Counter(scope.counter(n)) })
              .zip(&names)
              .collect();
            r.shuffle(&mut held);
            ready.fetch_add(1, Ordering::SeqCst);
            while go.load(Ordering::SeqCst) < round {
              std::hint::spin_loop();
            }
            let e = r.chance(1, 3).then(|| pool.enroll());
            (0 .. r.below(4_000)).for_each(|_| std::hint::spin_loop());
            for (h, n) in held {
              match h {
                Handle::Hist(h) => {
                  h.observe(2.0);
                  add(&mut total, &(format!("w:{n}"), BTreeMap::new()), &Val::Hist(1, 2.0));
                },
                Handle::Counter(k) => {
                  k.inc();
                  add(&mut total, &(format!("w:{n}"), BTreeMap::new()), &Val::Counter(1));
                },
                Handle::Wrapped(_) => {},
              }
            }
            drop(e);
          }
          total
        })
      })
      .collect();
    let pool = jitter.handle();
    for round in 1 ..= rounds {
      while ready.load(Ordering::SeqCst) < threads as u64 * round {
        std::hint::spin_loop();
      }
      let e = pool.enroll();
      go.store(round, Ordering::SeqCst);
      let (tx, rx) = bd_completion::Sender::new();
      p.trigger.flush(Some(tx)).await.unwrap();
      let _ = rx.recv().await;
      drop(e);
      c.count("snapshots_during_last_recordings");
    }
    let mut total = Totals::new();
    for j in joins {
      add_all(&mut total, &j.join().unwrap());
    }
    let (tx, rx) = bd_completion::Sender::new();
    p.trigger.flush(Some(tx)).await.unwrap();
    let _ = rx.recv().await;
    let mut arrived = Totals::new();
    loop {
      let _ = p.upload_ticks.send(()).await;
      p.settle().await;
      let Some(u) = p.take() else { break };
      add_all(&mut arrived, &totals(&u.payload));
      p.answer(true);
      p.settle().await;
    }
    arrived.retain(|k, _| !timed(k));
    c.ensure(arrived == total, "lost-last", || {
      let d: Vec<_> = total.keys().chain(arrived.keys()).filter(|k| total.get(k) != arrived.get(k)).map(|k| format!("{k:?}: recorded {:?}, arrived {:?}", total.get(k), arrived.get(k))).collect();
      format!("case {case}, {threads} threads with {each} metrics each, {rounds} rounds: {}", d.join("; "))
    });
    c.eval(Some(vh::hash_of(&format!("{case} {total:?}"))));
    p.kill().await;
  });
}

pub fn run(c: &Check) {
  c.rule("cases are histories of one collector, or threads that record while the flusher takes snapshots; non-trivial: there were snapshots; distinct by what was recorded");
  UnexpectedErrorHandler::set_reporter(Arc::new(Silent));
  let dir = vh::Scratch::new();
  let jitter = Jitter::start(c.seed, Duration::from_micros(60), Duration::from_micros(150));
  c.cases(c.n(30_000, 3_000_000), Duration::from_secs(c.n(14, 900)), |case, r| {
    if case % 20 == 9 {
      last_words(c, r, case, &dir, &jitter);
    } else if case % 40 == 19 {
      concurrent(c, r, case, &dir, &jitter);
    } else {
      model(c, r, case);
    }
  });
  c.add("delays", vh::jitter::hits());
}
