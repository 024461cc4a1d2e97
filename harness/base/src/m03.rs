//! Gauges held by guards.
use bd_server_stats::stats::{AutoGauge, Collector, StackAutoGauge};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::Duration;
use vh::{no_panic, Check};

pub fn run(c: &Check) {
  c.rule("cases are threads that create, move, keep and drop guards of one gauge, some by panicking; non-trivial: guards of two threads overlapped; distinct by the highest value and number of guards");
  c.cases(c.n(8_000, 200_000), Duration::from_secs(c.n(8, 600)), |case, r| {
    let col = Collector::default();
    let g = col.scope("s").gauge("live");
    let base = if r.chance(1, 5) { r.range(0, 5) } else { 0 };
    g.add(base);
    // Guards that may count already, and those that count for certain.
    let (upper, lower) = (AtomicI64::new(base), AtomicI64::new(base));
    let kept: Mutex<Vec<AutoGauge>> = Mutex::default();
    let (tx, rx) = mpsc::channel::<AutoGauge>();
    let stop = AtomicBool::new(false);
    let made = AtomicI64::new(0);
    let most = AtomicI64::new(0);
    let n = r.range(1, 6);
    std::thread::scope(|s| {
      let mut hs = vec![];
      for _ in 0 .. n {
        let mut r = r.fork();
        let (g, upper, lower, kept, tx, made) = (&g, &upper, &lower, &kept, tx.clone(), &made);
        hs.push(s.spawn(move || {
          let make = || {
            upper.fetch_add(1, Ordering::SeqCst);
            let a = AutoGauge::new(g.clone());
            lower.fetch_add(1, Ordering::SeqCst);
            made.fetch_add(1, Ordering::SeqCst);
            a
          };
          let end = |a: AutoGauge| {
            lower.fetch_sub(1, Ordering::SeqCst);
            drop(a);
            upper.fetch_sub(1, Ordering::SeqCst);
          };
          for _ in 0 .. r.range(3, 80) {
            match r.below(8) {
              0 => {
                upper.fetch_add(1, Ordering::SeqCst);
                let st = StackAutoGauge::new(g);
                lower.fetch_add(1, Ordering::SeqCst);
                made.fetch_add(1, Ordering::SeqCst);
                if r.bool() {
                  std::thread::yield_now();
                }
                lower.fetch_sub(1, Ordering::SeqCst);
                if r.chance(1, 3) {
                  let _ = no_panic(move || {
                    let _s = st;
                    panic!("holder");
                  });
                } else {
                  drop(st);
                }
                upper.fetch_sub(1, Ordering::SeqCst);
              },
              1 => {
                let a = make();
                lower.fetch_sub(1, Ordering::SeqCst);
                let _ = no_panic(move || {
                  let _a = Box::new(a);
                  panic!("holder");
                });
                upper.fetch_sub(1, Ordering::SeqCst);
              },
              2 | 3 => tx.send(make()).unwrap(),
              4 => kept.lock().unwrap().push(make()),
              5 => {
                let a = kept.lock().unwrap().pop();
                if let Some(a) = a {
                  end(a);
                }
              },
              _ => {
                let a = make();
                if r.bool() {
                  std::thread::yield_now();
                }
                end(a);
              },
            }
          }
        }));
      }
      drop(tx);
      {
        let (upper, lower) = (&upper, &lower);
        let keep_every = 2 + r.idx(5);
        let kept = &kept;
        hs.push(s.spawn(move || {
          for (i, a) in rx.into_iter().enumerate() {
            if i % keep_every == 0 {
              kept.lock().unwrap().push(a);
            } else {
              lower.fetch_sub(1, Ordering::SeqCst);
              drop(a);
              upper.fetch_sub(1, Ordering::SeqCst);
            }
          }
        }));
      }
      {
        let (g, stop, most, made, upper) = (&g, &stop, &most, &made, &upper);
        s.spawn(move || {
          while !stop.load(Ordering::SeqCst) {
            let v = g.get();
            // Every guard was made by someone.
            let m = made.load(Ordering::SeqCst) + upper.load(Ordering::SeqCst) + n + base + 1;
            c.ensure(v >= 0 && v <= m, "range", || format!("case {case}: the gauge is {v} with at most {m} guards"));
            most.fetch_max(v, Ordering::SeqCst);
            c.count("readings");
          }
        });
      }
      for h in hs {
        if h.join().is_err() {
          c.violation("panic", &format!("case {case}: a guard panicked"));
        }
      }
      stop.store(true, Ordering::SeqCst);
    });
    let live = lower.load(Ordering::SeqCst);
    c.ensure(g.get() == live && upper.load(Ordering::SeqCst) == live, "value", || format!("case {case}: the gauge is {} with {live} live guards", g.get()));
    let kept = kept.into_inner().unwrap();
    let mut left = live;
    for a in kept {
      drop(a);
      left -= 1;
      c.ensure(g.get() == left, "value", || format!("case {case}: the gauge is {} with {left} live guards", g.get()));
    }
    c.ensure(g.get() == base, "end", || format!("case {case}: the gauge is {} after the last guard, {base} before the first", g.get()));
    c.add("guards", made.load(Ordering::SeqCst) as u64);
    let m = most.load(Ordering::SeqCst);
    c.eval((n > 1).then(|| vh::hash_of(&(n, m, live, made.load(Ordering::SeqCst)))));
  });
}
