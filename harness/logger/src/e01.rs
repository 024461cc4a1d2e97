//! Unexpected errors, in processes of their own: what is reported is limited per process.
use bd_client_common::error::*;
use bd_client_stats_store::Collector;
use bd_metadata::{Metadata, Platform};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vh::{Check, Rng};

const LIMIT: usize = 5;

#[derive(Clone, Debug, PartialEq)]
struct Seen {
  by: usize,
  message: String,
  details: Option<String>,
  fields: Vec<(String, String)>,
}

#[derive(Clone)]
struct Rep {
  by: usize,
  seen: Arc<Mutex<Vec<Seen>>>,
  /// Fails itself while it reports.
  fails: bool,
}
impl Reporter for Rep {
  fn report(&self, message: &str, details: &Option<String>, fields: &HashMap<Cow<'_, str>, Cow<'_, str>>) {
    let mut f: Vec<_> = fields.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    f.sort();
    self.seen.lock().unwrap().push(Seen { by: self.by, message: message.into(), details: details.clone(), fields: f });
    if self.fails && !message.starts_with("inner") {
      handle_unexpected(Err::<(), _>(anyhow::anyhow!("it failed")), "inner");
    }
  }
}

struct Session(String, Cell<u32>);
unsafe impl Sync for Session {}
impl SessionProvider for Session {
  fn session_id(&self) -> String {
    self.0.clone()
  }
}
struct Meta(HashMap<String, String>);
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    "1.2.3"
  }
  fn platform(&self) -> &Platform {
    &Platform::Ios
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    self.0.clone()
  }
}

/// The value of a counter of a fresh collector.
struct Count(Collector, u64);

pub fn child(seed: u64) {
  let mut r = Rng::new(seed);
  let seen = Arc::new(Mutex::new(vec![]));
  let mut want: Vec<Seen> = vec![];
  let mut left = LIMIT;
  let mut counters: Vec<Count> = vec![];
  let mut log = vec![];
  let id = r.string();
  let meta: HashMap<String, String> = (0 .. r.below(4)).map(|i| (format!("{}_k_{i}", r.ident(3)), r.string())).collect();
  let reps: Vec<Rep> = (0 .. 4).map(|by| Rep { by, seen: seen.clone(), fails: by == 3 }).collect();
  let more: HashMap<String, String> = (0 .. r.below(3)).map(|i| (format!("more_{i}"), r.string())).collect();
  // The second one is told the session and the metadata.
  let make = |by: usize| -> Arc<dyn Reporter> {
    if by == 1 || by == 2 {
      let inner: Arc<dyn Reporter> = Arc::new(reps[by].clone());
      // The third one also that of a second reporter.
      let inner = if by == 2 { Arc::new(MetadataErrorReporter::new(inner, Arc::new(Session(id.clone(), Cell::new(0))), Arc::new(Meta(more.clone())))) } else { inner };
      Arc::new(MetadataErrorReporter::new(inner, Arc::new(Session(id.clone(), Cell::new(0))), Arc::new(Meta(meta.clone()))))
    } else {
      Arc::new(reps[by].clone())
    }
  };
  let fields = |by: usize| {
    let mut f = vec![];
    if by == 1 || by == 2 {
      f.push(("x-session-id".to_string(), id.clone()));
      let mut all = Meta(meta.clone()).collect();
      if by == 2 {
        all.extend(Meta(more.clone()).collect());
      }
      f.extend(all.into_iter().map(|(k, v)| (format!("x-{}", k.replace('_', "-")), v)));
      f.sort();
    }
    f
  };
  let mut global = r.idx(4);
  UnexpectedErrorHandler::set_reporter(make(global));
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  for op in 0 .. r.range(1, 16) {
    match r.below(12) {
      0 => {
        global = r.idx(4);
        UnexpectedErrorHandler::set_reporter(make(global));
        log.push(format!("reporter {global}"));
      },
      1 => {
        let c = Collector::default();
        UnexpectedErrorHandler::register_stats(&c.scope("s"));
        counters.push(Count(c, 0));
        log.push("register".into());
      },
      2 if r.chance(1, 4) => {
        UnexpectedErrorHandler::disable();
        left = 0;
        log.push("disable".into());
      },
      _ => {
        let own = r.chance(1, 3).then(|| r.idx(3));
        let by = own.unwrap_or(global);
        let text = r.string();
        let desc: &'static str = *r.pick(&["", "d", "a description: of it", "äö"]);
        let err = !r.chance(1, 6);
        let how = r.below(7);
        let details = (how == 6).then(|| r.string());
        let asked = Cell::new(0);
        // Computing the details fails, too.
        let nested = how == 6 && r.chance(1, 3);
        let times = if r.chance(1, 4) { 2 } else { 1 };
        let res = || if err { Err(anyhow::anyhow!("{text}")) } else { Ok(7) };
        let call = || match how {
          0 => handle_unexpected(res(), desc),
          1 => assert_eq!(handle_unexpected_or(res(), 9, desc), if err { 9 } else { 7 }),
          2 => with_handle_unexpected(|| res(), desc),
          3 => assert_eq!(with_handle_unexpected_or(|| res(), 9, desc), if err { 9 } else { 7 }),
          4 => rt.block_on(async {
            let io = if err { Err(std::io::Error::other(text.clone())) } else { Ok(()) };
            bd_client_common::spawn_error_handling_task(async move { io }, desc);
            for _ in 0 .. 4 {
              tokio::task::yield_now().await;
            }
          }),
          5 => {
            let x = rt.block_on(async { flatten(tokio::spawn(futures_util::future::ready(res()))).await });
            assert_eq!(x.is_err(), err);
            handle_unexpected(x, desc);
          },
          _ => {
            if err {
              handle_unexpected_error_with_details(anyhow::anyhow!("{text}"), desc, || {
                asked.set(asked.get() + 1);
                if nested {
                  handle_unexpected(Err::<(), _>(anyhow::anyhow!("none")), "inner");
                }
                details.clone()
              });
            }
          },
        };
        let mut many = 1;
        match own {
          Some(own) if how != 4 && how != 5 && r.bool() => {
            let x = UnexpectedErrorHandler::with_reporter(make(own), || {
              for _ in 0 .. times {
                call();
              }
              5
            });
            assert_eq!(x, 5);
            many = times;
          },
          Some(own) if how == 0 => {
            let (rep, text) = (make(own), text.clone());
            rt.block_on(UnexpectedErrorHandler::async_with_reporter(rep, async move {
              tokio::task::yield_now().await;
              handle_unexpected(if err { Err(anyhow::anyhow!("{text}")) } else { Ok(7) }, desc);
            }));
          },
          Some(own) => {
            let () = UnexpectedErrorHandler::with_reporter(make(own), call);
          },
          None => call(),
        }
        log.push(format!("{op}: error {err} by way {how}, own reporter {own:?}"));
        let mut take = || {
          if left == 0 {
            if let Some(c) = counters.last_mut() {
              c.1 += 1;
            }
            false
          } else {
            left -= 1;
            true
          }
        };
        let mut asks = 0;
        for _ in 0 .. if err { many } else { 0 } {
          let mut told = |message: String, details: Option<String>| want.push(Seen { by, message, details, fields: fields(by) });
          if !take() {
            continue;
          }
          asks += u32::from(how == 6);
          if nested && take() {
            told("inner: none".into(), None);
          }
          told(format!("{desc}: {text}"), details.clone());
          if by == 3 && take() {
            told("inner: it failed".into(), None);
          }
        }
        if asked.get() != asks {
          println!("BAD the details of an error were asked for {} times, expected {asks}: {log:?}", asked.get());
          return;
        }
      },
    }
    let got = seen.lock().unwrap().clone();
    if got != want {
      println!("BAD reported {got:?}, expected {want:?}: {log:?}");
      return;
    }
    for (i, c) in counters.iter().enumerate() {
      let n = c.0.scope("s").scope("error_reporter").counter("dropped_errors").get();
      if n != c.1 {
        println!("BAD {n} errors are counted in the counter {i} as not reported, expected {}: {log:?}", c.1);
        return;
      }
    }
  }
  // Several threads: each error is either reported, by the reporter of its thread, or counted.
  let c = Collector::default();
  UnexpectedErrorHandler::register_stats(&c.scope("s"));
  UnexpectedErrorHandler::set_reporter(Arc::new(reps[0].clone()));
  seen.lock().unwrap().clear();
  let each = r.range(1, 4) as usize;
  let threads: Vec<_> = (0 .. 4usize)
    .map(|t| {
      let rep = Rep { by: 10 + t, ..reps[0].clone() };
      let own = t % 2 == 0;
      std::thread::spawn(move || {
        for i in 0 .. each {
          let e = || handle_unexpected(Err::<(), _>(anyhow::anyhow!("{t}/{i}")), "t");
          if own {
            let () = UnexpectedErrorHandler::with_reporter(Arc::new(rep.clone()), e);
          } else {
            e();
          }
        }
      })
    })
    .collect();
  for t in threads {
    t.join().unwrap();
  }
  let got = seen.lock().unwrap().clone();
  let dropped = c.scope("s").scope("error_reporter").counter("dropped_errors").get();
  let mut texts: Vec<_> = got.iter().map(|s| s.message.clone()).collect();
  texts.sort();
  texts.dedup();
  let wrong = got.iter().any(|s| {
    let t: usize = s.message[3 .. 4].parse().unwrap();
    s.by != if t % 2 == 0 { 10 + t } else { 0 }
  });
  if got.len() != left.min(4 * each) || got.len() + dropped as usize != 4 * each || texts.len() != got.len() || wrong {
    println!("BAD of {} errors of racing threads with {left} left, {got:?} were reported and {dropped} counted", 4 * each);
    return;
  }
  println!("OK {} {} {}", want.len() + got.len(), counters.iter().map(|c| c.1).sum::<u64>() + dropped, log.len());
}

pub fn run(c: &Check) {
  c.rule("cases are processes with a history of errors, reporters, counters and threads; non-trivial: something was reported; distinct by the seed");
  c.assume("reporters do not panic");
  let exe = std::env::current_exe().unwrap();
  c.cases(c.n(1200, 60_000), Duration::from_secs(if c.thorough() { 300 } else { 10 }), |case, r| {
    let kids: Vec<_> = (0 .. 4)
      .map(|_| {
        let seed = r.u64();
        let p = std::process::Command::new(&exe)
          .env("H_LOGGER_CHILD", format!("E01 {seed}"))
          .stdout(std::process::Stdio::piped())
          .stderr(std::process::Stdio::piped())
          .spawn()
          .expect("child");
        (seed, p)
      })
      .collect();
    for (seed, mut p) in kids {
      let t = Instant::now();
      let hung = loop {
        if p.try_wait().unwrap().is_some() {
          break false;
        }
        if t.elapsed() > Duration::from_secs(20) {
          break true;
        }
        std::thread::sleep(Duration::from_millis(1));
      };
      if hung {
        let _ = p.kill();
      }
      let o = p.wait_with_output().unwrap();
      let out = String::from_utf8_lossy(&o.stdout).trim().to_string();
      if hung {
        c.violation("an error that is never reported", &format!("case {case}: the process with seed {seed} hangs"));
        return;
      }
      let mut w = out.split(' ');
      if w.next() != Some("OK") {
        c.violation("unexpected errors", &format!("case {case}, seed {seed}: {out} {} {}", o.status, String::from_utf8_lossy(&o.stderr)));
        return;
      }
      let n: Vec<u64> = w.map(|x| x.parse().unwrap()).collect();
      c.add("errors reported", n[0]);
      c.add("errors counted", n[1]);
      c.add("steps", n[2]);
      c.eval((n[0] > 0).then_some(seed));
      c.sample(|| out.clone());
    }
  });
}
