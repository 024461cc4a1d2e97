//! Panic handling, in child processes.
use bd_panic::PanicType;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};
use vh::{Check, Rng};

const PAYLOADS: [&str; 11] = ["str", "string", "format", "int", "error", "unwrap", "index", "lines", "made", "long", "empty"];
const PLACES: [&str; 7] = ["main", "thread", "task", "blocking", "many", "current", "nested"];

struct Err2;
impl log::Log for Err2 {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    let mut l = format!("LOG {} {}", r.level(), r.args()).replace('\n', "\\n");
    l.push('\n');
    let _ = std::io::stderr().lock().write_all(l.as_bytes());
  }
  fn flush(&self) {}
}

const BASE: u32 = line!() + 4;
fn boom(p: &str) {
  let v: Vec<u32> = vec![1, 2];
  match p {
    "str" => panic!("a plain message"),
    "string" => std::panic::panic_any(String::from("an owned message")),
    "format" => panic!("a {} message {}", "formatted", v.len()),
    "int" => std::panic::panic_any(42u32),
    "error" => std::panic::panic_any(std::io::Error::other("an error")),
    "unwrap" => Err::<(), _>("the cause").unwrap(),
    "index" => println!("{}", v[v.len() + 3]),
    "lines" => panic!("{}", message(p).unwrap()),
    "made" => std::panic::panic_any(message(p).unwrap().to_string()),
    "long" => std::panic::panic_any(message(p).unwrap()),
    _ => panic!(""),
  }
}
fn message(p: &str) -> Option<&'static str> {
  match p {
    "str" => Some("a plain message"),
    "string" => Some("an owned message"),
    "format" => Some("a formatted message 2"),
    "unwrap" => Some("called `Result::unwrap()` on an `Err` value: \"the cause\""),
    "index" => Some("index out of bounds: the len is 2 but the index is 5"),
    "lines" => Some("one line\n\nand \"another\" {} one\n"),
    "made" => Some("Größe 0 \t – ✓🦀 e\u{301}\\n \u{0}."),
    "long" => Some(LONG.as_str()),
    _ => None,
  }
}
static LONG: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| (0 .. 9000).map(|i| format!("word{i} ")).collect());
fn line(p: &str) -> u32 {
  BASE + PAYLOADS.iter().position(|x| *x == p).unwrap() as u32
}

pub fn child(a: &[String]) {
  let (mode, payload, place) = (a[0].clone(), a[1].clone(), a[2].clone());
  static L: Err2 = Err2;
  log::set_logger(&L).unwrap();
  log::set_max_level(log::LevelFilter::Debug);
  bd_panic::default(if mode == "abort" { PanicType::ForceAbort } else { PanicType::BacktraceOnly });
  let multi = || tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  match place.as_str() {
    "main" => {
      let _ = std::panic::catch_unwind(|| boom(&payload));
    },
    "thread" => {
      let _ = std::thread::spawn(move || boom(&payload)).join();
    },
    "task" => {
      let _ = multi().block_on(async { tokio::spawn(async move { boom(&payload) }).await });
    },
    "blocking" => {
      let _ = multi().block_on(async { tokio::task::spawn_blocking(move || boom(&payload)).await });
    },
    "current" => {
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
      let _ = rt.block_on(async { tokio::spawn(async move { tokio::task::yield_now().await; boom(&payload) }).await });
    },
    "nested" => {
      // While it drops what it holds, a thread that panicked still reports.
      struct D;
      impl Drop for D {
        fn drop(&mut self) {
          log::info!("dropped");
        }
      }
      let _ = std::thread::spawn(move || {
        let _d = D;
        let m = std::sync::Mutex::new(());
        let _g = m.lock();
        boom(&payload);
      })
      .join();
    },
    _ => {
      let b = Arc::new(Barrier::new(4));
      let hs: Vec<_> = (0 .. 4).map(|_| {
        let (b, p) = (b.clone(), payload.clone());
        std::thread::spawn(move || {
          b.wait();
          boom(&p);
        })
      }).collect();
      for h in hs {
        let _ = h.join();
      }
    },
  }
  println!("ALIVE");
}

fn run_child(args: &[&str], log_panic: Option<&str>) -> Option<(i32, String, String)> {
  let dir = vh::Scratch::new();
  let (o, e) = (dir.path().join("out"), dir.path().join("err"));
  let mut cmd = Command::new(std::env::current_exe().unwrap());
  cmd.args(["child", "H03"]).args(args).env_remove("LOG_PANIC").env_remove("RUST_BACKTRACE").stdin(Stdio::null());
  if let Some(v) = log_panic {
    cmd.env("LOG_PANIC", v);
  }
  let mut ch = cmd.stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap()).spawn().unwrap();
  let t0 = Instant::now();
  let st = loop {
    if let Some(s) = ch.try_wait().unwrap() {
      break s;
    }
    if t0.elapsed() > Duration::from_secs(60) {
      let _ = ch.kill();
      let _ = ch.wait();
      return None;
    }
    std::thread::sleep(Duration::from_millis(2));
  };
  let read = |p| String::from_utf8_lossy(&std::fs::read(p).unwrap()).into_owned();
  Some((st.code().unwrap_or(-1), read(&o), read(&e)))
}

pub fn run(c: &Check) {
  c.rule("cases are child processes, one for each panic mode, reporting mode, payload type and place of the panic; all are non-trivial and distinct");
  let mut all = vec![];
  for mode in ["abort", "go-on"] {
    for lp in [None, Some("1"), Some("")] {
      for p in PAYLOADS {
        for w in PLACES {
          if lp == Some("") && w != "thread" && !c.thorough() {
            continue;
          }
          for _ in 0 .. if w == "many" { 3 } else { 1 } {
            all.push((mode, lp, p, w));
          }
        }
      }
    }
  }
  Rng::new(c.seed).shuffle(&mut all);
  let all = &all;
  let next = std::sync::atomic::AtomicUsize::new(0);
  std::thread::scope(|s| {
    for _ in 0 .. 6 {
      s.spawn(|| {
        while let Some((mode, lp, p, w)) = all.get(next.fetch_add(1, std::sync::atomic::Ordering::SeqCst)) {
          let what = format!("mode {mode}, LOG_PANIC {lp:?}, payload {p}, place {w}");
          c.now(|| what.clone());
          let Some((code, out, err)) = run_child(&[mode, p, w], *lp) else {
            c.violation("hang", &what);
            continue;
          };
          let alive = out.contains("ALIVE");
          let desc = || format!("{what}: exit {code}, stdout {out:?}, stderr {:?}", err.chars().take(600).collect::<String>());
          if *mode == "abort" {
            c.ensure(code != 0 && !alive, "not-ended", desc);
            c.count("processes_ended");
          } else {
            c.ensure(code == 0 && alive, "ended", desc);
            c.count("processes_that_went_on");
          }
          // The report.
          if lp.is_some() {
            let reports: Vec<_> = err.lines().filter(|l| l.starts_with("LOG ERROR") && l.contains("h03.rs:") || l.contains("panic: message")).collect();
            // Whatever std raises on behalf of unwrap and indexing carries the caller's place.
            let full = |l: &&&str| l.contains(&format!("h03.rs:{}", line(p))) && message(p).is_none_or(|m| l.contains(&m.replace('\n', "\\n")));
            let complete = reports.iter().filter(full).count();
            // The thread that ends the process reported before; the end can cut the reports that others are writing.
            let cut = *mode == "abort" && *w == "many";
            let ok = complete >= 1 && (cut || complete == reports.len());
            c.ensure(ok, "report", desc);
            if *mode == "go-on" {
              c.ensure(reports.len() == if *w == "many" { 4 } else { 1 }, "reports", desc);
            }
          } else {
            let ok = message(p).map_or(!err.is_empty(), |m| m.lines().all(|m| err.contains(m))) && err.contains("h03.rs");
            c.ensure(ok, "backtrace-report", desc);
          }
          c.eval(Some(vh::hash_of(&what)));
          c.sample(desc);
        }
      });
    }
  });
}
