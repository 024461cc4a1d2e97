//! Worker pool size.
use std::time::Duration;
use vh::{logcap, Check, Rng};

fn model(hint: Option<&str>, host: usize) -> usize {
  if let Some(f) = hint.and_then(|h| h.parse::<f64>().ok()) {
    if f.is_finite() && !f.is_subnormal() && f != 0.0 {
      return if f < 1.0 { 1 } else if f >= 4096.0 { 4096 } else { f.floor() as usize };
    }
  }
  host.clamp(1, 4096)
}

fn hint(r: &mut Rng) -> Option<String> {
  Some(match r.below(20) {
    0 => return None,
    1 => String::new(),
    2 => "0".into(),
    3 => "-0".into(),
    4 => (*r.pick(&["inf", "-inf", "infinity", "NaN", "nan", "1e400", "-1e400"])).into(),
    5 => (*r.pick(&["5e-324", "1e-310", "-1e-320", "2.2250738585072014e-308", "1e-400"])).into(),
    6 => (*r.pick(&["1e300", "1.8446744073709552e19", "9223372036854775808", "1e18"])).into(),
    7 => format!("-{}", r.below(100)),
    8 => (*r.pick(&["4095", "4096", "4097", "4095.999", "4096.5", "4095.9999999999"])).into(),
    9 => (*r.pick(&["0.1", "0.999", "1", "1.0", "1.999", "2", "0.5", "1.5"])).into(),
    10 => format!(" {}", r.below(50)),
    11 => format!("{} ", r.below(50)),
    12 => format!("{}x", r.below(50)),
    13 => format!("{}e{}", r.below(20), r.below(4)),
    14 => r.string().replace('\0', ""),
    15 => format!("+{}", r.below(50)),
    16 => format!("{}.{}", r.below(10_000), r.below(1000)),
    17 => format!("{}m", r.below(5000)),
    18 => format!("{}", f64::from_bits(r.u64())),
    _ => format!("{}", r.below(5000)),
  })
}

pub fn child(_: &[String]) {
  let n = *bd_rt::NUM_CPUS;
  // What the environment says later changes nothing.
  std::env::set_var("NUM_CPUS", "3");
  let rt = bd_rt::new_runtime().expect("runtime");
  let workers = rt.handle().metrics().num_workers();
  std::env::set_var("NUM_CPUS", "5");
  let done = rt.block_on(async {
    let hs: Vec<_> = (0 .. 32u64).map(|i| tokio::spawn(async move {
      tokio::time::sleep(Duration::from_millis(1)).await;
      tokio::task::yield_now().await;
      i
    })).collect();
    let mut s = 0;
    for h in hs {
      s += h.await.unwrap();
    }
    // Blocking work, a timer and a socket: all drivers are there.
    s += tokio::task::spawn_blocking(|| 1u64).await.unwrap();
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await;
    (s, l.is_ok())
  });
  assert_eq!(n, *bd_rt::NUM_CPUS);
  println!("pool {n} {workers} {} {}", done.0, done.1);
}

pub fn run(c: &Check) {
  c.rule("cases are hints in the environment; non-trivial: a hint is present; distinct by its text");
  logcap::install(log::LevelFilter::Debug);
  let host = std::thread::available_parallelism().map_or(1, |n| n.get());
  let mut pool = vec![];
  c.cases(c.n(60_000, 1_000_000), Duration::from_secs(60), |case, r| {
    let h = hint(r);
    // No other thread of this process reads or writes the environment now.
    match &h {
      Some(h) => std::env::set_var("NUM_CPUS", h),
      None => std::env::remove_var("NUM_CPUS"),
    }
    let got = bd_rt::num_cpus();
    let zero = h.as_deref().and_then(|h| h.parse::<f64>().ok()).is_some_and(|f| f == 0.0);
    let want = model(h.as_deref(), host);
    logcap::drain();
    c.ensure((1 ..= 4096).contains(&got), "range", || format!("case {case}: NUM_CPUS={h:?} gives {got}"));
    c.ensure(got == want || (zero && got == 1), "size", || format!("case {case}: NUM_CPUS={h:?} on a host with {host} gives {got}, expected {want}"));
    c.eval(h.as_ref().map(vh::hash_of));
    c.saw("pool sizes", &got);
    c.sample(|| format!("{h:?} -> {got}"));
    if got <= 64 && pool.len() < 12 && !pool.iter().any(|(_, g)| *g == got) {
      pool.push((h, got));
    }
  });
  std::env::remove_var("NUM_CPUS");
  pool.push((Some("600.5".into()), 600));
  for (h, want) in pool {
    c.now(|| format!("runtime with {h:?}"));
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.args(["child", "R03"]);
    if let Some(h) = &h {
      cmd.env("NUM_CPUS", h);
    }
    let o = cmd.output().expect("child");
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    c.ensure(o.status.success() && out.trim() == format!("pool {want} {want} 497 true"), "runtime", || {
      format!("a runtime with NUM_CPUS={h:?} gave {out:?}, {}, {}", o.status, String::from_utf8_lossy(&o.stderr))
    });
    c.count("runtimes_built");
  }
}
