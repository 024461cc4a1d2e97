//! What the logger adds to logs by itself: traffic, log counts and the state of the network.
use crate::g02::configure;
use bd_log_metadata::{AnnotatedLogFields, LogFieldKind};
use bd_log_primitives::{AnnotatedLogField, LogField, LogInterceptor, LogMessage, LogType, StringOrBytes};
use bd_logger::verif_driver::intercept::{traffic, Clock, NetworkQualityInterceptor, Reporter};
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value::Type, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{debugging, ConfigLoader, FeatureFlag};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vh::{Check, Rng, Scratch};

const TYPES: &[LogType] =
  &[LogType::Normal, LogType::Replay, LogType::Lifecycle, LogType::Resource, LogType::InternalSDK, LogType::View, LogType::Device, LogType::UX, LogType::Span];
const BYTES: &[&str] =
  &["_request_body_bytes_sent_count", "_request_headers_bytes_count", "_response_body_bytes_received_count", "_response_headers_bytes_count"];

struct Quality(Mutex<NetworkQuality>, Mutex<u32>);
impl NetworkQualityProvider for Quality {
  fn get_network_quality(&self) -> NetworkQuality {
    *self.0.lock().unwrap()
  }
  fn set_network_quality(&self, q: NetworkQuality) {
    *self.0.lock().unwrap() = q;
    *self.1.lock().unwrap() += 1;
  }
}

fn field(key: &str, value: StringOrBytes<String, Vec<u8>>) -> AnnotatedLogField {
  AnnotatedLogField { field: LogField { key: key.into(), value }, kind: LogFieldKind::Ootb }
}

/// Fields as the platform's network integration makes them, and the number each of `BYTES` stands for.
fn response(r: &mut Rng) -> (AnnotatedLogFields, [u64; 4], bool) {
  let mut v = vec![];
  let mut n = [0; 4];
  for (k, n) in BYTES.iter().zip(&mut n) {
    let x = match r.below(5) {
      0 => r.below(3),
      1 => r.u64() >> 16,
      _ => r.below(100_000),
    };
    match r.below(12) {
      0 | 1 => {},
      2 => v.push(field(k, StringOrBytes::String((*r.pick(&["", "-1", "1.5", "x", " 3", "0x10", "18446744073709551616"])).into()))),
      3 => v.push(field(k, StringOrBytes::Bytes(x.to_string().into_bytes()))),
      _ => {
        v.push(field(k, StringOrBytes::String(x.to_string())));
        *n = x;
      },
    }
  }
  let status = match r.below(4) {
    0 => None,
    1 => Some(r.pick(&["", "abc", "-200"]).to_string()),
    _ => Some(r.below(600).to_string()),
  };
  let online = status.as_ref().is_some_and(|s| s.parse::<u64>().is_ok());
  if let Some(s) = status {
    v.push(field("_status_code", StringOrBytes::String(s)));
  }
  for _ in 0 .. r.below(3) {
    v.push(field(*r.pick(&["_host", "_request_body_bytes_count", "x_request_headers_bytes_count", "_status"]), StringOrBytes::String(r.below(99).to_string())));
  }
  r.shuffle(&mut v);
  (v, n, online)
}

fn name(t: LogType) -> Option<&'static str> {
  Some(match t {
    LogType::Device => "device",
    LogType::InternalSDK => "internal",
    LogType::Lifecycle => "lifecycle",
    LogType::Span => "network",
    LogType::Normal => "normal",
    LogType::Replay => "replay",
    LogType::Resource => "resource",
    _ => return None,
  })
}

fn added(before: &AnnotatedLogFields, after: &AnnotatedLogFields) -> Result<Vec<(String, String)>, String> {
  if after.len() < before.len() || after[.. before.len()] != before[..] {
    return Err(format!("the fields {before:?} became {after:?}"));
  }
  after[before.len() ..]
    .iter()
    .map(|f| match (&f.field.value, f.kind) {
      (StringOrBytes::String(v), LogFieldKind::Ootb) => Ok((f.field.key.clone(), v.clone())),
      _ => Err(format!("added {f:?}")),
    })
    .collect::<Result<Vec<_>, _>>()
    .map(|mut v| {
      v.sort();
      v
    })
}

fn case(c: &Check, case: u64, r: &mut Rng) -> Option<String> {
  let dir = Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  let report = |on: Option<bool>| {
    let values = on.map(|v| (debugging::PeriodicInternalLoggingFlag::path().to_string(), Value { type_: Some(Type::BoolValue(v)), ..Default::default() })).into_iter().collect();
    loader.update_snapshot(&RuntimeUpdate { version_nonce: "v".into(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() });
  };
  let mut reporting = r.bool();
  report(Some(reporting));
  let clock = Clock::default();
  let quality = Arc::new(Quality(Mutex::new(NetworkQuality::Unknown), Mutex::new(0)));
  let t = traffic(&clock, quality.clone());
  let counts = Reporter::new(&loader);
  let network = NetworkQualityInterceptor::new(quality.clone());
  let step = match r.below(4) {
    0 => Duration::from_secs(3),
    1 => Duration::from_secs(6),
    2 => Duration::from_millis(r.below(20_000) + 1),
    _ => Duration::from_secs(20),
  };
  // Periods: when each began and what was received in it.
  let mut now = Duration::ZERO;
  let mut periods: Vec<(Duration, [u64; 4])> = vec![(now, [0; 4])];
  let mut since = std::collections::BTreeMap::<String, u32>::new();
  let mut total = std::collections::BTreeMap::<String, u32>::new();
  let mut log = vec![];
  let (mut sums, mut reports, mut marked) = (0u64, 0u64, 0u64);
  let fail = |log: &[String], what: String| Some(format!("case {case}: {what}\n{}", log.join("\n")));
  let mut sent = 0;
  for op in 0 .. r.range(20, 160) {
    match r.below(20) {
      0 => {
        let q = *r.pick(&[NetworkQuality::Unknown, NetworkQuality::Offline, NetworkQuality::Online]);
        quality.set_network_quality(q);
        sent += 1;
        log.push(format!("{op}: the network is {q:?}"));
        continue;
      },
      1 => {
        let v = if r.chance(1, 4) { None } else { Some(r.bool()) };
        report(v);
        reporting = v.unwrap_or(debugging::PeriodicInternalLoggingFlag::default());
        log.push(format!("{op}: reporting {v:?}"));
        continue;
      },
      2 => {
        let by = match r.below(4) {
          0 => Duration::from_secs(60),
          1 => Duration::from_millis(r.below(130_000)),
          2 => Duration::from_nanos(1),
          _ => step,
        };
        clock.advance(by);
        now += by;
        continue;
      },
      _ => {},
    }
    let ty = match r.below(3) {
      0 => LogType::Span,
      1 => LogType::Resource,
      _ => *r.pick(TYPES),
    };
    let msg: LogMessage = match (ty, r.below(10)) {
      (LogType::Span, 0 ..= 6) => "HTTPResponse".to_string().into(),
      (LogType::Resource, 0 ..= 7) => String::new().into(),
      (_, 7) => LogMessage::Bytes(b"HTTPResponse".to_vec()),
      (_, 8) => LogMessage::Bytes(vec![]),
      _ => r.pick(&["HTTPRequest", "", "HTTPResponse", "x", "httpresponse"]).to_string().into(),
    };
    let regular = ty == LogType::Resource && msg.as_str() == Some("");
    if regular {
      clock.advance(step);
      now += step;
    }
    let (before, n, online) = response(r);
    log.push(format!("{op}: at {now:?} {ty:?} {msg:?} {n:?} status {online}"));
    // The counts come first, as in the logger.
    let mut f = before.clone();
    counts.process(3, ty, &msg, &mut f);
    for k in ["all"].into_iter().chain(name(ty)) {
      *since.entry(k.to_string()).or_default() += 1;
      *total.entry(k.to_string()).or_default() += 1;
    }
    let mut want = vec![];
    if regular && reporting {
      for k in ["all", "device", "internal", "lifecycle", "network", "normal", "replay", "resource"] {
        let p = if k == "all" { String::new() } else { format!("{k}_") };
        want.push((format!("_{p}logs_count"), since.get(k).copied().unwrap_or(0).to_string()));
        want.push((format!("_{p}logs_total_count"), total.get(k).copied().unwrap_or(0).to_string()));
      }
      want.sort();
      since.clear();
      reports += 1;
    }
    match added(&before, &f) {
      Ok(got) if got == want => {},
      x => return fail(&log, format!("log counts: added {x:?}, expected {want:?}")),
    }
    // The traffic.
    let before = f.clone();
    t.process(3, ty, &msg, &mut f);
    let mut want = vec![];
    if ty == LogType::Span && msg.as_str() == Some("HTTPResponse") {
      for (a, b) in periods.last_mut().unwrap().1.iter_mut().zip(n) {
        *a += b;
      }
      if online {
        sent += 1;
        if quality.get_network_quality() != NetworkQuality::Online {
          return fail(&log, "a response with a status does not make the network online".into());
        }
      }
    } else if regular {
      let had = periods.len();
      periods.retain(|p| now - p.0 <= Duration::from_secs(60));
      if periods.len() < had {
        let s: Vec<u64> = (0 .. 4).map(|i| periods.iter().map(|p| p.1[i]).sum()).collect();
        for (k, v) in [
          ("request_bytes", s[0] + s[1]),
          ("request_body_bytes", s[0]),
          ("request_headers_bytes", s[1]),
          ("response_bytes", s[2] + s[3]),
          ("response_body_bytes", s[2]),
          ("response_headers_bytes", s[3]),
        ] {
          want.push((format!("_{k}_per_min_count"), v.to_string()));
        }
        want.sort();
        sums += 1;
        c.saw("sums", &s);
      }
      periods.push((now, [0; 4]));
    }
    if *quality.1.lock().unwrap() != sent {
      return fail(&log, "the state of the network was set for no reason".into());
    }
    match added(&before, &f) {
      Ok(got) if got == want => {},
      x => return fail(&log, format!("traffic: added {x:?}, expected {want:?}")),
    }
    // The state of the network.
    let before = f.clone();
    network.process(3, ty, &msg, &mut f);
    let mark = quality.get_network_quality() == NetworkQuality::Offline && !matches!(ty, LogType::Resource | LogType::Replay | LogType::InternalSDK);
    let want: Vec<_> = mark.then(|| ("_network_quality".to_string(), "offline".to_string())).into_iter().collect();
    marked += u64::from(mark);
    match added(&before, &f) {
      Ok(got) if got == want => {},
      x => return fail(&log, format!("state of the network: added {x:?}, expected {want:?}")),
    }
  }
  c.add("traffic sums", sums);
  c.add("log count reports", reports);
  c.add("logs marked as offline", marked);
  c.sample(|| log.join(" | "));
  c.eval((sums + reports + marked > 0).then(|| vh::hash_of(&log)));
  None
}

/// Several threads: nothing is counted twice or lost.
fn racing(c: &Check, case: u64, r: &mut Rng) -> Option<String> {
  let dir = Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  configure(&loader, &[]);
  let clock = Clock::default();
  let quality = Arc::new(Quality(Mutex::new(NetworkQuality::Unknown), Mutex::new(0)));
  let t = traffic(&clock, quality);
  let values = [(debugging::PeriodicInternalLoggingFlag::path().to_string(), Value { type_: Some(Type::BoolValue(true)), ..Default::default() })].into_iter().collect();
  loader.update_snapshot(&RuntimeUpdate { version_nonce: "v".into(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() });
  let counts = Arc::new(Reporter::new(&loader));
  // The first minute is over: the next log about resources carries the sums.
  clock.advance(Duration::from_secs(61));
  t.process(3, LogType::Resource, &String::new().into(), &mut vec![]);
  clock.advance(Duration::from_secs(1));
  t.process(3, LogType::Resource, &String::new().into(), &mut vec![]);
  let threads: Vec<_> = (0 .. r.range(2, 4))
    .map(|_| {
      let (t, counts, mut r) = (t.clone(), counts.clone(), r.fork());
      std::thread::spawn(move || {
        let (mut sum, mut n, mut reported) = ([0u64; 4], 0u32, 0u32);
        for _ in 0 .. r.range(1, 200) {
          let (mut f, x, _) = response(&mut r);
          t.process(3, LogType::Span, &"HTTPResponse".to_string().into(), &mut f);
          for (a, b) in sum.iter_mut().zip(x) {
            *a += b;
          }
          let mut f = vec![];
          let ty = if r.chance(1, 5) { LogType::Resource } else { LogType::Normal };
          counts.process(3, ty, &String::new().into(), &mut f);
          n += 1;
          if let Some(f) = f.iter().find(|f| f.field.key == "_logs_count") {
            if let StringOrBytes::String(v) = &f.field.value {
              reported += v.parse::<u32>().unwrap();
            }
          }
        }
        (sum, n, reported)
      })
    })
    .collect();
  let (mut sum, mut n, mut reported) = ([0u64; 4], 0, 0);
  for h in threads {
    let (s, a, b) = h.join().unwrap();
    for (x, y) in sum.iter_mut().zip(s) {
      *x += y;
    }
    n += a;
    reported += b;
  }
  let mut f = vec![];
  counts.process(3, LogType::Resource, &String::new().into(), &mut f);
  let get = |f: &AnnotatedLogFields, k: &str| {
    f.iter().find(|f| f.field.key == k).and_then(|f| match &f.field.value {
      StringOrBytes::String(v) => v.parse::<u64>().ok(),
      StringOrBytes::Bytes(_) => None,
    })
  };
  reported += get(&f, "_logs_count").unwrap_or(0) as u32;
  if reported != n + 1 || get(&f, "_logs_total_count") != Some(u64::from(n) + 1) {
    return Some(format!("case {case}: {} logs of racing threads are reported as {reported}, in total {:?}", n + 1, get(&f, "_logs_total_count")));
  }
  // The period before that of the threads is over a minute old now, theirs is not.
  clock.advance(Duration::from_millis(59_500));
  let mut f = vec![];
  t.process(3, LogType::Resource, &String::new().into(), &mut f);
  let got = ["request_body", "request_headers", "response_body", "response_headers"].map(|k| get(&f, &format!("_{k}_bytes_per_min_count")));
  if got != sum.map(Some) {
    return Some(format!("case {case}: the traffic of racing threads is {sum:?}, reported {got:?}"));
  }
  c.add("racing logs", u64::from(n));
  c.eval(Some(vh::hash_of(&(case, sum))));
  None
}

pub fn run(c: &Check) {
  c.rule("cases are histories of logs, clock steps and states of the network over the interceptors; non-trivial: something was added to a log; distinct by the history");
  c.assume("sums of bytes stay below 2^64");
  c.cases(c.n(6000, 500_000), Duration::from_secs(if c.thorough() { 300 } else { 12 }), |i, r| {
    let (sig, bad) = if i % 10 == 0 { ("what racing threads are told", racing(c, i, r)) } else { ("what is added to a log", case(c, i, r)) };
    if let Some(d) = bad {
      c.violation(sig, &d);
    }
  });
}
