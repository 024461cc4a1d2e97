//! G02: the upload service against a server with a plan, on a clock that moves only when idle.
use bd_api::upload::{LogBatch, UploadResponse};
use bd_api::DataUpload;
use bd_client_stats_store::Collector;
use bd_logger::verif_driver::upload::{new, request, Upload, UploadResult};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value::Type, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use bd_stats_common::labels;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::time::Instant;
use tower::{Service, ServiceExt};
use vh::{Check, Rng, Scratch};

const SLACK: Duration = Duration::from_millis(3);

pub fn configure(loader: &ConfigLoader, values: &[(&str, u32)]) {
  let values: HashMap<String, Value> = values
    .iter()
    .map(|(k, v)| ((*k).to_string(), Value { type_: Some(Type::UintValue(*v)), ..Default::default() }))
    .collect();
  loader.update_snapshot(&RuntimeUpdate {
    version_nonce: "v".into(),
    runtime: Some(Runtime { values, ..Default::default() }).into(),
    ..Default::default()
  });
}

/// What the server does with an attempt.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Answer {
  Yes,
  No,
  Lost,
}

#[derive(Debug, Clone)]
struct Attempt {
  uuid: String,
  logs: Vec<Vec<u8>>,
  at: Instant,
  answered: Instant,
  answer: Answer,
}

#[derive(Debug, Clone)]
struct Batch {
  buffer: String,
  logs: Vec<Vec<u8>>,
  called: Instant,
  ended: Instant,
  result: &'static str,
}

#[derive(Clone, Copy, Debug)]
struct Flags {
  num: u32,
  per: u32,
  retries: u32,
  initial: u32,
  max: u32,
}

fn flags(r: &mut Rng) -> Flags {
  Flags {
    num: *r.pick(&[0, 1, 50, 200, 200, 1000, 1_000_000]),
    per: *r.pick(&[1, 10, 1000, 1000, 60_000]),
    retries: *r.pick(&[0, 0, 1, 2, 3, 10]),
    initial: *r.pick(&[1, 10, 1000, 30_000]),
    max: *r.pick(&[1, 2000, 1_800_000]),
  }
}
fn apply(loader: &ConfigLoader, f: &Flags) {
  configure(loader, &[
    ("upload_ratelimit.bytes_count_per_period", f.num),
    ("upload_ratelimit.period_ms", f.per),
    ("log_uploader.retry_count", f.retries),
    ("log_uploader.initial_retry_backoff_ms", f.initial),
    ("log_uploader.max_retry_backoff_ms", f.max),
  ]);
}

/// One period of the rate limit, as the starts tell it.
struct Period {
  from: Instant,
  until: Instant,
  left: u32,
  limited: Option<Instant>,
}

pub fn run(c: &Check) {
  vh::logcap::install(log::LevelFilter::Trace);
  c.rule("Each case: 1-3 rounds of random limits, in each up to 4 concurrent uploaders issue batches of random sizes at random times to a server that acknowledges, fails or loses every attempt by a random plan, sometimes with the retry limit changed in between, a shutdown or a closed channel at a random moment. Every attempt is recorded with its time, and judged: payload and identifier of every attempt, their number, the waits, the result, the counters, and every start of a batch against a model of the periods. Distinct by limits, sizes and answers.");
  c.assume("Time is tokio's paused clock, whose timers fire at whole milliseconds; it is offset by half a microsecond, since at an equal instant a period is not over.");
  let limit = Duration::from_secs(c.n(14, 400));
  c.cases(c.n(12000, 200_000), limit, |i, r| {
    drop(vh::logcap::drain());
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(case(c, i, r));
  });
}

async fn case(c: &Check, case: u64, r: &mut Rng) {
  tokio::time::advance(Duration::from_nanos(500)).await;
  let dir = Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  let mut f = flags(r);
  apply(&loader, &f);
  let collector = Collector::default();
  let (data, mut rx) = mpsc::channel(1);
  let shutdown = ComponentShutdownTrigger::default();
  let created = Instant::now();
  let mut periods = vec![Period { from: created, until: created, left: f.num, limited: None }];
  let service = new(data, shutdown.make_shutdown(), &loader, &collector.scope("")).unwrap();
  tokio::time::sleep(Duration::from_millis(r.below(3))).await;

  // The server.
  let attempts: Arc<Mutex<Vec<Attempt>>> = Arc::default();
  let (yes, no) = (r.below(5), 1 + r.below(4));
  let mut sr = r.fork();
  let log = attempts.clone();
  let (close_tx, mut close_rx) = mpsc::channel::<()>(1);
  let server = tokio::spawn(async move {
    loop {
      let up = tokio::select! {
        up = rx.recv() => up,
        _ = close_rx.recv() => { rx.close(); rx.recv().await },
      };
      let Some(up) = up else { return };
      let DataUpload::LogsUploadRequest(up) = up else { panic!("not logs") };
      assert_eq!(up.uuid, up.payload.upload_uuid);
      let at = Instant::now();
      let answer = if sr.below(yes + no) < yes { Answer::Yes } else if sr.bool() { Answer::No } else { Answer::Lost };
      let delay = Duration::from_millis(*sr.pick(&[0, 1, 50, 5000]));
      let i = {
        let mut l = log.lock().unwrap();
        l.push(Attempt { uuid: up.uuid.clone(), logs: up.payload.logs.clone(), at, answered: at + delay, answer });
        l.len() - 1
      };
      let log = log.clone();
      tokio::spawn(async move {
        tokio::time::sleep(delay).await;
        log.lock().unwrap()[i].answered = Instant::now();
        match answer {
          Answer::Yes | Answer::No => drop(up.response_tx.send(UploadResponse { success: answer == Answer::Yes, uuid: up.uuid })),
          Answer::Lost => drop(up.response_tx),
        }
      });
    }
  });

  let mut shutdown = Some(shutdown);
  let mut close = Some(close_tx);
  let mut tag = 0u32;
  let mut key = vec![];
  let mut totals: HashMap<String, (u64, u64)> = HashMap::new();
  let (mut dropped_batches, mut dropped_logs) = (0u64, 0u64);
  let mut cut = false;
  for round in 0 .. 1 + r.below(3) {
    if round > 0 {
      f = flags(r);
      apply(&loader, &f);
      tokio::time::sleep(Duration::from_millis(1 + r.below(2000))).await;
    }
    attempts.lock().unwrap().clear();
    let uploaders = 1 + r.idx(4);
    let batches: Arc<Mutex<Vec<Batch>>> = Arc::default();
    let mut hs = vec![];
    for u in 0 .. uploaders {
      let n = r.below(6);
      let plan: Vec<(u64, String, Vec<Vec<u8>>)> = (0 .. n)
        .map(|_| {
          let logs = (0 .. r.below(4))
            .map(|_| {
              tag += 1;
              let mut l = tag.to_le_bytes().to_vec();
              l.resize(4 + r.idx(2 + f.num.min(500) as usize / 2), 7);
              l
            })
            .collect();
          (*r.pick(&[0, 0, 1, 20, 700, 70_000]), format!("b{}", if r.bool() { u } else { 0 }), logs)
        })
        .collect();
      let mut s: Upload = service.clone();
      let out = batches.clone();
      hs.push(tokio::spawn(async move {
        for (wait, buffer, logs) in plan {
          if wait > 0 {
            tokio::time::sleep(Duration::from_millis(wait)).await;
          }
          let called = Instant::now();
          let Ok(result) = s.ready().await.unwrap().call(request(LogBatch { logs: logs.clone(), buffer_id: buffer.clone() })).await;
          let result = match result {
            UploadResult::Success => "uploaded",
            UploadResult::Failure => "dropped",
            UploadResult::Canceled => "canceled",
          };
          out.lock().unwrap().push(Batch { buffer, logs, called, ended: Instant::now(), result });
        }
      }));
    }
    // What happens meanwhile.
    let mut retries = (f.retries, f.retries);
    let mut cut_now = None;
    match r.below(8) {
      0 if !cut => {
        tokio::time::sleep(Duration::from_millis(r.below(5000))).await;
        cut = true;
        cut_now = Some(Instant::now());
        if r.bool() {
          let s = shutdown.take().unwrap();
          tokio::spawn(async move { s.shutdown().await });
        } else {
          drop(close.take().unwrap().send(()).await);
        }
      },
      1 => {
        tokio::time::sleep(Duration::from_millis(r.below(5000))).await;
        let other = *r.pick(&[0, 1, 3]);
        retries = (f.retries.min(other), f.retries.max(other));
        f.retries = other;
        apply(&loader, &f);
      },
      _ => {},
    }
    let cut_before = cut && cut_now.is_none();
    for h in hs {
      if let Err(e) = h.await {
        c.violation("an upload fails", &format!("case {case}: {e}: {}", vh::last_panic()));
        return;
      }
    }
    // -------------------------------------------------------------------------------- the oracle
    let batches = batches.lock().unwrap().clone();
    let attempts = attempts.lock().unwrap().clone();
    let show = |what: String| {
      format!("case {case}: {what}; limits {f:?}; times in ms since the service was made; {}", batches.iter().map(|b| format!("{} logs of {} bytes called {:.3} ended {:.3} {}: {}", b.logs.len(), bytes(b), ms(b.called, created), ms(b.ended, created), b.result, attempts.iter().filter(|a| a.logs == b.logs).map(|a| format!("[{:.3}-{:.3} {:?} {}]", ms(a.at, created), ms(a.answered, created), a.answer, &a.uuid[.. 4])).collect::<String>())).collect::<Vec<_>>().join(" | "))
    };
    let mut starts = vec![];
    let mut seen = HashMap::new();
    let mut used = 0;
    for (bi, b) in batches.iter().enumerate() {
      let t = totals.entry(b.buffer.clone()).or_default();
      c.count(b.result);
      if b.logs.is_empty() {
        // Attempts of empty batches cannot be told apart by what they carry.
        key.push((0, b.result));
      }
      let mine: Vec<(usize, &Attempt)> = attempts.iter().enumerate().filter(|(_, a)| a.logs == b.logs && !b.logs.is_empty()).collect();
      used += mine.len();
      if !b.logs.is_empty() {
        let n = mine.len() as u32;
        c.add("attempts", u64::from(n));
        let answers: Vec<Answer> = mine.iter().map(|(_, a)| a.answer).collect();
        let fails = answers.iter().filter(|a| **a != Answer::Yes).count();
        t.0 += u64::from(n);
        key.push((vh::hash_of(&answers) ^ b.logs.len() as u64, b.result));
        let mut ok = c.ensure(mine.iter().all(|(_, a)| a.uuid == mine[0].1.uuid), "the identifier of a retry", || show(format!("batch {bi}")));
        if let Some((i, a)) = mine.first() {
          ok &= c.ensure(seen.insert(a.uuid.clone(), bi).is_none(), "the identifier of a batch", || show(format!("batch {bi}")));
          starts.push((*i, a.at, bi));
        }
        ok &= c.ensure(answers.iter().rev().skip(1).all(|a| *a != Answer::Yes), "an acknowledged batch is not sent again", || show(format!("batch {bi}")));
        ok &= c.ensure(n <= 1 + retries.1, "the number of attempts", || show(format!("batch {bi} is tried {n} times, with limit {retries:?}")));
        let last = mine.last().map(|(_, a)| a.answer);
        let want = match b.result {
          "uploaded" => last == Some(Answer::Yes),
          "dropped" => n >= 1 + retries.0 && last != Some(Answer::Yes),
          _ => cut && (cut_before || cut_now.is_some_and(|t| t <= b.ended)),
        };
        ok &= c.ensure(want, "the result of a batch", || show(format!("batch {bi}")));
        if b.result == "dropped" {
          dropped_batches += 1;
          dropped_logs += b.logs.len() as u64;
        }
        if b.result != "canceled" {
          t.1 += fails as u64;
          ok &= c.ensure(mine.last().is_some_and(|(_, a)| a.answered == b.ended), "a batch ends with its last answer", || show(format!("batch {bi}")));
        }
        // The wait between attempts grows by half, up to the limit, and is random within a half.
        let mut interval = f64::from(f.initial);
        for (k, w) in mine.windows(2).enumerate() {
          let d = w[1].1.at.duration_since(w[0].1.answered).as_secs_f64() * 1000.0;
          if w[1].1.at < w[0].1.answered || d < interval * 0.5 - 1.0 || d > interval * 1.5 + 3.0 {
            ok &= c.ensure(false, "the wait before a retry", || show(format!("batch {bi}: {d:.3} ms before retry {}, at an interval of {interval:.3} ms", k + 1)));
          }
          c.count("waits before a retry");
          interval = if interval >= f64::from(f.max) / 1.5 { f64::from(f.max) } else { interval * 1.5 };
        }
        if !ok {
          return;
        }
      }
    }
    let others = attempts.iter().filter(|a| !a.logs.is_empty()).count();
    if !c.ensure(others == used || cut, "what is uploaded", || show(format!("{used} of {others} attempts carry a batch"))) {
      return;
    }
    if batches.iter().any(|b| b.logs.is_empty()) || cut {
      // Starts that cannot be attributed: the model cannot be kept.
      break;
    }
    // Starts against periods, in the order in which they came.
    starts.sort();
    let from = periods.len() - 1;
    for &(_, at, b) in &starts {
      let size = bytes(&batches[b]) as u32;
      if periods.last().unwrap().until < at {
        periods.push(Period { from: at, until: at + Duration::from_millis(f.per.into()), left: f.num, limited: None });
      }
      let p = periods.last_mut().unwrap();
      if !c.ensure(p.limited.is_none(), "starts in a period that is used up", || show(format!("batch {b} of {size} bytes starts at {:.3}, in the period of {} bytes from {:.3} until {:.3}", ms(at, created), f.num, ms(p.from, created), ms(p.until, created)))) {
        return;
      }
      if p.left > size {
        p.left -= size;
      } else {
        p.limited = Some(at);
        c.count("periods used up");
      }
    }
    c.add("periods", (periods.len() - from) as u64);
    for &(_, at, b) in &starts {
      let called = batches[b].called;
      if at > called {
        c.count("batches held back");
        let size = bytes(&batches[b]);
        let explained = periods[from ..].iter().filter(|p| p.until > called && p.until < at).all(|p| p.limited.is_some_and(|l| l <= p.from.max(called) + Duration::from_millis(0) || l <= called || l == p.from))
          && periods[from ..].iter().any(|p| p.until >= called && p.until < at && at - p.until <= SLACK);
        if !c.ensure(explained, "batches held back", || show(format!("batch {b} of {size} bytes starts at {:.3}; periods {}", ms(at, created), periods[from ..].iter().map(|p| format!("[{:.3}-{:.3} limited {:?}]", ms(p.from, created), ms(p.until, created), p.limited.map(|l| ms(l, created)))).collect::<String>()))) {
          return;
        }
      }
    }
    if retries.0 == retries.1 {
      let n = collector.scope("uploader");
      let got = (n.counter("retry_limit_exceeded").get(), n.counter("retry_limit_exceeded_dropped_logs").get());
      if !c.ensure(got == (dropped_batches, dropped_logs), "what is counted as dropped", || show(format!("{got:?} batches and logs are counted, {dropped_batches} and {dropped_logs} were dropped"))) {
        return;
      }
      for (b, (tries, fails)) in &totals {
        let got = (n.counter_with_labels("log_upload_attempt", labels!("buffer_id" => b)).get(), n.counter_with_labels("log_upload_failure", labels!("buffer_id" => b)).get());
        if !c.ensure(got == (*tries, *fails), "what is counted as tried", || show(format!("{got:?} attempts and failures of {b} are counted, {tries} and {fails} were made"))) {
          return;
        }
      }
    } else {
      break;
    }
  }
  server.abort();
  c.eval(Some(vh::hash_of(&(f.num, f.per, f.retries, key))));
  c.sample(|| format!("case {case}: {f:?}, {} periods", periods.len()));
}

fn bytes(b: &Batch) -> usize {
  b.logs.iter().map(Vec::len).sum()
}
fn ms(t: Instant, since: Instant) -> f64 {
  t.duration_since(since).as_secs_f64() * 1000.0
}
