//! The periodic collectors: what the application is asked for, and when, on a paused clock.
use bd_client_common::error::{Reporter as ErrorReporter, UnexpectedErrorHandler};
use bd_client_stats_store::Collector;
use bd_log_primitives::{LogInterceptor, LogMessage, LogType};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value::Type, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{platform_events, resource_utilization, session_replay, ConfigLoader, FeatureFlag};
use bd_session_replay::SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE;
use bd_shutdown::ComponentShutdownTrigger;
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::Notify;
use tokio::time::Instant;
use vh::{Check, Rng, Scratch};

struct Silent;
impl ErrorReporter for Silent {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<Cow<'_, str>, Cow<'_, str>>) {}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
  Tick,
  Shot,
  Start,
  Stop,
}

#[derive(Clone)]
struct Target {
  t0: Instant,
  seen: Arc<Mutex<Vec<(u64, Ev)>>>,
}
impl Target {
  fn new() -> Self {
    Self { t0: Instant::now(), seen: Arc::default() }
  }
  fn ms(&self) -> u64 {
    self.t0.elapsed().as_millis() as u64
  }
  fn saw(&self, e: Ev) {
    self.seen.lock().unwrap().push((self.ms(), e));
  }
  fn take(&self) -> Vec<(u64, Ev)> {
    std::mem::take(&mut *self.seen.lock().unwrap())
  }
}
impl bd_resource_utilization::Target for Target {
  fn tick(&self) {
    self.saw(Ev::Tick);
  }
}
impl bd_session_replay::Target for Target {
  fn capture_screen(&self) {
    self.saw(Ev::Tick);
  }
  fn capture_screenshot(&self) {
    self.saw(Ev::Shot);
  }
}
impl bd_events::ListenerTarget for Target {
  fn start(&self) {
    self.saw(Ev::Start);
  }
  fn stop(&self) {
    self.saw(Ev::Stop);
  }
}

/// The flags as the server last set them.
#[derive(Clone, Default)]
struct Flags(HashMap<&'static str, Type>);
impl Flags {
  fn bool(&mut self, k: &'static str, v: Option<bool>) {
    match v {
      Some(v) => self.0.insert(k, Type::BoolValue(v)),
      None => self.0.remove(k),
    };
  }
  fn ms(&mut self, k: &'static str, v: Option<u32>) {
    match v {
      Some(v) => self.0.insert(k, Type::UintValue(v)),
      None => self.0.remove(k),
    };
  }
  fn apply(&self, l: &ConfigLoader) {
    let values = self.0.iter().map(|(k, v)| ((*k).to_string(), Value { type_: Some(v.clone()), ..Default::default() })).collect();
    l.update_snapshot(&RuntimeUpdate { version_nonce: "v".into(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() });
  }
}

async fn settle() {
  for _ in 0 .. 40 {
    tokio::task::yield_now().await;
  }
}

/// When a collector is due, by its definition: at once, then one interval after the other, and when it
/// was off at that time as soon as it is on again.
struct Model {
  on: bool,
  period: u64,
  due: u64,
}
impl Model {
  fn ticks(&mut self, until: u64) -> Vec<u64> {
    let mut v = vec![];
    while self.on && self.due <= until {
      v.push(self.due);
      self.due += self.period;
    }
    v
  }
  /// A time from `at` on at which neither a call is due nor one was due within the last 6 ms (from when on a late call shifts those that follow).
  fn calm(&self, mut at: u64) -> u64 {
    loop {
      let mut due = self.due;
      if self.on {
        while due < at {
          due += self.period;
        }
      }
      if due == at || (!self.on && due < at && at - due <= 6) {
        at += 1;
      } else {
        return at;
      }
    }
  }
}

const PERIODS: &[u32] = &[2, 3, 5, 10, 64, 1000, 3000, 6000, 60_000, 3_600_000, u32::MAX];

async fn periodic(c: &Check, case: u64, r: &mut Rng) -> Option<String> {
  let screens = r.bool();
  let dir = Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  let target = Target::new();
  let (on_key, ms_key, default_ms) = if screens {
    (session_replay::PeriodicScreensEnabledFlag::path(), session_replay::ReportingIntervalFlag::path(), 3000)
  } else {
    (resource_utilization::ResourceUtilizationEnabledFlag::path(), resource_utilization::ResourceUtilizationReportingIntervalFlag::path(), 6000)
  };
  let shot_key = session_replay::ScreenshotsEnabledFlag::path();
  let mut flags = Flags::default();
  let mut m = Model { on: false, period: default_ms, due: 0 };
  let mut shots_on = false;
  if r.bool() {
    m.on = r.bool();
    m.period = u64::from(*r.pick(PERIODS));
    shots_on = r.bool();
    flags.bool(on_key, Some(m.on));
    flags.ms(ms_key, Some(m.period as u32));
    flags.bool(shot_key, Some(shots_on));
    flags.apply(&loader);
  }
  let collector = Collector::default();
  let (replay, handler, interceptor, resource) = if screens {
    let (a, b, d) = bd_session_replay::Recorder::new(Box::new(target.clone()), &loader, &collector.scope(""));
    (Some(a), Some(b), Some(d), None)
  } else {
    (None, None, None, Some(bd_resource_utilization::Reporter::new(Box::new(target.clone()), &loader)))
  };
  let again = Arc::new(Notify::new());
  let trigger = ComponentShutdownTrigger::default();
  let mut shutdown = trigger.make_shutdown();
  let by_run = r.bool();
  let task = tokio::spawn({
    let again = again.clone();
    let inner = trigger.make_shutdown();
    async move {
      let (mut replay, mut resource) = (replay, resource);
      let mut stop = std::pin::pin!(shutdown.cancelled());
      loop {
        // As the logger does: what runs is dropped and started again whenever something else happens.
        tokio::select! {
          () = async {
            match (&mut replay, &mut resource, by_run) {
              (Some(x), _, true) => x.run().await,
              (Some(x), _, false) => x.run_with_shutdown(inner.clone()).await,
              (_, Some(x), true) => x.run().await,
              (_, Some(x), false) => x.run_with_shutdown(inner.clone()).await,
              _ => unreachable!(),
            }
          } => return,
          () = again.notified() => {},
          () = &mut stop => return,
        }
      }
    }
  });
  settle().await;
  let mut log = vec![format!("screens {screens}, on {}, every {} ms, screenshots {shots_on}", m.on, m.period)];
  let mut ready = true;
  let [mut taken, mut off, mut busy, mut full, mut received] = [0u64; 5];
  let mut want: Vec<(u64, Ev)> = m.ticks(0).into_iter().map(|t| (t, Ev::Tick)).collect();
  let mut calls = want.len() as u64;
  let fail = |log: &[String], what: String| Some(format!("case {case}: {what}\n{}", log.join("\n")));
  for op in 0 .. r.range(3, 25) {
    let got = target.take();
    // What happens at one instant is not ordered.
    if got != want {
      return fail(&log, format!("before step {op} the target was asked {got:?} (ms), expected {want:?}"));
    }
    want.clear();
    // On to the next step.
    let now = target.ms();
    let span = match r.below(4) {
      0 => r.below(4),
      1 => m.period.min(100_000) / 2 + 1,
      _ => r.below(m.period.min(1_000_000) * 6),
    };
    let at = m.calm(now + span);
    tokio::time::sleep_until(target.t0 + Duration::from_millis(at)).await;
    want.extend(m.ticks(at).into_iter().map(|t| (t, Ev::Tick)));
    calls += want.len() as u64;
    settle().await;
    match r.below(if screens { 8 } else { 4 }) {
      0 => {
        // Whether it is on.
        let v = if r.chance(1, 5) { None } else { Some(r.bool()) };
        flags.bool(on_key, v);
        flags.apply(&loader);
        m.on = v.unwrap_or(false);
        log.push(format!("{at}: on {v:?}"));
        if m.on && m.due < at {
          m.due = at + m.period;
          want.push((at, Ev::Tick));
        }
      },
      1 | 2 => {
        let v = if r.chance(1, 5) { None } else { Some(*r.pick(PERIODS)) };
        flags.ms(ms_key, v);
        flags.apply(&loader);
        let p = v.map_or(default_ms, u64::from);
        log.push(format!("{at}: every {v:?}"));
        if p != m.period {
          m.period = p;
          m.due = at + p;
        }
      },
      3 => {
        again.notify_one();
        log.push(format!("{at}: again"));
      },
      4 => {
        let v = Some(r.chance(2, 3));
        flags.bool(shot_key, v);
        flags.apply(&loader);
        shots_on = v.unwrap();
        log.push(format!("{at}: screenshots {v:?}"));
      },
      5 | 6 => {
        let n = r.range(1, 3) as u64;
        for _ in 0 .. n {
          handler.as_ref().unwrap().capture_screenshot();
        }
        full += n - 1;
        log.push(format!("{at}: {n} requests"));
        if !shots_on {
          off += 1;
        } else if !ready {
          busy += 1;
        } else {
          taken += 1;
          ready = false;
          want.push((at, Ev::Shot));
        }
      },
      _ => {
        let ty = if r.chance(1, 4) { LogType::Normal } else { LogType::Replay };
        let msg: LogMessage = match r.below(4) {
          0 => "Screen captured".to_string().into(),
          1 => LogMessage::Bytes(SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.as_bytes().to_vec()),
          _ => SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.to_string().into(),
        };
        let is = ty == LogType::Replay && msg.as_str() == Some(SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE);
        let mut fields = vec![];
        interceptor.as_ref().unwrap().process(3, ty, &msg, &mut fields);
        if !fields.is_empty() {
          return fail(&log, "a log was changed".into());
        }
        log.push(format!("{at}: log {ty:?} {msg:?}"));
        if is {
          received += 1;
          ready = true;
        }
      },
    }
    settle().await;
    if task.is_finished() {
      return fail(&log, "the collector ended".into());
    }
  }
  let got = target.take();
  if got != want {
    return fail(&log, format!("in the end the target was asked {got:?}, expected {want:?}"));
  }
  if screens {
    for (k, v) in [("success", taken), ("disabled", off), ("not_ready", busy), ("channel_full", full)] {
      let got = collector.scope("screenshots").counter_with_labels("requests_total", bd_stats_common::labels!("type" => k)).get();
      if got != v {
        return fail(&log, format!("{got} requests counted as {k}, not {v}"));
      }
    }
    let got = collector.scope("screenshots").counter("received_total").get();
    if got != received {
      return fail(&log, format!("{got} received screenshots counted, not {received}"));
    }
    c.add("screenshots requested", taken + off + busy + full);
    c.add("screenshots taken", taken);
  }
  // Nothing is asked for after the shutdown.
  if let Err(e) = tokio::time::timeout(Duration::from_secs(5), async {
    trigger.shutdown().await;
    task.await
  })
  .await
  {
    return fail(&log, format!("the collector does not shut down: {e}"));
  }
  target.take();
  tokio::time::sleep(Duration::from_millis(m.period.min(100_000) * 3)).await;
  if let v @ [_, ..] = &target.take()[..] {
    return fail(&log, format!("asked after the shutdown: {v:?}"));
  }
  c.add("periodic calls", calls);
  c.saw("settings", &(screens, m.period, m.on));
  c.sample(|| log.join(" | "));
  (calls > 1 || taken > 0).then(|| vh::hash_of(&log)).map(|h| c.eval(Some(h)));
  None
}

/// An interval of no length at all must not end the collector or keep the thread to itself.
async fn zero(c: &Check, case: u64, r: &mut Rng) -> Option<String> {
  let dir = Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  let target = Target::new();
  let mut flags = Flags::default();
  let on = [resource_utilization::ResourceUtilizationEnabledFlag::path(), session_replay::PeriodicScreensEnabledFlag::path()];
  let every = [resource_utilization::ResourceUtilizationReportingIntervalFlag::path(), session_replay::ReportingIntervalFlag::path()];
  let which = r.idx(2);
  flags.bool(on[which], Some(r.bool()));
  let first = r.bool();
  flags.ms(every[which], Some(if first { 0 } else { 50 }));
  flags.apply(&loader);
  let (mut a, mut b) = (
    bd_resource_utilization::Reporter::new(Box::new(target.clone()), &loader),
    bd_session_replay::Recorder::new(Box::new(target.clone()), &loader, &Collector::default().scope("")).0,
  );
  let task = tokio::spawn(async move {
    if which == 0 {
      a.run().await;
    } else {
      b.run().await;
    }
  });
  settle().await;
  if !first {
    flags.ms(every[which], Some(0));
    flags.apply(&loader);
  }
  tokio::time::sleep(Duration::from_millis(20)).await;
  flags.bool(on[which], Some(true));
  flags.ms(every[which], Some(100));
  flags.apply(&loader);
  settle().await;
  target.take();
  tokio::time::sleep(Duration::from_millis(1050)).await;
  let n = target.take().len();
  c.eval(None);
  c.count("intervals of no length");
  if task.is_finished() {
    return Some(format!("case {case}: the collector {which} ended at an interval of 0 ms (from the start: {first})"));
  }
  if n != 10 {
    return Some(format!("case {case}: after an interval of 0 ms, one of 100 ms calls {n} times in 1050 ms"));
  }
  task.abort();
  None
}

/// The events listener follows its flag, however fast it changes: starts and stops alternate.
async fn listener(c: &Check, case: u64, r: &mut Rng) -> Option<String> {
  let dir = Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  let target = Target::new();
  let mut flags = Flags::default();
  let key = platform_events::ListenerEnabledFlag::path();
  let mut l = bd_events::Listener::new(Box::new(target.clone()), &loader);
  let again = Arc::new(Notify::new());
  let trigger = ComponentShutdownTrigger::default();
  let inner = trigger.make_shutdown();
  let by_run = r.bool();
  let mut shutdown = trigger.make_shutdown();
  let task = tokio::spawn({
    let again = again.clone();
    async move {
      let mut stop = std::pin::pin!(shutdown.cancelled());
      loop {
        tokio::select! {
          () = async { if by_run { l.run().await } else { l.run_with_shutdown(inner.clone()).await } } => return,
          () = again.notified() => {},
          () = &mut stop => return,
        }
      }
    }
  });
  if r.bool() {
    settle().await;
  }
  let mut log = vec![];
  let mut active = false;
  let mut v = false;
  let fast = r.bool();
  let mut changes = 0;
  for _ in 0 .. r.range(2, 20) {
    match r.below(4) {
      0 => {
        again.notify_one();
        log.push("again".to_string());
      },
      _ => {
        v = r.bool();
        flags.bool(key, if r.chance(1, 6) { v = false; None } else { Some(v) });
        flags.apply(&loader);
        log.push(format!("{v}"));
      },
    }
    if fast && r.chance(2, 3) {
      continue;
    }
    settle().await;
    for (_, e) in target.take() {
      log.push(format!("{e:?}"));
      if (e == Ev::Start) == active {
        return Some(format!("case {case}: {e:?} of a listener that is {}: {log:?}", if active { "active" } else { "not active" }));
      }
      active = !active;
      changes += 1;
    }
    if active != v {
      return Some(format!("case {case}: the flag is {v} and the listener's state {active}: {log:?}"));
    }
  }
  trigger.shutdown().await;
  if task.await.is_err() {
    return Some(format!("case {case}: the listener panicked"));
  }
  target.take();
  flags.bool(key, Some(!v));
  flags.apply(&loader);
  settle().await;
  if let v @ [_, ..] = &target.take()[..] {
    return Some(format!("case {case}: {v:?} after the shutdown"));
  }
  c.add("listener starts and stops", changes);
  c.eval((changes > 0).then(|| vh::hash_of(&log)));
  None
}

/// Requests from several threads while the application answers from another: none is unaccounted for, and
/// none is passed on before the previous one was answered.
fn racing(c: &Check, case: u64, r: &mut Rng) {
  struct Slow {
    out: Arc<AtomicBool>,
    twice: Arc<AtomicBool>,
    tx: std::sync::mpsc::Sender<()>,
    taken: Arc<AtomicU64>,
  }
  impl bd_session_replay::Target for Slow {
    fn capture_screen(&self) {}
    fn capture_screenshot(&self) {
      if self.out.swap(true, Ordering::SeqCst) {
        self.twice.store(true, Ordering::SeqCst);
      }
      self.taken.fetch_add(1, Ordering::SeqCst);
      let _ = self.tx.send(());
    }
  }
  let dir = Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  let mut flags = Flags::default();
  let key = session_replay::ScreenshotsEnabledFlag::path();
  flags.bool(key, Some(true));
  flags.apply(&loader);
  let collector = Collector::default();
  let (tx, rx) = std::sync::mpsc::channel();
  let [out, twice] = [(); 2].map(|()| Arc::new(AtomicBool::new(false)));
  let taken = Arc::new(AtomicU64::new(0));
  let (mut rec, handler, interceptor) = bd_session_replay::Recorder::new(
    Box::new(Slow { out: out.clone(), twice: twice.clone(), tx, taken: taken.clone() }),
    &loader,
    &collector.scope(""),
  );
  let trigger = ComponentShutdownTrigger::default();
  let shutdown = trigger.make_shutdown();
  let runner = std::thread::spawn(move || {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(rec.run_with_shutdown(shutdown));
  });
  let answered = Arc::new(AtomicU64::new(0));
  let app = std::thread::spawn({
    let (out, answered) = (out.clone(), answered.clone());
    let mut r = r.fork();
    move || {
      while rx.recv().is_ok() {
        if r.bool() {
          std::thread::sleep(Duration::from_micros(r.below(200)));
        }
        out.store(false, Ordering::SeqCst);
        interceptor.process(3, LogType::Replay, &SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.to_string().into(), &mut vec![]);
        answered.fetch_add(1, Ordering::SeqCst);
      }
    }
  });
  let mut asked = 0;
  let threads: Vec<_> = (0 .. r.range(1, 4))
    .map(|_| {
      let (h, mut r) = (handler.clone(), r.fork());
      let n = r.range(1, 60) as u64;
      asked += n;
      std::thread::spawn(move || {
        for _ in 0 .. n {
          h.capture_screenshot();
          if r.chance(1, 3) {
            std::thread::sleep(Duration::from_micros(r.below(100)));
          }
        }
      })
    })
    .collect();
  let switch = r.bool();
  if switch {
    std::thread::sleep(Duration::from_micros(r.below(500)));
    flags.bool(key, Some(false));
    flags.apply(&loader);
  }
  for t in threads {
    t.join().unwrap();
  }
  let count = |k: &str| collector.scope("screenshots").counter_with_labels("requests_total", bd_stats_common::labels!("type" => k)).get();
  let all = || ["success", "disabled", "not_ready", "channel_full"].map(count);
  let t = std::time::Instant::now();
  while all().iter().sum::<u64>() < asked && t.elapsed() < Duration::from_secs(10) {
    std::thread::sleep(Duration::from_millis(1));
  }
  while answered.load(Ordering::SeqCst) < taken.load(Ordering::SeqCst) && t.elapsed() < Duration::from_secs(10) {
    std::thread::sleep(Duration::from_millis(1));
  }
  let got = all();
  let ctx = || format!("case {case}: {asked} requests, [success, disabled, not ready, channel full] {got:?}, {} taken, switched off {switch}", taken.load(Ordering::SeqCst));
  c.ensure(got.iter().sum::<u64>() == asked, "a screenshot request that is not accounted for", ctx);
  c.ensure(got[0] == taken.load(Ordering::SeqCst), "screenshots taken", ctx);
  c.ensure(!twice.load(Ordering::SeqCst), "a screenshot before the previous one was received", ctx);
  c.ensure(got[0] > 0 || switch, "no screenshot at all", ctx);
  let received = collector.scope("screenshots").counter("received_total").get();
  c.ensure(received == answered.load(Ordering::SeqCst), "screenshots received", || format!("{}: {received} counted", ctx()));
  // Once it settled, a request is served again.
  if !switch {
    std::thread::sleep(Duration::from_millis(2));
    handler.capture_screenshot();
    let t = std::time::Instant::now();
    while taken.load(Ordering::SeqCst) == got[0] && t.elapsed() < Duration::from_secs(10) {
      std::thread::sleep(Duration::from_millis(1));
    }
    c.ensure(taken.load(Ordering::SeqCst) == got[0] + 1, "a screenshot that is never taken", || format!("{}: {:?}", ctx(), all()));
  }
  tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(trigger.shutdown());
  runner.join().unwrap();
  drop(handler);
  app.join().unwrap();
  c.add("racing requests", asked);
  c.eval(Some(vh::hash_of(&(case, got))));
}

/// Screenshots that workflows take, through the whole pipeline.
async fn piped(c: &Check, case: u64, r: &mut Rng) -> Option<String> {
  use crate::g03::{begins, field, switches, Idle};
  use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
  use bd_proto::protos::client::api::{api_response::Response_type, ApiResponse, ConfigurationUpdate};
  use bd_proto::protos::workflow::workflow as wp;
  use protobuf::MessageField;
  use wp::workflow as wf;
  #[derive(Clone, Default)]
  struct Asked(Arc<AtomicU64>);
  impl bd_session_replay::Target for Asked {
    fn capture_screen(&self) {}
    fn capture_screenshot(&self) {
      self.0.fetch_add(1, Ordering::SeqCst);
    }
  }
  struct Platform;
  impl bd_logger::MetadataProvider for Platform {
    fn timestamp(&self) -> anyhow::Result<::time::OffsetDateTime> {
      Ok(::time::OffsetDateTime::now_utc())
    }
    fn fields(&self) -> anyhow::Result<bd_log_primitives::AnnotatedLogFields> {
      Ok(vec![])
    }
  }
  let dir = Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  let mut on = r.chance(3, 4);
  let set = |on: bool| switches(&loader, &[], &[("workflows.enabled", true), ("session_replay.screenshots.enabled", on)]);
  set(on);
  let collector = Collector::default();
  let scope = collector.scope("");
  let store = vstore::Mem::new(1).store();
  let session = Arc::new(bd_session::Strategy::Fixed(bd_session::fixed::Strategy::new(store.clone(), Arc::new(bd_session::fixed::UUIDCallbacks))));
  let shutdown = ComponentShutdownTrigger::default();
  let asked = Asked::default();
  let targets = (Box::new(Idle) as Box<_>, Box::new(asked.clone()) as Box<_>, Box::new(Idle) as Box<_>);
  let p = bd_logger::verif_driver::pipeline::build(dir.path(), &loader, &scope, (512, 1 << 20), session, Arc::new(Platform), store, targets, shutdown.make_handle()).unwrap();
  let bd_logger::verif_driver::pipeline::Parts { logger, mut config, manager: _manager, mut events, mut flushes, mut triggers, mut uploads, mut stats, run } = p;
  // Each workflow takes a screenshot, or two, after so many logs of its class.
  let flows: Vec<(char, u64, bool)> = (0 .. r.range(1, 4)).map(|_| (*r.pick(&['a', 'b']), r.below(3) + 1, r.chance(1, 3))).collect();
  let mut counts = vec![0; flows.len()];
  let all = flows.iter().enumerate().map(|(i, (class, n, twice))| {
    let shot = |k| wf::Action { action_type: Some(wf::action::Action_type::ActionTakeScreenshot(wf::action::ActionTakeScreenshot { id: format!("s{i}{k}"), ..Default::default() })), ..Default::default() };
    let rule = wf::rule::Rule_type::RuleLogMatch(wf::RuleLogMatch { log_matcher: MessageField::some(begins(*class)), count: *n as u32, ..Default::default() });
    let transition = wf::Transition {
      target_state_id: "1".into(),
      rule: Some(wf::Rule { rule_type: Some(rule), ..Default::default() }).into(),
      actions: (0 .. if *twice { 2 } else { 1 }).map(shot).collect(),
      ..Default::default()
    };
    wp::Workflow {
      id: format!("f{i}"),
      states: vec![wf::State { id: "0".into(), transitions: vec![transition], ..Default::default() }, wf::State { id: "1".into(), ..Default::default() }],
      execution: Some(wf::Execution { execution_type: Some(wf::execution::Execution_type::ExecutionExclusive(Default::default())), ..Default::default() }).into(),
      ..Default::default()
    }
  });
  let sotw = StateOfTheWorld { workflows_configuration: Some(wp::WorkflowsConfiguration { workflows: all.collect(), ..Default::default() }).into(), ..Default::default() };
  let response = ApiResponse {
    response_type: Some(Response_type::ConfigurationUpdate(ConfigurationUpdate { version_nonce: "v".into(), update_type: Some(Update_type::StateOfTheWorld(sotw)), ..Default::default() })),
    ..Default::default()
  };
  let kinds = ["success", "channel_full", "disabled", "not_ready"];
  let requests = || kinds.map(|k| scope.scope("logger").scope("screenshots").counter_with_labels("requests_total", bd_stats_common::labels!("type" => k)).get());
  let received = || scope.scope("logger").scope("screenshots").counter("received_total").get();
  let mut story = vec![format!("screenshots on: {on}, workflows {flows:?}")];
  let script = async {
    for _ in 0 .. 50 {
      tokio::task::yield_now().await;
    }
    config.try_apply_config(&response).await;
    for _ in 0 .. 200 {
      tokio::task::yield_now().await;
    }
    let (mut ready, mut n, mut expected) = (true, 0u64, [0u64; 4]);
    let mut answers = 0;
    for _ in 0 .. r.range(4, 40) {
      let l = logger.new_logger_handle();
      match r.below(10) {
        0 => {
          on = !on;
          story.push(format!("screenshots on: {on}"));
          set(on);
        },
        1 | 2 if !ready => {
          story.push("the screenshot".into());
          tokio::task::spawn_blocking(move || l.log_session_replay_screenshot(vec![], ::time::Duration::milliseconds(3))).await.unwrap();
          answers += 1;
          ready = true;
          let t = std::time::Instant::now();
          while received() < answers && t.elapsed() < Duration::from_secs(10) {
            tokio::time::sleep(Duration::from_micros(100)).await;
          }
          if received() != answers {
            return Some(format!("{answers} screenshots, {} received", received()));
          }
        },
        3 => {
          // Not a screenshot, for all that.
          story.push("a log with its name".into());
          let _ = tokio::task::spawn_blocking(move || l.log(2, LogType::Normal, SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.into(), vec![], vec![], None, true)).await;
        },
        _ => {
          let class = *r.pick(&['a', 'b', 'c']);
          n += 1;
          story.push(format!("log {n} {class}"));
          let _ = tokio::task::spawn_blocking(move || l.log(2, LogType::Normal, format!("{class} message").as_str().into(), vec![field("id", &n.to_string(), false)], vec![], None, true)).await;
          let mut fires = false;
          for (k, f) in counts.iter_mut().zip(&flows) {
            if f.0 == class {
              *k += 1;
              if *k == f.1 {
                *k = 0;
                fires = true;
              }
            }
          }
          if fires {
            // However many ask for it, a log makes one request.
            c.count("requests of workflows");
            expected[if !on { 2 } else if !ready { 3 } else { 0 }] += 1;
            ready &= !on;
          }
        },
      }
      let t = std::time::Instant::now();
      while requests() != expected && t.elapsed() < Duration::from_secs(3) {
        tokio::time::sleep(Duration::from_micros(100)).await;
      }
      for _ in 0 .. 50 {
        tokio::task::yield_now().await;
      }
      let got = requests();
      if got != expected || asked.0.load(Ordering::SeqCst) != expected[0] {
        return Some(format!("requests {got:?} ({kinds:?}), {} of them passed on, expected {expected:?}", asked.0.load(Ordering::SeqCst)));
      }
    }
    c.add("screenshots of workflows taken", expected[0]);
    c.eval((expected[0] > 0).then(|| vh::hash_of(&story)));
    None
  };
  let bad = tokio::select! {
    b = script => b,
    () = run => Some("the pipeline ends".to_string()),
    () = async { tokio::join!(async { while events.recv().await.is_some() {} }, async { while flushes.recv().await.is_some() {} }, async { while triggers.recv().await.is_some() {} }, async { while uploads.recv().await.is_some() {} }, async { while let Some(t) = stats.recv().await { drop(t.map(|t| t.send(()))) } }); std::future::pending::<()>().await; } => None,
  };
  std::mem::forget(shutdown);
  bad.map(|b| format!("case {case}: {b}\n{story:#?}"))
}

pub fn run(c: &Check) {
  c.rule("cases are histories of flag changes, requests and screenshots over one collector; non-trivial: the application was asked for something; distinct by the history");
  c.assume("a clock that only tokio reads; the application answers a screenshot request with one log");
  UnexpectedErrorHandler::set_reporter(Arc::new(Silent));
  let rt = || tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
  c.cases(c.n(1500, 200_000), Duration::from_secs(if c.thorough() { 300 } else { 12 }), |case, r| {
    let (sig, bad) = match case % 8 {
      4 if case % 16 == 4 => {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let bad = rt.block_on(piped(c, case, r));
        rt.shutdown_timeout(Duration::from_secs(5));
        ("the screenshots of workflows", bad)
      },
      0 => {
        racing(c, case, r);
        return;
      },
      1 | 2 => ("the events listener", rt().block_on(listener(c, case, r))),
      3 => ("an interval of no length", rt().block_on(zero(c, case, r))),
      _ => ("what the application is asked for", rt().block_on(periodic(c, case, r))),
    };
    if let Some(d) = bad {
      c.violation(sig, &d);
    }
  });
}
