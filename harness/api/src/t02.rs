//! The API client against a scripted server, on a clock that only moves when everything is idle.
use bd_api::api::{Api, SimpleNetworkQualityProvider};
use bd_api::upload::{IntentDecision, IntentResponse, Tracked, UploadResponse};
use bd_api::{ClientConfigurationUpdate, ConfigurationUpdate, DataUpload, IntoRequest, PlatformNetworkManager, PlatformNetworkStream, StreamEvent, TriggerUpload};
use bd_client_stats_store::Collector;
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_internal_logging::{LogFields, LogLevel, LogType};
use bd_metadata::{Metadata, Platform};
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_proto::protos::client::api::api_request::Request_type as Req;
use bd_proto::protos::client::api::api_response::Response_type as Resp;
use bd_proto::protos::client::api::configuration_update_ack::Nack;
use bd_proto::protos::client::api::handshake_response::StreamSettings;
use bd_proto::protos::client::api::*;
use bd_proto::protos::client::runtime::runtime::{value::Type, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{ConfigLoader, RuntimeManager};
use bd_shutdown::ComponentShutdownTrigger;
use bd_time::{OffsetDateTimeExt, TestTimeProvider, TimeProvider};
use std::collections::{HashMap, VecDeque};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use time::OffsetDateTime;
use tokio::sync::mpsc;
use tokio::sync::oneshot::{self, error::TryRecvError};
use tokio::time::Instant;
use vh::{Check, Rng};

const MS: Duration = Duration::from_millis(1);
/// Timers are rounded to milliseconds.
const SLACK: Duration = Duration::from_millis(3);

struct Meta(HashMap<String, String>);
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    "1.2.3"
  }
  fn platform(&self) -> &Platform {
    &Platform::Other("an os", "a kind")
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    self.0.clone()
  }
}

struct NoLog;
impl bd_internal_logging::Logger for NoLog {
  fn log(&self, _: LogLevel, _: LogType, _: &str, _: LogFields) {}
}

struct StreamRec {
  at: Instant,
  headers: HashMap<String, String>,
  events: mpsc::Sender<StreamEvent>,
  quality: NetworkQuality,
}

#[derive(Default)]
struct Rec {
  streams: Vec<StreamRec>,
  sent: VecDeque<(usize, Instant, Vec<u8>)>,
  configs: Vec<ConfigurationUpdate_>,
  loaded: u32,
  handshakes: u32,
  /// Sending fails from now on.
  broken: bool,
}
type ConfigurationUpdate_ = bd_proto::protos::client::api::ConfigurationUpdate;
type Shared = Arc<Mutex<Rec>>;

struct Net(Shared, Arc<SimpleNetworkQualityProvider>);
#[async_trait::async_trait]
impl PlatformNetworkManager<ConfigLoader> for Net {
  async fn start_stream(&self, events: mpsc::Sender<StreamEvent>, _: &ConfigLoader, headers: &HashMap<&str, &str>) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    let mut s = self.0.lock().unwrap();
    s.streams.push(StreamRec {
      at: Instant::now(),
      headers: headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
      events,
      quality: self.1.get_network_quality(),
    });
    Ok(Box::new(Stream(self.0.clone(), s.streams.len() - 1)))
  }
}

struct Stream(Shared, usize);
#[async_trait::async_trait]
impl PlatformNetworkStream for Stream {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    let mut s = self.0.lock().unwrap();
    anyhow::ensure!(!s.broken, "the platform fails");
    anyhow::ensure!(s.sent.len() < 5000, "too much is sent");
    s.sent.push_back((self.1, Instant::now(), data.to_vec()));
    Ok(())
  }
}

/// A configuration pipeline that refuses what is named so.
struct Config(Shared, String);
#[async_trait::async_trait]
impl ConfigurationUpdate for Config {
  async fn try_apply_config(&mut self, response: &ApiResponse) -> Option<ApiRequest> {
    let Some(Resp::ConfigurationUpdate(u)) = &response.response_type else { return None };
    self.0.lock().unwrap().configs.push(u.clone());
    tokio::task::yield_now().await;
    let nack = u.version_nonce.starts_with("bad");
    if !nack {
      self.1 = u.version_nonce.clone();
    }
    Some(ClientConfigurationUpdate(config_ack(&self.1, nack.then(|| u.version_nonce.clone()))).into_request())
  }
  async fn try_load_persisted_config(&mut self) {
    self.0.lock().unwrap().loaded += 1;
  }
  fn partial_handshake(&self) -> HandshakeRequest {
    HandshakeRequest { configuration_version_nonce: self.1.clone(), ..Default::default() }
  }
  fn on_handshake_complete(&self) {
    self.0.lock().unwrap().handshakes += 1;
  }
}

fn config_ack(last: &str, nack: Option<String>) -> ConfigurationUpdateAck {
  ConfigurationUpdateAck {
    last_applied_version_nonce: last.to_string(),
    nack: nack.map(|n| Nack { version_nonce: n, error_details: "no".into(), ..Default::default() }).into(),
    ..Default::default()
  }
}

enum Rx {
  Up(oneshot::Receiver<UploadResponse>),
  Intent(oneshot::Receiver<IntentResponse>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
  Queued,
  Sent,
  Done,
}

struct Upload {
  uuid: String,
  kind: usize,
  request: Req,
  rx: Rx,
  at: At,
  stream: usize,
}

/// Values of the flags that matter.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Flags {
  initial: u32,
  max: u32,
  compress: bool,
  generic: u32,
  unauthenticated: u32,
}
const DEFAULTS: Flags = Flags { initial: 500, max: 300_000, compress: true, generic: 0, unauthenticated: 86_400_000 };

impl Flags {
  fn policy(&self) -> (u32, u32) {
    (self.initial, self.max)
  }
}

/// What the disk holds.
#[derive(Clone, Default)]
struct Disk {
  runtime: Option<(String, Option<Flags>)>,
  starts: u32,
  kill: Option<(OffsetDateTime, String)>,
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Phase {
  /// A stream was started and the handshake is awaited.
  Waiting,
  Connected,
  Killed,
  Ended,
}

struct World<'a> {
  c: &'a Check,
  case: u64,
  log: Vec<String>,
  disk: Disk,
  now: OffsetDateTime,
  key: String,
  n: u32,
}

struct Life<'a, 'b> {
  w: &'a mut World<'b>,
  rec: Shared,
  time: Arc<TestTimeProvider>,
  quality: Arc<SimpleNetworkQualityProvider>,
  data: mpsc::Sender<DataUpload>,
  triggers: mpsc::Receiver<TriggerUpload>,
  shutdown: Option<ComponentShutdownTrigger>,
  task: tokio::task::JoinHandle<anyhow::Result<()>>,
  meta: HashMap<String, String>,

  phase: Phase,
  streams: usize,
  decoder: Decoder<ApiRequest>,
  flags: Flags,
  nonce: Option<String>,
  config: String,
  validated: bool,
  /// The policy in force, the delay it has come to, and whether the flags changed since.
  policy: (u32, u32),
  interval: f64,
  policy_changed: bool,
  offline_since: Option<Instant>,
  reason: String,
  ping: Option<Duration>,
  ping_at: Option<Instant>,
  /// The handshake and every pong may bring about one more.
  pings: u64,
  established: Instant,
  uploads: Vec<Upload>,
  acks: VecDeque<ApiRequest>,
  flushed: VecDeque<Vec<String>>,
  applied: Vec<ConfigurationUpdate_>,
}

fn flag_values(f: &Flags, r: &mut Rng) -> HashMap<String, Value> {
  let mut m = HashMap::new();
  let mut put = |k: &str, t: Type| {
    m.insert(k.to_string(), Value { type_: Some(t), ..Default::default() });
  };
  let mut num = |k: &str, v: u32, d: u32| {
    if v != d || r.bool() {
      put(k, Type::UintValue(v));
    }
  };
  num("api.initial_backoff_interval_ms", f.initial, DEFAULTS.initial);
  num("api.max_backoff_interval_ms", f.max, DEFAULTS.max);
  num("client_kill.generic_kill_duration_ms", f.generic, DEFAULTS.generic);
  num("client_kill.unauthenticated_kill_duration_ms", f.unauthenticated, DEFAULTS.unauthenticated);
  if f.compress != DEFAULTS.compress || r.bool() {
    put("api.requests_compression_enabled", Type::BoolValue(f.compress));
  }
  m
}

impl<'b> World<'b> {
  fn check(&self, what: &str, ok: bool, f: impl FnOnce() -> String) {
    self.c.ensure(ok, what, || format!("case {}: {}; steps: {}", self.case, f(), self.log[self.log.len().saturating_sub(16) ..].join(" | ")));
  }
}

impl<'a, 'b> Life<'a, 'b> {
  fn check(&self, what: &str, ok: bool, f: impl FnOnce() -> String) {
    self.w.check(what, ok, f);
  }

  async fn start(w: &'a mut World<'b>, dir: &Path, r: &mut Rng) -> Self {
    let time = Arc::new(TestTimeProvider::new(w.now));
    let quality = Arc::new(SimpleNetworkQualityProvider::default());
    let rec: Shared = Shared::default();
    let (data, data_rx) = mpsc::channel(256);
    let (trigger_tx, triggers) = mpsc::channel(256);
    let shutdown = ComponentShutdownTrigger::default();
    let loader = ConfigLoader::new(dir);
    let meta: HashMap<_, _> = (0 .. r.below(3)).map(|i| (if i == 0 { "app_id".to_string() } else { r.ident(6) }, r.string())).collect();
    let mut pipelines: Vec<Box<dyn ConfigurationUpdate>> = vec![Box::new(RuntimeManager::new(loader.clone())), Box::new(Config(rec.clone(), String::new()))];
    if r.bool() {
      pipelines.reverse();
    }
    let api = Api::new(
      dir.to_path_buf(),
      w.key.clone(),
      Box::new(Net(rec.clone(), quality.clone())),
      shutdown.make_shutdown(),
      data_rx,
      trigger_tx,
      Arc::new(Meta(meta.clone())),
      loader,
      pipelines,
      time.clone(),
      quality.clone(),
      Arc::new(NoLog),
      &Collector::default().scope("api"),
    )
    .unwrap();
    let mut all = meta.clone();
    all.insert("sdk_version".into(), "1.2.3".into());
    all.insert("os".into(), "an os".into());
    all.insert("kind".into(), "a kind".into());
    // What the cache makes of it.
    let mut flags = DEFAULTS;
    let mut nonce = None;
    if w.disk.starts >= 6 {
      w.disk.runtime = None;
    }
    match &w.disk.runtime {
      Some((n, f)) => {
        w.disk.starts += 1;
        nonce = Some(n.clone());
        flags = f.unwrap_or(DEFAULTS);
      },
      None => w.disk.starts = 0,
    }
    let mut killed = false;
    match &w.disk.kill {
      Some((until, key)) if *until > w.now && *key == w.key => killed = true,
      Some(_) => w.disk.kill = None,
      None if flags.generic != 0 => {
        w.disk.kill = Some((w.now + time::Duration::milliseconds(flags.generic.into()), w.key.clone()));
        killed = true;
      },
      None => {},
    }
    w.log.push(format!("start with key {:?} at {}{}", w.key, w.now.unix_timestamp(), if killed { " (killed)" } else { "" }));
    w.c.count(if killed { "starts_killed" } else { "starts" });
    let task = tokio::task::spawn(api.start());
    let mut l = Life {
      w,
      rec,
      time,
      quality,
      data,
      triggers,
      shutdown: Some(shutdown),
      task,
      meta: all,
      phase: if killed { Phase::Killed } else { Phase::Waiting },
      streams: 0,
      decoder: Decoder::new(None, OptimizeFor::Memory),
      flags,
      nonce,
      config: String::new(),
      validated: false,
      policy: flags.policy(),
      interval: f64::from(flags.initial),
      policy_changed: false,
      offline_since: None,
      reason: String::new(),
      ping: None,
      ping_at: None,
      pings: 0,
      established: Instant::now(),
      uploads: vec![],
      acks: VecDeque::new(),
      flushed: VecDeque::new(),
      applied: vec![],
    };
    l.pass(MS).await;
    if killed {
      l.observe();
    } else {
      let now = Instant::now();
      l.new_stream(now - MS, now);
    }
    let loaded = l.rec.lock().unwrap().loaded;
    l.check("loaded", loaded == 1, || format!("the stored configuration was loaded {loaded} times"));
    l
  }

  /// Lets time go on, once everything that can happen now did.
  async fn pass(&mut self, d: Duration) {
    tokio::time::sleep(d).await;
    self.time.advance(d.try_into().unwrap());
    self.w.now += d;
  }

  /// A stream must have been started between the two.
  fn new_stream(&mut self, from: Instant, to: Instant) {
    let (n, at, headers, quality) = {
      let s = self.rec.lock().unwrap();
      let last = s.streams.last();
      (s.streams.len(), last.map(|l| l.at), last.map(|l| l.headers.clone()).unwrap_or_default(), last.map(|l| l.quality))
    };
    let log_at = at.map(|a| a.saturating_duration_since(from));
    self.check("reconnect", n == self.streams + 1, || format!("{n} instead of {} streams were started within {:?}", self.streams + 1, to - from));
    if n != self.streams + 1 {
      self.phase = Phase::Ended;
      return;
    }
    let at = at.unwrap();
    self.check("reconnect", at + MS >= from && at <= to, || format!("the stream was started after {log_at:?} although {:?} was the latest", to - from));
    self.streams = n;
    self.lost();
    let since = *self.offline_since.get_or_insert(at);
    let down = at - since;
    if down < Duration::from_millis(14_995) || down > Duration::from_millis(15_005) {
      let want = if down > Duration::from_secs(15) { NetworkQuality::Offline } else { NetworkQuality::Unknown };
      self.check("quality", quality == Some(want), || format!("the quality is {quality:?} instead of {want:?} after {down:?}"));
    }
    if self.policy_changed {
      self.policy = self.flags.policy();
      self.interval = f64::from(self.policy.0);
      self.policy_changed = false;
      self.w.c.count("policies_changed");
    }
    let compress = self.flags.compress;
    let h = |k: &str| headers.get(k).map(String::as_str);
    let ok = h("x-bitdrift-api-key") == Some(self.w.key.as_str())
      && h("x-bitdrift-app-id") == Some(self.meta.get("app_id").map_or("", String::as_str))
      && h("content-type") == Some("application/grpc")
      && h("grpc-encoding") == compress.then_some("deflate")
      && h("grpc-accept-encoding") == compress.then_some("deflate");
    self.check("headers", ok, || format!("{headers:?} (compression {compress})"));
    self.decoder = Decoder::new(compress.then_some(Decompression::StatelessZlib), OptimizeFor::Memory);
    self.phase = Phase::Waiting;
    self.ping = None;
    self.ping_at = None;
    let first = self.rec.lock().unwrap().sent.pop_front();
    let requests = first.as_ref().map(|f| self.decoder.decode_data(&f.2));
    match requests {
      Some(Ok(rs)) if rs.len() == 1 && first.as_ref().unwrap().0 == n - 1 => {
        let Some(Req::Handshake(h)) = &rs[0].request_type else {
          self.check("handshake", false, || format!("{} comes first", rs[0]));
          return;
        };
        let reason = std::mem::take(&mut self.reason);
        self.check("handshake-reason", h.previous_disconnect_reason == reason, || format!("the reason given is {:?} instead of {reason:?}", h.previous_disconnect_reason));
        let nonce = self.nonce.clone().unwrap_or_default();
        self.check("handshake-runtime", h.runtime_version_nonce == nonce, || format!("the runtime is {:?} instead of {nonce:?}", h.runtime_version_nonce));
        self.check("handshake-config", h.configuration_version_nonce == self.config, || format!("the configuration is {:?} instead of {:?}", h.configuration_version_nonce, self.config));
        for (k, v) in &self.meta {
          let got = h.static_device_metadata.get(k).map(|d| d.string_data().to_string());
          self.check("handshake-metadata", got.as_ref() == Some(v), || format!("{k} is {got:?} instead of {v:?}"));
        }
        self.w.c.count("handshakes");
      },
      o => self.check("handshake", false, || format!("{:?} was sent first", o.map(|r| r.map(|v| v.len())))),
    }
    self.observe();
  }

  /// Compares what was sent on the current stream with what is due by now.
  fn frames(&mut self) {
    loop {
      let (stream, at, data) = {
        let mut s = self.rec.lock().unwrap();
        match s.sent.front() {
          Some(f) if f.0 < self.streams => s.sent.pop_front().unwrap(),
          _ => return,
        }
      };
      self.check("late", stream + 1 == self.streams, || format!("stream {stream} of {} was written to", self.streams));
      let rs = match self.decoder.decode_data(&data) {
        Ok(rs) => rs,
        Err(e) => {
          self.check("frames", false, || format!("what was sent cannot be decoded: {e}"));
          return;
        },
      };
      for q in rs {
        match &q.request_type {
          Some(Req::Ping(_)) => {
            let due = self.ping_at.take();
            let left = self.pings;
            self.pings = left.saturating_sub(1);
            self.check("pings", left > 0, || "more pings than pongs".into());
            self.w.c.count("pings");
            // The pongs of some may arrive before the ping is due.
            let short = self.ping.is_some_and(|p| p < 2 * SLACK);
            self.check("ping", short || due.is_some_and(|d| at + MS >= d && at <= d + SLACK), || format!("a ping at {at:?} when it was due at {due:?}"));
          },
          Some(Req::ConfigurationUpdateAck(_) | Req::RuntimeUpdateAck(_)) => {
            let want = self.acks.pop_front();
            self.check("config-ack", want.as_ref() == Some(&q), || format!("{q} instead of {}", want.map_or("nothing".into(), |w| w.to_string())));
          },
          Some(t) => {
            let next = self.uploads.iter_mut().find(|u| u.at == At::Queued);
            let what = match next {
              Some(u) => {
                u.at = At::Sent;
                u.stream = stream;
                (u.request != *t).then(|| format!("{q} was sent instead of {:?}", u.request))
              },
              None => Some(format!("{q} was sent by itself")),
            };
            self.check("upload", what.is_none() && self.phase == Phase::Connected, || what.unwrap_or_default());
          },
          None => self.check("upload", false, || "an empty request".into()),
        }
      }
    }
  }

  /// Compares what was sent, and who was answered, with what is due by now.
  fn observe(&mut self) {
    let now = Instant::now();
    self.frames();
    let n = self.rec.lock().unwrap().streams.len();
    self.check("streams", n == self.streams, || format!("{n} streams were started instead of {}", self.streams));
    if self.phase == Phase::Connected {
      let due = self.ping_at;
      self.check("ping-missed", due.map_or(true, |d| now <= d + SLACK), || format!("no ping at {now:?} although due at {due:?}"));
      let left = self.uploads.iter().filter(|u| u.at == At::Queued).count();
      self.check("upload-missed", left == 0, || format!("{left} uploads are not sent"));
      self.check("config-ack", self.acks.is_empty(), || format!("{} are not sent", self.acks.len()));
      let q = self.quality.get_network_quality();
      self.check("quality", q == NetworkQuality::Online, || format!("{q:?} while connected"));
      let configs = self.rec.lock().unwrap().configs.clone();
      self.check("configs", configs == self.applied, || format!("{} configurations were handed on instead of {}", configs.len(), self.applied.len()));
    }
    while let Ok(t) = self.triggers.try_recv() {
      let want = self.flushed.pop_front();
      self.check("flush", want.as_ref() == Some(&t.buffer_ids), || format!("{:?} is to be flushed instead of {want:?}", t.buffer_ids));
    }
    if self.phase == Phase::Connected {
      self.check("flush", self.flushed.is_empty(), || format!("{:?} are not flushed", self.flushed));
    }
    let over = self.phase == Phase::Ended;
    let done = self.task.is_finished();
    self.check("ended", done == over, || if done { format!("the client has ended; panic {:?}", vh::last_panic()) } else { "the client goes on".into() });
    let mut wrong = None;
    for u in &mut self.uploads {
      let r = match &mut u.rx {
        Rx::Up(rx) => rx.try_recv().map(|r| format!("{r:?}")),
        Rx::Intent(rx) => rx.try_recv().map(|r| format!("{r:?}")),
      };
      // Answers are looked at when they are sent.
      let want = match u.at {
        At::Done => continue,
        _ if over => TryRecvError::Closed,
        _ => TryRecvError::Empty,
      };
      if r.as_ref().err() != Some(&want) {
        wrong = Some(format!("an upload {:?} is answered with {r:?} instead of {want:?}", u.at));
      }
      if over {
        u.at = At::Done;
      }
    }
    if let Some(e) = wrong {
      self.check("answer", false, || e);
    }
  }

  /// What was sent is lost with the stream, at the latest when there is a new one.
  fn lost(&mut self) {
    let mut wrong = None;
    let mut n = 0;
    for u in self.uploads.iter_mut().filter(|u| u.at == At::Sent) {
      u.at = At::Done;
      n += 1;
      let closed = match &mut u.rx {
        Rx::Up(rx) => rx.try_recv().err(),
        Rx::Intent(rx) => rx.try_recv().err(),
      } == Some(TryRecvError::Closed);
      if !closed {
        wrong = Some(u.uuid.clone());
      }
    }
    self.w.c.add("uploads_lost", n);
    self.check("lost", wrong.is_none(), || format!("the upload {wrong:?} was not answered when its stream was lost"));
    self.ping_at = None;
  }

  /// The reconnection after `down` at this time; `at_once` without a delay.
  async fn reconnect(&mut self, down: Instant, at_once: bool, r: &mut Rng) {
    let (mut lo, mut hi) = (0.0, 0.0);
    if at_once {
      self.interval = f64::from(self.policy.0);
      self.w.c.count("reconnections_at_once");
    } else {
      let max = f64::from(self.policy.1);
      lo = (self.interval / 2.0).min(max);
      hi = (self.interval * 1.5).min(max);
      self.interval = if self.interval >= max / 1.5 { max } else { self.interval * 1.5 };
      self.w.c.count("reconnections_delayed");
    }
    let from = down + Duration::from_secs_f64(lo / 1000.0);
    let to = down + Duration::from_secs_f64(hi / 1000.0) + SLACK;
    self.frames();
    self.ping_at = None;
    // Uploads may come meanwhile.
    if r.chance(1, 3) {
      self.enqueue(r);
    }
    let early = from.checked_duration_since(Instant::now() + SLACK);
    if let Some(early) = early {
      // Shut down in the meantime, sometimes.
      if r.chance(1, 12) {
        self.pass(early.mul_f64(0.5)).await;
        return self.end(r).await;
      }
      self.pass(early).await;
      let n = self.rec.lock().unwrap().streams.len();
      self.check("too-early", n == self.streams, || format!("a stream was started less than {early:?} after the last, with {:?}", self.policy));
      if n != self.streams {
        self.streams = n;
        self.phase = Phase::Ended;
        return;
      }
    }
    if let Some(rest) = to.checked_duration_since(Instant::now()) {
      self.pass(rest.max(MS)).await;
    }
    self.new_stream(from, to);
  }

  fn enqueue(&mut self, r: &mut Rng) {
    for _ in 0 .. 1 + r.below(4) {
      self.w.n += 1;
      // A retry uses the same again.
      let old: Vec<String> = self.uploads.iter().filter(|u| u.at == At::Done).map(|u| u.uuid.clone()).collect();
      let uuid = if !old.is_empty() && r.chance(1, 4) { r.pick(&old).clone() } else { Tracked::<u8, u8>::upload_uuid() };
      if self.uploads.iter().any(|u| u.at != At::Done && u.uuid == uuid) {
        continue;
      }
      let kind = r.idx(6);
      macro_rules! go {
        ($m:expr, $req:path, $variant:path, $rx:path) => {{
          let m = $m;
          let (t, rx) = Tracked::new(uuid.clone(), m.clone());
          ($req(m), $variant(t), $rx(rx))
        }};
      }
      let (request, upload, rx) = match kind {
        0 => go!(LogUploadIntentRequest { intent_uuid: uuid.clone(), ..Default::default() }, Req::LogUploadIntent, DataUpload::LogsUploadIntentRequest, Rx::Intent),
        1 => go!(LogUploadRequest { upload_uuid: uuid.clone(), logs: { let n = r.below(5); (0 .. n).map(|_| { let k = r.idx(40); r.bytes(k) }).collect() }, ..Default::default() }, Req::LogUpload, DataUpload::LogsUploadRequest, Rx::Up),
        2 => go!(StatsUploadRequest { upload_uuid: uuid.clone(), ..Default::default() }, Req::StatsUpload, DataUpload::StatsUploadRequest, Rx::Up),
        3 => go!(SankeyIntentRequest { intent_uuid: uuid.clone(), path_id: r.string(), ..Default::default() }, Req::SankeyIntent, DataUpload::SankeyPathUploadIntentRequest, Rx::Intent),
        4 => go!(SankeyPathUploadRequest { upload_uuid: uuid.clone(), ..Default::default() }, Req::SankeyPathUpload, DataUpload::SankeyPathUpload, Rx::Up),
        _ => go!(OpaqueRequest { uuid: uuid.clone(), ..Default::default() }, Req::OpaqueUpload, DataUpload::OpaqueRequest, Rx::Up),
      };
      if self.data.try_send(upload).is_err() {
        return;
      }
      self.w.log.push(format!("upload {kind}"));
      self.w.c.count("uploads");
      self.uploads.push(Upload { uuid, kind, request, rx, at: At::Queued, stream: 0 });
    }
  }

  /// Statistics are given the time they are sent at.
  fn stamp(&mut self) {
    let now = self.time.now().into_proto();
    for u in &mut self.uploads {
      if let (At::Queued, Req::StatsUpload(s)) = (u.at, &mut u.request) {
        s.sent_at = now.clone();
      }
    }
  }

  /// Hands the client what the server sends, cut anywhere.
  async fn feed(&mut self, all: &[ApiResponse], r: &mut Rng) {
    let mut bytes = vec![];
    for a in all {
      let mut e = Encoder::new(r.bool().then_some(Compression::StatelessZlib { level: 3 }));
      bytes.extend_from_slice(&e.encode(a));
    }
    self.feed_raw(&bytes, r).await;
  }

  async fn feed_raw(&mut self, bytes: &[u8], r: &mut Rng) {
    let tx = self.rec.lock().unwrap().streams.last().unwrap().events.clone();
    let pieces = if r.bool() { 1 } else { 1 + r.idx(12) };
    let mut cuts: Vec<usize> = (1 .. pieces).map(|_| r.idx(bytes.len() + 1)).chain([0, bytes.len()]).collect();
    cuts.sort_unstable();
    for c in cuts.windows(2) {
      if tx.send(StreamEvent::Data(bytes[c[0] .. c[1]].to_vec())).await.is_err() {
        break;
      }
      self.w.c.count("pieces_received");
    }
  }

  fn event(&self, e: StreamEvent) {
    let tx = self.rec.lock().unwrap().streams.last().unwrap().events.clone();
    let _ = tx.try_send(e);
  }

  /// The client ended, with or without having been told to.
  async fn end(&mut self, r: &mut Rng) {
    let s = self.shutdown.take().unwrap();
    let told = self.phase != Phase::Ended;
    self.w.log.push("shutdown".into());
    if told && self.phase == Phase::Connected && r.chance(1, 3) {
      self.enqueue(r);
      self.stamp();
    }
    self.phase = Phase::Ended;
    let h = tokio::task::spawn(s.shutdown());
    self.pass(MS).await;
    self.check("shutdown", h.is_finished(), || "the shutdown is not over".into());
    if told {
      let fin = self.task.is_finished();
      self.check("shutdown", fin, || "the client goes on after the shutdown".into());
      if fin {
        let res = (&mut self.task).await;
        self.check("shutdown", matches!(res, Ok(Ok(()))), || format!("the client ended with {res:?}"));
      }
    }
    self.closing();
  }

  /// After the end nothing may be left without an answer.
  fn closing(&mut self) {
    self.rec.lock().unwrap().sent.clear();
    let mut wrong = None;
    for u in self.uploads.iter_mut().filter(|u| u.at != At::Done) {
      u.at = At::Done;
      let e = match &mut u.rx {
        Rx::Up(rx) => rx.try_recv().err(),
        Rx::Intent(rx) => rx.try_recv().err(),
      };
      if e != Some(TryRecvError::Closed) {
        wrong = Some(format!("{e:?}"));
      }
    }
    self.check("answer", wrong.is_none(), || format!("an upload has {wrong:?} after the client ended"));
    let n = self.rec.lock().unwrap().streams.len();
    self.check("streams", n == self.streams, || format!("{n} streams were started instead of {}", self.streams));
  }

  /// The client gave up, which must not be a panic.
  async fn gave_up(&mut self, why: &str) {
    self.phase = Phase::Ended;
    self.w.c.count("protocol_errors");
    let fin = self.task.is_finished();
    self.check("gave-up", fin, || format!("the client goes on after {why}"));
    if fin {
      let res = (&mut self.task).await;
      match &res {
        Ok(r) => self.check("gave-up", r.is_err(), || format!("the client ended regularly after {why}")),
        Err(e) => {
          let p = vh::last_panic();
          self.check("panic", false, || format!("after {why}: {e} {p:?}"));
        },
      }
    }
    self.closing();
  }

  fn runtime(&mut self, r: &mut Rng) -> ApiResponse {
    self.w.n += 1;
    let mut f = self.flags;
    for _ in 0 .. 1 + r.below(3) {
      match r.below(8) {
        0 | 1 => f.initial = *r.pick(&[0, 1, 10, 500, 60_000, 3_600_000]),
        2 | 3 => f.max = *r.pick(&[0, 1, 20, 1000, 300_000, u32::MAX]),
        4 => f.compress = r.bool(),
        5 if r.chance(1, 3) => f.generic = *r.pick(&[0, 1, 60_000, 86_400_000, u32::MAX]),
        6 => f.unauthenticated = *r.pick(&[0, 1, 60_000, 86_400_000, u32::MAX]),
        _ => {},
      }
    }
    let none = r.chance(1, 8);
    if none {
      f = DEFAULTS;
    }
    let nonce = if r.chance(1, 10) { String::new() } else { format!("r{}", self.w.n) };
    let values = flag_values(&f, r);
    let u = RuntimeUpdate {
      version_nonce: nonce.clone(),
      runtime: (!none).then(|| Runtime { values, ..Default::default() }).into(),
      ..Default::default()
    };
    if f.policy() != self.flags.policy() {
      self.policy_changed = true;
    }
    self.flags = f;
    self.nonce = Some(nonce.clone());
    self.w.disk.runtime = Some((nonce.clone(), Some(f)));
    self.w.disk.starts = 0;
    self.acks.push_back(ApiRequest {
      request_type: Some(Req::RuntimeUpdateAck(ConfigurationUpdateAck { last_applied_version_nonce: nonce, ..Default::default() })),
      ..Default::default()
    });
    ApiResponse { response_type: Some(Resp::RuntimeUpdate(u)), ..Default::default() }
  }

  fn configuration(&mut self, r: &mut Rng) -> ApiResponse {
    self.w.n += 1;
    let bad = r.chance(1, 3);
    let nonce = format!("{}{}", if bad { "bad" } else { "c" }, self.w.n);
    let u = ConfigurationUpdate_ { version_nonce: nonce.clone(), ..Default::default() };
    self.applied.push(u.clone());
    if !bad {
      self.config = nonce.clone();
    }
    self.acks.push_back(ApiRequest { request_type: Some(Req::ConfigurationUpdateAck(config_ack(&self.config, bad.then_some(nonce)))), ..Default::default() });
    ApiResponse { response_type: Some(Resp::ConfigurationUpdate(u)), ..Default::default() }
  }

  fn flush(&mut self, r: &mut Rng) -> ApiResponse {
    let ids: Vec<String> = (0 .. r.below(4)).map(|_| r.ident(6)).collect();
    self.flushed.push_back(ids.clone());
    ApiResponse { response_type: Some(Resp::FlushBuffers(FlushBuffers { buffer_id_list: ids, ..Default::default() })), ..Default::default() }
  }

  /// A message that asks for something.
  fn message(&mut self, r: &mut Rng) -> ApiResponse {
    match r.below(7) {
      0 | 1 => self.runtime(r),
      2 => self.configuration(r),
      3 => self.flush(r),
      4 => {
        // Says so only.
        ApiResponse { response_type: Some(Resp::ErrorShutdown(ErrorShutdown { grpc_status: r.below(20) as i32, grpc_message: r.string(), ..Default::default() })), ..Default::default() }
      },
      5 => {
        // Of a newer server.
        self.w.c.count("unknown_messages");
        ApiResponse::default()
      },
      _ => {
        // Answered by the one who hears it: also before it is due.
        self.w.log.push("pong".into());
        self.ping_at = self.ping.and_then(|p| Instant::now().checked_add(p));
        self.pings += 1;
        ApiResponse { response_type: Some(Resp::Pong(PongResponse::default())), ..Default::default() }
      },
    }
  }

  async fn handshake(&mut self, r: &mut Rng) {
    let ping: Option<protobuf::well_known_types::duration::Duration> = r.chance(3, 4).then(|| {
      let (seconds, nanos) = *r.pick(&[(0, 1_000_000), (0, 50_000_000), (1, 0), (10, 500_000_000), (60, 0), (600, 0), (600, 0), (0, 0), (-1, 0), (0, -5), (i64::MAX, 999_999_999), (i64::MIN, 0), (315_576_000_000, 0), (1, i32::MIN)]);
      protobuf::well_known_types::duration::Duration { seconds, nanos, ..Default::default() }
    });
    // Durations that are none, or that are not to be had, are no ping.
    self.ping = ping.as_ref().and_then(|d| (d.seconds >= 0 && d.nanos >= 0).then(|| Duration::new(d.seconds as u64, d.nanos as u32)));
    self.ping_at = self.ping.and_then(|p| Instant::now().checked_add(p));
    self.pings = 1;
    self.w.log.push(format!("handshake with a ping every {:?}", self.ping));
    let settings = if ping.is_some() || r.bool() { Some(StreamSettings { ping_interval: ping.into(), ..Default::default() }) } else { None };
    let mut all = vec![ApiResponse { response_type: Some(Resp::Handshake(HandshakeResponse { stream_settings: settings.into(), ..Default::default() })), ..Default::default() }];
    for _ in 0 .. if r.bool() { 0 } else { r.below(4) } {
      let m = self.message(r);
      all.push(m);
    }
    self.stamp();
    self.phase = Phase::Connected;
    self.established = Instant::now();
    self.offline_since = None;
    self.feed(&all, r).await;
    self.pass(MS).await;
    let n = std::mem::take(&mut self.rec.lock().unwrap().handshakes);
    self.check("handshake-told", n == 1, || format!("the end of the handshake was told {n} times"));
    if !self.validated {
      self.validated = true;
      self.w.disk.starts = 0;
    }
    self.observe();
  }

  async fn waiting(&mut self, r: &mut Rng) {
    match r.below(24) {
      0 | 1 => {
        let d = Duration::from_millis(r.below(30_000));
        self.pass(d).await;
        self.observe();
      },
      2 => {
        self.enqueue(r);
        self.pass(MS).await;
        self.observe();
      },
      3 ..= 6 => {
        let reason = r.string();
        self.w.log.push(format!("closed while waiting ({reason:?})"));
        self.event(StreamEvent::StreamClosed(reason.clone()));
        self.reason = reason;
        let down = Instant::now();
        self.reconnect(down, false, r).await;
      },
      7 | 8 => {
        let m = r.string();
        let mut status = r.below(30) as i32 - 5;
        if status == 16 {
          status = 17;
        }
        self.w.log.push(format!("refused with {status}"));
        self.reason = format!("error shutdown: {m}");
        let a = ApiResponse { response_type: Some(Resp::ErrorShutdown(ErrorShutdown { grpc_status: status, grpc_message: m, ..Default::default() })), ..Default::default() };
        let down = Instant::now();
        self.feed(&[a], r).await;
        self.reconnect(down, false, r).await;
      },
      9 if r.chance(1, 2) => {
        self.w.log.push("unauthenticated".into());
        let a = ApiResponse { response_type: Some(Resp::ErrorShutdown(ErrorShutdown { grpc_status: 16, grpc_message: r.string(), ..Default::default() })), ..Default::default() };
        self.w.disk.kill = Some((self.time.now() + time::Duration::milliseconds(self.flags.unauthenticated.into()), self.w.key.clone()));
        self.phase = Phase::Killed;
        self.feed(&[a], r).await;
        self.pass(MS).await;
        self.w.c.count("unauthenticated");
        self.observe();
      },
      10 if r.chance(1, 2) => {
        // Anything else is an error.
        let m = match r.below(3) {
          0 => ApiResponse::default(),
          1 => ApiResponse { response_type: Some(Resp::Pong(PongResponse::default())), ..Default::default() },
          _ => ApiResponse { response_type: Some(Resp::RuntimeUpdate(RuntimeUpdate { version_nonce: "x".into(), ..Default::default() })), ..Default::default() },
        };
        self.w.log.push("something else instead of the handshake".into());
        self.feed(&[m], r).await;
        self.pass(MS).await;
        self.gave_up("something else instead of the handshake").await;
      },
      _ => self.handshake(r).await,
    }
  }

  /// An answer to one of those waiting, and what it must be told.
  fn answer(&mut self, i: usize, r: &mut Rng) -> (ApiResponse, Box<dyn FnOnce(&mut Upload) -> Option<String>>) {
    let u = &self.uploads[i];
    let uuid = u.uuid.clone();
    let error = if r.chance(2, 3) { String::new() } else { r.ident(6) };
    let ok = error.is_empty();
    let decision = r.below(3);
    let up = move |id: String| -> Box<dyn FnOnce(&mut Upload) -> Option<String>> {
      Box::new(move |u| {
        let Rx::Up(rx) = &mut u.rx else { return Some("no upload".into()) };
        match rx.try_recv() {
          Ok(a) if a.success == ok && a.uuid == id => None,
          o => Some(format!("{o:?} for {id} with success {ok}")),
        }
      })
    };
    let intent = move |id: String| -> Box<dyn FnOnce(&mut Upload) -> Option<String>> {
      Box::new(move |u| {
        let Rx::Intent(rx) = &mut u.rx else { return Some("no intent".into()) };
        match rx.try_recv() {
          Ok(a) if matches!(a.decision, IntentDecision::UploadImmediately) == (decision == 2) && a.uuid == id => None,
          o => Some(format!("{o:?} for {id} with decision {decision}")),
        }
      })
    };
    let (m, f) = match u.kind {
      0 => {
        use log_upload_intent_response::{Decision, Drop, UploadImmediately};
        let decision = [None, Some(Decision::Drop(Drop::default())), Some(Decision::UploadImmediately(UploadImmediately::default()))][decision as usize].clone();
        (Resp::LogUploadIntent(LogUploadIntentResponse { intent_uuid: uuid.clone(), decision, ..Default::default() }), intent(uuid))
      },
      3 => {
        use sankey_intent_response::{Decision, Drop, UploadImmediately};
        let decision = [None, Some(Decision::Drop(Drop::default())), Some(Decision::UploadImmediately(UploadImmediately::default()))][decision as usize].clone();
        (Resp::SankeyIntentResponse(SankeyIntentResponse { intent_uuid: uuid.clone(), decision, ..Default::default() }), intent(uuid))
      },
      1 => (Resp::LogUpload(LogUploadResponse { upload_uuid: uuid.clone(), error, ..Default::default() }), up(uuid)),
      2 => (Resp::StatsUpload(StatsUploadResponse { upload_uuid: uuid.clone(), error, ..Default::default() }), up(uuid)),
      4 => (Resp::SankeyDiagramUpload(SankeyPathUploadResponse { upload_uuid: uuid.clone(), error, ..Default::default() }), up(uuid)),
      _ => {
        let error = if ok && r.bool() { None } else { Some(error) };
        (Resp::OpaqueUpload(OpaqueResponse { uuid: uuid.clone(), error, ..Default::default() }), up(uuid))
      },
    };
    (ApiResponse { response_type: Some(m), ..Default::default() }, f)
  }

  async fn connected(&mut self, r: &mut Rng) {
    match r.below(30) {
      0 ..= 5 => {
        self.enqueue(r);
        self.stamp();
        self.pass(MS).await;
        self.observe();
      },
      6 ..= 10 => {
        // Some of those waiting, in any order, among other messages.
        let mut waiting: Vec<usize> = (0 .. self.uploads.len()).filter(|i| self.uploads[*i].at == At::Sent).collect();
        r.shuffle(&mut waiting);
        waiting.truncate(r.idx(5));
        let mut all = vec![];
        let mut tell = vec![];
        for i in waiting {
          if r.chance(1, 4) {
            let m = self.message(r);
            all.push(m);
          }
          let (m, f) = self.answer(i, r);
          all.push(m);
          tell.push((i, f));
          self.w.log.push(format!("answer {}", self.uploads[i].kind));
        }
        self.feed(&all, r).await;
        self.pass(MS).await;
        for (i, f) in tell {
          let wrong = f(&mut self.uploads[i]);
          self.uploads[i].at = At::Done;
          self.w.c.count("uploads_answered");
          self.check("answer", wrong.is_none(), || format!("the answer is {wrong:?}"));
        }
        self.observe();
      },
      11 ..= 14 => {
        let mut all = vec![];
        for _ in 0 .. 1 + r.below(3) {
          let m = self.message(r);
          all.push(m);
        }
        self.w.log.push(format!("{} messages", all.len()));
        self.feed(&all, r).await;
        self.pass(MS).await;
        self.observe();
      },
      15 ..= 18 => {
        // From ping to ping, and beyond.
        let d = match r.below(4) {
          0 => Duration::from_millis(r.below(2000)),
          1 => Duration::from_millis(r.below(70_000)),
          2 => Duration::from_millis(r.below(7_200_000)),
          _ => self.ping_at.map_or(MS, |p| p.saturating_duration_since(Instant::now()).min(Duration::from_secs(100_000))) + SLACK,
        };
        self.w.log.push(format!("{d:?}"));
        self.pass(d).await;
        self.observe();
      },
      19 ..= 22 => {
        let reason = r.string();
        let down = Instant::now();
        let lived = down - self.established;
        let edge = Duration::from_secs(60);
        if lived + SLACK > edge && lived < edge + SLACK {
          return;
        }
        self.w.log.push(format!("closed after {lived:?}"));
        self.event(StreamEvent::StreamClosed(reason.clone()));
        self.reason = reason;
        if lived > edge {
          self.pass(MS).await;
          self.reconnect(down, true, r).await;
        } else {
          self.pass(MS).await;
          self.reconnect(down, false, r).await;
        }
      },
      23 if r.chance(1, 3) => {
        // What was never sent, or is answered a second time.
        let done: Vec<String> = self.uploads.iter().filter(|u| u.at == At::Done).map(|u| u.uuid.clone()).collect();
        let upload_uuid = if done.is_empty() || r.bool() { r.string() } else { r.pick(&done).clone() };
        if self.uploads.iter().any(|u| u.at == At::Sent && u.uuid == upload_uuid) {
          return;
        }
        self.w.log.push("answer to nobody".into());
        let m = match r.below(3) {
          0 => Resp::LogUpload(LogUploadResponse { upload_uuid, ..Default::default() }),
          1 => Resp::LogUploadIntent(LogUploadIntentResponse { intent_uuid: upload_uuid, ..Default::default() }),
          _ => Resp::Handshake(HandshakeResponse::default()),
        };
        self.feed(&[ApiResponse { response_type: Some(m), ..Default::default() }], r).await;
        self.pass(MS).await;
        self.gave_up("an answer to nobody").await;
      },
      24 if r.chance(1, 3) => {
        self.w.log.push("garbage".into());
        let n = r.idx(100);
        let mut b = vec![*r.pick(&[0u8, 1, 2, 255])];
        b.extend(r.bytes(n));
        self.feed_raw(&b, r).await;
        self.pass(MS).await;
        if self.task.is_finished() {
          self.gave_up("garbage").await;
        } else {
          // Taken for the start of something long; the rest will not come.
          self.acks.clear();
          let q = self.reason.clone();
          let _ = q;
          let down = Instant::now();
          let at_once = down - self.established > Duration::from_secs(60);
          if down - self.established + SLACK > Duration::from_secs(60) && down - self.established < Duration::from_secs(60) + SLACK {
            return self.end(r).await;
          }
          self.reason = "garbage".into();
          self.event(StreamEvent::StreamClosed("garbage".into()));
          self.pass(MS).await;
          self.reconnect(down, at_once, r).await;
        }
      },
      25 if r.chance(1, 6) => {
        self.w.log.push("the platform fails".into());
        self.rec.lock().unwrap().broken = true;
        self.enqueue(r);
        self.pass(MS).await;
        if self.uploads.iter().any(|u| u.at == At::Queued) {
          self.gave_up("a failure of the platform").await;
        } else {
          self.rec.lock().unwrap().broken = false;
        }
      },
      26 if r.chance(1, 3) => self.end(r).await,
      _ => {},
    }
  }
}

async fn history(c: &Check, r: &mut Rng, case: u64, dir: &Path) {
  let mut w = World {
    c,
    case,
    log: vec![],
    disk: Disk::default(),
    now: OffsetDateTime::from_unix_timestamp(1_700_000_000 + r.below(1_000_000) as i64).unwrap(),
    key: r.ident(6),
    n: 0,
  };
  let keys = [w.key.clone(), r.ident(6)];
  let kill_file = dir.join("client_kill_until");
  for _ in 0 .. 1 + r.below(5) {
    if c.violated() {
      break;
    }
    let mut l = Life::start(&mut w, dir, r).await;
    for _ in 0 .. r.below(50) {
      if l.phase == Phase::Ended || c.violated() {
        break;
      }
      match l.phase {
        Phase::Waiting => l.waiting(r).await,
        Phase::Connected => l.connected(r).await,
        _ => {
          if r.chance(1, 4) {
            l.enqueue(r);
          }
          let most = *r.pick(&[100, 10_000, 100_000_000]);
          let d = Duration::from_millis(r.below(most));
          l.pass(d).await;
          l.observe();
          if r.chance(1, 3) {
            break;
          }
        },
      }
    }
    if c.violated() {
      break;
    }
    if l.shutdown.is_some() {
      if l.phase == Phase::Ended {
        let s = l.shutdown.take().unwrap();
        tokio::task::spawn(s.shutdown());
      } else {
        l.end(r).await;
      }
    }
    drop(l);
    // Between two lives.
    let d = match r.below(5) {
      0 => 0,
      1 => r.below(120_000) as i64,
      2 => w.disk.kill.as_ref().map_or(0, |k| (k.0 - w.now).whole_milliseconds() as i64) + r.range(0, 3) as i64 - 1,
      _ => r.below(100_000_000) as i64,
    };
    w.now += time::Duration::milliseconds(d);
    if r.chance(1, 4) {
      w.key = r.pick(&keys).clone();
    }
    if r.chance(1, 8) {
      if let Ok(mut b) = std::fs::read(&kill_file) {
        match r.below(4) {
          0 => {
            let _ = std::fs::remove_file(&kill_file);
          },
          1 => {
            b.truncate(r.idx(b.len()));
            std::fs::write(&kill_file, b).unwrap();
          },
          2 => {
            b = r.bytes(30);
            b[0] = 7;
            std::fs::write(&kill_file, b).unwrap();
          },
          _ => std::fs::write(&kill_file, b"").unwrap(),
        }
        w.log.push("damage to the kill file".into());
        w.disk.kill = None;
        c.count("damaged_kill_files");
      }
    }
  }
  c.eval((w.log.len() > 5).then(|| vh::hash_of(&w.log)));
  c.sample(|| w.log.join(" | "));
}

pub fn run(c: &Check) {
  c.rule("cases are lives of the client under scripted servers; non-trivial: more than five steps; distinct by history");
  c.cases(c.n(2_500, 400_000), Duration::from_secs(c.n(14, 900)), |case, r| {
    let dir = vh::Scratch::new();
    let e = vh::no_panic(|| {
      let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
      rt.block_on(history(c, r, case, dir.path()));
    });
    if let Err(e) = e {
      c.violation("panic", &format!("case {case}: {e}"));
    }
  });
}
