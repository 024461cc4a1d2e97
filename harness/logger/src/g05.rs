//! G05: the whole SDK, as an application runs it, against a server, over outages, restarts and kills.
use crate::f01::{decode, V};
use crate::g03::{begins, field, Idle};
use bd_api::{PlatformNetworkManager, PlatformNetworkStream, StreamEvent};
use bd_buffer::buffer::{BlockWhenReservingIntoConcurrentRead, NonVolatileRingBuffer, PerRecordCrc32Check};
use bd_buffer::{AllowOverwrite, RingBufferStats};
use bd_client_stats_store::Collector;
use bd_client_common::error::{Reporter, UnexpectedErrorHandler};
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_key_value::{Storage, Store};
use bd_log_primitives::{AnnotatedLogFields, LogField, LogType};
use bd_logger::{InitParams, Logger, LoggerBuilder, LoggerHandle, MetadataProvider};
use bd_metadata::{Metadata, Platform};
use bd_proto::protos::bdtail::bdtail_config::{BdTailConfigurations, BdTailStream};
use bd_proto::protos::client::api::api_request::Request_type as Req;
use bd_proto::protos::client::api::api_response::Response_type as Resp;
use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
use bd_proto::protos::client::api::handshake_response::StreamSettings;
use bd_proto::protos::client::api::*;
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::runtime::runtime::{value::Type, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::config::v1::config as cv1;
use bd_proto::protos::workflow::workflow as wp;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use bd_stats_common::labels;
use protobuf::MessageField;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use time::OffsetDateTime;
use tokio::sync::mpsc as tmpsc;
use vh::jitter::Jitter;
use vh::{hash_of, Check, Rng, Scratch};

/// Far more than anything here may take.
const PATIENCE: Duration = Duration::from_secs(15);

// -------------------------------------------------------------------------------------------------
// What is written down, by processes that may be killed.

struct Rec {
  file: Mutex<std::fs::File>,
  path: PathBuf,
}

impl Rec {
  fn new(dir: &Path, life: u64) -> Arc<Self> {
    let path = dir.join(format!("events{life}"));
    let file = Mutex::new(std::fs::OpenOptions::new().create(true).append(true).open(&path).unwrap());
    Arc::new(Self { file, path })
  }
  fn put(&self, line: String) {
    self.file.lock().unwrap().write_all(format!("{}\n", line.replace('\n', " ")).as_bytes()).unwrap();
  }
}

impl Reporter for Rec {
  fn report(&self, message: &str, _: &Option<String>, _: &HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {
    // (Which comes after a shutdown.)
    if !message.contains("channel is closed") && !message.contains("buffer events") {
      self.put(format!("P {}", message.replace('\n', " ")));
    }
  }
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
  /// A log, and whether its call waits.
  Log(usize, usize, char, bool),
  /// A flush, and whether its call waits.
  Flush(usize, usize, bool),
  Returned(usize, usize),
  /// A configuration is known to be in force.
  Configured,
  /// What the server got: buffer, name, verdict, logs.
  Batch(String, String, Verdict, Vec<Id>),
  Metric(String, Verdict, u64),
  Handshake(String, String),
  SentConfig(String),
  SentRuntime(String),
  AckedConfig(String),
  AckedRuntime(String),
  Device(String),
  /// The flush of a trigger buffer was allowed.
  Intent,
  /// The kill of this life left the control data of this buffer's file invalid.
  Torn(String),
  Trouble(String),
  Stream,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Verdict {
  Refused,
  Answered,
  Unanswered,
}

/// Life, thread, number.
type Id = (u64, usize, usize);

fn events(path: &Path) -> Vec<Ev> {
  let text = std::fs::read_to_string(path).unwrap_or_default();
  let mut out = vec![];
  // (What a kill cut off never happened.)
  for line in text.split_inclusive('\n').filter(|l| l.ends_with('\n') && !l.starts_with('#')) {
    let mut p = line.trim_end_matches('\n').splitn(6, ' ');
    let kind = p.next().unwrap();
    let mut s = || p.next().unwrap_or_default().to_string();
    let verdict = |v: &str| match v {
      "refused" => Verdict::Refused,
      "answered" => Verdict::Answered,
      _ => Verdict::Unanswered,
    };
    let n = |s: String| s.parse().unwrap();
    out.push(match kind {
      "L" => Ev::Log(n(s()), n(s()), s().chars().next().unwrap(), s() == "true"),
      "F" => Ev::Flush(n(s()), n(s()), s() == "true"),
      "R" => Ev::Returned(n(s()), n(s())),
      "C" => Ev::Configured,
      "B" => {
        let (b, u, v) = (s(), s(), s());
        let ids = s().split(',').filter_map(id).collect();
        Ev::Batch(b, u, verdict(&v), ids)
      },
      "M" => {
        let (u, v) = (s(), s());
        Ev::Metric(u, verdict(&v), s().parse().unwrap())
      },
      "H" => Ev::Handshake(s(), s()),
      "SC" => Ev::SentConfig(s()),
      "SR" => Ev::SentRuntime(s()),
      "AC" => Ev::AckedConfig(s()),
      "AR" => Ev::AckedRuntime(s()),
      "D" => Ev::Device(s()),
      "I" => Ev::Intent,
      "T" => Ev::Torn(s()),
      "S" => Ev::Stream,
      _ => Ev::Trouble(line.to_string()),
    });
  }
  out
}

/// "a.1.2.3" and more.
fn id(text: &str) -> Option<Id> {
  let mut p = text.split(' ').next()?.split('.').skip(1);
  Some((p.next()?.parse().ok()?, p.next()?.parse().ok()?, p.next()?.parse().ok()?))
}

// -------------------------------------------------------------------------------------------------
// What happens.

#[derive(Clone, Copy, Debug, PartialEq)]
enum Weather {
  Up,
  /// Connections are closed at once.
  Refuse,
  /// They are accepted, and that is all.
  Silent,
  /// Uploads arrive, but their answers do not.
  Mute,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
  Blocking,
  NonBlocking,
  External,
  Dedicated,
  Killed,
}

#[derive(Clone, Copy, Debug)]
enum Op {
  Log(char, bool, usize),
  Flush(bool),
  Session,
  Field,
  Pause(u64),
}

/// What all lives of a case have in common.
#[derive(Clone, Debug)]
struct Case {
  small: bool,
  batch: u32,
  deadline: u32,
  compress: bool,
  internal: bool,
  busy: bool,
  lives: u64,
  seed: u64,
}

impl Case {
  fn new(seed: u64) -> Self {
    let r = &mut Rng::new(seed);
    Self {
      small: r.chance(1, 6),
      batch: *r.pick(&[1, 3, 10, 1000]),
      deadline: *r.pick(&[5, 20, 50]),
      compress: r.bool(),
      internal: r.chance(1, 3),
      busy: r.chance(1, 3),
      lives: 1 + r.below(4),
      seed,
    }
  }
}

#[derive(Clone, Debug)]
struct Life {
  n: u64,
  weather: Vec<(u64, Weather)>,
  threads: Vec<Vec<Op>>,
  end: End,
  delays: bool,
  version: String,
  tail: bool,
  kill_after: u64,
  jitter: bool,
}

impl Life {
  fn new(case: &Case, n: u64) -> Self {
    let r = &mut Rng::new(case.seed ^ (n + 1).wrapping_mul(0x1234_5678_9abc_def1));
    let last = n + 1 == case.lives;
    let mut weather = vec![];
    for _ in 0 .. *r.pick(&[0, 0, 1, 1, 2, 4]) {
      weather.push((r.below(60), *r.pick(&[Weather::Up, Weather::Up, Weather::Refuse, Weather::Silent, Weather::Mute])));
    }
    let all_day = *r.pick(&[Weather::Up, Weather::Up, Weather::Refuse, Weather::Silent, Weather::Mute]);
    weather.push((0, if last { Weather::Up } else { all_day }));
    let threads = (0 .. 1 + r.idx(4)).map(|_| (0 .. 5 + r.idx(if case.small { 10 } else { 35 })).map(|_| op(r)).collect()).collect();
    let end = if last { *r.pick(&[End::Blocking, End::NonBlocking, End::External]) } else { *r.pick(&[End::Blocking, End::NonBlocking, End::External, End::Dedicated, End::Killed, End::Killed]) };
    Self {
      n,
      weather,
      threads,
      end,
      delays: r.bool(),
      version: format!("v{}", n / 2),
      tail: r.chance(1, 4),
      kill_after: { let most = *r.pick(&[20, 60, 150]); 2 + r.below(most) },
      jitter: r.bool(),
    }
  }
}

fn op(r: &mut Rng) -> Op {
  match r.below(100) {
    0 ..= 54 => Op::Log(*r.pick(&['a', 'b', 'c', 'm', 't', 's', 'u']), false, { let size = *r.pick(&[10, 100, 400]); r.idx(size) }),
    55 ..= 69 => Op::Log(*r.pick(&['a', 'b', 'c', 'm', 't', 'u']), true, r.idx(100)),
    70 ..= 72 => Op::Log('f', r.bool(), 0),
    73 ..= 77 => Op::Flush(true),
    78 ..= 80 => Op::Flush(false),
    81 ..= 82 => Op::Session,
    83 ..= 84 => Op::Field,
    _ => { let most = *r.pick(&[300, 2_000, 8_000]); Op::Pause(r.below(most)) },
  }
}

fn goes_to(class: char) -> &'static [&'static str] {
  match class {
    'a' | 'm' | 's' => &["c0"],
    'b' => &["c1"],
    'c' => &["c0", "c1"],
    't' | 'f' => &["t0"],
    _ => &[],
  }
}

// -------------------------------------------------------------------------------------------------
// The server.

enum In {
  Start(tmpsc::Sender<StreamEvent>, bool),
  Data(usize, Vec<u8>),
  Weather(Weather),
  Flush(String),
  Stop,
}

struct Net(mpsc::Sender<In>, Arc<Mutex<usize>>);
#[async_trait::async_trait]
impl PlatformNetworkManager<ConfigLoader> for Net {
  async fn start_stream(&self, events: tmpsc::Sender<StreamEvent>, _: &ConfigLoader, headers: &HashMap<&str, &str>) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    let mut n = self.1.lock().unwrap();
    *n += 1;
    let _ = self.0.send(In::Start(events, headers.contains_key("grpc-encoding")));
    Ok(Box::new(Stream(self.0.clone(), *n)))
  }
}

struct Stream(mpsc::Sender<In>, usize);
#[async_trait::async_trait]
impl PlatformNetworkStream for Stream {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    let _ = self.0.send(In::Data(self.1, data.to_vec()));
    Ok(())
  }
}

struct Server {
  rec: Arc<Rec>,
  life: Life,
  case: Case,
  r: Rng,
  weather: Weather,
  n: usize,
  events: Option<tmpsc::Sender<StreamEvent>>,
  decoder: Decoder<ApiRequest>,
  shaken: bool,
  due: Vec<(Instant, usize, Vec<u8>)>,
  errors: u64,
  config: ApiResponse,
  runtime: ApiResponse,
}

impl Server {
  fn run(mut self, rx: &mpsc::Receiver<In>) {
    loop {
      let now = Instant::now();
      let (ready, rest) = std::mem::take(&mut self.due).into_iter().partition(|d| d.0 <= now);
      self.due = rest;
      let ready: Vec<_> = ready;
      for (_, n, bytes) in ready {
        if n == self.n {
          self.rec.put("# answer".into());
          self.push(StreamEvent::Data(bytes));
        }
      }
      let next = self.due.iter().map(|d| d.0).min().map_or(Duration::from_millis(100), |d| d.saturating_duration_since(now));
      match rx.recv_timeout(next) {
        Ok(In::Start(events, compressed)) => {
          self.n += 1;
          self.events = Some(events);
          self.due.clear();
          self.shaken = false;
          self.decoder = Decoder::new(compressed.then_some(Decompression::StatelessZlib), OptimizeFor::Memory);
          self.rec.put("S".into());
          if self.weather == Weather::Refuse {
            self.close();
          }
        },
        Ok(In::Data(n, bytes)) if n == self.n => match self.decoder.decode_data(&bytes) {
          Ok(requests) => {
            for q in requests {
              self.request(q);
            }
          },
          Err(e) => self.rec.put(format!("X what the client sends cannot be decoded: {e}")),
        },
        Ok(In::Data(..)) | Err(mpsc::RecvTimeoutError::Timeout) => {},
        Ok(In::Weather(w)) => {
          self.rec.put(format!("# {w:?}"));
          let freeze = self.weather == Weather::Up && matches!(w, Weather::Silent | Weather::Mute) && self.r.bool();
          self.weather = w;
          if !freeze {
            self.close();
          }
        },
        // (Before a handshake, nothing may be sent.)
        Ok(In::Flush(_)) if !self.shaken => {},
        Ok(In::Flush(b)) => self.answer(Resp::FlushBuffers(FlushBuffers { buffer_id_list: vec![b], ..Default::default() })),
        Ok(In::Stop) | Err(mpsc::RecvTimeoutError::Disconnected) => return,
      }
    }
  }

  fn push(&mut self, e: StreamEvent) {
    if let Some(tx) = &self.events {
      let _ = tx.blocking_send(e);
    }
  }

  fn close(&mut self) {
    self.rec.put(format!("# closed{}", if self.events.is_some() { "" } else { " already" }));
    self.push(StreamEvent::StreamClosed("closed".into()));
    self.events = None;
    self.due.clear();
    self.shaken = false;
  }

  fn answer(&mut self, x: Resp) {
    self.answers(&[ApiResponse { response_type: Some(x), ..Default::default() }]);
  }

  fn answers(&mut self, all: &[ApiResponse]) {
    let mut bytes = vec![];
    for a in all {
      let mut e = Encoder::new(self.r.bool().then_some(Compression::StatelessZlib { level: 3 }));
      bytes.extend_from_slice(&e.encode(a));
    }
    let at = Instant::now() + Duration::from_micros(if self.life.delays { self.r.below(*self.r.clone().pick(&[200, 3_000])) } else { 0 });
    // (Answers stay in order.)
    let at = self.due.iter().map(|d| d.0).max().map_or(at, |m| m.max(at));
    self.due.push((at, self.n, bytes));
  }

  fn request(&mut self, q: ApiRequest) {
    let mute = self.weather == Weather::Mute;
    match q.request_type {
      Some(Req::Handshake(h)) => {
        if matches!(self.weather, Weather::Silent | Weather::Refuse) {
          return;
        }
        self.rec.put(format!("H {} {}", or_none(&h.configuration_version_nonce), or_none(&h.runtime_version_nonce)));
        self.shaken = true;
        let ping = StreamSettings { ping_interval: MessageField::some(protobuf::well_known_types::duration::Duration { seconds: 0, nanos: 100_000_000, ..Default::default() }), ..Default::default() };
        let shake = ApiResponse { response_type: Some(Resp::Handshake(HandshakeResponse { stream_settings: MessageField::some(ping), ..Default::default() })), ..Default::default() };
        let mut all = vec![shake];
        if h.runtime_version_nonce != self.life.version {
          self.rec.put(format!("SR {}", self.life.version));
          all.push(self.runtime.clone());
        }
        if h.configuration_version_nonce != self.life.version {
          self.rec.put(format!("SC {}", self.life.version));
          all.push(self.config.clone());
        }
        if self.r.bool() {
          self.answers(&all);
        } else {
          for a in all {
            self.answers(&[a]);
          }
        }
      },
      _ if matches!(self.weather, Weather::Silent | Weather::Refuse) => {},
      Some(Req::ConfigurationUpdateAck(a)) => match a.nack.into_option() {
        None => self.rec.put(format!("AC {}", a.last_applied_version_nonce)),
        Some(n) => self.rec.put(format!("X the configuration is refused: {}", n.error_details.replace("\n", " "))),
      },
      Some(Req::RuntimeUpdateAck(a)) => match a.nack.into_option() {
        None => self.rec.put(format!("AR {}", a.last_applied_version_nonce)),
        Some(n) => self.rec.put(format!("X the runtime is refused: {}", n.error_details.replace("\n", " "))),
      },
      Some(Req::Ping(_)) => self.answer(Resp::Pong(PongResponse::default())),
      Some(Req::LogUploadIntent(i)) => {
        if !mute {
          self.rec.put("I".into());
          self.answer(Resp::LogUploadIntent(LogUploadIntentResponse {
            intent_uuid: i.intent_uuid,
            decision: Some(log_upload_intent_response::Decision::UploadImmediately(Default::default())),
            ..Default::default()
          }));
        }
      },
      Some(Req::LogUpload(u)) => {
        let mut ids = vec![];
        for l in &u.logs {
          match decode(l) {
            Ok(l) => {
              if let V::Text(m) = &l.message {
                if id(m).is_some() {
                  ids.push(m.split(' ').next().unwrap().to_string());
                }
              }
              if l.session.is_empty() {
                self.rec.put("X a log without a session".into());
              }
            },
            Err(e) => self.rec.put(format!("X a log that cannot be decoded: {e}")),
          }
        }
        let v = self.verdict();
        self.rec.put(format!("B {} {} {v} {}", or_none(&u.buffer_uuid), u.upload_uuid, ids.join(",")));
        if v != "unanswered" {
          let error = if v == "refused" { "no".into() } else { String::new() };
          self.answer(Resp::LogUpload(LogUploadResponse { upload_uuid: u.upload_uuid, error, ..Default::default() }));
        }
      },
      Some(Req::StatsUpload(u)) => {
        let mut sum = 0;
        for s in &u.snapshot {
          for m in &s.metrics().metric {
            if m.name == "workflows_dyn:action" {
              if let Some(Data::Counter(k)) = &m.data {
                sum += k.value;
              }
            }
          }
        }
        let v = self.verdict();
        self.rec.put(format!("M {} {v} {sum}", u.upload_uuid));
        if v != "unanswered" {
          let error = if v == "refused" { "no".into() } else { String::new() };
          self.answer(Resp::StatsUpload(StatsUploadResponse { upload_uuid: u.upload_uuid, error, ..Default::default() }));
        }
      },
      x => self.rec.put(format!("X what was never asked for: {x:?}")),
    }
  }

  fn verdict(&mut self) -> &'static str {
    if self.weather == Weather::Mute {
      "unanswered"
    } else if self.errors < 6 && self.r.chance(1, 10) {
      self.errors += 1;
      "refused"
    } else {
      "answered"
    }
  }
}

fn or_none(s: &str) -> &str {
  if s.is_empty() { "-" } else { s }
}

fn runtime(case: &Case, life: &Life) -> ApiResponse {
  let ints = [
    ("api.initial_backoff_interval_ms", 2),
    ("api.max_backoff_interval_ms", 15),
    ("log_uploader.batch_size", case.batch),
    ("log_uploader.batch_deadline_ms", case.deadline),
    ("log_uploader.retry_count", 100_000),
    ("log_uploader.initial_retry_backoff_ms", 2),
    ("log_uploader.max_retry_backoff_ms", 10),
    ("upload_ratelimit.bytes_count_per_period", 100_000_000),
    ("stats.disk_flush_interval_ms", case.deadline),
    ("stats.upload_flush_interval_ms", case.deadline),
    ("workflows.state_periodic_write_interval_ms", case.deadline),
    ("resource_utilization.reporting_interval_ms", 5),
    ("session_replay.screens.interval_ms", 5),
  ];
  let bools = [
    ("workflows.enabled", true),
    ("filter_chain.enabled", true),
    ("api.requests_compression_enabled", case.compress),
    ("internal_logging.enabled", case.internal),
    ("internal_logging.periodic_logs.enabled", case.internal),
    ("resource_utilization.enabled", case.busy),
    ("session_replay.screens.enabled", case.busy),
    ("platform_events.enabled", case.busy),
  ];
  let ints = ints.iter().map(|(k, v)| (*k, Type::UintValue(*v)));
  let bools = bools.iter().map(|(k, v)| (*k, Type::BoolValue(*v)));
  let values: HashMap<String, Value> = ints.chain(bools).map(|(k, t)| (k.to_string(), Value { type_: Some(t), ..Default::default() })).collect();
  ApiResponse {
    response_type: Some(Resp::RuntimeUpdate(RuntimeUpdate { version_nonce: life.version.clone(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() })),
    ..Default::default()
  }
}

fn config(case: &Case, life: &Life) -> ApiResponse {
  use cv1::log_matcher::base_log_matcher::{Match_type as Base, MessageMatch, StringMatchType};
  use cv1::log_matcher::{BaseLogMatcher, Match_type};
  use wp::workflow as wf;
  let (ram, disk) = if case.small { (1_500, 4_000) } else { (300_000, 2_000_000) };
  let buffers = ["c0", "c1", "t0"]
    .iter()
    .map(|b| cv1::BufferConfig {
      name: (*b).into(),
      id: (*b).into(),
      type_: if *b == "t0" { cv1::buffer_config::Type::TRIGGER } else { cv1::buffer_config::Type::CONTINUOUS }.into(),
      filters: ['a', 'b', 'c', 'f', 'm', 's', 't']
        .iter()
        .filter(|c| goes_to(**c).contains(b))
        .map(|c| cv1::buffer_config::BufferFilter {
          id: c.to_string(),
          filter: Some(cv1::LogMatcher {
            match_type: Some(Match_type::BaseMatcher(BaseLogMatcher {
              match_type: Some(Base::MessageMatch(MessageMatch { match_type: StringMatchType::PREFIX.into(), match_value: format!("{c}."), ..Default::default() })),
              ..Default::default()
            })),
            ..Default::default()
          })
          .into(),
          ..Default::default()
        })
        .collect(),
      buffer_sizes: Some(cv1::buffer_config::BufferSizes { volatile_buffer_size_bytes: ram, non_volatile_buffer_size_bytes: disk, ..Default::default() }).into(),
      ..Default::default()
    })
    .collect();
  let workflow = |id: &str, c: char, action| {
    let rule = wf::rule::Rule_type::RuleLogMatch(wf::RuleLogMatch { log_matcher: MessageField::some(begins(c)), count: 1, ..Default::default() });
    wp::Workflow {
      id: id.into(),
      states: vec![
        wf::State {
          id: "0".into(),
          transitions: vec![wf::Transition {
            target_state_id: "1".into(),
            rule: Some(wf::Rule { rule_type: Some(rule), ..Default::default() }).into(),
            actions: vec![wf::Action { action_type: Some(action), ..Default::default() }],
            ..Default::default()
          }],
          ..Default::default()
        },
        wf::State { id: "1".into(), ..Default::default() },
      ],
      execution: Some(wf::Execution { execution_type: Some(wf::execution::Execution_type::ExecutionExclusive(Default::default())), ..Default::default() }).into(),
      ..Default::default()
    }
  };
  let metric = wf::action::Action_type::ActionEmitMetric(wf::action::ActionEmitMetric {
    id: "metric".into(),
    metric_type: Some(wf::action::action_emit_metric::Metric_type::Counter(Default::default())),
    value_extractor_type: Some(wf::action::action_emit_metric::Value_extractor_type::Fixed(1)),
    ..Default::default()
  });
  let flush = wf::action::Action_type::ActionFlushBuffers(wf::action::ActionFlushBuffers { id: "flush".into(), buffer_ids: vec!["t0".into()], ..Default::default() });
  let streams = if life.tail { vec![BdTailStream { stream_id: "tail".into(), matcher: Some(begins('s')).into(), ..Default::default() }] } else { vec![] };
  let sotw = StateOfTheWorld {
    buffer_config_list: Some(cv1::BufferConfigList { buffer_config: buffers, ..Default::default() }).into(),
    bdtail_configuration: Some(BdTailConfigurations { active_streams: streams, ..Default::default() }).into(),
    workflows_configuration: Some(wp::WorkflowsConfiguration { workflows: vec![workflow("counting", 'm', metric), workflow("flushing", 'f', flush)], ..Default::default() }).into(),
    ..Default::default()
  };
  ApiResponse {
    response_type: Some(Resp::ConfigurationUpdate(ConfigurationUpdate { version_nonce: life.version.clone(), update_type: Some(Update_type::StateOfTheWorld(sotw)), ..Default::default() })),
    ..Default::default()
  }
}

// -------------------------------------------------------------------------------------------------
// The application.

struct Meta;
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    "1.2.3"
  }
  fn platform(&self) -> &Platform {
    &Platform::Other("an os", "a kind")
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    HashMap::from([("app_id".to_string(), "app".to_string())])
  }
}

/// The application's callback, which logs itself now and then: that is to be ignored.
#[derive(Default)]
struct Clock {
  handle: Mutex<Option<bd_logger::LoggerHandle>>,
  life: u64,
  inside: AtomicI64,
  calls: AtomicU64,
  slow: AtomicBool,
}
impl MetadataProvider for Clock {
  fn timestamp(&self) -> anyhow::Result<OffsetDateTime> {
    Ok(OffsetDateTime::now_utc())
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    self.inside.fetch_add(1, Ordering::SeqCst);
    let n = self.calls.fetch_add(1, Ordering::SeqCst);
    if n % 3 == 0 {
      if let Some(l) = &*self.handle.lock().unwrap() {
        l.log(2, LogType::Normal, format!("{}.{}.999.{n} ", ['c', 'a', 't', 'b', 's'][n as usize / 3 % 5], self.life).into(), vec![], vec![], None, n % 2 == 0);
      }
    }
    if self.slow.load(Ordering::SeqCst) {
      std::thread::sleep(Duration::from_millis(1));
    }
    self.inside.fetch_sub(1, Ordering::SeqCst);
    Ok(vec![field("os", "an os", true)])
  }
}

struct Sessions;
impl bd_session::fixed::Callbacks for Sessions {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    Ok("a session".into())
  }
}

/// Preferences, kept in files.
struct Prefs(PathBuf);
impl Prefs {
  fn file(&self, key: &str) -> PathBuf {
    self.0.join(format!("kv.{}", key.replace('/', "_")))
  }
}
impl Storage for Prefs {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    let tmp = self.0.join(format!("tmp.{:?}", std::thread::current().id()));
    std::fs::write(&tmp, value)?;
    Ok(std::fs::rename(tmp, self.file(key))?)
  }
  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> {
    Ok(std::fs::read_to_string(self.file(key)).ok())
  }
  fn delete(&self, key: &str) -> anyhow::Result<()> {
    let _ = std::fs::remove_file(self.file(key));
    Ok(())
  }
}

fn application(rec: &Rec, l: &LoggerHandle, life: u64, t: usize, ops: &[Op], current: &Mutex<String>) {
  for (n, o) in ops.iter().enumerate() {
    *current.lock().unwrap() = format!("{life}.{t}.{n} {o:?}");
    match o {
      Op::Log(class, blocking, pad) => {
        rec.put(format!("L {t} {n} {class} {blocking}"));
        l.log(2, LogType::Normal, format!("{class}.{life}.{t}.{n} {}", "x".repeat(*pad)).into(), vec![field("n", &n.to_string(), false)], vec![], None, *blocking);
        rec.put(format!("R {t} {n}"));
      },
      Op::Flush(blocking) => {
        rec.put(format!("F {t} {n} {blocking}"));
        l.flush_state(*blocking);
        rec.put(format!("R {t} {n}"));
      },
      Op::Session => l.start_new_session(),
      Op::Field => l.add_log_field(LogField { key: "x".into(), value: "y".into() }),
      Op::Pause(us) => std::thread::sleep(Duration::from_micros(*us)),
    }
  }
  *current.lock().unwrap() = String::new();
}

enum Stop {
  Own(Arc<Logger>, bool),
  External(ComponentShutdownTrigger),
}

/// A life that has begun.
struct Running {
  rec: Arc<Rec>,
  server: mpsc::Sender<In>,
  logger: Arc<Logger>,
  stop: Option<Stop>,
  over: mpsc::Receiver<Result<(), String>>,
  dedicated: Option<tmpsc::Sender<bd_api::DataUpload>>,
  done: mpsc::Receiver<usize>,
  current: Vec<Arc<Mutex<String>>>,
  clock: Arc<Clock>,
}

fn start(dir: &Path, case: &Case, life: &Life, rec: &Arc<Rec>, jitter: &Jitter) -> Running {
  let (tx, rx) = mpsc::channel();
  let weather = life.weather[0].1;
  let server = Server {
    rec: rec.clone(),
    life: life.clone(),
    case: case.clone(),
    r: Rng::new(case.seed ^ 77 ^ life.n),
    weather,
    n: 0,
    events: None,
    decoder: Decoder::new(None, OptimizeFor::Memory),
    shaken: false,
    due: vec![],
    errors: 0,
    config: config(case, life),
    runtime: runtime(case, life),
  };
  let _ = &server.case;
  std::thread::spawn(move || server.run(&rx));
  let store = Arc::new(Store::new(Box::new(Prefs(dir.to_path_buf()))));
  let session = Arc::new(bd_session::Strategy::Fixed(bd_session::fixed::Strategy::new(store.clone(), Arc::new(Sessions))));
  let device = Arc::new(bd_device::Device::new(store.clone()));
  let sdk = dir.join("sdk");
  let _ = std::fs::create_dir_all(&sdk);
  let net = tx.clone();
  let clock = Arc::new(Clock { life: life.n, ..Default::default() });
  let clock2 = clock.clone();
  let params = move || InitParams {
    sdk_directory: sdk,
    api_key: "key".into(),
    session_strategy: session,
    store,
    metadata_provider: clock2,
    resource_utilization_target: Box::new(Idle),
    session_replay_target: Box::new(Idle),
    events_listener_target: Box::new(Idle),
    device,
    network: Box::new(Net(net, Arc::new(Mutex::new(0)))),
    platform: Platform::Other("an os", "a kind"),
    static_metadata: Arc::new(Meta),
  };
  let (over_tx, over) = mpsc::channel();
  let (logger_tx, logger_rx) = mpsc::channel();
  let mut dedicated = None;
  let logger = if life.end == End::Dedicated {
    let (l, uploads) = LoggerBuilder::new(params()).with_mobile_features(true).with_internal_logger(case.internal).build_dedicated_thread().unwrap();
    dedicated = Some(uploads);
    Arc::new(l)
  } else {
    let (end, internal) = (life.end, case.internal);
    let pool = jitter.handle();
    let delays = life.jitter;
    std::thread::spawn(move || {
      let _e = delays.then(|| pool.enroll());
      let r = vh::no_panic(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
          let mut b = LoggerBuilder::new(params()).with_mobile_features(true).with_internal_logger(internal);
          let trigger = (end == End::External).then(ComponentShutdownTrigger::default);
          if let Some(t) = &trigger {
            b = b.with_shutdown_handle(t.make_handle());
          }
          let (logger, _uploads, run) = b.build().unwrap();
          logger_tx.send((Arc::new(logger), trigger)).unwrap();
          run.await.map_err(|e| format!("{e:?}"))
        })
      });
      let _ = over_tx.send(r.and_then(|x| x));
    });
    let (l, trigger) = logger_rx.recv().unwrap();
    let stop = match trigger {
      Some(t) => Stop::External(t),
      None => Stop::Own(l.clone(), life.end == End::Blocking),
    };
    return begin(case, life, rec, jitter, tx, l, Some(stop), over, None, clock);
  };
  let stop = Stop::Own(logger.clone(), case.seed % 2 == 0);
  begin(case, life, rec, jitter, tx, logger, Some(stop), over, dedicated, clock)
}

fn begin(case: &Case, life: &Life, rec: &Arc<Rec>, jitter: &Jitter, server: mpsc::Sender<In>, logger: Arc<Logger>, stop: Option<Stop>, over: mpsc::Receiver<Result<(), String>>, dedicated: Option<tmpsc::Sender<bd_api::DataUpload>>, clock: Arc<Clock>) -> Running {
  *clock.handle.lock().unwrap() = Some(logger.new_logger_handle());
  let main = logger.new_logger_handle();
  rec.put(format!("D {}", main.device_id()));
  let (done_tx, done) = mpsc::channel();
  let mut current = vec![];
  // The one that finds out when a configuration is in force.
  {
    let (l, rec) = (logger.new_logger_handle(), rec.clone());
    let seen = logger.stats().scope("logger").counter_with_labels("logs_received", labels!("log_level" => "trace"));
    let quit = Arc::downgrade(&logger);
    std::thread::spawn(move || {
      let mut n = 0u64;
      while seen.get() == 0 && quit.strong_count() > 0 {
        if n < 40 || n % 20 == 0 {
          l.log(0, LogType::Normal, "probe".into(), vec![], vec![], None, false);
        }
        n += 1;
        std::thread::sleep(Duration::from_micros(500));
      }
      if seen.get() > 0 {
        rec.put("C".into());
      }
    });
  }
  for (t, ops) in life.threads.iter().enumerate() {
    let cur = Arc::new(Mutex::new(String::new()));
    current.push(cur.clone());
    let (l, rec, ops, done, n, pool) = (logger.new_logger_handle(), rec.clone(), ops.clone(), done_tx.clone(), life.n, jitter.handle());
    let delays = life.jitter;
    std::thread::spawn(move || {
      let _e = delays.then(|| pool.enroll());
      application(&rec, &l, n, t, &ops, &cur);
      let _ = done.send(t);
    });
  }
  {
    let (s, weather) = (server.clone(), life.weather.clone());
    std::thread::spawn(move || {
      for w in weather.windows(2) {
        std::thread::sleep(Duration::from_millis(w[0].0));
        let _ = s.send(In::Weather(w[1].1));
      }
    });
  }
  let _ = case;
  Running { rec: rec.clone(), server, logger, stop, over, dedicated, done, current, clock }
}

impl Running {
  /// Until the calls have returned.
  fn calls(&self, threads: usize) -> Result<(), String> {
    let now = || self.current.iter().map(|c| c.lock().unwrap().clone()).collect::<Vec<_>>();
    let mut left = threads;
    let mut before = now();
    while left > 0 {
      match self.done.recv_timeout(PATIENCE) {
        Ok(_) => left -= 1,
        Err(_) => {
          let calls = now();
          let same: Vec<_> = calls.iter().zip(&before).filter(|(a, b)| a == b && !a.is_empty()).map(|x| x.0.clone()).collect();
          if !same.is_empty() {
            return Err(same.join("; "));
          }
          before = calls;
        },
      }
    }
    Ok(())
  }

  fn stop(&mut self) -> Result<(), (&'static str, String)> {
    let stop = self.stop.take().unwrap();
    let (tx, rx) = mpsc::channel();
    let how = match &stop {
      Stop::Own(_, true) => "shutdown(true)",
      Stop::Own(_, false) => "shutdown(false)",
      Stop::External(_) => "a shutdown of one's own",
    };
    let clock = self.clock.clone();
    let waits = !matches!(stop, Stop::Own(_, false));
    if waits {
      // Work that is under way.
      clock.slow.store(true, Ordering::SeqCst);
      let l = self.logger.new_logger_handle();
      for _ in 0 .. 30 {
        l.log(0, LogType::Normal, "probe".into(), vec![], vec![], None, false);
      }
    }
    let clock2 = clock.clone();
    std::thread::spawn(move || {
      match stop {
        Stop::Own(l, blocking) => l.shutdown(blocking),
        Stop::External(t) => t.shutdown_blocking(),
      }
      let _ = tx.send((clock2.inside.load(Ordering::SeqCst), clock2.calls.load(Ordering::SeqCst)));
    });
    match rx.recv_timeout(PATIENCE) {
      Err(_) => return Err(("shutdown does not return", how.into())),
      Ok((inside, calls)) if waits => {
        std::thread::sleep(Duration::from_millis(5));
        let later = self.clock.calls.load(Ordering::SeqCst) - calls;
        if inside > 0 || later > 0 {
          return Err(("a shutdown that waits returns while logs are processed", format!("{how}: {inside} inside, {later} later")));
        }
      },
      Ok(_) => {},
    }
    *self.clock.handle.lock().unwrap() = None;
    if let Some(d) = self.dedicated.take() {
      let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
      if rt.block_on(async { tokio::time::timeout(PATIENCE, d.closed()).await }).is_err() {
        return Err(("the logger goes on after its shutdown", format!("{how}, on a thread of its own")));
      }
    } else {
      match self.over.recv_timeout(PATIENCE) {
        Ok(Ok(())) => {},
        Ok(Err(e)) => return Err(("the logger ends with an error", format!("{how}: {e}"))),
        Err(_) => return Err(("the logger goes on after its shutdown", how.into())),
      }
    }
    let _ = self.server.send(In::Stop);
    // Calls return all the same.
    let (tx, rx) = mpsc::channel();
    let l = self.logger.new_logger_handle();
    std::thread::spawn(move || {
      l.log(2, LogType::Normal, "late".into(), vec![], vec![], None, true);
      l.flush_state(true);
      let _ = tx.send(());
    });
    if rx.recv_timeout(PATIENCE).is_err() {
      return Err(("a call does not return", "after the shutdown".into()));
    }
    Ok(())
  }
}

/// "dir seed life"
pub fn child(args: &str) {
  let a: Vec<&str> = args.split(' ').collect();
  let dir = Path::new(a[0]);
  let case = Case::new(a[1].parse().unwrap());
  let life = Life::new(&case, a[2].parse().unwrap());
  let rec = Rec::new(dir, life.n);
  UnexpectedErrorHandler::set_reporter(rec.clone());
  let jitter = Jitter::start(case.seed, Duration::from_micros(60), Duration::from_micros(120));
  let x = start(dir, &case, &life, &rec, &jitter);
  rec.put("ready".into());
  if let Err(e) = x.calls(life.threads.len()) {
    rec.put(format!("X a call does not return: {e}"));
  }
  std::thread::sleep(Duration::from_secs(60));
}

// -------------------------------------------------------------------------------------------------
// The judgement.

/// What has to arrive, by buffer, and how often the metric must have been counted.
fn owed(life: u64, evs: &[Ev], killed: bool, owes: &mut BTreeMap<&'static str, BTreeSet<Id>>) -> u64 {
  let configured = evs.iter().position(|e| *e == Ev::Configured);
  let Some(configured) = configured else { return 0 };
  // What each thread did, and where its calls that waited and returned began.
  let mut said: BTreeMap<usize, Vec<(usize, char)>> = BTreeMap::new();
  let mut began: HashMap<(usize, usize), (usize, Option<char>)> = HashMap::new();
  let mut metric: HashSet<(usize, usize)> = HashSet::new();
  // The workflows are there when both configuration and runtime are; a kill may have cost either.
  let shake = evs.iter().find_map(|e| match e {
    Ev::Handshake(c, q) => Some(c == "-" || q != "-"),
    _ => None,
  });
  let counting = match shake {
    Some(true) => 0,
    Some(false) => usize::MAX,
    None if killed => usize::MAX,
    None => 0,
  };
  let mut when = HashMap::new();
  for (at, e) in evs.iter().enumerate() {
    match e {
      Ev::Log(t, n, class, blocking) => {
        said.entry(*t).or_default().push((*n, *class));
        when.insert((*t, *n), at);
        if *blocking {
          began.insert((*t, *n), (at, Some(*class)));
        }
      },
      Ev::Flush(t, n, true) => drop(began.insert((*t, *n), (at, None))),
      Ev::Returned(t, n) => {
        let Some((from, class)) = began.get(&(*t, *n)) else { continue };
        if *from < configured {
          continue;
        }
        for (k, c) in said.get(t).into_iter().flatten().filter(|s| s.0 <= *n) {
          for b in goes_to(*c) {
            if class.is_none_or(|x| goes_to(x).contains(b)) {
              owes.entry(*b).or_default().insert((life, *t, *k));
            }
          }
          if *c == 'm' && when[&(*t, *k)] >= counting {
            metric.insert((*t, *k));
          }
        }
      },
      _ => {},
    }
  }
  metric.len() as u64
}

struct Judged {
  missing: Vec<String>,
  owed: u64,
  arrived: u64,
  batches: u64,
  again: u64,
  order: u64,
  streams: u64,
}

/// All lives so far; the logs of the trigger buffer that are owed are given.
fn judge(case: &Case, all: &[Vec<Ev>], ends: &[End], trigger: &[Id]) -> Result<Judged, (&'static str, String)> {
  let mut owes: BTreeMap<&'static str, BTreeSet<Id>> = BTreeMap::new();
  let (mut least, mut most) = (0, 0);
  let mut got: HashMap<String, HashSet<Id>> = HashMap::new();
  let mut called: HashSet<Id> = HashSet::new();
  let mut uploads: HashMap<String, u64> = HashMap::new();
  let mut batches: HashMap<String, (String, Vec<Id>)> = HashMap::new();
  let mut first: HashMap<(String, Id), (String, u64)> = HashMap::new();
  let mut last: HashMap<String, Id> = HashMap::new();
  let mut latest: HashMap<(String, u64, usize), usize> = HashMap::new();
  let mut device: Option<String> = None;
  let mut j = Judged { missing: vec![], owed: 0, arrived: 0, batches: 0, again: 0, order: 0, streams: 0 };
  let mut flow = vec![];
  // Configuration and runtime: what was acknowledged, and what was sent later.
  let mut known: [(Option<String>, HashSet<String>); 2] = Default::default();
  // (A kill may lose them, until they are sent and acknowledged again.)
  let mut lost = [false; 2];
  for (life, evs) in all.iter().enumerate() {
    let life = life as u64;
    least += owed(life, evs, ends[.. life as usize].contains(&End::Killed), &mut owes);
    // (A kill inside the update of the control data loses what the file holds. B03 is about these.)
    for e in evs {
      if let Ev::Torn(b) = e {
        owes.remove(b.as_str());
      }
    }
    if life > 0 && ends[life as usize - 1] == End::Killed {
      lost = [true; 2];
    }
    // Batches whose answers were taken note of: another one of the buffer came after it in this life.
    let mut previous: HashMap<String, (String, Verdict)> = HashMap::new();
    let mut settled: HashSet<String> = HashSet::new();
    for e in evs {
      match e {
        Ev::Log(t, n, class, _) => {
          called.insert((life, *t, *n));
          if *class == 'm' {
            most += 1;
          }
        },
        Ev::Stream => j.streams += 1,
        Ev::Trouble(x) if x.starts_with('P') || x.starts_with('X') => return Err(("what should never happen", format!("life {life}: {x}"))),
        Ev::Device(d) => {
          if device.as_ref().is_some_and(|x| x != d) && !ends[.. life as usize].contains(&End::Killed) {
            return Err(("the device", format!("{device:?}, then {d}")));
          }
          device = Some(d.clone());
        },
        Ev::SentConfig(v) => drop(known[0].1.insert(v.clone())),
        Ev::SentRuntime(v) => drop(known[1].1.insert(v.clone())),
        Ev::AckedConfig(v) => {
          known[0] = (Some(v.clone()), HashSet::new());
          lost[0] = false;
        },
        Ev::AckedRuntime(v) => {
          known[1] = (Some(v.clone()), HashSet::new());
          lost[1] = false;
        },
        Ev::Handshake(c, q) => {
          for (what, said, (acked, sent), lost) in [("configuration", c, &known[0], lost[0]), ("runtime", q, &known[1], lost[1])] {
            let ok = (lost && said == "-") || Some(said) == acked.as_ref() || sent.contains(said) || (acked.is_none() && said == "-");
            if !ok {
              return Err(("what a handshake says", format!("life {life}: {what} {said}, acknowledged {acked:?}, sent since {sent:?}")));
            }
          }
        },
        Ev::Metric(uuid, v, n) => {
          if let Some(x) = uploads.get(uuid).filter(|x| *x != n) {
            return Err(("what a retry of metrics carries", format!("life {life}: {n}, then {x}, in {uuid}")));
          }
          if *v != Verdict::Refused {
            uploads.insert(uuid.clone(), *n);
          }
        },
        Ev::Batch(buffer, uuid, v, ids) => {
          // Those of streams have their own rules.
          if !["c0", "c1", "t0"].contains(&buffer.as_str()) {
            continue;
          }
          j.batches += 1;
          if let Some((b, x)) = batches.get(uuid) {
            if b != buffer || x != ids {
              return Err(("what a retry carries", format!("life {life}: {buffer} {ids:?} after {b} {x:?}, in {uuid}")));
            }
          }
          batches.insert(uuid.clone(), (buffer.clone(), ids.clone()));
          if buffer != "t0" {
            if let Some((u, x)) = previous.get(buffer) {
              if u != uuid {
                if *x != Verdict::Answered {
                  return Err(("a batch that is given up", format!("life {life}: {uuid} of {buffer} comes after {u}, which was {x:?}")));
                }
                settled.insert(u.clone());
              }
            }
          }
          // (One that was taken once is only refused for what the server forgot.)
          previous.insert(buffer.clone(), (uuid.clone(), *v));
          for i in ids {
            if !called.contains(i) {
              return Err(("a log of nobody", format!("life {life}: {i:?} in {buffer}")));
            }
            let k = (buffer.clone(), *i);
            if let Some((u, l)) = first.get(&k).filter(|f| f.0 != *uuid) {
              if *l == life || settled.contains(u) {
                return Err(("a log that arrives twice", format!("{i:?} of {buffer} in {u} of life {l} and in {uuid} of life {life}")));
              }
              j.again += 1;
            } else if !first.contains_key(&k) && buffer != "t0" {
              // In order, those of a thread.
              if let Some(n) = latest.get(&(buffer.clone(), i.0, i.1)).filter(|n| **n >= i.2) {
                return Err(("the order of a thread's logs", format!("{buffer}: {i:?} after {n}")));
              }
              latest.insert((buffer.clone(), i.0, i.1), i.2);
              if let Some(x) = last.get(buffer).filter(|x| x.0 > i.0) {
                return Err(("the order of the lives' logs", format!("{buffer}: {i:?} after {x:?}")));
              }
              last.insert(buffer.clone(), *i);
              flow.push(*i);
            }
            // Its last batch counts from now on.
            first.insert(k, (uuid.clone(), life));
            if *v != Verdict::Refused {
              got.entry(buffer.clone()).or_default().insert(*i);
            }
          }
        },
        _ => {},
      }
    }
  }
  let sum: u64 = uploads.values().sum();
  if sum > most {
    return Err(("a metric is counted too often", format!("{sum} instead of at most {most}")));
  }
  if sum < least {
    j.missing.push(format!("{} of the metric's {least}", least - sum));
  }
  owes.remove("t0");
  let trigger: BTreeSet<Id> = trigger.iter().copied().collect();
  owes.insert("t0", trigger);
  if !case.small {
    for (b, ids) in &owes {
      j.owed += ids.len() as u64;
      let none = HashSet::new();
      let have = got.get(*b).unwrap_or(&none);
      for i in ids.iter().filter(|i| !have.contains(i)) {
        j.missing.push(format!("{b} {}.{}.{}", i.0, i.1, i.2));
      }
    }
  }
  j.arrived = got.values().map(|x| x.len() as u64).sum();
  j.order = hash_of(&flow);
  Ok(j)
}

/// Whether someone holds a lock on a file.
fn locked(dir: &Path) -> bool {
  use std::os::fd::AsRawFd as _;
  std::fs::read_dir(dir).into_iter().flatten().filter_map(|f| std::fs::File::open(f.ok()?.path()).ok()).any(|f| unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) != 0 })
}

/// The buffers whose files have invalid control data.
fn torn(dir: &Path) -> Vec<String> {
  let mut all = vec![];
  for f in std::fs::read_dir(dir.join("sdk/buffers")).into_iter().flatten().flatten() {
    let copy = dir.join("copy");
    std::fs::copy(f.path(), &copy).unwrap();
    let size = std::fs::metadata(&copy).unwrap().len();
    let lost = Collector::default().scope("x").counter("lost");
    let stats = RingBufferStats { total_data_loss: Some(lost.clone()), ..Default::default() };
    let b = NonVolatileRingBuffer::new("copy".into(), &copy, u32::try_from(size).unwrap(), AllowOverwrite::Yes, BlockWhenReservingIntoConcurrentRead::Yes, PerRecordCrc32Check::Yes, Arc::new(stats));
    if b.is_err() || lost.get() > 0 {
      all.push(f.file_name().into_string().unwrap());
    }
  }
  all
}

/// What a life owes of its trigger buffer, if it was never connected: what came before its first flush.
fn pending(life: u64, evs: &[Ev]) -> Vec<Id> {
  let Some(configured) = evs.iter().position(|e| *e == Ev::Configured) else { return vec![] };
  for (at, e) in evs.iter().enumerate() {
    if let Ev::Log(t, n, 'f', blocking) = e {
      // (While the buffer is uploaded it takes nothing.)
      if *blocking && at > configured && evs[at ..].contains(&Ev::Returned(*t, *n)) {
        // Its own thread's.
        return evs[.. at]
          .iter()
          .filter_map(|e| match e {
            Ev::Log(u, k, 't' | 'f', _) if u == t => Some((life, *u, *k)),
            _ => None,
          })
          .chain([(life, *t, *n)])
          .collect();
      }
      return vec![];
    }
  }
  vec![]
}

fn case(c: &Check, n: u64, r: &mut Rng, jitter: &Jitter) {
  let case = Case::new(r.u64());
  let dir = Scratch::new();
  let exe = std::env::current_exe().unwrap();
  let mut all: Vec<Vec<Ev>> = vec![];
  let mut ends = vec![];
  let mut trigger: Vec<Id> = vec![];
  let mut story = String::new();
  let fail = |sig: &str, story: &str, d: String| {
    let log = |k| std::fs::read_to_string(dir.path().join(format!("events{k}"))).unwrap_or_default();
    let logs: Vec<String> = (0 .. case.lives).map(|k| format!("\nlife {k}\n{}", log(k))).collect();
    c.violation(sig, &format!("case {n}: {case:?}; {story}: {d}\n{}", logs.concat()));
  };
  for k in 0 .. case.lives {
    let life = Life::new(&case, k);
    let last = k + 1 == case.lives;
    story += &format!(" life {k}: {:?}, {} threads, {:?};", life.weather, life.threads.len(), life.end);
    ends.push(life.end);
    let rec = Rec::new(dir.path(), k);
    if life.end == End::Killed {
      let args = format!("{} {} {k}", dir.path().display(), case.seed);
      let mut p = std::process::Command::new(&exe).env("H_LOGGER_CHILD", args).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
      let t = Instant::now();
      while !std::fs::read_to_string(&rec.path).is_ok_and(|s| s.contains("ready")) {
        if p.try_wait().unwrap().is_some() || t.elapsed() > PATIENCE {
          let _ = p.kill();
          let _ = p.wait();
          return fail("a process ends by itself", &story, std::fs::read_to_string(&rec.path).unwrap_or_default());
        }
        std::thread::sleep(Duration::from_micros(300));
      }
      std::thread::sleep(Duration::from_millis(life.kill_after));
      let early = p.try_wait().unwrap();
      let _ = p.kill();
      let _ = p.wait();
      if early.is_some() {
        return fail("a process ends by itself", &story, format!("{early:?}"));
      }
      // (The system may take a moment to clean up.)
      let t = Instant::now();
      while locked(&dir.path().join("sdk/buffers")) && t.elapsed() < PATIENCE {
        std::thread::sleep(Duration::from_millis(1));
      }
      c.count("processes_killed");
      // (What the kill cut off never happened.)
      let mut text = std::fs::read_to_string(&rec.path).unwrap();
      text.truncate(text.rfind('\n').map_or(0, |i| i + 1));
      for b in torn(dir.path()) {
        c.count("buffers_torn_by_a_kill");
        text += &format!("T {b}\n");
      }
      std::fs::write(&rec.path, text).unwrap();
    } else {
      let mut x = start(dir.path(), &case, &life, &rec, jitter);
      if let Err(e) = x.calls(life.threads.len()) {
        return fail("a call does not return", &story, e);
      }
      if last {
        let _ = x.server.send(In::Weather(Weather::Up));
        if let Err((sig, d)) = finish(c, &case, k, &x, &mut all, &ends, &mut trigger, r) {
          return fail(sig, &story, d);
        }
      }
      std::thread::sleep(Duration::from_micros(r.below(3_000)));
      if let Err((sig, d)) = x.stop() {
        return fail(sig, &story, d);
      }
      c.count(match life.end {
        End::Blocking => "ended_waiting",
        End::NonBlocking => "ended_without_waiting",
        End::External => "ended_from_outside",
        _ => "ended_on_its_own_thread",
      });
      // The next one needs its files.
      drop(x);
      let t = Instant::now();
      while locked(&dir.path().join("sdk/buffers")) {
        if t.elapsed() > PATIENCE {
          return fail("files stay open after a shutdown", &story, String::new());
        }
        std::thread::sleep(Duration::from_millis(1));
      }
    }
    let evs = events(&rec.path);
    // (The batch of a trigger buffer that is under way when a life ends is lost with it.)
    if !last && (evs.contains(&Ev::Intent) || evs.contains(&Ev::Torn("t0".into()))) {
      trigger.clear();
    }
    // Never connected: what its flush is about is uploaded by a later life.
    let before = all.iter().flatten().any(|e| matches!(e, Ev::Log(_, _, 'f', _)));
    if !evs.iter().any(|e| matches!(e, Ev::Handshake(..))) && !case.small && !before {
      let p = pending(k, &evs);
      if !p.is_empty() {
        c.count("flushes_left_to_later_lives");
      }
      trigger.extend(p);
    }
    all.push(evs);
  }
  match judge(&case, &all, &ends, &trigger) {
    Ok(j) => {
      if !j.missing.is_empty() {
        return fail("what never arrives", &story, j.missing.join(", "));
      }
      c.add("logs_owed", j.owed);
      c.add("logs_arrived", j.arrived);
      c.add("batches", j.batches);
      c.add("logs_sent_again_after_a_restart", j.again);
      c.add("connections", j.streams);
      c.add("lives", case.lives);
      c.eval(Some(j.order));
      c.sample(|| format!("case {n}:{story} {} logs owed, {} arrived in {} batches over {} connections", j.owed, j.arrived, j.batches, j.streams));
    },
    Err((sig, d)) => fail(sig, &story, d),
  }
}

/// All that is owed arrives, without anyone doing anything; then a flush of the trigger buffer.
fn finish(c: &Check, case: &Case, k: u64, x: &Running, all: &mut Vec<Vec<Ev>>, ends: &[End], trigger: &mut Vec<Id>, r: &mut Rng) -> Result<(), (&'static str, String)> {
  let arrive = |trigger: &[Id], all: &mut Vec<Vec<Ev>>| -> Result<(), (&'static str, String)> {
    let t = Instant::now();
    loop {
      all.push(events(&x.rec.path));
      let j = judge(case, all, ends, trigger);
      let configured = all.last().unwrap().contains(&Ev::Configured);
      all.pop();
      let j = j?;
      if j.missing.is_empty() && configured {
        return Ok(());
      }
      if let Ok(e) = x.over.try_recv() {
        return Err(("the logger ends by itself", format!("{e:?}")));
      }
      if t.elapsed() > PATIENCE {
        return Err(if configured { ("what never arrives", j.missing.join(", ")) } else { ("a configuration does not arrive", "in the last life".into()) });
      }
      std::thread::sleep(Duration::from_millis(2));
    }
  };
  arrive(trigger, all)?;
  if case.small {
    return Ok(());
  }
  // All flushes of the trigger buffer that were under way have ended when nothing more arrives for a while.
  let mut size = 0;
  let mut since = Instant::now();
  while since.elapsed() < Duration::from_millis(60) {
    let n = std::fs::metadata(&x.rec.path).map_or(0, |m| m.len());
    if n != size && events(&x.rec.path).iter().filter(|e| matches!(e, Ev::Batch(..))).count() as u64 != size {
      size = events(&x.rec.path).iter().filter(|e| matches!(e, Ev::Batch(..))).count() as u64;
      since = Instant::now();
    }
    std::thread::sleep(Duration::from_millis(2));
  }
  let by_server = r.bool();
  if by_server {
    c.count("flushes_the_server_asked_for");
  }
  let begin = Instant::now();
  for t in 90 .. {
    let mut ops = vec![Op::Log('t', false, 3), Op::Log('t', false, 30), Op::Log('t', true, 3)];
    if !by_server {
      ops.push(Op::Log('f', r.bool(), 0));
    }
    let own: Vec<Id> = (0 .. ops.len()).map(|i| (k, t, i)).collect();
    let (l, rec) = (x.logger.new_logger_handle(), x.rec.clone());
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
      application(&rec, &l, k, t, &ops, &Mutex::default());
      let _ = tx.send(());
    });
    if rx.recv_timeout(PATIENCE).is_err() {
      return Err(("a call does not return", "at the end".into()));
    }
    if by_server {
      let _ = x.server.send(In::Flush("t0".into()));
    }
    let round = Instant::now();
    loop {
      all.push(events(&x.rec.path));
      let mut want = trigger.clone();
      want.extend(&own);
      let j = judge(case, all, ends, &want);
      all.pop();
      let j = j?;
      if j.missing.is_empty() {
        trigger.extend(own);
        return Ok(());
      }
      // While a buffer is uploaded it takes nothing, and what was asked for then goes unheard.
      if round.elapsed() > Duration::from_millis(400) {
        c.count("flushes_repeated");
        break;
      }
      std::thread::sleep(Duration::from_millis(3));
    }
    if let Ok(e) = x.over.try_recv() {
      return Err(("the logger ends by itself", format!("{e:?}")));
    }
    if begin.elapsed() > PATIENCE {
      return Err(("what a flush does not upload", format!("{own:?}; asked for by the server: {by_server}")));
    }
  }
  Ok(())
}

pub fn run(c: &Check) {
  let dir = Scratch::new();
  let reports = Rec::new(dir.path(), 0);
  UnexpectedErrorHandler::set_reporter(reports.clone());
  c.rule("Each case: the SDK built as an application builds it, over 1-4 lives of one directory, 1-4 threads of 5-40 calls each (logs, blocking ones among them, state flushes, sessions, fields), a server that is up, refuses, says nothing or never answers uploads, by turns, refuses some uploads and answers late, and lives that end with each kind of shutdown or with a kill of the process. All calls and all that the server gets are recorded and judged offline. Distinct by the order in which the logs arrive.");
  c.assume("Buffers that fill up lose logs, those cases are judged for order, repetition and calls that return only. A log is owed once a blocking log to its buffer or a blocking flush, begun with a configuration in force, came after it on its thread and returned.");
  let jitter = Jitter::start(c.seed, Duration::from_micros(60), Duration::from_micros(120));
  let limit = Duration::from_secs(c.n(16, 400));
  c.cases(c.n(1000, 50_000), limit, |i, r| {
    let lanes: Vec<Rng> = (0 .. 6).map(|_| r.fork()).collect();
    std::thread::scope(|s| {
      for (k, mut r) in lanes.into_iter().enumerate() {
        let jitter = &jitter;
        s.spawn(move || case(c, 6 * i + k as u64, &mut r, jitter));
      }
    });
  });
  let said = std::fs::read_to_string(&reports.path).unwrap_or_default();
  c.ensure(said.is_empty(), "what should never happen", || said.clone());
}
