//! G03: from the calls of the logger to its buffers, over threads, configurations, flushes and shutdown.
use crate::f01::{decode, V};
use bd_api::upload::{IntentDecision, IntentResponse, UploadResponse};
use bd_api::DataUpload;
use bd_buffer::{Buffer, BufferEvent, BuffersWithAck};
use bd_client_common::error::{Reporter, UnexpectedErrorHandler};
use bd_client_stats_store::Collector;
use bd_log_primitives::{AnnotatedLogField, AnnotatedLogFields, LogField, LogFieldKind, LogType};
use bd_logger::verif_driver::pipeline;
use bd_logger::verif_driver::queue::{HoldError, MemorySized, PreConfigBuffer};
use bd_logger::{LogAttributesOverridesPreviousRunSessionID, LoggerHandle, MetadataProvider};
use bd_proto::protos::bdtail::bdtail_config::{BdTailConfigurations, BdTailStream};
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
use bd_proto::protos::client::api::{ApiResponse, ConfigurationUpdate, RuntimeUpdate};
use bd_proto::protos::client::runtime::runtime::{value::Type, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::config::v1::config as cv1;
use bd_proto::protos::filter::filter as fp;
use bd_proto::protos::log_matcher::log_matcher as lm;
use bd_proto::protos::workflow::workflow as wp;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use bd_stats_common::labels;
use protobuf::MessageField;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use time::OffsetDateTime;
use tokio::sync::mpsc as tmpsc;
use vh::jitter::Jitter;
use vh::{hash_of, Check, Rng, Scratch};

const PATIENCE: Duration = Duration::from_secs(10);
const CLASSES: [char; 7] = ['a', 'b', 'd', 'e', 'f', 'g', 'u'];

fn base() -> OffsetDateTime {
  OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap()
}

// -------------------------------------------------------------------------------------------------
// What surrounds the pipeline.

#[derive(Clone, Copy, Debug)]
struct Tick {
  at: u64,
  failed: bool,
}

/// The platform. Every log that is processed asks it for the time, and that is how it is numbered.
struct Platform {
  t0: Instant,
  ticks: Mutex<Vec<Tick>>,
  n: AtomicU64,
  r: Mutex<Rng>,
  fails: u64,
  reenters: bool,
  logger: OnceLock<LoggerHandle>,
}

thread_local! {
  static ASKED: Cell<bool> = const { Cell::new(false) };
}

impl Platform {
  fn now(&self) -> u64 {
    self.t0.elapsed().as_nanos() as u64
  }
}

impl MetadataProvider for Platform {
  fn timestamp(&self) -> anyhow::Result<OffsetDateTime> {
    let mut t = self.ticks.lock().unwrap();
    let n = t.len();
    let failed = self.fails > 0 && self.r.lock().unwrap().chance(1, self.fails);
    t.push(Tick { at: self.now(), failed });
    self.n.store(n as u64 + 1, Ordering::SeqCst);
    anyhow::ensure!(!failed, "no time");
    Ok(base() + time::Duration::microseconds(n as i64))
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    let n = {
      let mut t = self.ticks.lock().unwrap();
      let n = t.len() - 1;
      if self.fails > 0 && self.r.lock().unwrap().chance(1, self.fails) {
        t[n].failed = true;
        anyhow::bail!("no fields");
      }
      n
    };
    if self.reenters {
      if let Some(l) = self.logger.get() {
        ASKED.with(|a| a.set(true));
        l.log(1, LogType::Normal, "r within".into(), vec![field("id", "within", false)], vec![], None, false);
        l.add_log_field(LogField { key: "rr".into(), value: "within".into() });
        l.remove_log_field("x4");
        l.start_new_session();
        ASKED.with(|a| a.set(false));
      }
    }
    let n = n.to_string();
    Ok(vec![
      field("pf", &n, false),
      field("x3", "PC", false),
      field("x4", "PC", false),
      field("_bad", "no", false),
      field("app_id", "no", false),
      field("po", &n, true),
      field("x1", "P", true),
    ])
  }
}

pub fn field(k: &str, v: &str, ootb: bool) -> AnnotatedLogField {
  AnnotatedLogField {
    field: LogField { key: k.into(), value: v.into() },
    kind: if ootb { LogFieldKind::Ootb } else { LogFieldKind::Custom },
  }
}

/// How many sessions there are, and how many were begun from within the platform's callback.
struct Sessions(AtomicU64, AtomicU64);
impl bd_session::fixed::Callbacks for Sessions {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    if ASKED.with(Cell::get) {
      self.1.fetch_add(1, Ordering::SeqCst);
    }
    Ok(format!("s{}", self.0.fetch_add(1, Ordering::SeqCst)))
  }
}

struct Previous;
impl bd_session::fixed::Callbacks for Previous {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    Ok("P".into())
  }
}

pub struct Idle;
impl bd_resource_utilization::Target for Idle {
  fn tick(&self) {}
}
impl bd_session_replay::Target for Idle {
  fn capture_screen(&self) {}
  fn capture_screenshot(&self) {}
}
impl bd_events::ListenerTarget for Idle {
  fn start(&self) {}
  fn stop(&self) {}
}

pub fn switches(loader: &ConfigLoader, ints: &[(&str, u32)], bools: &[(&str, bool)]) {
  let ints = ints.iter().map(|(k, v)| (*k, Type::UintValue(*v)));
  let bools = bools.iter().map(|(k, v)| (*k, Type::BoolValue(*v)));
  let values: HashMap<String, Value> = ints.chain(bools).map(|(k, t)| (k.to_string(), Value { type_: Some(t), ..Default::default() })).collect();
  loader.update_snapshot(&RuntimeUpdate { version_nonce: "v".into(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() });
}

// -------------------------------------------------------------------------------------------------
// Configurations.

#[derive(Clone, Debug, Default)]
struct Epoch {
  /// Which are trigger buffers, and their size.
  buffers: BTreeMap<String, (bool, u32)>,
  picks: BTreeMap<char, BTreeSet<String>>,
  streams: Vec<(String, Option<char>)>,
}

pub fn begins(c: char) -> lm::LogMatcher {
  use lm::log_matcher::base_log_matcher::{Match_type, MessageMatch, Operator, StringValueMatch};
  lm::LogMatcher {
    matcher: Some(lm::log_matcher::Matcher::BaseMatcher(lm::log_matcher::BaseLogMatcher {
      match_type: Some(Match_type::MessageMatch(MessageMatch {
        string_value_match: MessageField::some(StringValueMatch {
          operator: Operator::OPERATOR_REGEX.into(),
          match_value: format!("^{c}"),
          ..Default::default()
        }),
        ..Default::default()
      })),
      ..Default::default()
    })),
    ..Default::default()
  }
}

impl Epoch {
  fn proto(&self, n: usize, redirects: bool) -> ApiResponse {
    use cv1::log_matcher::base_log_matcher::{Match_type as Base, MessageMatch, StringMatchType};
    use cv1::log_matcher::{BaseLogMatcher, Match_type};
    let buffers = self
      .buffers
      .iter()
      .map(|(id, (trigger, size))| cv1::BufferConfig {
        name: id.clone(),
        id: id.clone(),
        type_: if *trigger { cv1::buffer_config::Type::TRIGGER } else { cv1::buffer_config::Type::CONTINUOUS }.into(),
        filters: self
          .picks
          .iter()
          .filter(|(_, to)| to.contains(id))
          .map(|(class, _)| cv1::buffer_config::BufferFilter {
            id: class.to_string(),
            filter: Some(cv1::LogMatcher {
              match_type: Some(Match_type::BaseMatcher(BaseLogMatcher {
                match_type: Some(Base::MessageMatch(MessageMatch {
                  match_type: StringMatchType::PREFIX.into(),
                  match_value: class.to_string(),
                  ..Default::default()
                })),
                ..Default::default()
              })),
              ..Default::default()
            })
            .into(),
            ..Default::default()
          })
          .collect(),
        buffer_sizes: Some(cv1::buffer_config::BufferSizes {
          volatile_buffer_size_bytes: *size,
          non_volatile_buffer_size_bytes: 4 * size,
          ..Default::default()
        })
        .into(),
        ..Default::default()
      })
      .collect();
    let set = fp::filter::transform::SetField {
      name: "epoch".into(),
      value: MessageField::some(fp::filter::transform::set_field::SetFieldValue {
        value: Some(fp::filter::transform::set_field::set_field_value::Value::StringValue(n.to_string())),
        ..Default::default()
      }),
      field_type: fp::filter::transform::set_field::FieldType::CAPTURED.into(),
      allow_override: true,
      ..Default::default()
    };
    let filter = fp::Filter {
      matcher: MessageField::some(begins('.')),
      transforms: vec![fp::filter::Transform {
        transform_type: Some(fp::filter::transform::Transform_type::SetField(set)),
        ..Default::default()
      }],
      ..Default::default()
    };
    let streams = self
      .streams
      .iter()
      .map(|(id, class)| BdTailStream { stream_id: id.clone().into(), matcher: class.map(begins).into(), ..Default::default() })
      .collect();
    let sotw = StateOfTheWorld {
      buffer_config_list: Some(cv1::BufferConfigList { buffer_config: buffers, ..Default::default() }).into(),
      filters_configuration: Some(fp::FiltersConfiguration { filters: vec![filter], ..Default::default() }).into(),
      bdtail_configuration: Some(BdTailConfigurations { active_streams: streams, ..Default::default() }).into(),
      workflows_configuration: redirects
        .then(|| wp::WorkflowsConfiguration { workflows: vec![redirection()], ..Default::default() })
        .into(),
      ..Default::default()
    };
    ApiResponse {
      response_type: Some(Response_type::ConfigurationUpdate(ConfigurationUpdate {
        version_nonce: n.to_string(),
        update_type: Some(Update_type::StateOfTheWorld(sotw)),
        ..Default::default()
      })),
      ..Default::default()
    }
  }
}

/// After a log of class g, what is meant for t0 goes to c0.
fn redirection() -> wp::Workflow {
  use wp::workflow as wf;
  let state = |id: &str, transitions| wf::State { id: id.into(), transitions, ..Default::default() };
  wp::Workflow {
    id: "redirection".into(),
    states: vec![
      state("0", vec![wf::Transition {
        target_state_id: "1".into(),
        rule: Some(wf::Rule {
          rule_type: Some(wf::rule::Rule_type::RuleLogMatch(wf::RuleLogMatch { log_matcher: MessageField::some(begins('g')), count: 1, ..Default::default() })),
          ..Default::default()
        })
        .into(),
        actions: vec![wf::Action {
          action_type: Some(wf::action::Action_type::ActionFlushBuffers(wf::action::ActionFlushBuffers {
            id: "flush".into(),
            buffer_ids: vec!["t0".into()],
            streaming: MessageField::some(wf::action::action_flush_buffers::Streaming {
              destination_streaming_buffer_ids: vec!["c0".into()],
              ..Default::default()
            }),
            ..Default::default()
          })),
          ..Default::default()
        }],
        ..Default::default()
      }]),
      state("1", vec![]),
    ],
    execution: Some(wf::Execution {
      execution_type: Some(wf::execution::Execution_type::ExecutionExclusive(Default::default())),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  }
}

// -------------------------------------------------------------------------------------------------
// Calls.

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hint {
  None,
  Right,
  Wrong,
}

#[derive(Clone, Debug)]
enum Op {
  Log { class: char, typ: u32, level: u32, blocking: bool, hint: Hint, x: u8, pad: usize },
  Own,
  Remove,
  Reserved(&'static str),
  Flush(bool),
  Session,
  Sleep(u64),
}

#[derive(Clone, Debug)]
struct Call {
  thread: usize,
  seq: usize,
  class: char,
  typ: u32,
  level: u32,
  blocking: bool,
  hint: Hint,
  x: u8,
  pad: usize,
  start: u64,
  end: u64,
  sessions: (u64, u64),
  own: Option<u32>,
}

impl Call {
  fn id(&self) -> String {
    format!("{}-{}", self.thread, self.seq)
  }
}

#[derive(Clone, Debug)]
struct Flushed {
  start: u64,
  end: u64,
  blocking: bool,
}

#[derive(Clone, Debug)]
struct Wish {
  at: u64,
  passed_on: u64,
  buffers: Vec<String>,
}

/// What one thread did.
#[derive(Default)]
struct Did {
  calls: Vec<Call>,
  flushes: Vec<Flushed>,
  owned: u32,
}

struct Shared {
  platform: Arc<Platform>,
  sessions: Arc<Sessions>,
  sent: AtomicU64,
  queued: bd_client_stats_store::Counter,
  wishes: Mutex<Vec<Wish>>,
  stats: Mutex<Vec<(u64, u64)>>,
  buffers: Mutex<Vec<(String, Arc<Buffer>)>>,
  streams: Mutex<Vec<Arc<dyn bd_buffer::RingBuffer>>>,
}

fn op(r: &mut Rng, w: &World) -> Op {
  match r.below(100) {
    0 ..= 5 => Op::Own,
    6 => Op::Remove,
    7 => Op::Reserved(*r.pick(&["_secret", "app_id", "os_version", "log_level"])),
    8 ..= 9 => Op::Flush(r.bool()),
    10 ..= 11 => Op::Session,
    12 ..= 16 => Op::Sleep(r.below(800)),
    _ => {
      let class = if r.chance(1, 20) { 'g' } else { *r.pick(&['a', 'a', 'b', 'd', 'e', 'u']) };
      let hint = match r.below(40) {
        0 if w.previous => Hint::Right,
        1 => Hint::Wrong,
        _ => Hint::None,
      };
      let typ = *r.pick(&[0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8]);
      Op::Log {
        class,
        typ: if class == 'g' && typ == LogType::InternalSDK.0 { 0 } else { typ },
        level: *r.pick(&[0, 1, 2, 3, 4, 2, 2, 17]),
        blocking: r.chance(1, w.blocking),
        hint,
        x: r.below(64) as u8,
        pad: if w.tiny && r.chance(1, 8) { 6000 } else { r.idx(40) },
      }
    },
  }
}

struct World {
  limits: (usize, usize),
  epochs: Vec<Epoch>,
  redirects: bool,
  tiny: bool,
  previous: bool,
  global: bool,
  paced: bool,
  all_selected: bool,
  blocking: u64,
  cut: bool,
}

fn world(r: &mut Rng) -> World {
  let redirects = r.chance(1, 3);
  let tiny = r.chance(1, 4);
  let all_selected = r.bool();
  let n = *r.pick(&[1, 1, 2, 3, 5]);
  let mut epochs: Vec<Epoch> = vec![];
  let mut next = 2;
  let mut streaming = false;
  for e in 0 .. n {
    let mut buffers = epochs.last().map_or_else(
      || {
        let mut b = BTreeMap::from([("c0".to_string(), (false, 400_000)), ("t0".to_string(), (true, 400_000))]);
        if tiny {
          b.insert("a-tiny".into(), (true, 5000));
        }
        b
      },
      |x| x.buffers.clone(),
    );
    if e > 0 && r.chance(1, 3) {
      // What is gone does not come back.
      let gone: Vec<String> = buffers.keys().filter(|k| !["c0", "t0"].contains(&k.as_str())).cloned().collect();
      if !gone.is_empty() {
        buffers.remove(r.pick(&gone));
      }
    }
    while r.bool() && buffers.len() < 5 {
      let trigger = r.bool();
      buffers.insert(format!("{}{next}", if trigger { "t" } else { "c" }), (trigger, 400_000));
      next += 1;
    }
    let ids: Vec<&String> = buffers.keys().collect();
    let picks = CLASSES
      .iter()
      .map(|c| {
        let mut to: BTreeSet<String> = match c {
          'u' => BTreeSet::new(),
          _ => ids.iter().filter(|_| r.chance(1, 2)).map(|s| (*s).clone()).collect(),
        };
        let must = *c == 'a' || (all_selected && *c != 'u');
        if must && !to.iter().any(|b| b != "a-tiny") {
          to.insert((*r.pick(&["c0", "t0"])).to_string());
        }
        (*c, to)
      })
      .collect();
    if r.chance(1, 3) {
      streaming ^= true;
    }
    let k = if streaming { 1 + r.idx(3) } else { 0 };
    let streams = (0 .. k).map(|i| (format!("e{e}-{i}"), if r.chance(1, 3) { None } else { Some(*r.pick(&CLASSES)) })).collect();
    epochs.push(Epoch { buffers, picks, streams });
  }
  World {
    limits: (*r.pick(&[8, 64, 64, 512, 512]), *r.pick(&[1 << 20, 1 << 20, 20_000])),
    epochs,
    redirects,
    tiny,
    previous: r.bool(),
    global: r.bool(),
    paced: r.chance(2, 3),
    all_selected,
    blocking: *r.pick(&[3, 10, 40]),
    cut: r.chance(1, 8),
  }
}

fn client(l: &LoggerHandle, s: &Shared, w: &World, t: usize, ops: &[Op], current: &Mutex<String>) -> Did {
  let mut d = Did::default();
  let mut own = None;
  let p = &s.platform;
  for (seq, o) in ops.iter().enumerate() {
    *current.lock().unwrap() = format!("thread {t}, {o:?}");
    match o {
      Op::Log { class, typ, level, blocking, hint, x, pad } => {
        if w.paced {
          let t = Instant::now();
          while s.queued.get().saturating_sub(p.n.load(Ordering::SeqCst)) > w.limits.0 as u64 / 4 && t.elapsed() < Duration::from_millis(20) {
            std::thread::yield_now();
          }
        }
        let mut c = Call {
          thread: t,
          seq,
          class: *class,
          typ: *typ,
          level: *level,
          blocking: *blocking,
          hint: *hint,
          x: *x,
          pad: *pad,
          start: 0,
          end: 0,
          sessions: (0, 0),
          own,
        };
        let mut f = vec![field("id", &c.id(), false)];
        for (bit, k, v, ootb) in [(0, "x1", "LO", true), (1, "x2", "LO", true), (2, "x2", "LC", false), (3, "x3", "LC", false), (4, "x1", "LC", false), (5, "_res", "no", false)] {
          if x >> bit & 1 == 1 {
            f.push(field(k, v, ootb));
          }
        }
        if *pad > 0 {
          f.push(field("pad", &"p".repeat(*pad), false));
        }
        let hint = match hint {
          Hint::None => None,
          h => Some(LogAttributesOverridesPreviousRunSessionID {
            expected_previous_process_session_id: if *h == Hint::Right { "P" } else { "no such session" }.into(),
            occurred_at: occurred(seq),
          }),
        };
        s.sent.fetch_add(1, Ordering::SeqCst);
        c.sessions.0 = s.sessions.0.load(Ordering::SeqCst);
        c.start = p.now();
        l.log(*level, LogType(*typ), format!("{class} message").as_str().into(), f, vec![field("hidden", "h", false)], hint, *blocking);
        c.end = p.now();
        c.sessions.1 = s.sessions.0.load(Ordering::SeqCst);
        d.calls.push(c);
      },
      Op::Own => {
        d.owned += 1;
        own = Some(d.owned);
        l.add_log_field(LogField { key: format!("g{t}"), value: d.owned.to_string().into() });
      },
      Op::Remove => {
        own = None;
        l.remove_log_field(&format!("g{t}"));
      },
      Op::Reserved(k) => l.add_log_field(LogField { key: (*k).into(), value: "no".into() }),
      Op::Flush(blocking) => {
        let start = p.now();
        l.flush_state(*blocking);
        d.flushes.push(Flushed { start, end: p.now(), blocking: *blocking });
      },
      Op::Session => l.start_new_session(),
      Op::Sleep(us) => std::thread::sleep(Duration::from_micros(*us)),
    }
  }
  d
}

fn occurred(seq: usize) -> OffsetDateTime {
  base() - time::Duration::hours(1) + time::Duration::microseconds(seq as i64)
}

/// A log as a buffer holds it.
#[derive(Debug, Clone)]
pub struct Found {
  pub buffer: String,
  pub id: String,
  pub message: String,
  pub level: u32,
  pub typ: u32,
  pub session: String,
  pub nanos: i128,
  pub fields: BTreeMap<String, String>,
  pub streams: Vec<String>,
  pub actions: Vec<String>,
}

pub fn found(buffer: &str, data: &[u8]) -> Result<Found, String> {
  let l = decode(data)?;
  let V::Text(message) = l.message else { return Err("a message of bytes".into()) };
  let mut fields = BTreeMap::new();
  for (k, v) in l.fields {
    let V::Text(v) = v else { return Err(format!("field {k} of bytes")) };
    if fields.insert(k.clone(), v).is_some() {
      return Err(format!("field {k} twice"));
    }
  }
  Ok(Found {
    buffer: buffer.to_string(),
    id: fields.get("id").cloned().unwrap_or_default(),
    message,
    level: l.level,
    typ: l.typ,
    session: l.session,
    nanos: l.nanos,
    fields,
    streams: l.streams,
    actions: l.actions,
  })
}

/// What the run left behind.
struct Run {
  calls: Vec<Call>,
  flushes: Vec<Flushed>,
  ticks: Vec<Tick>,
  wishes: Vec<Wish>,
  /// When the statistics were flushed.
  stats: Vec<(u64, u64)>,
  found: BTreeMap<String, Vec<Found>>,
  streamed: Vec<Found>,
  owned: Vec<u32>,
  cut: Option<u64>,
  sessions: u64,
  enqueued: u64,
  refused: u64,
  lost_fields: u64,
  held_over: (u64, u64),
  levels: [u64; 5],
  streamed_count: u64,
  markers: usize,
}

type Judged = Result<(), (&'static str, String)>;

fn has_platform(typ: u32) -> bool {
  ![LogType::Replay.0, LogType::Resource.0, LogType::InternalSDK.0].contains(&typ)
}

/// The number of its tick, by its time or by the field that keeps it.
fn tick(f: &Found, right: bool, texts: &HashMap<String, usize>) -> Option<usize> {
  if right {
    return texts.get(f.fields.get("_logged_at")?).copied();
  }
  let d = f.nanos - base().unix_timestamp_nanos();
  (d >= 0 && d % 1000 == 0).then_some((d / 1000) as usize)
}

fn fields_of(c: &Call, w: &World, n: usize, f: &Found, exact: bool, owned: &[u32]) -> Judged {
  let platform = has_platform(c.typ);
  let bit = |b: u8| c.x >> b & 1 == 1;
  let first = |v: &[(bool, &str)]| v.iter().find(|x| x.0).map(|x| x.1.to_string());
  let mut want: BTreeMap<String, String> = BTreeMap::new();
  let mut put = |k: &str, v: Option<String>| {
    if let Some(v) = v {
      want.insert(k.to_string(), v);
    }
  };
  put("id", Some(c.id()));
  put("x1", first(&[(platform, "P"), (bit(0), "LO"), (bit(4), "LC")]));
  put("x2", first(&[(bit(1), "LO"), (bit(2), "LC")]));
  put("x3", first(&[(bit(3), "LC"), (w.global, "G"), (platform, "PC")]));
  put("x4", first(&[(w.global, "G"), (platform, "PC")]));
  put("pf", platform.then(|| n.to_string()));
  put("po", platform.then(|| n.to_string()));
  put("pad", (c.pad > 0).then(|| "p".repeat(c.pad)));
  let mut have = f.fields.clone();
  have.remove("epoch");
  have.remove("_logged_at");
  have.retain(|k, _| !["_network_quality", "_original_session_id", "_override_session_id", "_state", "_session_strategy"].contains(&k.as_str()));
  for (t, most) in owned.iter().enumerate() {
    let k = format!("g{t}");
    let v = have.remove(&k).map(|v| v.parse::<u32>().unwrap_or(0));
    let ok = if t == c.thread && exact { v == c.own } else { v.is_none_or(|v| (1 ..= *most).contains(&v)) };
    if !ok {
      return Err(("a field set for all logs", format!("{k} is {v:?}, set to {:?} at the time: {c:?}", c.own)));
    }
  }
  if have != want {
    let brief = |m: &BTreeMap<String, String>| m.iter().map(|(k, v)| (k.clone(), v.chars().take(20).collect::<String>())).collect::<Vec<_>>();
    return Err(("the fields of a log", format!("{c:?} has {:?}, expected {:?}", brief(&have), brief(&want))));
  }
  Ok(())
}

fn judge(c: &Check, w: &World, x: &Run) -> Judged {
  let calls: HashMap<String, &Call> = x.calls.iter().map(|c| (c.id(), c)).collect();
  let texts: HashMap<String, usize> = (0 .. x.ticks.len()).map(|n| ((base() + time::Duration::microseconds(n as i64)).to_string(), n)).collect();
  let exact = x.lost_fields == 0;
  let whole = x.cut.is_none();

  // What every record says by itself.
  let mut at: BTreeMap<usize, (&Call, usize, BTreeSet<&str>, &Found)> = BTreeMap::new();
  let mut synthetic: HashMap<&str, BTreeSet<&str>> = HashMap::new();
  let mut leads: HashMap<&str, BTreeSet<&str>> = HashMap::new();
  for (b, list) in &x.found {
    let mut last = None;
    for f in list {
      let Some(call) = calls.get(&f.id) else { return Err(("a log nobody recorded", format!("{f:?}"))) };
      let begins = w.redirects && call.class == 'g' && call.hint != Hint::Wrong;
      if begins != (f.actions == ["flush"]) || (!begins && !f.actions.is_empty()) {
        return Err(("the actions of a log", format!("{f:?} of {call:?}")));
      }
      if begins {
        leads.entry(f.id.as_str()).or_default().insert(b);
      }
      if f.typ == LogType::InternalSDK.0 && call.typ != f.typ && call.class == 'g' && !f.message.starts_with("failed") {
        // Written so that the flush is known of; the log itself goes elsewhere.
        synthetic.entry(f.id.as_str()).or_default().insert(b);
        continue;
      }
      let wrong = call.hint == Hint::Wrong;
      let (message, typ, level) = match wrong {
        true => ("failed to override log attributes, provided override attributes do not match expectations".to_string(), LogType::InternalSDK.0, 3),
        false => (format!("{} message", call.class), call.typ, call.level),
      };
      if (f.message.as_str(), f.typ, f.level) != (message.as_str(), typ, level) {
        return Err(("the content of a log", format!("{f:?} of {call:?}")));
      }
      let Some(n) = tick(f, call.hint == Hint::Right, &texts).filter(|n| *n < x.ticks.len()) else {
        return Err(("the time of a log", format!("{f:?} of {call:?}")));
      };
      if x.ticks[n].failed {
        return Err(("a log without its metadata", format!("{f:?}")));
      }
      if !(call.start <= x.ticks[n].at && (!call.blocking || x.ticks[n].at <= call.end)) {
        return Err(("when a log is processed", format!("{:?} for {call:?}", x.ticks[n])));
      }
      if call.hint == Hint::Right {
        if f.session != "P" || f.nanos != occurred(call.seq).unix_timestamp_nanos() {
          return Err(("a log of the previous session", format!("{f:?} of {call:?}")));
        }
      } else {
        let k = f.session.strip_prefix('s').and_then(|s| s.parse::<u64>().ok());
        let most = if call.blocking { call.sessions.1 } else { x.sessions };
        if k.is_none_or(|k| k + 1 < call.sessions.0 || k >= most) {
          return Err(("the session of a log", format!("{} for {call:?}", f.session)));
        }
      }
      if wrong && (f.fields.get("_override_session_id").map(String::as_str) != Some("no such session") || f.fields.get("_original_session_id") != Some(&f.session)) {
        return Err(("the report of a refused override", format!("{f:?}")));
      }
      fields_of(call, w, n, f, exact, &x.owned)?;
      let Some(e) = f.fields.get("epoch").and_then(|e| e.parse::<usize>().ok()).filter(|e| *e < w.epochs.len()) else {
        return Err(("a log without configuration", format!("{f:?}")));
      };
      if last.is_some_and(|l| l >= n) {
        return Err(("the order within a buffer", format!("{b}: {n} after {last:?}")));
      }
      last = Some(n);
      let entry = at.entry(n).or_insert_with(|| (*call, e, BTreeSet::new(), f));
      if entry.0.id() != call.id() || entry.1 != e || entry.3.session != f.session || entry.3.fields != f.fields {
        return Err(("one log, different records", format!("{f:?} and {:?}", entry.3)));
      }
      entry.2.insert(b);
    }
  }
  c.add("synthetic_logs", synthetic.values().map(BTreeSet::len).sum::<usize>() as u64);
  for (id, to) in leads {
    // Else nobody learns what the upload is for.
    if !to.iter().any(|b| *b == "t0" || b.starts_with('c')) {
      return Err(("a log that begins an upload and is not part of any", format!("{id} in {to:?}")));
    }
  }

  // Where each one is.
  let mut once = BTreeSet::new();
  let mut prev: Option<(usize, u64)> = None;
  let mut latest = (0, String::new());
  let mut per_thread: HashMap<usize, usize> = HashMap::new();
  for (n, (call, e, to, f)) in &at {
    if !once.insert(call.id()) {
      return Err(("a log processed twice", format!("{call:?}")));
    }
    let class = if call.hint == Hint::Wrong { 'f' } else { call.class };
    let want: BTreeSet<&str> = w.epochs[*e].picks[&class].iter().map(String::as_str).collect();
    let mut to = to.clone();
    to.remove("a-tiny");
    let mut plain = want.clone();
    plain.remove("a-tiny");
    let mut moved = plain.clone();
    if w.redirects && moved.remove("t0") {
      moved.insert("c0");
    }
    if to != plain && to != moved {
      return Err(("the buffers of a log", format!("in {to:?}, selected {want:?} in configuration {e}: {call:?}")));
    }
    if to != plain {
      c.count("redirected");
    }
    let session = f.session.strip_prefix('s').and_then(|s| s.parse::<u64>().ok());
    if let Some((pe, ps)) = prev {
      if *e < pe {
        return Err(("the order of configurations", format!("{e} after {pe} at {n}")));
      }
      if session.is_some_and(|s| s < ps) {
        return Err(("the order of sessions", format!("{session:?} after {ps} at {n}")));
      }
    }
    prev = Some((*e, session.unwrap_or(prev.map_or(0, |p| p.1))));
    if per_thread.insert(call.thread, call.seq).is_some_and(|s| s >= call.seq) {
      return Err(("the order of a thread's logs", format!("{call:?} at {n}")));
    }
    if call.end < latest.0 {
      return Err(("the order of calls", format!("{call:?} had returned when {} was called, and comes later", latest.1)));
    }
    if call.start > latest.0 {
      latest = (call.start, call.id());
    }
  }

  // What is missing.
  let good: Vec<usize> = (0 .. x.ticks.len()).filter(|n| !x.ticks[*n].failed).collect();
  let (over_count, over_size) = x.held_over;
  if whole {
    if x.enqueued != x.ticks.len() as u64 || x.enqueued + x.refused != x.calls.len() as u64 {
      return Err(("the number of accepted logs", format!("{} are counted and {} refused, {} were processed of {}", x.enqueued, x.refused, x.ticks.len(), x.calls.len())));
    }
    if w.paced && w.limits == (512, 1 << 20) && x.refused > 0 {
      return Err(("a log refused without need", format!("{} of {}", x.refused, x.calls.len())));
    }
    let unselected = x.calls.iter().filter(|c| c.hint != Hint::Wrong && c.class == 'u').count() as u64;
    let missing: Vec<usize> = good.iter().copied().filter(|n| !at.contains_key(n)).collect();
    if w.all_selected && (missing.len() as u64) < over_count + over_size {
      return Err(("the number of logs dropped while held back", format!("{over_count} by count, {over_size} by size, {} are missing", missing.len())));
    }
    if w.all_selected && missing.len() as u64 > over_count + over_size + unselected {
      return Err(("a lost log", format!("{} are missing, {over_count} and {over_size} were dropped while held back, {unselected} are selected nowhere", missing.len())));
    }
    if w.all_selected && unselected == 0 && over_size == 0 && over_count > 0 {
      let want: Vec<usize> = good.iter().copied().skip(w.limits.0).take(over_count as usize).collect();
      if missing != want {
        return Err(("which logs are dropped while held back", format!("{missing:?}, expected {want:?}")));
      }
      c.count("overflows_of_the_hold_judged_exactly");
    }
    // Every log that arrived in the pipeline is counted by its level.
    let pushed = good.len() as u64 - over_count - over_size;
    if w.all_selected && unselected == 0 && missing.len() as u64 == over_count + over_size {
      let mut levels = [0u64; 5];
      for (call, ..) in at.values() {
        let l = if call.hint == Hint::Wrong { 3 } else { call.level };
        if l < 5 {
          levels[l as usize] += 1;
        }
      }
      if levels != x.levels {
        return Err(("the counts by level", format!("{:?}, expected {levels:?} of {pushed}", x.levels)));
      }
    }
    // A processed log is never lost to those who waited for it.
    let gave: HashMap<String, usize> = at.iter().map(|(n, v)| (v.0.id(), *n)).collect();
    for f in x.flushes.iter().filter(|f| f.blocking) {
      // One that is refused returns at once.
      for call in x.calls.iter().filter(|c| x.lost_fields == 0 && c.end < f.start) {
        if let Some(n) = gave.get(&call.id()) {
          if x.ticks[*n].at > f.end {
            return Err(("a flush before what precedes it", format!("{f:?}, {call:?} at {:?}", x.ticks[*n])));
          }
        }
      }
      if x.lost_fields == 0 && !x.wishes.iter().any(|w| w.buffers.is_empty() && f.start < w.at && w.passed_on < f.end) {
        return Err(("a flush of the buffers", format!("none within {f:?}")));
      }
      if x.lost_fields == 0 && !x.stats.iter().any(|s| f.start < s.0 && s.1 < f.end) {
        return Err(("a flush of the statistics", format!("none within {f:?}")));
      }
    }
  }

  // Blocking logs, once there is a configuration.
  let flush_of = |n: usize, call: &Call, to: &BTreeSet<&str>| {
    x.wishes.iter().any(|w| w.at >= x.ticks[n].at && w.passed_on <= call.end && (w.buffers.is_empty() || to.iter().all(|b| w.buffers.iter().any(|x| x == b))))
  };
  // Only a log that finds a configuration asks for some of the buffers.
  let settled = x.wishes.iter().filter(|w| !w.buffers.is_empty()).map(|w| w.at).min().unwrap_or(u64::MAX);
  let end = x.cut.unwrap_or(u64::MAX);
  for (i, (n, (call, _, to, _))) in at.iter().enumerate() {
    if !call.blocking || call.end >= end || call.hint == Hint::Wrong {
      continue;
    }
    let mut to = to.clone();
    to.extend(synthetic.get(call.id().as_str()).into_iter().flatten());
    if flush_of(*n, call, &to) {
      c.count("blocking_logs_flushed");
      if !x.stats.iter().any(|s| s.0 >= x.ticks[*n].at && s.1 <= call.end) {
        return Err(("a blocking log without the statistics", format!("{call:?}, flushed {:?}", x.stats.iter().filter(|s| s.0 >= call.start && s.0 <= call.end).collect::<Vec<_>>())));
      }
    } else if x.ticks[*n].at > settled || (whole && i + 1 == at.len() && x.markers > 0) {
      let near: Vec<&Wish> = x.wishes.iter().filter(|w| w.at >= call.start && w.at <= call.end).collect();
      return Err(("a blocking log that was not flushed", format!("{call:?} in {to:?}, flushes {near:?}")));
    }
  }
  if whole && x.markers > 0 {
    let last = at.values().last().map(|v| v.1);
    if last != Some(w.epochs.len() - 1) {
      return Err(("a configuration that is not applied", format!("{last:?} of {}", w.epochs.len())));
    }
  }

  // Streams.
  let mut streamed = BTreeSet::new();
  for f in &x.streamed {
    let Some(call) = calls.get(&f.id) else { return Err(("a streamed log nobody recorded", format!("{f:?}"))) };
    let e = f.fields.get("epoch").and_then(|e| e.parse::<usize>().ok()).filter(|e| *e < w.epochs.len());
    let Some(e) = e else { return Err(("a streamed log without configuration", format!("{f:?}"))) };
    let class = if call.hint == Hint::Wrong { 'f' } else { call.class };
    let want: Vec<String> = w.epochs[e].streams.iter().filter(|s| s.1.is_none_or(|k| k == class)).map(|s| s.0.clone()).collect();
    if f.streams != want {
      return Err(("the streams of a log", format!("{:?}, expected {want:?}: {call:?}", f.streams)));
    }
    if !streamed.insert(f.id.clone()) {
      return Err(("a log streamed twice", format!("{call:?}")));
    }
    if !f.actions.is_empty() {
      return Err(("a streamed log with actions", format!("{f:?}")));
    }
  }
  for (call, e, ..) in at.values() {
    let class = if call.hint == Hint::Wrong { 'f' } else { call.class };
    let want = w.epochs[*e].streams.iter().any(|s| s.1.is_none_or(|k| k == class));
    if want && !streamed.contains(&call.id()) {
      return Err(("a log that is not streamed", format!("{call:?} in configuration {e}, {:?}; {} of {} others are", w.epochs[*e].streams, streamed.len(), x.found.values().map(Vec::len).sum::<usize>())));
    }
  }
  if whole && x.streamed_count != x.streamed.len() as u64 {
    return Err(("the count of streamed logs", format!("{} of {}", x.streamed_count, x.streamed.len())));
  }
  if !whole {
    // What had returned before the shutdown is there.
    let got: BTreeSet<String> = at.values().map(|v| v.0.id()).collect();
    for call in x.calls.iter().filter(|c| c.blocking && c.end < end) {
      let known = x.ticks.iter().any(|t| !t.failed && t.at >= call.start && t.at <= call.end);
      if settled < call.start && x.refused == 0 && w.all_selected && call.class != 'u' && known && x.ticks.iter().all(|t| !t.failed) && over_count + over_size == 0 {
        let after = at.iter().any(|(_, v)| v.0.start > call.end);
        if after && !got.contains(&call.id()) {
          return Err(("a lost log", format!("{call:?}")));
        }
      }
    }
  }
  c.add("logs_found", at.len() as u64);
  c.add("logs_streamed", x.streamed.len() as u64);
  c.add("dropped_while_held", over_count + over_size);
  c.add("refused", x.refused);
  Ok(())
}

fn case(c: &Check, case: u64, r: &mut Rng, jitter: &Jitter) {
  let w = Arc::new(world(r));
  let dir = Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  switches(&loader, &[("buffers.stream_buffer_size_bytes", 1_000_000)], &[("workflows.enabled", w.redirects || r.bool()), ("filter_chain.enabled", true)]);
  let collector = Collector::default();
  let scope = collector.scope("");
  let store = vstore::Mem::new(r.u64()).store();
  if w.previous {
    let s = bd_session::Strategy::Fixed(bd_session::fixed::Strategy::new(store.clone(), Arc::new(Previous)));
    s.session_id();
  }
  let sessions = Arc::new(Sessions(AtomicU64::new(0), AtomicU64::new(0)));
  let session = Arc::new(bd_session::Strategy::Fixed(bd_session::fixed::Strategy::new(store.clone(), sessions.clone())));
  session.session_id();
  let platform = Arc::new(Platform {
    t0: Instant::now(),
    ticks: Mutex::default(),
    n: AtomicU64::new(0),
    r: Mutex::new(r.fork()),
    fails: *r.pick(&[0, 0, 20]),
    reenters: r.bool(),
    logger: OnceLock::new(),
  });
  let queued = scope.scope("logger").scope("async_log_buffer").counter_with_labels("log_enqueueing", labels!("result" => "success"));
  let s = Arc::new(Shared { platform: platform.clone(), sessions: sessions.clone(), sent: AtomicU64::new(0), queued: queued.clone(), wishes: Mutex::default(), stats: Mutex::default(), buffers: Mutex::default(), streams: Mutex::default() });
  let shutdown = ComponentShutdownTrigger::default();

  // The pipeline on its thread.
  let (logger_tx, logger_rx) = mpsc::channel();
  let (config_tx, mut config_rx) = tmpsc::channel::<(ApiResponse, mpsc::Sender<bool>)>(1);
  let (over_tx, over_rx) = mpsc::channel::<()>();
  let why = Arc::new(Mutex::new(String::new()));
  let slow = r.bool();
  let delays = r.chance(1, 2);
  let (mut fr, mut sr) = (r.fork(), r.fork());
  {
    let (s, scope, loader, w, handle) = (s.clone(), scope.clone(), loader.clone(), w.clone(), shutdown.make_handle());
    let path = dir.path().to_path_buf();
    let (said, panicked) = (why.clone(), why.clone());
    let pool = jitter.handle();
    std::thread::spawn(move || {
      let _e = delays.then(|| pool.enroll());
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
      let r = vh::no_panic(|| rt.block_on(async {
        let targets = (Box::new(Idle) as Box<_>, Box::new(Idle) as Box<_>, Box::new(Idle) as Box<_>);
        let p = pipeline::build(&path, &loader, &scope, w.limits, session, s.platform.clone(), store, targets, handle).unwrap();
        let pipeline::Parts { logger, mut config, manager, mut events, mut flushes, mut triggers, mut uploads, mut stats, run } = p;
        logger_tx.send(logger).unwrap();
        let (inner_tx, inner_rx) = tmpsc::channel::<BuffersWithAck>(1);
        let pass = async {
          while let Some(f) = flushes.recv().await {
            let at = s.platform.now();
            let d = format!("{f:?}");
            let list = d.split("buffers: [").nth(1).and_then(|d| d.split(']').next()).unwrap_or_default();
            let buffers = list.split(", ").filter(|b| !b.is_empty()).map(|b| b.trim_matches('"').to_string()).collect();
            if slow && fr.bool() {
              tokio::time::sleep(Duration::from_micros(fr.below(300))).await;
            }
            s.wishes.lock().unwrap().push(Wish { at, passed_on: s.platform.now(), buffers });
            let _ = inner_tx.send(f).await;
          }
          std::future::pending::<()>().await;
        };
        let flush_stats = async {
          while let Some(done) = stats.recv().await {
            let at = s.platform.now();
            if slow && sr.bool() {
              tokio::time::sleep(Duration::from_micros(sr.below(300))).await;
            }
            s.stats.lock().unwrap().push((at, s.platform.now()));
            if let Some(done) = done {
              done.send(());
            }
          }
          std::future::pending::<()>().await;
        };
        let known = async {
          while let Some(e) = events.recv().await {
            match &e.event {
              BufferEvent::ContinuousBufferCreated(id, b) | BufferEvent::TriggerBufferCreated(id, b) => s.buffers.lock().unwrap().push((id.clone(), b.clone())),
              BufferEvent::StreamBufferAdded(b) => s.streams.lock().unwrap().push(b.clone()),
              BufferEvent::BufferRemoved(_) | BufferEvent::StreamBufferRemoved(_) => {},
            }
          }
          std::future::pending::<()>().await;
        };
        let server = async {
          while let Some(u) = uploads.recv().await {
            match u {
              DataUpload::LogsUploadIntentRequest(t) => drop(t.response_tx.send(IntentResponse { uuid: t.uuid, decision: IntentDecision::UploadImmediately })),
              DataUpload::LogsUploadRequest(t) => drop(t.response_tx.send(UploadResponse { uuid: t.uuid, success: true })),
              _ => {},
            }
          }
          std::future::pending::<()>().await;
        };
        let triggered = async {
          while let Some(t) = triggers.recv().await {
            drop(t);
          }
          std::future::pending::<()>().await;
        };
        let configs = async {
          while let Some((u, done)) = config_rx.recv().await {
            let a = config.try_apply_config(&u).await;
            let a = format!("{a:?}");
            let ok = a.contains("nack: None");
            if !ok {
              *said.lock().unwrap() = a;
            }
            let _ = done.send(ok);
          }
          std::future::pending::<()>().await;
        };
        tokio::select! {
          () = run => {},
          () = async { tokio::join!(pass, flush_stats, known, server, triggered, configs, manager.process_flushes(inner_rx)); } => {},
        }
      }));
      if let Err(e) = r {
        *panicked.lock().unwrap() = e;
      }
      drop(rt);
      let _ = over_tx.send(());
    });
  }
  let logger = logger_rx.recv().unwrap();
  let _ = platform.logger.set(logger.new_logger_handle());
  let fail = |sig: &str, d: String| {
    c.violation(sig, &format!("case {case}: limits {:?}, {} configurations, redirects {}, tiny {}, paced {}, cut {}: {d}", w.limits, w.epochs.len(), w.redirects, w.tiny, w.paced, w.cut));
  };

  // The threads.
  let main = logger.new_logger_handle();
  if w.global {
    for k in ["x3", "x4"] {
      main.add_log_field(LogField { key: k.into(), value: "G".into() });
    }
  }
  let threads = 1 + r.idx(4);
  let each = 20 + r.idx(120);
  let (done_tx, done_rx) = mpsc::channel();
  let mut current = vec![];
  for t in 0 .. threads {
    let mut ops: Vec<Op> = (0 .. each).map(|_| op(r, &w)).collect();
    if w.all_selected && t % 2 == 0 {
      for o in &mut ops {
        if let Op::Log { class, .. } = o {
          if *class == 'u' {
            *class = 'b';
          }
        }
      }
    }
    let cur = Arc::new(Mutex::new(String::new()));
    current.push(cur.clone());
    let (l, s, w, done, pool) = (logger.new_logger_handle(), s.clone(), w.clone(), done_tx.clone(), jitter.handle());
    std::thread::spawn(move || {
      let _e = delays.then(|| pool.enroll());
      let d = client(&l, &s, &w, t, &ops, &cur);
      let _ = done.send((t, d));
    });
  }
  drop(done_tx);

  // Configurations while they run.
  let total = (threads * each) as u64;
  let late = r.chance(1, 3);
  let mut marks: Vec<u64> = w.epochs.iter().map(|_| r.below(total)).collect();
  marks.sort_unstable();
  if !late {
    marks[0] = *r.pick(&[0, 0, 5]);
  }
  let wait_until = |n: u64| {
    let t = Instant::now();
    while s.sent.load(Ordering::SeqCst) < n && t.elapsed() < Duration::from_millis(25) {
      std::thread::sleep(Duration::from_micros(50));
    }
  };
  let cut_at = w.cut.then(|| r.below(total));
  let mut trigger = Some(shutdown);
  let mut cut = None;
  let stop = |t: ComponentShutdownTrigger| {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async { tokio::time::timeout(PATIENCE, t.shutdown()).await.is_ok() })
  };
  for (e, n) in marks.iter().enumerate() {
    if cut_at.is_some_and(|k| k < *n) {
      break;
    }
    wait_until(*n);
    let (tx, rx) = mpsc::channel();
    let _ = config_tx.blocking_send((w.epochs[e].proto(e, w.redirects), tx));
    match rx.recv_timeout(PATIENCE) {
      Ok(true) => {},
      x => return fail("a configuration is not applied", format!("{e}: {x:?} {:?}", why.lock().unwrap())),
    }
  }
  if let Some(n) = cut_at {
    wait_until(n);
    cut = Some(platform.now());
    if !stop(trigger.take().unwrap()) {
      return fail("shutdown does not end", current.iter().map(|c| c.lock().unwrap().clone()).collect::<Vec<_>>().join("; "));
    }
  }
  let mut did: Vec<Did> = (0 .. threads).map(|_| Did::default()).collect();
  for _ in 0 .. threads {
    match done_rx.recv_timeout(PATIENCE) {
      Ok((t, d)) => did[t] = d,
      Err(_) => return fail("a call does not return", current.iter().map(|c| c.lock().unwrap().clone()).collect::<Vec<_>>().join("; ")),
    }
  }
  let mut owned: Vec<u32> = did.iter().map(|d| d.owned).collect();
  // When all have settled, the last configuration is in force.
  let mut markers = 0;
  if cut.is_none() {
    markers = 30;
    let ops: Vec<Op> = (0 .. markers).map(|_| Op::Log { class: 'a', typ: 0, level: 2, blocking: true, hint: Hint::None, x: 0, pad: 0 }).collect();
    let (l, s, w, t) = (main, s.clone(), w.clone(), threads);
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
      let _ = tx.send(client(&l, &s, &w, t, &ops, &Mutex::default()));
    });
    match rx.recv_timeout(PATIENCE) {
      Ok(d) => did.push(d),
      Err(_) => return fail("a call does not return", "the last blocking logs".into()),
    }
    let t = Instant::now();
    while queued.get() > platform.n.load(Ordering::SeqCst) && t.elapsed() < PATIENCE {
      std::thread::sleep(Duration::from_micros(100));
    }
    if !stop(trigger.take().unwrap()) {
      return fail("shutdown does not end", "at the end".into());
    }
    owned.push(0);
  }
  if over_rx.recv_timeout(PATIENCE).is_err() {
    return fail("the loop does not end", "after the shutdown".into());
  }

  // What is left.
  let mut records: BTreeMap<String, Vec<Found>> = BTreeMap::new();
  for (id, b) in s.buffers.lock().unwrap().drain(..) {
    let list = records.entry(id.clone()).or_default();
    let mut consumer = match b.new_consumer() {
      Ok(x) => x,
      Err(e) => return fail("a buffer cannot be read", format!("{id}: {e}")),
    };
    while let Ok(data) = consumer.try_read() {
      match found(&id, &data) {
        Ok(f) => list.push(f),
        Err(e) => return fail("a record that cannot be read", format!("{id}: {e}")),
      }
    }
  }
  let mut streamed = vec![];
  for b in s.streams.lock().unwrap().drain(..) {
    let mut consumer = b.clone().register_consumer().unwrap();
    while let Ok(data) = consumer.start_read(false) {
      match found("stream", data) {
        Ok(f) => streamed.push(f),
        Err(e) => return fail("a record that cannot be read", format!("stream: {e}")),
      }
      consumer.finish_read().unwrap();
    }
  }
  let l = scope.scope("logger");
  let count = |scope: &bd_client_stats_store::Scope, op: &str, how: &str| scope.counter_with_labels(op, labels!("result" => how)).get();
  let a = l.scope("async_log_buffer");
  let losses = |op: &str| ["failure_count_overflow", "failure_size_overflow", "failure_closed"].iter().map(|h| count(&a, op, h)).sum::<u64>();
  let held = l.scope("pre_config_log_buffer");
  let level = |k: &str| l.counter_with_labels("logs_received", labels!("log_level" => k)).get();
  let x = Run {
    calls: did.iter().flat_map(|d| d.calls.clone()).collect(),
    flushes: did.iter().flat_map(|d| d.flushes.clone()).collect(),
    ticks: platform.ticks.lock().unwrap().clone(),
    wishes: s.wishes.lock().unwrap().clone(),
    stats: s.stats.lock().unwrap().clone(),
    found: records,
    streamed,
    owned,
    cut,
    sessions: sessions.0.load(Ordering::SeqCst),
    enqueued: count(&a, "log_enqueueing", "success"),
    refused: losses("log_enqueueing"),
    lost_fields: losses("field_additions") + losses("field_removals") + losses("state_flushing"),
    held_over: (count(&held, "log_enqueueing", "failure_count_overflow"), count(&held, "log_enqueueing", "failure_size_overflow")),
    levels: [level("trace"), level("debug"), level("info"), level("warn"), level("error")],
    streamed_count: l.counter("streamed_logs").get(),
    markers,
  };
  c.add("calls", x.calls.len() as u64);
  c.add("ticks", x.ticks.len() as u64);
  c.add("flush_requests", x.wishes.len() as u64);
  if cut.is_some() {
    c.count("shutdowns_while_logging");
  }
  if let Err((sig, d)) = judge(c, &w, &x) {
    fail(sig, d);
  }
  c.ensure(sessions.1.load(Ordering::SeqCst) == 0, "a session begun by the platform's callback", || format!("case {case}"));
  // How the threads' logs were interleaved.
  let order: Vec<&str> = x.found.values().flatten().map(|f| f.id.as_str()).collect();
  c.eval(Some(hash_of(&order)));
  c.sample(|| {
    format!(
      "case {case}: {threads} threads of {each} calls, limits {:?}, {} configurations; {} logs processed, {} refused, {:?} dropped while held, found {:?}, {} streamed",
      w.limits,
      w.epochs.len(),
      x.ticks.len(),
      x.refused,
      x.held_over,
      x.found.iter().map(|(k, v)| (k.as_str(), v.len())).collect::<Vec<_>>(),
      x.streamed.len()
    )
  });
}

/// What the logger says should never happen.
#[derive(Default)]
struct Reports(Mutex<Vec<String>>);
impl Reporter for Reports {
  fn report(&self, message: &str, _: &Option<String>, _: &HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {
    // The one is a call that breaks its contract, the other comes after a shutdown.
    if !message.contains("failed to override log attributes") && !message.contains("channel is closed") {
      self.0.lock().unwrap().push(message.to_string());
    }
  }
}

/// The hold alone, against a model of it.
fn hold(c: &Check, r: &mut Rng) {
  #[derive(Debug, Clone, PartialEq)]
  struct Item(usize, usize);
  impl MemorySized for Item {
    fn size(&self) -> usize {
      self.1
    }
  }
  for _ in 0 .. 2000 {
    let (most, room) = (*r.pick(&[0, 1, 2, 5, 30]), *r.pick(&[0, 1, 10, 100]));
    let mut b = PreConfigBuffer::new(most, room);
    let mut m: Vec<Item> = vec![];
    for i in 0 .. r.idx(60) {
      let x = Item(i, *r.pick(&[0, 1, 2, room / 2, room, room + 1, room / 10]));
      let want = match () {
        () if m.len() >= most => Err(HoldError::FullCountOverflow),
        () if m.iter().map(|x| x.1).sum::<usize>() + x.1 > room => Err(HoldError::FullSizeOverflow),
        () => {
          m.push(x.clone());
          Ok(())
        },
      };
      let got = b.push(x.clone());
      c.ensure(got == want, "what is held back before a configuration", || format!("{got:?} for {x:?} in ({most}, {room}) after {m:?}, expected {want:?}"));
    }
    let got: Vec<Item> = b.pop_all().collect();
    c.ensure(got == m, "what was held back", || format!("{got:?}, expected {m:?}"));
    c.count("holds_against_the_model");
  }
}

pub fn run(c: &Check) {
  let reports = Arc::new(Reports::default());
  UnexpectedErrorHandler::set_reporter(reports.clone());
  c.rule("Each case: the real logger and its pipeline, 1-4 threads of 20-140 calls (logs of all types, blocking ones among them, fields set and removed for all logs, state flushes, new sessions, logs for the previous session), 1-5 configurations that select, add and remove buffers and streams, before, between and after the calls, a platform that fails and calls back, and sometimes a shutdown in between. Every call, processing, flush and record is put on one clock and judged offline. Distinct by the order of the records.");
  c.assume("A log that is bigger than one of its buffers is not kept by that one; a workflow that redirects may do so from any log on.");
  let jitter = Jitter::start(c.seed, Duration::from_micros(60), Duration::from_micros(120));
  let limit = Duration::from_secs(c.n(14, 400));
  c.cases(c.n(1000, 50_000), limit, |i, r| {
    // Four at a time.
    let lanes: Vec<Rng> = (0 .. 4).map(|_| r.fork()).collect();
    std::thread::scope(|s| {
      for (k, mut r) in lanes.into_iter().enumerate() {
        let jitter = &jitter;
        s.spawn(move || case(c, 4 * i + k as u64, &mut r, jitter));
      }
    });
  });
  hold(c, &mut Rng::new(c.seed));
  let r = reports.0.lock().unwrap();
  c.ensure(r.is_empty(), "an unexpected error", || format!("{} of them, {:?}", r.len(), r.first()));
  c.add("delays_injected", vh::jitter::hits());
}
