//! G06: a configuration applies as a whole or not at all, and is there again at the next start.
use crate::g03::{begins, field, found, switches, Found, Idle};
use bd_api::upload::{IntentDecision, IntentResponse, UploadResponse};
use bd_api::DataUpload;
use bd_buffer::{Buffer, BufferEvent};
use bd_client_stats_store::Collector;
use bd_log_primitives::{AnnotatedLogFields, LogType};
use bd_logger::verif_driver::pipeline;
use bd_logger::{LoggerHandle, MetadataProvider};
use bd_proto::protos::bdtail::bdtail_config::{BdTailConfigurations, BdTailStream};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
use bd_proto::protos::client::api::{ApiResponse, ConfigurationUpdate};
use bd_proto::protos::config::v1::config as cv1;
use bd_proto::protos::filter::filter as fp;
use bd_proto::protos::log_matcher::log_matcher as lm;
use bd_proto::protos::workflow::workflow as wp;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use protobuf::{Message as _, MessageField};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use time::OffsetDateTime;
use vh::{hash_of, Check, Rng, Scratch};

const PATIENCE: Duration = Duration::from_secs(20);
const CLASSES: [char; 5] = ['a', 'b', 'd', 'e', 'w'];
const BUFFERS: [&str; 6] = ["c0", "c1", "c2", "t0", "t1", "t2"];

struct Platform;
impl MetadataProvider for Platform {
  fn timestamp(&self) -> anyhow::Result<OffsetDateTime> {
    Ok(OffsetDateTime::now_utc())
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    Ok(vec![])
  }
}
struct Session;
impl bd_session::fixed::Callbacks for Session {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    Ok("s".into())
  }
}

/// What makes a configuration one that cannot be applied.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
  Empty,
  Kind,
  Size,
  Place,
  Regex,
  Condition,
  Nested,
}

#[derive(Clone, Debug, Default)]
struct Plan {
  nonce: String,
  picks: BTreeMap<String, BTreeSet<char>>,
  order: Vec<String>,
  streams: Vec<(String, Option<char>)>,
  /// Parts that are left out.
  bad_streams: usize,
  bad_filters: usize,
  bad_workflows: usize,
  filter: bool,
  workflow: bool,
  /// Conditions are on a field for matching only, instead of the message.
  by_field: bool,
  fault: Option<Fault>,
}

/// As `begins`, on the field that is there for matching only.
fn tagged(c: char) -> lm::LogMatcher {
  use lm::log_matcher::base_log_matcher::{tag_match::Value_match, Match_type, Operator, StringValueMatch, TagMatch};
  let v = Value_match::StringValueMatch(StringValueMatch { operator: Operator::OPERATOR_EQUALS.into(), match_value: c.into(), ..Default::default() });
  lm::LogMatcher {
    matcher: Some(lm::log_matcher::Matcher::BaseMatcher(lm::log_matcher::BaseLogMatcher {
      match_type: Some(Match_type::TagMatch(TagMatch { tag_key: "m".into(), value_match: Some(v), ..Default::default() })),
      ..Default::default()
    })),
    ..Default::default()
  }
}

fn chosen(c: char) -> cv1::LogMatcher {
  use cv1::log_matcher::base_log_matcher::{Match_type as Base, StringMatchType, TagMatch};
  use cv1::log_matcher::{BaseLogMatcher, Match_type};
  cv1::LogMatcher {
    match_type: Some(Match_type::BaseMatcher(BaseLogMatcher {
      match_type: Some(Base::TagMatch(TagMatch { match_type: StringMatchType::EXACT.into(), tag_key: "m".into(), match_value: c.into(), ..Default::default() })),
      ..Default::default()
    })),
    ..Default::default()
  }
}

fn plan(r: &mut Rng, n: usize, faulty: bool) -> Plan {
  let mut picks = BTreeMap::new();
  let mut order: Vec<String> = vec![];
  for b in BUFFERS {
    if r.bool() {
      picks.insert(b.to_string(), CLASSES.into_iter().filter(|_| r.chance(2, 5)).collect());
      order.insert(r.idx(order.len() + 1), b.to_string());
    }
  }
  let k = if r.bool() { r.idx(3) } else { 0 };
  Plan {
    nonce: format!("n{n}"),
    picks,
    order,
    streams: (0 .. k).map(|i| (format!("n{n}-{i}"), if r.chance(1, 3) { None } else { Some(*r.pick(&CLASSES)) })).collect(),
    bad_streams: if r.chance(1, 4) { 1 + r.idx(2) } else { 0 },
    bad_filters: if r.chance(1, 4) { 1 + r.idx(3) } else { 0 },
    bad_workflows: if r.chance(1, 4) { 1 } else { 0 },
    filter: r.chance(4, 5),
    workflow: r.chance(2, 3),
    by_field: r.chance(1, 3),
    fault: faulty.then(|| *r.pick(&[Fault::Empty, Fault::Kind, Fault::Size, Fault::Place, Fault::Regex, Fault::Condition, Fault::Nested, Fault::Regex, Fault::Nested])),
  }
}

fn message(t: cv1::log_matcher::base_log_matcher::StringMatchType, v: &str) -> cv1::LogMatcher {
  use cv1::log_matcher::base_log_matcher::{Match_type as Base, MessageMatch};
  use cv1::log_matcher::{BaseLogMatcher, Match_type};
  cv1::LogMatcher {
    match_type: Some(Match_type::BaseMatcher(BaseLogMatcher {
      match_type: Some(Base::MessageMatch(MessageMatch { match_type: t.into(), match_value: v.into(), ..Default::default() })),
      ..Default::default()
    })),
    ..Default::default()
  }
}

impl Plan {
  fn proto(&self, r: &mut Rng) -> ApiResponse {
    use cv1::log_matcher::base_log_matcher::StringMatchType as T;
    let mut buffers: Vec<cv1::BufferConfig> = self
      .order
      .iter()
      .map(|id| cv1::BufferConfig {
        name: id.clone(),
        id: id.clone(),
        type_: if id.starts_with('t') { cv1::buffer_config::Type::TRIGGER } else { cv1::buffer_config::Type::CONTINUOUS }.into(),
        filters: self.picks[id]
          .iter()
          .map(|c| cv1::buffer_config::BufferFilter { id: c.to_string(), filter: Some(if self.by_field { chosen(*c) } else { message(T::PREFIX, &c.to_string()) }).into(), ..Default::default() })
          .collect(),
        buffer_sizes: Some(cv1::buffer_config::BufferSizes { volatile_buffer_size_bytes: 60_000, non_volatile_buffer_size_bytes: 300_000, ..Default::default() }).into(),
        ..Default::default()
      })
      .collect();
    let broken = lm::LogMatcher::default();
    let is = |c: char| if self.by_field { tagged(c) } else { begins(c) };
    let set = fp::filter::transform::SetField {
      name: "epoch".into(),
      value: MessageField::some(fp::filter::transform::set_field::SetFieldValue {
        value: Some(fp::filter::transform::set_field::set_field_value::Value::StringValue(self.nonce.clone())),
        ..Default::default()
      }),
      field_type: fp::filter::transform::set_field::FieldType::CAPTURED.into(),
      allow_override: true,
      ..Default::default()
    };
    let transform = fp::filter::Transform { transform_type: Some(fp::filter::transform::Transform_type::SetField(set)), ..Default::default() };
    let mut filters = vec![];
    if self.filter {
      filters.push(fp::Filter { matcher: MessageField::some(begins('.')), transforms: vec![transform.clone()], ..Default::default() });
    }
    for i in 0 .. self.bad_filters {
      // Each would be seen.
      let mut t = transform.clone();
      if let Some(fp::filter::transform::Transform_type::SetField(s)) = &mut t.transform_type {
        s.name = "wrong".into();
      }
      let f = match i {
        0 => fp::Filter { matcher: MessageField::some(broken.clone()), transforms: vec![t], ..Default::default() },
        1 => fp::Filter { matcher: MessageField::none(), transforms: vec![t], ..Default::default() },
        _ => fp::Filter { matcher: MessageField::some(begins('.')), transforms: vec![t, fp::filter::Transform::default()], ..Default::default() },
      };
      filters.insert(r.idx(filters.len() + 1), f);
    }
    let mut streams: Vec<BdTailStream> =
      self.streams.iter().map(|(id, class)| BdTailStream { stream_id: id.clone().into(), matcher: class.map(is).into(), ..Default::default() }).collect();
    for _ in 0 .. self.bad_streams {
      streams.insert(r.idx(streams.len() + 1), BdTailStream { stream_id: "bad".into(), matcher: MessageField::some(broken.clone()), ..Default::default() });
    }
    let mut workflows = vec![];
    if self.workflow {
      workflows.push(flushing(&self.nonce, is('w')));
    }
    for _ in 0 .. self.bad_workflows {
      workflows.insert(r.idx(workflows.len() + 1), flushing("wrong", broken.clone()));
    }
    let mut whole = true;
    if let Some(f) = self.fault {
      // In one of its own or one that is there anyway.
      if buffers.is_empty() || r.bool() {
        let mut b = buffers.first().cloned().unwrap_or_default();
        b.id = "x".into();
        b.name = "x".into();
        b.filters.clear();
        b.type_ = cv1::buffer_config::Type::CONTINUOUS.into();
        b.buffer_sizes = Some(cv1::buffer_config::BufferSizes { volatile_buffer_size_bytes: 60_000, non_volatile_buffer_size_bytes: 300_000, ..Default::default() }).into();
        buffers.insert(r.idx(buffers.len() + 1), b);
      }
      let at = buffers.iter().position(|b| b.id == "x").unwrap_or_else(|| r.idx(buffers.len()));
      let b = &mut buffers[at];
      let mut add = |m: cv1::LogMatcher| {
        let k = r.idx(b.filters.len() + 1);
        b.filters.insert(k, cv1::buffer_config::BufferFilter { id: "bad".into(), filter: Some(m).into(), ..Default::default() });
      };
      use cv1::log_matcher::{Match_type, MatcherList};
      match f {
        Fault::Empty => whole = false,
        Fault::Kind => b.type_ = protobuf::EnumOrUnknown::from_i32(77),
        Fault::Size => {
          b.id = "x".into();
          b.buffer_sizes = Some(cv1::buffer_config::BufferSizes { volatile_buffer_size_bytes: 60_000, non_volatile_buffer_size_bytes: 10, ..Default::default() }).into();
        },
        Fault::Place => b.id = "no/such/place".into(),
        Fault::Regex => add(message(T::REGEX, "(a")),
        Fault::Condition => add(cv1::LogMatcher::default()),
        Fault::Nested => add(cv1::LogMatcher {
          match_type: Some(Match_type::OrMatcher(MatcherList { matcher: vec![message(T::PREFIX, "a"), message(T::REGEX, "[")], ..Default::default() })),
          ..Default::default()
        }),
      }
    }
    let sotw = StateOfTheWorld {
      buffer_config_list: Some(cv1::BufferConfigList { buffer_config: buffers, ..Default::default() }).into(),
      filters_configuration: Some(fp::FiltersConfiguration { filters, ..Default::default() }).into(),
      bdtail_configuration: Some(BdTailConfigurations { active_streams: streams, ..Default::default() }).into(),
      workflows_configuration: Some(wp::WorkflowsConfiguration { workflows, ..Default::default() }).into(),
      ..Default::default()
    };
    ApiResponse {
      response_type: Some(Response_type::ConfigurationUpdate(ConfigurationUpdate {
        version_nonce: self.nonce.clone(),
        update_type: whole.then_some(Update_type::StateOfTheWorld(sotw)),
        ..Default::default()
      })),
      ..Default::default()
    }
  }
}

/// After each log it accepts, two of the trigger buffers are to be uploaded.
fn flushing(id: &str, matcher: lm::LogMatcher) -> wp::Workflow {
  use wp::workflow as wf;
  let rule = wf::rule::Rule_type::RuleLogMatch(wf::RuleLogMatch { log_matcher: MessageField::some(matcher), count: 1, ..Default::default() });
  let flush = wf::action::Action_type::ActionFlushBuffers(wf::action::ActionFlushBuffers { id: format!("f-{id}"), buffer_ids: vec!["t0".into(), "t1".into()], ..Default::default() });
  wp::Workflow {
    id: id.into(),
    states: vec![
      wf::State {
        id: "0".into(),
        transitions: vec![wf::Transition {
          target_state_id: "1".into(),
          rule: Some(wf::Rule { rule_type: Some(rule), ..Default::default() }).into(),
          actions: vec![wf::Action { action_type: Some(flush), ..Default::default() }],
          ..Default::default()
        }],
        ..Default::default()
      },
      wf::State { id: "1".into(), ..Default::default() },
    ],
    execution: Some(wf::Execution { execution_type: Some(wf::execution::Execution_type::ExecutionExclusive(Default::default())), ..Default::default() }).into(),
    ..Default::default()
  }
}

/// A log that is recorded once more, in one of the buffers that are uploaded.
#[derive(Clone, Debug)]
struct Told {
  id: String,
  to: BTreeSet<String>,
  epoch: Option<String>,
  actions: Vec<String>,
  sure: bool,
}

/// What should be the case.
#[derive(Clone, Debug, Default)]
struct Model {
  now: Option<Plan>,
  bytes: Vec<u8>,
  /// What the next start finds.
  cached: Option<(Plan, Vec<u8>)>,
  /// The logs of each buffer file, with who sees them how: (id, epoch, actions).
  holds: BTreeMap<String, Vec<(String, Option<String>, Vec<String>)>>,
  /// Logs that began an upload of buffers they are not part of.
  told: Vec<Told>,
  /// A damaged cache.
  junk: Option<Vec<u8>>,
  /// Buffers that the last change removed.
  gone: BTreeSet<String>,
  /// Waiting for the first configuration.
  waiting: Vec<(char, String)>,
  streamed: Vec<(String, Vec<String>)>,
  cache_failures: u64,
  bad_streams: u64,
  bad_filters: u64,
  /// The server's switches for workflows and filters. Workflows that were switched off are back with
  /// the next configuration.
  switched: (bool, bool),
  workflows: bool,
}

impl Model {
  /// Returns the buffers that this begins an upload of.
  fn processed(&mut self, class: char, id: &str) -> Option<BTreeSet<String>> {
    let p = self.now.as_ref()?;
    let epoch = (p.filter && self.switched.1).then(|| p.nonce.clone());
    let flushes = class == 'w' && p.workflow && self.workflows;
    let actions = if flushes { vec![format!("f-{}", p.nonce)] } else { vec![] };
    for (b, classes) in &p.picks {
      if classes.contains(&class) {
        self.holds.entry(b.clone()).or_default().push((id.to_string(), epoch.clone(), actions.clone()));
      }
    }
    let flushed: BTreeSet<String> = p.picks.keys().filter(|b| *b == "t0" || *b == "t1").cloned().collect();
    let lost = !p.picks.iter().any(|(b, classes)| classes.contains(&class) && b != "t2");
    if flushes && lost && !flushed.is_empty() {
      self.told.push(Told { id: id.to_string(), to: flushed.clone(), epoch, actions, sure: true });
    }
    let to: Vec<String> = p.streams.iter().filter(|s| s.1.is_none_or(|k| k == class)).map(|s| s.0.clone()).collect();
    if !to.is_empty() {
      self.streamed.push((id.to_string(), to));
    }
    (flushes && !flushed.is_empty()).then_some(flushed)
  }

  fn applied(&mut self, p: &Plan, bytes: Vec<u8>, written: bool) {
    self.gone.clear();
    self.workflows = self.switched.0;
    if let Some(old) = self.now.replace(p.clone()) {
      for b in old.picks.keys().filter(|b| !p.picks.contains_key(*b)) {
        self.holds.remove(b);
        self.gone.insert(b.clone());
        for t in &mut self.told {
          t.sure &= !t.to.remove(b);
        }
      }
    }
    if written {
      self.cached = Some((p.clone(), bytes.clone()));
      self.junk = None;
    } else {
      self.cache_failures += 1;
    }
    self.bytes = bytes;
    self.bad_streams += p.bad_streams as u64;
    self.bad_filters += p.bad_filters as u64;
    for (class, id) in std::mem::take(&mut self.waiting) {
      self.processed(class, &id);
    }
  }
}

#[derive(Default)]
struct Seen {
  buffers: Mutex<BTreeMap<String, Arc<Buffer>>>,
  streams: Mutex<Vec<Arc<dyn bd_buffer::buffer::RingBuffer>>>,
  events: Mutex<Vec<String>>,
  /// What is to be uploaded.
  uploads: Mutex<Vec<BTreeSet<String>>>,
}

type Judged = Result<(), (&'static str, String)>;

fn bad(sig: &'static str, d: String) -> Judged {
  Err((sig, d))
}

struct Life<'a> {
  c: &'a Check,
  dir: &'a Path,
  logger: bd_logger::Logger,
  scope: bd_client_stats_store::Scope,
  seen: Arc<Seen>,
  n: usize,
  /// Whether the server wants what is offered.
  wants: bool,
}

impl Life<'_> {
  /// A call of the application.
  async fn call(&self, f: impl FnOnce(&LoggerHandle) + Send + 'static) -> Judged {
    let l = self.logger.new_logger_handle();
    match tokio::time::timeout(PATIENCE, tokio::task::spawn_blocking(move || f(&l))).await {
      Ok(Ok(())) => Ok(()),
      Ok(Err(e)) => bad("a call that panics", format!("{e}")),
      Err(_) => bad("a call that does not return", String::new()),
    }
  }

  async fn log(&self, class: char, id: String, blocking: bool) -> Judged {
    self.call(move |l| l.log(2, LogType::Normal, format!("{class} message").as_str().into(), vec![field("id", &id, false)], vec![field("m", &class.to_string(), false)], None, blocking)).await
  }

  /// Waits until nothing is on its way to the pipeline, or a new configuration is in force there.
  async fn idle(&self, update: bool) -> Judged {
    if update {
      for _ in 0 .. 50 {
        tokio::task::yield_now().await;
      }
    }
    self.call(|l| l.flush_state(true)).await
  }

  fn files(&self) -> BTreeSet<String> {
    std::fs::read_dir(self.dir.join("buffers")).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()
  }

  /// Everything that can be seen without asking the pipeline.
  async fn look(&self, m: &Model, config: &dyn bd_api::ConfigurationUpdate) -> Judged {
    let nonce = config.partial_handshake().configuration_version_nonce;
    let want = m.now.as_ref().map(|p| p.nonce.clone()).unwrap_or_default();
    if nonce != want {
      return bad("the version named at the next connection", format!("{nonce:?}, expected {want:?}"));
    }
    let file = std::fs::read(self.dir.join("config.pb")).ok();
    if file.as_ref() != m.cached.as_ref().map(|c| &c.1).or(m.junk.as_ref()) {
      let version = |b: &[u8]| ConfigurationUpdate::parse_from_bytes(b).map(|u| u.version_nonce).unwrap_or_default();
      return bad("the configuration that is cached", format!("{:?}, expected {:?}", file.map(|f| version(&f)), m.cached.as_ref().map(|c| &c.0.nonce)));
    }
    let have: BTreeSet<String> = self.seen.buffers.lock().unwrap().keys().cloned().collect();
    let want: BTreeSet<String> = m.now.iter().flat_map(|p| p.picks.keys().cloned()).collect();
    if have != want {
      return bad("the buffers there are", format!("{have:?}, expected {want:?}"));
    }
    let streaming = self.seen.streams.lock().unwrap().len();
    let want = usize::from(m.now.as_ref().is_some_and(|p| p.streams.len() + p.bad_streams > 0));
    if streaming != want {
      return bad("the buffer for streams", format!("{streaming}, expected {want}"));
    }
    // Files go when the last user of the buffer has gone.
    let t = Instant::now();
    loop {
      let files = self.files();
      let missing: Vec<&String> = m.now.iter().flat_map(|p| p.picks.keys()).filter(|b| !files.contains(*b)).collect();
      let left: Vec<&String> = files.iter().filter(|f| m.gone.contains(*f)).collect();
      if missing.is_empty() && left.is_empty() {
        return Ok(());
      }
      if t.elapsed() > PATIENCE {
        return bad("the files of the buffers", format!("missing {missing:?}, left {left:?}"));
      }
      tokio::time::sleep(Duration::from_millis(1)).await;
    }
  }

  fn counters(&self, m: &Model) -> Judged {
    let have = (
      self.scope.scope("config").counter("cache_failure").get(),
      self.scope.counter("stream_config_parse_failure").get(),
      self.scope.counter("filter_config_parse_failure").get(),
    );
    let want = (m.cache_failures, m.bad_streams, m.bad_filters);
    if have != want {
      return bad("the counts of what was left out", format!("{have:?}, expected {want:?}"));
    }
    Ok(())
  }

  /// Reads every buffer empty.
  async fn read(&self, m: &mut Model) -> Judged {
    if m.now.is_none() {
      return Ok(());
    }
    self.call(|l| l.flush_state(true)).await?;
    let buffers: Vec<(String, Arc<Buffer>)> = self.seen.buffers.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let read: BTreeSet<String> = buffers.iter().map(|b| b.0.clone()).collect();
    for (id, b) in buffers {
      let got = tokio::task::spawn_blocking({
        let id = id.clone();
        move || -> Result<Vec<Found>, String> {
          let mut consumer = b.new_consumer().map_err(|e| e.to_string())?;
          let mut list = vec![];
          while let Ok(data) = consumer.try_read() {
            list.push(found(&id, &data)?);
          }
          Ok(list)
        }
      });
      let got = match tokio::time::timeout(PATIENCE, got).await {
        Ok(Ok(Ok(g))) => g,
        x => return bad("a buffer cannot be read", format!("{id}: {x:?}")),
      };
      let want = m.holds.insert(id.clone(), vec![]).unwrap_or_default();
      if let Some(f) = got.iter().find(|f| f.fields.contains_key("wrong")) {
        return bad("a filter that should be left out", format!("{f:?}"));
      }
      if let Some(f) = got.iter().find(|f| f.fields.contains_key("m")) {
        return bad("a field for matching only that is recorded", format!("{f:?}"));
      }
      for f in got.iter().filter(|f| f.typ != LogType::Normal.0) {
        // What is written so that the flush is known of.
        let known = m.told.iter().position(|t| t.id == f.id && t.to.contains(&id) && t.actions == f.actions && f.fields.get("epoch") == t.epoch.as_ref());
        match known {
          Some(k) if f.typ == LogType::InternalSDK.0 && f.message == "w message" => drop(m.told.remove(k)),
          _ => return bad("a log that nobody made", format!("{id}: {f:?}, expected {:?}", m.told)),
        }
        self.c.count("uploads_told_of");
      }
      let got: Vec<_> = got.into_iter().filter(|f| f.typ == LogType::Normal.0).map(|f| (f.id.clone(), f.fields.get("epoch").cloned(), f.actions)).collect();
      if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or_else(|| got.len().min(want.len()));
        return bad("what a buffer holds", format!("{id}: {} logs, expected {}, at {i}: {:?}, expected {:?}", got.len(), want.len(), got.get(i), want.get(i)));
      }
      self.c.add("logs_read", got.len() as u64);
    }
    for t in &mut m.told {
      t.to.retain(|b| !read.contains(b));
      if t.to.is_empty() && t.sure {
        return bad("an upload that does not tell what began it", format!("{t:?}"));
      }
    }
    m.told.retain(|t| !t.to.is_empty());
    Ok(())
  }

  fn read_streams(&self, m: &mut Model) -> Judged {
    let mut got = vec![];
    for b in self.seen.streams.lock().unwrap().iter() {
      let mut consumer = b.clone().register_consumer().map_err(|e| ("a buffer cannot be read", format!("stream: {e}")))?;
      while let Ok(data) = consumer.start_read(false) {
        let f = found("stream", data).map_err(|e| ("a buffer cannot be read", format!("stream: {e}")))?;
        got.push((f.id, f.streams));
        consumer.finish_read().unwrap();
      }
    }
    let want = std::mem::take(&mut m.streamed);
    if got != want {
      return bad("what is streamed", format!("{got:?}, expected {want:?}"));
    }
    self.c.add("streamed", want.len() as u64);
    Ok(())
  }

  async fn probe(&mut self, m: &mut Model, r: &mut Rng) -> Judged {
    for _ in 0 .. 1 + r.idx(6) {
      self.n += 1;
      let (class, id) = (*r.pick(&CLASSES), format!("l{}", self.n));
      let settled = m.now.is_some();
      let mut begun = None;
      if settled {
        begun = m.processed(class, &id);
      } else {
        m.waiting.push((class, id.clone()));
      }
      let before = self.seen.uploads.lock().unwrap().len();
      self.log(class, id, settled).await?;
      if let Some(b) = begun {
        let t = Instant::now();
        while self.wants && !self.seen.uploads.lock().unwrap()[before ..].contains(&b) {
          if t.elapsed() > PATIENCE {
            return bad("an upload that does not begin", format!("of {b:?} after l{}", self.n));
          }
          tokio::time::sleep(Duration::from_millis(1)).await;
        }
        self.c.count(if self.wants { "uploads_begun" } else { "uploads_not_wanted" });
      }
    }
    Ok(())
  }
}

/// One life of the process.
async fn life(c: &Check, dir: &Path, m: &mut Model, r: &mut Rng, n: &mut usize, plans: &mut usize, story: &mut Vec<String>) -> Judged {
  let loader = ConfigLoader::new(dir);
  let switch = |w: bool, f: bool| switches(&loader, &[("buffers.stream_buffer_size_bytes", 1_000_000)], &[("workflows.enabled", w), ("filter_chain.enabled", f)]);
  m.switched = (r.chance(5, 6), r.chance(5, 6));
  m.workflows = false;
  switch(m.switched.0, m.switched.1);
  let collector = Collector::default();
  let scope = collector.scope("");
  let store = vstore::Mem::new(r.u64()).store();
  let session = Arc::new(bd_session::Strategy::Fixed(bd_session::fixed::Strategy::new(store.clone(), Arc::new(Session))));
  let shutdown = ComponentShutdownTrigger::default();
  let targets = (Box::new(Idle) as Box<_>, Box::new(Idle) as Box<_>, Box::new(Idle) as Box<_>);
  let p = pipeline::build(dir, &loader, &scope, (512, 1 << 20), session, Arc::new(Platform), store, targets, shutdown.make_handle()).map_err(|e| ("a start that fails", e.to_string()))?;
  let pipeline::Parts { logger, mut config, manager, mut events, flushes, mut triggers, mut uploads, mut stats, run } = p;
  let seen = Arc::new(Seen::default());
  let watch = async {
    while let Some(e) = events.recv().await {
      match &e.event {
        BufferEvent::ContinuousBufferCreated(id, b) | BufferEvent::TriggerBufferCreated(id, b) => {
          seen.events.lock().unwrap().push(format!("+{id}"));
          seen.buffers.lock().unwrap().insert(id.clone(), b.clone());
        },
        BufferEvent::BufferRemoved(id) => {
          seen.events.lock().unwrap().push(format!("-{id}"));
          drop(seen.buffers.lock().unwrap().remove(id));
        },
        BufferEvent::StreamBufferAdded(b) => seen.streams.lock().unwrap().push(b.clone()),
        BufferEvent::StreamBufferRemoved(_) => drop(seen.streams.lock().unwrap().pop()),
      }
    }
    std::future::pending::<()>().await;
  };
  let wants = r.bool();
  let server = async {
    while let Some(u) = uploads.recv().await {
      match u {
        DataUpload::LogsUploadIntentRequest(t) => drop(t.response_tx.send(IntentResponse { uuid: t.uuid, decision: if wants { IntentDecision::UploadImmediately } else { IntentDecision::Drop } })),
        DataUpload::LogsUploadRequest(t) => drop(t.response_tx.send(UploadResponse { uuid: t.uuid, success: true })),
        _ => {},
      }
    }
    std::future::pending::<()>().await;
  };
  let rest = async {
    tokio::join!(async { while let Some(t) = triggers.recv().await { seen.uploads.lock().unwrap().push(t.buffer_ids.iter().cloned().collect()) } }, async { while let Some(t) = stats.recv().await { drop(t.map(|t| t.send(()))) } }, manager.process_flushes(flushes));
    std::future::pending::<()>().await;
  };
  let mut l = Life { c, dir, logger, scope: scope.clone(), seen: seen.clone(), n: *n, wants };
  m.now = None;
  m.gone.clear();
  m.waiting.clear();
  m.streamed.clear();
  (m.cache_failures, m.bad_streams, m.bad_filters) = (0, 0, 0);
  let script = async {
    let temp = dir.join("config.tmp");
    if r.chance(1, 4) {
      l.probe(m, r).await?;
    }
    // The cache.
    let mut writable = !temp.is_dir();
    if r.chance(9, 10) {
      story.push("start from the cache".into());
      l.idle(false).await?;
      config.try_load_persisted_config().await;
      l.idle(true).await?;
      m.junk = None;
      if let Some((p, bytes)) = m.cached.take() {
        m.applied(&p, bytes, writable);
        c.count("started_from_the_cache");
      } else if dir.join("config.pb").exists() {
        return bad("an unusable cache that stays", String::new());
      }
      l.look(m, config.as_ref()).await?;
      l.counters(m)?;
      l.read_streams(m)?;
    }
    for _ in 0 .. 2 + r.idx(8) {
      match r.below(11) {
        10 => {
          l.idle(false).await?;
          if r.bool() {
            m.switched.0 ^= true;
          } else {
            m.switched.1 ^= true;
          }
          story.push(format!("workflows, filters: {:?}", m.switched));
          switch(m.switched.0, m.switched.1);
          m.workflows &= m.switched.0;
          l.idle(true).await?;
          c.count("switched");
        },
        0 ..= 5 => {
          *plans += 1;
          let faulty = r.chance(2, 5);
          let p = plan(r, *plans, faulty);
          let u = p.proto(r);
          story.push(format!("{p:?}"));
          let told = seen.events.lock().unwrap().len();
          l.idle(false).await?;
          let a = match tokio::time::timeout(PATIENCE, config.try_apply_config(&u)).await {
            Ok(a) => a,
            Err(_) => return bad("an update that does not end", format!("{p:?}")),
          };
          let Some(Request_type::ConfigurationUpdateAck(a)) = a.and_then(|a| a.request_type) else {
            return bad("an update without an answer", format!("{p:?}"));
          };
          match (a.nack.as_ref(), p.fault) {
            (None, None) => {
              if a.last_applied_version_nonce != p.nonce {
                return bad("the answer to an update", format!("{a:?} to {p:?}"));
              }
              let Some(Response_type::ConfigurationUpdate(u)) = &u.response_type else { unreachable!() };
              m.applied(&p, u.write_to_bytes().unwrap(), writable);
              c.count("applied");
            },
            (Some(n), Some(f)) => {
              if n.version_nonce != p.nonce || n.error_details.is_empty() {
                return bad("the answer to an update", format!("{a:?} to {p:?}"));
              }
              // Its files may stay.
              m.gone.retain(|b| !p.picks.contains_key(b));
              let told = seen.events.lock().unwrap().split_off(told);
              if !told.is_empty() {
                return bad("a refused configuration that changes buffers", format!("{told:?} with {p:?}"));
              }
              c.count(&format!("refused_{f:?}"));
            },
            _ => return bad("whether a configuration is refused", format!("{a:?} to {p:?}")),
          }
          l.idle(true).await?;
          l.look(m, config.as_ref()).await?;
          l.counters(m)?;
          if r.chance(2, 3) {
            l.probe(m, r).await?;
          }
        },
        6 ..= 7 => {
          story.push("logs".into());
          l.probe(m, r).await?;
          l.read_streams(m)?;
        },
        8 => {
          story.push("read".into());
          l.read(m).await?;
        },
        _ => {
          story.push(format!("writable {}", !writable));
          if writable {
            std::fs::create_dir(&temp).unwrap();
          } else {
            std::fs::remove_dir(&temp).unwrap();
          }
          writable ^= true;
        },
      }
      if m.now.is_some() {
        l.read_streams(m)?;
      }
    }
    if m.now.is_some() {
      l.call(|l| l.flush_state(true)).await?;
    }
    if r.bool() {
      l.read(m).await?;
    }
    *n = l.n;
    Ok(())
  };
  let end = tokio::select! {
    e = script => e,
    () = run => bad("the pipeline ends", String::new()),
    () = async { tokio::join!(watch, server, rest); } => unreachable!(),
  };
  end?;
  seen.buffers.lock().unwrap().clear();
  drop((config, manager, l));
  shutdown.shutdown().await;
  Ok(())
}

fn case(c: &Check, case: u64, r: &mut Rng) {
  let dir = Scratch::new();
  let mut m = Model::default();
  let (mut n, mut plans) = (0, 0);
  let mut all: Vec<Vec<String>> = vec![];
  for k in 0 .. 1 + r.idx(5) {
    let mut story = vec![];
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let got = vh::no_panic(|| rt.block_on(life(c, dir.path(), &mut m, r, &mut n, &mut plans, &mut story)));
    rt.shutdown_timeout(Duration::from_secs(2));
    all.push(story);
    let e = match got {
      Ok(Ok(())) => None,
      Ok(Err((sig, d))) => Some((sig, d)),
      Err(e) => Some(("a panic", e)),
    };
    if let Some((sig, d)) = e {
      c.violation(sig, &format!("case {case}, life {k}: {d}\n{all:#?}"));
      return;
    }
    c.count("lives");
    // What becomes of the cache while nobody is there.
    let cache = dir.path().join("config.pb");
    match r.below(8) {
      0 => {
        let _ = std::fs::remove_file(&cache);
        m.cached = None;
        m.junk = None;
      },
      1 if cache.exists() => {
        let b = r.bytes(40);
        if ConfigurationUpdate::parse_from_bytes(&b).is_err() {
          std::fs::write(&cache, &b).unwrap();
          m.cached = None;
          m.junk = Some(b);
          c.count("caches_damaged");
        }
      },
      2 if m.cached.is_some() => {
        let b = &m.cached.as_ref().unwrap().1;
        let b = b[.. r.idx(b.len())].to_vec();
        if ConfigurationUpdate::parse_from_bytes(&b).is_err() {
          std::fs::write(&cache, &b).unwrap();
          m.cached = None;
          m.junk = Some(b);
          c.count("caches_damaged");
        }
      },
      _ => {},
    }
  }
  c.eval(Some(hash_of(&all)));
  c.sample(|| format!("case {case}: {} lives, {plans} configurations, {n} logs", all.len()));
}

pub fn run(c: &Check) {
  c.rule("Each case: 1-5 lives of the real configuration code, buffer manager and log pipeline over one directory, each with 2-9 steps: configurations with any of 6 buffers, streams, filters and workflows, of which two in five have a fault that makes them impossible to apply, logs, reads of all buffers, and a cache that cannot be written; between lives the cache may be lost or damaged. After each step the answer, the version for the handshake, the cached file, the buffers and their files, the counters and the records are compared with a model. Distinct by the steps.");
  c.assume("The file of a buffer that only a refused configuration named may stay (a known limit, noted in the code); buffers keep their kind and sizes.");
  let limit = Duration::from_secs(c.n(14, 300));
  c.cases(c.n(400, 20_000), limit, |i, r| {
    let lanes: Vec<Rng> = (0 .. 4).map(|_| r.fork()).collect();
    std::thread::scope(|s| {
      for (k, mut r) in lanes.into_iter().enumerate() {
        s.spawn(move || case(c, 4 * i + k as u64, &mut r));
      }
    });
  });
}
