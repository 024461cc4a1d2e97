//! Workflows by the book: configurations, the form the server sends them in, and what every log should make of them.
use crate::cond::Cond;
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::Operator;
use bd_proto::protos::workflow::workflow as pb;
use pb::workflow as wf;
use protobuf::MessageField;
use sha2::Digest;
use std::collections::{BTreeMap, BTreeSet};
use vh::Rng;

pub const MSGS: [&str; 5] = ["a", "b", "c", "d", "e"];
pub const KEYS: [&str; 4] = ["k0", "k1", "n", "h"];
pub const TRIGGERS: [&str; 3] = ["t0", "t1", "t2"];
pub const CONTINUOUS: [&str; 3] = ["c0", "c1", "c2"];

pub fn set(v: &[&str]) -> BTreeSet<String> {
  v.iter().map(|s| (*s).to_string()).collect()
}

pub fn subset(r: &mut Rng, v: &[&str], num: u64, den: u64) -> BTreeSet<String> {
  v.iter().filter(|_| r.chance(num, den)).map(|s| (*s).to_string()).collect()
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum From {
  Fixed(String),
  Field(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum When {
  Msg(usize),
  Has(String, String),
  Any(Vec<When>),
  All(Vec<When>),
  Not(Box<When>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rule {
  Log(When, u32),
  Timeout(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Flush {
  pub id: String,
  pub bufs: BTreeSet<String>,
  /// Destinations, and how many logs at most by each criterion.
  pub stream: Option<(BTreeSet<String>, Vec<u64>)>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Metric {
  pub id: String,
  pub tags: BTreeMap<String, From>,
  pub value: Result<u32, String>,
  pub histogram: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sankey {
  pub id: String,
  pub limit: u32,
  pub tags: BTreeMap<String, From>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
  Flush(Flush),
  Metric(Metric),
  Sankey(Sankey),
  Shot(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ext {
  pub id: String,
  pub value: From,
  pub counts: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tr {
  pub to: usize,
  pub rule: Rule,
  pub acts: Vec<Act>,
  pub exts: Vec<Ext>,
}

/// What is wrong with a definition that no client should accept.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
  Target,
  NoRule,
  NoRuleType,
  NoStates,
  NoExecution,
  NoExecutionType,
  ZeroCount,
  ZeroDuration,
  NoAction,
  ZeroStream,
  NoMetricType,
  NoMetricValue,
  LooseExt,
  NoMatcher,
}
const BADS: [Bad; 14] = [
  Bad::Target, Bad::NoRule, Bad::NoRuleType, Bad::NoStates, Bad::NoExecution, Bad::NoExecutionType, Bad::ZeroCount, Bad::ZeroDuration, Bad::NoAction,
  Bad::ZeroStream, Bad::NoMetricType, Bad::NoMetricValue, Bad::LooseExt, Bad::NoMatcher,
];

#[derive(Clone, Debug, PartialEq)]
pub struct Wf {
  pub id: String,
  pub exclusive: bool,
  pub most_matches: Option<u32>,
  pub most_ms: Option<u64>,
  pub states: Vec<Vec<Tr>>,
  pub bad: Option<Bad>,
}

#[derive(Clone, Debug)]
pub struct L {
  pub msg: usize,
  pub level: u32,
  pub kind: u32,
  pub fields: Vec<(String, String)>,
  pub hidden: Vec<(String, String)>,
  pub session: String,
  pub at_ms: i64,
}

impl L {
  pub fn field(&self, k: &str) -> Option<String> {
    match k {
      "log_level" => Some(self.level.to_string()),
      "log_type" => Some(self.kind.to_string()),
      _ => self.fields.iter().chain(&self.hidden).find(|f| f.0 == k).map(|f| f.1.clone()),
    }
  }
  fn get(&self, f: &From) -> Option<String> {
    match f {
      From::Fixed(v) => Some(v.clone()),
      From::Field(k) => self.field(k),
    }
  }
}

impl When {
  fn gen(r: &mut Rng, depth: u64) -> Self {
    match r.below(if depth == 0 { 7 } else { 10 }) {
      0 ..= 4 => Self::Msg(r.idx(MSGS.len())),
      5 | 6 => Self::Has(KEYS[r.idx(2)].into(), r.below(3).to_string()),
      7 => Self::Any((0 .. 1 + r.below(3)).map(|_| Self::gen(r, depth - 1)).collect()),
      8 => Self::All((0 .. 1 + r.below(2)).map(|_| Self::gen(r, depth - 1)).collect()),
      _ => Self::Not(Box::new(Self::gen(r, depth - 1))),
    }
  }
  fn cond(&self) -> Cond {
    let eq = Operator::OPERATOR_EQUALS as i32;
    match self {
      Self::Msg(i) => Cond::Message(eq, MSGS[*i].into()),
      Self::Has(k, v) => Cond::Text(k.clone(), eq, v.clone()),
      Self::Any(v) => Cond::Or(v.iter().map(Self::cond).collect()),
      Self::All(v) => Cond::And(v.iter().map(Self::cond).collect()),
      Self::Not(w) => Cond::Not(Box::new(w.cond())),
    }
  }
  fn holds(&self, l: &L) -> bool {
    match self {
      Self::Msg(i) => l.msg == *i,
      Self::Has(k, v) => l.field(k).is_some_and(|x| x == *v),
      Self::Any(v) => v.iter().any(|w| w.holds(l)),
      Self::All(v) => v.iter().all(|w| w.holds(l)),
      Self::Not(w) => !w.holds(l),
    }
  }
}

// ---------------------------------------------------------------------------------------------
// Made up

/// The flush actions configurations of one case pick from.
pub fn flushes(r: &mut Rng) -> Vec<Flush> {
  (0 .. 5)
    .map(|i| Flush {
      id: format!("f{i}"),
      bufs: if r.chance(1, 5) { BTreeSet::new() } else { subset(r, &["t0", "t1", "t2", "t9"], 1, 2) },
      stream: r.bool().then(|| {
        let to = if r.chance(1, 4) { BTreeSet::new() } else { subset(r, &["c0", "c1", "c2", "c9"], 1, 2) };
        (to, (0 .. r.below(3)).map(|_| 1 + r.below(6)).collect())
      }),
    })
    .collect()
}

fn tags(r: &mut Rng) -> BTreeMap<String, From> {
  let mut t = BTreeMap::new();
  for _ in 0 .. r.below(3) {
    let k = (*r.pick(&["x", "y", "_id"])).to_string();
    let v = match r.below(5) {
      0 => From::Fixed(r.below(3).to_string()),
      1 => From::Field("log_level".into()),
      2 => From::Field("log_type".into()),
      _ => From::Field((*r.pick(&KEYS)).into()),
    };
    t.insert(k, v);
  }
  t
}

pub fn metrics(r: &mut Rng) -> Vec<Metric> {
  (0 .. 5)
    .map(|i| Metric {
      id: format!("m{}", i % 4),
      tags: tags(r),
      value: match r.below(4) {
        0 => Err("n".into()),
        1 => Err((*r.pick(&["k0", "h", "log_level", "log_type"])).into()),
        2 => Ok(r.below(5) as u32),
        _ => Ok(1),
      },
      histogram: r.chance(1, 4),
    })
    .collect()
}

pub struct Pool {
  pub flushes: Vec<Flush>,
  pub metrics: Vec<Metric>,
}

impl Pool {
  pub fn new(r: &mut Rng) -> Self {
    Self { flushes: flushes(r), metrics: metrics(r) }
  }

  /// One with many logs streamed, and by several actions at a time.
  pub fn streaming(r: &mut Rng) -> Self {
    let mut p = Self::new(r);
    for f in &mut p.flushes {
      f.bufs = if r.chance(1, 5) { BTreeSet::new() } else { subset(r, &["t0", "t1"], 1, 2) };
      f.stream = Some((subset(r, &["c0", "c1", "c2"], 1, 2), (0 .. r.below(3)).map(|_| 2 + r.below(12)).collect()));
    }
    p
  }
}

pub fn workflow(r: &mut Rng, id: &str, pool: &Pool) -> Wf {
  let n = 1 + r.idx(5);
  let sankeys: Vec<Sankey> = (0 .. r.below(3)).map(|i| Sankey { id: format!("{}s{i}", if r.bool() { "" } else { id }), limit: r.below(4) as u32, tags: tags(r) }).collect();
  let loops = r.chance(1, 3);
  let mut states: Vec<Vec<Tr>> = vec![];
  for i in 0 .. n {
    let last = i + 1 == n;
    let k = if last && n > 1 && !r.chance(1, 6) { 0 } else { 1 + [0, 0, 0, 1, 1, 2][r.idx(6)] };
    states.push(
      (0 .. if i == 0 && r.chance(1, 30) { 0 } else { k })
        .map(|_| {
          let to = if loops && r.chance(1, 3) {
            r.idx(n)
          } else if r.chance(4, 5) {
            (i + 1).min(n - 1)
          } else {
            i + r.idx(n - i)
          };
          let mut acts = vec![];
          for _ in 0 .. [0, 1, 1, 1, 2, 3][r.idx(6)] {
            acts.push(match r.below(10) {
              0 ..= 2 => Act::Flush(r.pick(&pool.flushes).clone()),
              3 ..= 5 => Act::Metric(r.pick(&pool.metrics).clone()),
              6 | 7 if !sankeys.is_empty() => Act::Sankey(r.pick(&sankeys).clone()),
              6 | 7 => Act::Metric(r.pick(&pool.metrics).clone()),
              _ => Act::Shot(format!("p{}", r.below(2))),
            });
          }
          Tr {
            to,
            rule: if r.chance(1, 25) {
              Rule::Timeout(r.below(3))
            } else {
              let d = r.below(3);
              Rule::Log(When::gen(r, d), if r.chance(1, 40) { 0 } else { 1 + [0, 0, 0, 0, 1, 1, 2][r.idx(7)] as u32 })
            },
            acts,
            exts: vec![],
          }
        })
        .collect(),
    );
  }
  // Values are only extracted for diagrams that are emitted somewhere.
  let emitted: Vec<String> = states
    .iter()
    .flatten()
    .flat_map(|t| &t.acts)
    .filter_map(|a| if let Act::Sankey(s) = a { Some(s.id.clone()) } else { None })
    .collect();
  if !emitted.is_empty() {
    for t in states.iter_mut().flatten() {
      for _ in 0 .. r.below(3) {
        t.exts.push(Ext {
          id: r.pick(&emitted).clone(),
          value: match r.below(6) {
            0 => From::Fixed((*r.pick(&["", "x", "yy"])).into()),
            1 => From::Field("log_level".into()),
            _ => From::Field((*r.pick(&KEYS)).into()),
          },
          counts: r.chance(2, 3),
        });
      }
    }
  }
  Wf {
    id: id.into(),
    exclusive: r.chance(3, 5),
    most_matches: r.chance(1, 4).then(|| 1 + r.below(8) as u32),
    most_ms: r.chance(1, 4).then(|| 1 + r.below(8) * 500),
    states,
    bad: r.chance(1, 40).then(|| *r.pick(&BADS)),
  }
}

/// Another version of the same workflow.
pub fn changed(r: &mut Rng, w: &Wf, pool: &Pool) -> Wf {
  let mut n = w.clone();
  n.bad = None;
  match r.below(6) {
    0 => n.exclusive = !n.exclusive,
    1 => n.most_matches = Some(n.most_matches.unwrap_or(3) + 1),
    2 => n.most_ms = Some(n.most_ms.unwrap_or(1000) + 500),
    3 => {
      n.states.last_mut().unwrap().push(Tr { to: 0, rule: Rule::Log(When::Msg(r.idx(MSGS.len())), 1), acts: vec![], exts: vec![] });
    },
    4 => {
      let i = r.idx(n.states.len());
      if n.states[i].pop().is_none() {
        n.states.push(vec![]);
      }
      // Nothing may be extracted for diagrams that are gone.
      for t in n.states.iter_mut().flatten() {
        t.exts.clear();
      }
    },
    _ => n = workflow(r, &w.id, pool),
  }
  n
}

pub fn log(r: &mut Rng, sessions: u64, at_ms: i64) -> L {
  let some = |r: &mut Rng, num| {
    let mut v = vec![];
    for k in KEYS {
      if r.chance(num, 6) {
        let x = match k {
          "n" => (*r.pick(&["0", "3", "2.9", "-4", "x", "", "1e2", "18446744073709551616"])).to_string(),
          _ => r.below(3).to_string(),
        };
        v.push((k.to_string(), x));
      }
    }
    v
  };
  L {
    msg: r.idx(MSGS.len()),
    level: r.below(5) as u32,
    kind: r.below(3) as u32,
    fields: some(r, 4),
    hidden: some(r, 1),
    session: format!("s{}", r.below(sessions)),
    at_ms,
  }
}

// ---------------------------------------------------------------------------------------------
// As sent by the server

fn extracted(k: &str) -> wf::FieldExtracted {
  wf::FieldExtracted {
    field_name: k.into(),
    extraction_type: Some(wf::field_extracted::Extraction_type::Exact(Default::default())),
    ..Default::default()
  }
}

fn tag_protos(t: &BTreeMap<String, From>) -> Vec<wf::action::Tag> {
  t.iter()
    .map(|(k, v)| wf::action::Tag {
      name: k.clone(),
      tag_type: Some(match v {
        From::Fixed(v) => wf::action::tag::Tag_type::FixedValue(v.clone()),
        From::Field(k) => wf::action::tag::Tag_type::FieldExtracted(extracted(k)),
      }),
      ..Default::default()
    })
    .collect()
}

impl Act {
  fn proto(&self) -> wf::Action {
    use wf::action::action_emit_metric::{Metric_type, Value_extractor_type};
    use wf::action::action_flush_buffers::streaming::termination_criterion::{LogsCount, Type};
    use wf::action::action_flush_buffers::streaming::TerminationCriterion;
    use wf::action::action_flush_buffers::Streaming;
    use wf::action::{ActionEmitMetric, ActionEmitSankeyDiagram, ActionFlushBuffers, ActionTakeScreenshot, Action_type};
    let t = match self {
      Self::Flush(f) => Action_type::ActionFlushBuffers(ActionFlushBuffers {
        id: f.id.clone(),
        buffer_ids: f.bufs.iter().cloned().collect(),
        streaming: f.stream.as_ref().map_or(MessageField::none(), |(to, most)| {
          MessageField::some(Streaming {
            destination_streaming_buffer_ids: to.iter().cloned().collect(),
            termination_criteria: most
              .iter()
              .map(|n| TerminationCriterion { type_: Some(Type::LogsCount(LogsCount { max_logs_count: *n, ..Default::default() })), ..Default::default() })
              .collect(),
            ..Default::default()
          })
        }),
        ..Default::default()
      }),
      Self::Metric(m) => Action_type::ActionEmitMetric(ActionEmitMetric {
        id: m.id.clone(),
        tags: tag_protos(&m.tags),
        metric_type: Some(if m.histogram { Metric_type::Histogram(Default::default()) } else { Metric_type::Counter(Default::default()) }),
        value_extractor_type: Some(match &m.value {
          Ok(n) => Value_extractor_type::Fixed(*n),
          Err(k) => Value_extractor_type::FieldExtracted(extracted(k)),
        }),
        ..Default::default()
      }),
      Self::Sankey(s) => {
        Action_type::ActionEmitSankeyDiagram(ActionEmitSankeyDiagram { id: s.id.clone(), limit: s.limit, tags: tag_protos(&s.tags), ..Default::default() })
      },
      Self::Shot(id) => Action_type::ActionTakeScreenshot(ActionTakeScreenshot { id: id.clone(), ..Default::default() }),
    };
    wf::Action { action_type: Some(t), ..Default::default() }
  }
}

impl Wf {
  pub fn proto(&self) -> pb::Workflow {
    use wf::execution::Execution_type;
    use wf::rule::Rule_type;
    use wf::transition_extension::sankey_diagram_value_extraction::Value_type;
    use wf::transition_extension::{Extension_type, SankeyDiagramValueExtraction};
    let ext = |e: &Ext| wf::TransitionExtension {
      extension_type: Some(Extension_type::SankeyDiagramValueExtraction(SankeyDiagramValueExtraction {
        sankey_diagram_id: e.id.clone(),
        counts_toward_sankey_extraction_limit: e.counts,
        value_type: Some(match &e.value {
          From::Fixed(v) => Value_type::Fixed(v.clone()),
          From::Field(k) => Value_type::FieldExtracted(extracted(k)),
        }),
        ..Default::default()
      })),
      ..Default::default()
    };
    let rule = |x: &Rule| wf::Rule {
      rule_type: Some(match x {
        Rule::Log(w, n) => Rule_type::RuleLogMatch(wf::RuleLogMatch { log_matcher: MessageField::some(w.cond().proto()), count: *n, ..Default::default() }),
        Rule::Timeout(ms) => Rule_type::RuleTimeout(wf::RuleTimeout { duration_ms: *ms, ..Default::default() }),
      }),
      ..Default::default()
    };
    let mut p = pb::Workflow {
      id: self.id.clone(),
      states: self
        .states
        .iter()
        .enumerate()
        .map(|(i, ts)| wf::State {
          id: format!("S{i}"),
          transitions: ts
            .iter()
            .map(|t| wf::Transition {
              target_state_id: format!("S{}", t.to),
              rule: MessageField::some(rule(&t.rule)),
              actions: t.acts.iter().map(Act::proto).collect(),
              extensions: t.exts.iter().map(ext).collect(),
              ..Default::default()
            })
            .collect(),
          ..Default::default()
        })
        .collect(),
      execution: MessageField::some(wf::Execution {
        execution_type: Some(if self.exclusive {
          Execution_type::ExecutionExclusive(Default::default())
        } else {
          Execution_type::ExecutionParallel(Default::default())
        }),
        ..Default::default()
      }),
      limit_matched_logs_count: self.most_matches.map_or(MessageField::none(), |n| MessageField::some(wf::LimitMatchedLogsCount { count: n, ..Default::default() })),
      limit_duration: self.most_ms.map_or(MessageField::none(), |n| MessageField::some(wf::LimitDuration { duration_ms: n, ..Default::default() })),
      ..Default::default()
    };
    let Some(bad) = self.bad else { return p };
    // Something to spoil.
    let mut t = wf::Transition {
      target_state_id: "S0".into(),
      rule: MessageField::some(rule(&Rule::Log(When::Msg(0), 1))),
      ..Default::default()
    };
    match bad {
      Bad::Target => t.target_state_id = "nowhere".into(),
      Bad::NoRule => t.rule = MessageField::none(),
      Bad::NoRuleType => t.rule.mut_or_insert_default().rule_type = None,
      Bad::NoStates => p.states.clear(),
      Bad::NoExecution => p.execution = MessageField::none(),
      Bad::NoExecutionType => p.execution.mut_or_insert_default().execution_type = None,
      Bad::ZeroCount => p.limit_matched_logs_count = MessageField::some(Default::default()),
      Bad::ZeroDuration => p.limit_duration = MessageField::some(Default::default()),
      Bad::NoAction => t.actions.push(Default::default()),
      Bad::ZeroStream => t.actions.push(Act::Flush(Flush { id: "z".into(), bufs: set(&["t0"]), stream: Some((set(&["c0"]), vec![4, 0])) }).proto()),
      Bad::NoMetricType | Bad::NoMetricValue => {
        let mut a = Act::Metric(Metric { id: "z".into(), tags: BTreeMap::new(), value: Ok(1), histogram: false }).proto();
        if let Some(wf::action::Action_type::ActionEmitMetric(m)) = &mut a.action_type {
          if bad == Bad::NoMetricType { m.metric_type = None } else { m.value_extractor_type = None }
        }
        t.actions.push(a);
      },
      Bad::LooseExt => t.extensions.push(ext(&Ext { id: "nobody emits".into(), value: From::Fixed("x".into()), counts: true })),
      Bad::NoMatcher => t.rule = MessageField::some(wf::Rule { rule_type: Some(Rule_type::RuleLogMatch(wf::RuleLogMatch { count: 1, ..Default::default() })), ..Default::default() }),
    }
    if let Some(s) = p.states.first_mut() {
      s.transitions.push(t);
    }
    p
  }
}

// ---------------------------------------------------------------------------------------------
// What should come of it

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Path {
  nodes: Vec<(String, bool)>,
  trimmed: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Trav {
  at: usize,
  seen: Vec<u32>,
  paths: BTreeMap<String, Path>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
  travs: Vec<Trav>,
  matched: u32,
  since: Option<i64>,
}

impl Run {
  fn new(w: &Wf) -> Self {
    Self { travs: Trav::new(w, 0, BTreeMap::new()).into_iter().collect(), matched: 0, since: None }
  }
  fn fresh(&self) -> bool {
    self.travs.iter().all(|t| t.at == 0 && t.seen.iter().all(|n| *n == 0))
  }
  fn fits(&self, w: &Wf) -> bool {
    self.travs.iter().all(|t| w.states.get(t.at).is_some_and(|s| s.len() == t.seen.len()))
  }
}

impl Trav {
  fn new(w: &Wf, at: usize, paths: BTreeMap<String, Path>) -> Option<Self> {
    let n = w.states[at].len();
    (n > 0).then(|| Self { at, seen: vec![0; n], paths })
  }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Pending {
  pub id: String,
  pub session: String,
  pub bufs: BTreeSet<String>,
  pub stream: Option<(BTreeSet<String>, Option<u64>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Stream {
  pub id: String,
  pub session: String,
  pub from: BTreeSet<String>,
  pub to: BTreeSet<String>,
  pub most: Option<u64>,
  pub done: u64,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Snap {
  pub session: String,
  pub runs: Vec<(String, Vec<Run>)>,
  pub pending: BTreeSet<Pending>,
  pub streams: Vec<Stream>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Drawn {
  pub what: Sankey,
  pub nodes: Vec<String>,
  pub path_id: String,
  pub trimmed: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Out {
  pub dest: BTreeSet<String>,
  pub flush_ids: BTreeSet<String>,
  pub flush_bufs: BTreeSet<String>,
  pub shot: bool,
  pub counters: BTreeMap<BTreeMap<String, String>, u64>,
  pub histograms: BTreeMap<BTreeMap<String, String>, Vec<f64>>,
}

/// What is said about a diagram: the intent, and then perhaps the upload.
#[derive(Clone, Debug, PartialEq)]
pub enum Word {
  Intent(String, String, Answer),
  Upload(String, String, Vec<String>, bool),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Answer {
  Upload,
  Drop,
  Closed,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
  pub limit: u32,
  pub triggers: BTreeSet<String>,
  pub continuous: BTreeSet<String>,
  pub session: String,
  pub flows: Vec<(Wf, Vec<Run>)>,
  pub pending: BTreeSet<Pending>,
  pub streams: Vec<Stream>,
  /// Waiting for the server, the first one being asked about.
  pub queue: Vec<Pending>,
  pub rejected: BTreeSet<String>,
  pub answered: Vec<(Pending, bool)>,
  /// Uploads under way.
  pub flushing: BTreeMap<String, u64>,
  pub flushes: u64,
  pub drawn: BTreeSet<(String, String)>,
  pub too_many: bool,
  /// Changed since it was saved.
  pub dirty: bool,
}

enum End {
  Goes,
  Done,
  Stopped,
}

fn step(w: &Wf, run: &mut Run, l: &L) -> (End, Vec<(Act, Option<Drawn>)>, bool) {
  let mut acts = vec![];
  let mut any = false;
  for i in (0 .. run.travs.len()).rev() {
    let t = &mut run.travs[i];
    let mut next = vec![];
    let mut followed = false;
    let mut matched = 0;
    for (k, tr) in w.states[t.at].iter().enumerate() {
      let Rule::Log(when, n) = &tr.rule else { continue };
      if !when.holds(l) {
        continue;
      }
      t.seen[k] += 1;
      matched += 1;
      if t.seen[k] != *n {
        continue;
      }
      followed = true;
      let mut paths = t.paths.clone();
      for e in &tr.exts {
        let Some(v) = l.get(&e.value) else { continue };
        let most = w.states.iter().flatten().flat_map(|t| &t.acts).rev().find_map(|a| match a {
          Act::Sankey(s) if s.id == e.id => Some(s.limit),
          _ => None,
        });
        let p = paths.entry(e.id.clone()).or_default();
        p.nodes.push((v, e.counts));
        if e.counts && p.nodes.iter().filter(|n| n.1).count() > most.unwrap() as usize {
          let first = p.nodes.iter().position(|n| n.1).unwrap();
          p.nodes.remove(first);
          p.trimmed = true;
        }
      }
      for a in &tr.acts {
        match a {
          Act::Sankey(s) => {
            if let Some(p) = paths.remove(&s.id) {
              let mut h = sha2::Sha256::new();
              for n in &p.nodes {
                h.update(n.0.as_bytes());
              }
              let path_id = h.finalize().iter().map(|b| format!("{b:02x}")).collect();
              acts.push((a.clone(), Some(Drawn { what: s.clone(), nodes: p.nodes.into_iter().map(|n| n.0).collect(), path_id, trimmed: p.trimmed })));
            }
          },
          _ => acts.push((a.clone(), None)),
        }
      }
      next.extend(Trav::new(w, tr.to, paths));
    }
    run.matched += matched;
    any |= matched > 0;
    if w.most_matches.is_some_and(|m| run.matched > m) {
      return (End::Stopped, vec![], any);
    }
    if let (Some(most), Some(since)) = (w.most_ms, run.since) {
      if l.at_ms - since > most as i64 {
        return (End::Stopped, vec![], any);
      }
    }
    if matched > 0 && run.since.is_none() {
      run.since = Some(l.at_ms);
    }
    if followed {
      run.travs.splice(i ..= i, next);
    }
  }
  (if run.travs.is_empty() { End::Done } else { End::Goes }, acts, any)
}

impl Model {
  pub fn new(limit: u32) -> Self {
    Self {
      limit,
      triggers: BTreeSet::new(),
      continuous: BTreeSet::new(),
      session: String::new(),
      flows: vec![],
      pending: BTreeSet::new(),
      streams: vec![],
      queue: vec![],
      rejected: BTreeSet::new(),
      answered: vec![],
      flushing: BTreeMap::new(),
      flushes: 0,
      drawn: BTreeSet::new(),
      too_many: false,
      dirty: false,
    }
  }

  pub fn total(&self) -> u32 {
    self.flows.iter().flat_map(|f| &f.1).map(|r| r.travs.len() as u32).sum()
  }

  /// Whether anything is under way.
  pub fn busy(&self) -> bool {
    self.flows.iter().any(|f| f.1.iter().any(|r| !r.fresh()))
  }

  pub fn snap(&self) -> Snap {
    Snap {
      session: self.session.clone(),
      runs: self
        .flows
        .iter()
        .map(|(w, rs)| (w.id.clone(), rs.iter().filter(|r| !r.fresh()).cloned().collect::<Vec<_>>()))
        .filter(|x| !x.1.is_empty())
        .collect(),
      pending: self.pending.clone(),
      streams: self.streams.clone(),
    }
  }

  fn tidy(&mut self) {
    self.pending = std::mem::take(&mut self.pending)
      .into_iter()
      .filter_map(|mut p| {
        p.bufs.retain(|b| self.triggers.contains(b));
        (!p.bufs.is_empty()).then_some(p)
      })
      .collect();
    for s in &mut self.streams {
      s.from.retain(|b| self.triggers.contains(b));
      s.to.retain(|b| self.continuous.contains(b));
    }
    self.streams.retain(|s| !s.from.is_empty() && !s.to.is_empty());
  }

  /// How a new process can go on from what was saved. A workflow that changed meanwhile may start over.
  pub fn start(limit: u32, config: &[Wf], triggers: &BTreeSet<String>, continuous: &BTreeSet<String>, saved: Option<&Snap>, versions: &BTreeMap<String, Wf>) -> Vec<Self> {
    let mut m = Self::new(limit);
    m.triggers = triggers.clone();
    m.continuous = continuous.clone();
    let mut all = vec![m];
    if let Some(s) = saved {
      let m = &mut all[0];
      m.pending = s.pending.clone();
      m.streams = s.streams.clone();
      m.tidy();
      m.session = s.session.clone();
      m.queue = m.pending.iter().cloned().collect();
      m.dirty = s.runs.iter().any(|(id, _)| !config.iter().any(|w| w.id == *id && w.bad.is_none()));
    }
    for w in config.iter().filter(|w| w.bad.is_none()) {
      let runs = saved.and_then(|s| s.runs.iter().find(|x| x.0 == w.id)).map_or(vec![], |x| x.1.clone());
      let fits = runs.iter().all(|r| r.fits(w)) && (!w.exclusive || runs.len() <= 1);
      let same = versions.get(&w.id) == Some(w);
      let mut next = vec![];
      for m in all {
        // Those that would be too many are given up, the latest first.
        let put = |mut m: Self, mut runs: Vec<Run>| {
          while m.total() + runs.iter().map(|r| r.travs.len() as u32).sum::<u32>() > m.limit && !runs.is_empty() {
            runs.pop();
          }
          m.flows.push((w.clone(), runs));
          m
        };
        if fits {
          next.push(put(m.clone(), runs.clone()));
        }
        if !same && !runs.is_empty() {
          next.push(put(Self { dirty: true, ..m }, vec![]));
        }
      }
      all = next;
    }
    all
  }

  pub fn update(&mut self, config: &[Wf], triggers: &BTreeSet<String>, continuous: &BTreeSet<String>) {
    let good: Vec<&Wf> = config.iter().filter(|w| w.bad.is_none()).collect();
    let gone = |w: &Wf| !good.iter().any(|g| *g == w);
    if self.flows.iter().any(|(w, rs)| gone(w) && rs.iter().any(|r| !r.fresh())) {
      self.dirty = true;
    }
    self.flows.retain(|(w, _)| !gone(w));
    for w in good {
      if !self.flows.iter().any(|f| f.0.id == w.id) {
        self.flows.push((w.clone(), vec![]));
      }
    }
    self.triggers = triggers.clone();
    self.continuous = continuous.clone();
    self.tidy();
  }

  /// What the log makes happen, and the diagrams drawn.
  pub fn log(&mut self, l: &L, dest: &BTreeSet<String>, finished: &BTreeSet<u64>) -> (Out, BTreeSet<Drawn>) {
    let mut out = Out::default();
    if !self.session.is_empty() && self.session != l.session {
      for f in &mut self.flows {
        f.1.clear();
      }
      self.dirty = true;
    }
    self.session = l.session.clone();
    if self.flows.is_empty() {
      out.dest = dest.clone();
      return (out, BTreeSet::new());
    }
    let mut acts = vec![];
    for k in 0 .. self.flows.len() {
      let before: Vec<Run> = self.flows[k].1.iter().filter(|r| !r.fresh()).cloned().collect();
      if !self.flows[k].1.iter().any(Run::fresh) {
        let run = Run::new(&self.flows[k].0);
        if self.total() + run.travs.len() as u32 <= self.limit {
          let (w, runs) = &mut self.flows[k];
          if w.exclusive { runs.insert(0, run) } else { runs.push(run) }
        }
      }
      let mut progress = false;
      for i in (0 .. self.flows[k].1.len()).rev() {
        let (w, runs) = &mut self.flows[k];
        let (end, a, any) = step(w, &mut runs[i], l);
        acts.extend(a);
        match end {
          End::Stopped => drop(self.flows[k].1.remove(i)),
          _ if self.total() > self.limit => drop(self.flows[k].1.remove(i)),
          End::Done => {
            progress = true;
            self.flows[k].1.remove(i);
          },
          End::Goes => progress |= any,
        }
        let (w, runs) = &mut self.flows[k];
        if w.exclusive && (i > 0 || runs.len() > 1) && progress {
          if i > 0 {
            break;
          }
          // Started over.
          runs.remove(1);
        }
      }
      let after: Vec<Run> = self.flows[k].1.iter().filter(|r| !r.fresh()).cloned().collect();
      self.dirty |= before != after;
    }

    // Logs go where they are streamed to.
    let on = |flushing: &BTreeMap<String, u64>, id: &str| flushing.get(id).is_some_and(|f| !finished.contains(f));
    let n = self.streams.len();
    let (session, flushing) = (self.session.clone(), &self.flushing);
    self.streams.retain(|s| !((s.most.is_some_and(|m| s.done >= m) || s.session != session) && !on(flushing, &s.id)));
    self.dirty |= n != self.streams.len();
    let mut left: BTreeSet<String> = dest.iter().filter(|d| self.triggers.contains(*d) || self.continuous.contains(*d)).cloned().collect();
    for s in &mut self.streams {
      if s.from.is_disjoint(dest) {
        continue;
      }
      left.retain(|d| !s.from.contains(d));
      s.done += 1;
      self.dirty = true;
      out.dest.extend(s.to.iter().cloned());
    }
    out.dest.extend(left);

    let mut flushes = BTreeSet::new();
    let mut metrics = BTreeSet::new();
    let mut drawn = BTreeSet::new();
    for (a, d) in acts {
      match a {
        Act::Flush(f) => drop(flushes.insert(f)),
        Act::Metric(m) => drop(metrics.insert(m)),
        Act::Sankey(_) => drop(drawn.insert(d.unwrap())),
        Act::Shot(_) => out.shot = true,
      }
    }
    let mut new = BTreeSet::new();
    for f in flushes {
      out.flush_ids.insert(f.id.clone());
      let bufs: BTreeSet<String> = if f.bufs.is_empty() { self.triggers.clone() } else { f.bufs.intersection(&self.triggers).cloned().collect() };
      if bufs.is_empty() {
        continue;
      }
      out.flush_bufs.extend(bufs.iter().cloned());
      if self.pending.iter().any(|p| p.id == f.id) || self.streams.iter().any(|s| s.id == f.id) {
        continue;
      }
      let stream = f.stream.and_then(|(to, most)| {
        let to: BTreeSet<String> =
          if to.is_empty() { self.continuous.first().cloned().into_iter().collect() } else { to.intersection(&self.continuous).cloned().collect() };
        (!to.is_empty()).then(|| (to, most.iter().min().copied()))
      });
      new.insert(Pending { id: f.id, session: self.session.clone(), bufs, stream });
    }
    for m in metrics {
      let v = match &m.value {
        Ok(n) => Some(f64::from(*n)),
        Err(k) => l.field(k).and_then(|x| x.parse().ok()),
      };
      let Some(v) = v else { continue };
      let mut tags: BTreeMap<String, String> = m.tags.iter().filter_map(|(k, f)| l.get(f).map(|v| (k.clone(), v))).collect();
      tags.insert("_id".into(), m.id.clone());
      if m.histogram {
        out.histograms.entry(tags).or_default().push(v);
      } else {
        let n = out.counters.entry(tags).or_default();
        *n = n.wrapping_add(v as u64);
      }
    }
    for v in out.histograms.values_mut() {
      v.sort_by(f64::total_cmp);
    }
    for d in &drawn {
      let mut tags: BTreeMap<String, String> = d.what.tags.iter().filter_map(|(k, f)| l.get(f).map(|v| (k.clone(), v))).collect();
      tags.insert("_id".into(), d.what.id.clone());
      tags.insert("_path_id".into(), d.path_id.clone());
      *out.counters.entry(tags).or_default() += 1;
    }
    self.dirty |= !new.is_empty();
    self.queue.extend(new.iter().cloned());
    self.pending.extend(new);
    (out, drawn)
  }

  /// Whether this is what was to be said about the diagrams, in whatever order.
  pub fn draw(&mut self, drawn: &BTreeSet<Drawn>, said: &[Word]) -> bool {
    // No more than ten wait at a time, and the last hundred are remembered.
    if drawn.len() > 10 || self.drawn.len() + drawn.len() > 100 {
      self.too_many = true;
    }
    if self.too_many {
      return true;
    }
    let mut left: Vec<&Drawn> = drawn.iter().collect();
    let mut said = said.iter();
    while let Some(x) = said.next() {
      let Word::Intent(id, path, a) = x else { return false };
      let k = (id.clone(), path.clone());
      let Some(i) = left.iter().position(|d| d.what.id == *id && d.path_id == *path) else { return false };
      let d = left.remove(i);
      if self.drawn.contains(&k) {
        return false;
      }
      let known = match a {
        Answer::Upload => match said.next() {
          Some(Word::Upload(id, path, nodes, answered)) if *id == k.0 && *path == k.1 && *nodes == d.nodes => *answered,
          _ => return false,
        },
        Answer::Drop => true,
        Answer::Closed => false,
      };
      if known {
        self.drawn.insert(k);
      }
    }
    left.into_iter().all(|d| self.drawn.contains(&(d.what.id.clone(), d.path_id.clone())))
  }

  /// Goes on with what waits for the server, up to one that has to be asked about.
  pub fn ask(&mut self) -> Option<&Pending> {
    while self.queue.first().is_some_and(|p| self.rejected.contains(&p.id)) {
      let p = self.queue.remove(0);
      self.answered.push((p, false));
    }
    self.queue.first()
  }

  pub fn answer(&mut self, upload: bool) {
    let p = self.queue.remove(0);
    if !upload {
      self.rejected.insert(p.id.clone());
    }
    self.answered.push((p, upload));
  }

  /// Takes note of the answers; gives the buffers to be uploaded.
  pub fn take(&mut self, finished: &BTreeSet<u64>) -> Vec<(u64, BTreeSet<String>)> {
    let mut out = vec![];
    for (p, upload) in std::mem::take(&mut self.answered) {
      self.dirty = true;
      self.pending.retain(|x| x.id != p.id);
      if !upload {
        continue;
      }
      if !self.flushing.get(&p.id).is_some_and(|f| !finished.contains(f)) {
        self.flushes += 1;
        self.flushing.insert(p.id.clone(), self.flushes);
        out.push((self.flushes, p.bufs.clone()));
      }
      if let Some((to, most)) = p.stream {
        if !to.is_disjoint(&self.continuous) {
          self.streams.push(Stream { id: p.id, session: p.session, from: p.bufs, to, most, done: 0 });
        }
      }
    }
    out
  }
}
