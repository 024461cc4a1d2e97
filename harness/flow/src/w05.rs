//! The engine next to the model: every log has to come to what the model says.
use crate::wf::{self, Answer, Model, Out, Pool, Snap, Wf, Word, L};
use bd_api::upload::{IntentDecision, IntentResponse, TrackedLogUploadIntent, UploadResponse};
use bd_api::DataUpload;
use bd_client_stats::DynamicStats;
use bd_client_stats_store::{Collector, MetricData};
use bd_log_primitives::{FieldsRef, LogField, LogFieldValue, LogMessage, LogRef, LogType};
use bd_proto::protos::client::api::log_upload_intent_request::Intent_type;
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::runtime::runtime::value::Type;
use bd_proto::protos::client::runtime::runtime::Value;
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::workflow::workflow::WorkflowsConfiguration as ConfigProto;
use bd_runtime::runtime::ConfigLoader;
use bd_workflows::actions_flush_buffers::BuffersToFlush;
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::{WorkflowsEngine, WorkflowsEngineConfig};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc::{channel, Receiver};
use vh::{Check, Rng};

pub struct Engine {
  engine: WorkflowsEngine,
  uploads: Receiver<DataUpload>,
  flushes: Receiver<BuffersToFlush>,
  dynamic: Arc<DynamicStats>,
  _loader: Arc<ConfigLoader>,
}

pub struct World<'a> {
  c: &'a Check,
  pub dir: PathBuf,
  pub e: Option<Engine>,
  /// Everything it may be doing as far as one can tell.
  pub live: Vec<Model>,
  asked: Option<TrackedLogUploadIntent>,
  unfinished: Vec<(u64, tokio::sync::oneshot::Sender<()>)>,
  finished: BTreeSet<u64>,
  pub config: Vec<Wf>,
  pub triggers: BTreeSet<String>,
  pub continuous: BTreeSet<String>,
  /// What may be on the disk, and the definitions it belongs to.
  pub disk: Vec<Option<Snap>>,
  pub versions: BTreeMap<String, Wf>,
  pub trail: Vec<String>,
  pub lost: bool,
}

pub fn cows(s: &BTreeSet<String>) -> BTreeSet<Cow<'static, str>> {
  s.iter().map(|b| Cow::Owned(b.clone())).collect()
}

pub fn plain<'b>(s: impl IntoIterator<Item = &'b Cow<'b, str>>) -> BTreeSet<String> {
  s.into_iter().map(|b| b.to_string()).collect()
}

pub const STATE: &str = "workflows_state_snapshot.4.bin";

fn configure(loader: &ConfigLoader, values: &[(&str, u32)]) {
  let values: HashMap<String, Value> =
    values.iter().map(|(k, v)| ((*k).to_string(), Value { type_: Some(Type::UintValue(*v)), ..Default::default() })).collect();
  loader.update_snapshot(&RuntimeUpdate { version_nonce: "x".into(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() });
}

pub async fn settle() {
  for _ in 0 .. 24 {
    tokio::task::yield_now().await;
  }
}

impl<'a> World<'a> {
  pub fn new(c: &'a Check, dir: &Path) -> Self {
    Self {
      c,
      dir: dir.into(),
      e: None,
      live: vec![],
      asked: None,
      unfinished: vec![],
      finished: BTreeSet::new(),
      config: vec![],
      triggers: BTreeSet::new(),
      continuous: BTreeSet::new(),
      disk: vec![None],
      versions: BTreeMap::new(),
      trail: vec![],
      lost: false,
    }
  }

  fn engine_config(&self) -> WorkflowsEngineConfig {
    let p = ConfigProto { workflows: self.config.iter().map(Wf::proto).collect(), ..Default::default() };
    WorkflowsEngineConfig::new(WorkflowsConfiguration::new(&p), cows(&self.triggers), cows(&self.continuous))
  }

  pub fn say(&mut self, s: String) {
    self.c.now(|| s.clone());
    self.trail.push(s);
  }

  pub fn bad(&mut self, sig: &str, what: &str) {
    let trail = self.trail.join("\n");
    self.c.violation(sig, &format!("{what}\nworkflows: {:#?}\nafter:\n{trail}", self.config));
    self.lost = true;
  }

  /// A process starts.
  pub async fn start(&mut self, limit: u32, save_ms: u32, poll_ms: u32) {
    self.say(format!("start, at most {limit}, {} workflows", self.config.len()));
    let Some(e) = self.engine(limit, save_ms, poll_ms) else { return };
    self.e = Some(e);
    let mut live = vec![];
    for d in &self.disk {
      for m in Model::start(limit, &self.config, &self.triggers, &self.continuous, d.as_ref(), &self.versions) {
        if !live.contains(&m) {
          live.push(m);
        }
      }
    }
    self.live = live;
    self.finished.clear();
    self.settled().await;
  }

  /// A process starts from something nobody knows.
  pub async fn start_unsure(&mut self) -> bool {
    self.e = self.engine(200, 1000, 5000);
    settle().await;
    self.e.is_some()
  }

  fn engine(&mut self, limit: u32, save_ms: u32, poll_ms: u32) -> Option<Engine> {
    let loader = ConfigLoader::new(&self.dir);
    configure(
      &loader,
      &[
        ("workflows.traversals_global_count_limit", limit),
        ("workflows.persistence_write_interval_ms", save_ms),
        ("workflows.state_periodic_write_interval_ms", poll_ms),
        ("stats.max_dynamic_counters", 100_000),
      ],
    );
    let collector = Collector::default();
    let dynamic = Arc::new(DynamicStats::new(&collector.scope(""), &loader));
    let (tx, uploads) = channel(100);
    let (mut engine, flushes) = WorkflowsEngine::new(&collector.scope(""), &self.dir, &loader, tx, dynamic.clone());
    if let Err(p) = vh::no_panic(|| engine.start(self.engine_config())) {
      self.bad("panic", &format!("starting panics: {p}"));
      return None;
    }
    Some(Engine { engine, uploads, flushes, dynamic, _loader: loader })
  }

  /// The process is gone.
  pub async fn stop(&mut self) {
    self.say("stop".into());
    self.e = None;
    self.asked = None;
    self.unfinished.clear();
    settle().await;
  }

  pub fn update(&mut self) {
    self.say("update".into());
    let config = self.engine_config();
    self.e.as_mut().unwrap().engine.update(config);
    for m in &mut self.live {
      m.update(&self.config, &self.triggers, &self.continuous);
    }
  }

  /// Lets tasks run and checks what the server is asked about uploads.
  async fn settled(&mut self) {
    settle().await;
    while let Ok(u) = self.e.as_mut().unwrap().uploads.try_recv() {
      match u {
        DataUpload::LogsUploadIntentRequest(i) => {
          if self.asked.is_some() {
            return self.bad("two at a time", "asked about a second upload before the first was answered");
          }
          self.asked = Some(i);
        },
        u => return self.bad("unexpected request", &format!("unexpected {u:?}")),
      }
    }
    let asked = self.asked.as_ref().map(|a| {
      let ids = match &a.payload.intent_type {
        Some(Intent_type::WorkflowActionUpload(w)) => w.workflow_action_ids.clone(),
        t => vec![format!("{t:?}")],
      };
      (ids, a.payload.buffer_id.clone(), a.uuid == a.payload.intent_uuid)
    });
    let mut wanted = None;
    self.live.retain_mut(|m| {
      let w = m.ask().map(|p| (vec![p.id.clone()], p.bufs.first().unwrap().clone(), true));
      let same = w == asked;
      wanted = Some(w);
      same
    });
    if self.live.is_empty() {
      self.bad("upload intents", &format!("asks the server about {asked:?}, expected {wanted:?}"));
    }
  }

  /// A log; `sure` is false while what the state was read from is not known.
  pub async fn log(&mut self, r: &mut Rng, l: &L, dest: &BTreeSet<String>, sure: bool) {
    self.say(format!("log {l:?} to {dest:?}"));
    let fields = |v: &[(String, String)]| v.iter().map(|(k, v)| LogField { key: k.clone(), value: LogFieldValue::String(v.clone()) }).collect::<Vec<_>>();
    let (a, b) = (fields(&l.fields), fields(&l.hidden));
    let f = FieldsRef::new(&a, &b);
    let message: LogMessage = LogFieldValue::String(wf::MSGS[l.msg].into());
    let log = LogRef {
      log_type: LogType(l.kind),
      log_level: l.level,
      message: &message,
      fields: &f,
      session_id: &l.session,
      occurred_at: time::OffsetDateTime::UNIX_EPOCH + time::Duration::milliseconds(l.at_ms),
    };
    let e = self.e.as_mut().unwrap();
    let d = cows(dest);
    let got = vh::no_panic(|| {
      let x = e.engine.process_log(&log, &d);
      Out {
        dest: plain(x.log_destination_buffer_ids.iter()),
        flush_ids: x.triggered_flush_buffers_action_ids.iter().map(|s| (*s).to_string()).collect(),
        flush_bufs: plain(&x.triggered_flushes_buffer_ids),
        shot: x.capture_screenshot,
        ..Default::default()
      }
    });
    let mut got = match got {
      Ok(x) => x,
      Err(p) => return self.bad("panic", &format!("a log panics: {p}")),
    };
    let e = self.e.as_mut().unwrap();
    let mut wrong = vec![];
    e.dynamic.collector_for_test().retain(|id, m| {
      let tags = id.labels.clone();
      match (id.name.as_str(), m.to_proto()) {
        ("workflows_dyn:action", Data::Counter(n)) => drop(got.counters.insert(tags, n.value)),
        ("workflows_dyn:histogram", Data::InlineHistogramValues(v)) => {
          let mut v = v.values;
          v.sort_by(f64::total_cmp);
          got.histograms.insert(tags, v);
        },
        (n, d) => wrong.push(format!("{n} {d:?}")),
      }
      false
    });
    if !wrong.is_empty() {
      return self.bad("metrics", &format!("unexpected metrics {wrong:?}"));
    }
    // The server's answers about diagrams.
    let mut said = vec![];
    let mut later = vec![];
    loop {
      settle().await;
      let Ok(u) = self.e.as_mut().unwrap().uploads.try_recv() else { break };
      match u {
        DataUpload::SankeyPathUploadIntentRequest(i) => {
          let a = *r.pick(&[Answer::Upload, Answer::Upload, Answer::Drop, Answer::Closed]);
          said.push(Word::Intent(i.payload.sankey_diagram_id.clone(), i.payload.path_id.clone(), a));
          let decision = match a {
            Answer::Upload => IntentDecision::UploadImmediately,
            Answer::Drop => IntentDecision::Drop,
            Answer::Closed => continue,
          };
          let _ = i.response_tx.send(IntentResponse { uuid: i.uuid, decision });
        },
        DataUpload::SankeyPathUpload(u) => {
          let answered = r.chance(4, 5);
          said.push(Word::Upload(
            u.payload.id.clone(),
            u.payload.path_id.clone(),
            u.payload.nodes.iter().map(|n| n.extracted_value.clone()).collect(),
            answered,
          ));
          if answered {
            let _ = u.response_tx.send(UploadResponse { success: r.bool(), uuid: u.uuid });
          }
        },
        u => later.push(u),
      }
    }
    for u in later {
      match u {
        DataUpload::LogsUploadIntentRequest(i) if self.asked.is_none() => self.asked = Some(i),
        u => return self.bad("unexpected request", &format!("unexpected {u:?}")),
      }
    }
    self.c.count("logs");
    self.c.add("metrics recorded", (got.counters.len() + got.histograms.len()) as u64);
    self.c.add("diagram requests", said.len() as u64);
    self.c.add("logs that asked for an upload", u64::from(!got.flush_ids.is_empty()));
    self.c.add("logs sent elsewhere", u64::from(got.dest != *dest));
    self.c.add("screenshots", u64::from(got.shot));
    if !sure {
      return;
    }
    let mut wanted = None;
    let finished = &self.finished;
    self.live.retain_mut(|m| {
      let (o, drawn) = m.log(l, dest, finished);
      let same = o == got && m.draw(&drawn, &said);
      wanted = Some((o, drawn));
      same
    });
    match self.live.first() {
      Some(m) => {
        self.c.saw("states", &format!("{:?}", m.snap()));
        self.c.add("logs with workflows under way", u64::from(m.busy()));
        self.c.add("logs at the limit", u64::from(m.total() >= m.limit));
      },
      None => return self.bad("actions", &format!("comes to {got:?} and said {said:?}, expected {wanted:?}")),
    }
    self.settled().await;
  }

  /// The server answers about an upload, or the stream it was asked on is lost.
  pub async fn answer(&mut self, r: &mut Rng) {
    let Some(a) = self.asked.take() else { return };
    let how = r.below(5);
    self.say(format!("answer {how} about {:?}", a.payload.intent_type));
    match how {
      0 => {
        let was = a.uuid.clone();
        drop(a);
        self.settled().await;
        if !self.lost && self.asked.as_ref().map(|a| &a.uuid) != Some(&was) {
          self.bad("retry", "an intent is not repeated with its identifier");
        }
        return;
      },
      x => {
        let upload = x > 1;
        let decision = if upload { IntentDecision::UploadImmediately } else { IntentDecision::Drop };
        let _ = a.response_tx.send(IntentResponse { uuid: a.uuid, decision });
        for m in &mut self.live {
          m.answer(upload);
        }
        self.c.count(if upload { "uploads approved" } else { "uploads rejected" });
      },
    }
    self.settled().await;
  }

  /// The engine gets to run.
  pub async fn run(&mut self, wait: Duration) {
    self.say(format!("run for {wait:?}"));
    let e = self.e.as_mut().unwrap();
    if wait.is_zero() {
      tokio::select! {
        biased;
        () = e.engine.run() => {},
        () = settle() => {},
      }
    } else {
      let _ = tokio::time::timeout(wait, e.engine.run()).await;
    }
    let mut got = vec![];
    while let Ok(b) = e.flushes.try_recv() {
      got.push(b);
    }
    let bufs: Vec<_> = got.iter().map(|b| plain(&b.buffer_ids)).collect();
    let mut wanted = vec![];
    let finished = &self.finished;
    self.live.retain_mut(|m| {
      wanted = m.take(finished);
      wanted.iter().map(|w| w.1.clone()).collect::<Vec<_>>() == bufs
    });
    if self.live.is_empty() {
      return self.bad("flushes", &format!("wants {bufs:?} to be uploaded, expected {wanted:?}"));
    }
    self.c.add("buffer uploads", got.len() as u64);
    self.unfinished.extend(wanted.into_iter().map(|w| w.0).zip(got.into_iter().map(|b| b.response_tx)));
  }

  /// An upload of buffers ends.
  pub fn finish(&mut self, r: &mut Rng) {
    if self.unfinished.is_empty() {
      return;
    }
    let i = r.idx(self.unfinished.len());
    let (n, tx) = self.unfinished.remove(i);
    self.say(format!("upload {n} ends"));
    self.finished.insert(n);
    if r.bool() {
      let _ = tx.send(());
    }
  }

  /// The engine is told that it may save.
  pub async fn save(&mut self, force: bool) {
    self.e.as_mut().unwrap().engine.maybe_persist(force).await;
  }
}

pub fn rt() -> tokio::runtime::Runtime {
  tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}

pub fn configs(r: &mut Rng, pool: &Pool) -> Vec<Wf> {
  let n = r.below(5);
  (0 .. n).map(|i| wf::workflow(r, &format!("w{i}"), pool)).collect()
}

pub fn reconfigure(r: &mut Rng, w: &mut World<'_>, pool: &Pool) {
  for _ in 0 .. 1 + r.below(2) {
    match r.below(6) {
      0 => w.triggers = wf::subset(r, &wf::TRIGGERS, 2, 3),
      1 => w.continuous = wf::subset(r, &wf::CONTINUOUS, 2, 3),
      2 if !w.config.is_empty() => {
        let i = r.idx(w.config.len());
        w.config.remove(i);
      },
      3 => {
        let id = format!("w{}", r.below(7));
        if !w.config.iter().any(|x| x.id == id) {
          let at = r.idx(w.config.len() + 1);
          w.config.insert(at, wf::workflow(r, &id, pool));
        }
      },
      4 if !w.config.is_empty() => {
        let i = r.idx(w.config.len());
        w.config[i] = wf::changed(r, &w.config[i], pool);
      },
      _ => r.shuffle(&mut w.config),
    }
  }
}

/// Logs that follow the workflows more often than not.
pub fn a_log(r: &mut Rng, sessions: u64, at: &mut i64, stay: &mut String) -> L {
  *at += match r.below(12) {
    0 => -r.range(0, 3000),
    1 | 2 => r.range(0, 3000),
    3 => 500 * r.range(0, 9),
    _ => r.range(0, 60),
  };
  let mut l = wf::log(r, sessions, 1_700_000_000_000 + *at);
  if r.chance(30, 31) {
    l.session = stay.clone();
  } else {
    *stay = l.session.clone();
  }
  l
}

pub fn run(c: &Check) {
  c.rule("matches, progress and actions of workflows as in the model");
  c.assume("workflow and action identifiers are unique within a configuration");
  let n = c.n(6_000, 150_000);
  c.cases(n, Duration::from_secs(if c.thorough() { 600 } else { 14 }), |case, r| {
    let dir = vh::Scratch::new();
    rt().block_on(async {
      let mut w = World::new(c, dir.path());
      let heavy = r.chance(1, 5);
      let pool = if heavy { Pool::streaming(r) } else { Pool::new(r) };
      w.config = configs(r, &pool);
      w.triggers = wf::subset(r, &wf::TRIGGERS, 4, 5);
      w.continuous = wf::subset(r, &wf::CONTINUOUS, 2, 3);
      let limit = if r.chance(1, 3) { r.below(8) as u32 } else { 200 };
      w.start(limit, 1000, 5000).await;
      let (mut at, mut session) = (0, "s0".to_string());
      let quick = heavy || r.chance(1, 3);
      for _ in 0 .. r.below(60) {
        if w.lost {
          return;
        }
        match r.below(if quick { 14 } else { 40 }) {
          0 | 1 => w.answer(r).await,
          2 => w.run(Duration::ZERO).await,
          3 => w.finish(r),
          4 if r.chance(1, 3) => {
            reconfigure(r, &mut w, &pool);
            w.update();
          },
          _ => {
            let l = a_log(r, 3, &mut at, &mut session);
            let dest = wf::subset(r, &["t0", "t1", "t2", "c0", "c1", "x"], 1, 2);
            w.log(r, &l, &dest, true).await;
          },
        }
      }
      if case < 3 {
        c.sample(|| format!("{:?} after {:?}", w.config, w.trail));
      }
      c.eval(Some(vh::hash_of(&format!("{:?} {:?}", w.config, w.trail))));
    });
  });
}
