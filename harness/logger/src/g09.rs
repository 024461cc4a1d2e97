//! G09: what a blocking flush of the state, or a blocking log, has seen is there after a kill.
use crate::g03::{begins, field, found, switches, Found, Idle};
use bd_api::upload::{IntentDecision, IntentResponse, UploadResponse};
use bd_api::DataUpload;
use bd_buffer::{Buffer, BufferEvent};
use bd_client_stats_store::Collector;
use bd_log_primitives::{AnnotatedLogFields, LogType};
use bd_logger::verif_driver::pipeline;
use bd_logger::{LoggerHandle, MetadataProvider};
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
use bd_proto::protos::client::api::{ApiResponse, ConfigurationUpdate};
use bd_proto::protos::config::v1::config as cv1;
use bd_proto::protos::workflow::workflow as wp;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use protobuf::MessageField;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use time::OffsetDateTime;
use vh::{hash_of, Check, Rng, Scratch};

const PATIENCE: Duration = Duration::from_secs(20);
const CLASSES: [char; 4] = ['a', 'b', 'd', 'e'];

struct Platform;
impl MetadataProvider for Platform {
  fn timestamp(&self) -> anyhow::Result<OffsetDateTime> {
    Ok(OffsetDateTime::now_utc())
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    Ok(vec![])
  }
}

struct Clock(Mutex<OffsetDateTime>);
#[async_trait::async_trait]
impl bd_time::TimeProvider for Clock {
  fn now(&self) -> OffsetDateTime {
    *self.0.lock().unwrap()
  }
  async fn sleep(&self, d: time::Duration) {
    tokio::time::sleep(d.unsigned_abs()).await;
  }
}

struct Told;
impl bd_session::activity_based::Callbacks for Told {
  fn session_id_changed(&self, _: &str) {}
}

/// A workflow: so many logs of a class, then so many of another.., then it fires and begins anew.
#[derive(Clone, Debug, Hash)]
struct Flow {
  id: String,
  steps: Vec<(char, u32)>,
}

type At = (usize, u32);

impl Flow {
  fn step(&self, (pos, n): At, class: char) -> (At, bool) {
    let ahead = |pos: usize, n: u32| {
      if n < self.steps[pos].1 {
        ((pos, n), false)
      } else if pos + 1 < self.steps.len() {
        ((pos + 1, 0), false)
      } else {
        ((0, 0), true)
      }
    };
    if self.steps[pos].0 == class {
      ahead(pos, n + 1)
    } else if self.steps[0].0 == class {
      ahead(0, 1)
    } else {
      ((pos, n), false)
    }
  }

  fn proto(&self) -> wp::Workflow {
    use wp::workflow as wf;
    let mut states: Vec<wf::State> = (0 ..= self.steps.len()).map(|i| wf::State { id: i.to_string(), ..Default::default() }).collect();
    for (i, (class, n)) in self.steps.iter().enumerate() {
      let rule = wf::rule::Rule_type::RuleLogMatch(wf::RuleLogMatch { log_matcher: MessageField::some(begins(*class)), count: *n, ..Default::default() });
      let last = i + 1 == self.steps.len();
      let flush = wf::action::Action_type::ActionFlushBuffers(wf::action::ActionFlushBuffers { id: self.id.clone(), buffer_ids: vec!["t".into()], ..Default::default() });
      states[i].transitions = vec![wf::Transition {
        target_state_id: (i + 1).to_string(),
        rule: Some(wf::Rule { rule_type: Some(rule), ..Default::default() }).into(),
        actions: if last { vec![wf::Action { action_type: Some(flush), ..Default::default() }] } else { vec![] },
        ..Default::default()
      }];
    }
    wp::Workflow {
      id: self.id.clone(),
      states,
      execution: Some(wf::Execution { execution_type: Some(wf::execution::Execution_type::ExecutionExclusive(Default::default())), ..Default::default() }).into(),
      ..Default::default()
    }
  }
}

fn config(flows: &[Flow]) -> ApiResponse {
  let buffer = |id: &str, t: cv1::buffer_config::Type| cv1::BufferConfig {
    name: id.into(),
    id: id.into(),
    type_: t.into(),
    filters: CLASSES
      .iter()
      .map(|c| {
        use cv1::log_matcher::base_log_matcher::{Match_type as Base, MessageMatch, StringMatchType};
        use cv1::log_matcher::{BaseLogMatcher, Match_type};
        let m = MessageMatch { match_type: StringMatchType::PREFIX.into(), match_value: c.to_string(), ..Default::default() };
        let m = cv1::LogMatcher { match_type: Some(Match_type::BaseMatcher(BaseLogMatcher { match_type: Some(Base::MessageMatch(m)), ..Default::default() })), ..Default::default() };
        cv1::buffer_config::BufferFilter { id: c.to_string(), filter: Some(m).into(), ..Default::default() }
      })
      .collect(),
    buffer_sizes: Some(cv1::buffer_config::BufferSizes { volatile_buffer_size_bytes: 100_000, non_volatile_buffer_size_bytes: 400_000, ..Default::default() }).into(),
    ..Default::default()
  };
  let all = vec![buffer("c", cv1::buffer_config::Type::CONTINUOUS), buffer("t", cv1::buffer_config::Type::TRIGGER)];
  let sotw = StateOfTheWorld {
    buffer_config_list: Some(cv1::BufferConfigList { buffer_config: all, ..Default::default() }).into(),
    workflows_configuration: Some(wp::WorkflowsConfiguration { workflows: flows.iter().map(Flow::proto).collect(), ..Default::default() }).into(),
    ..Default::default()
  };
  ApiResponse {
    response_type: Some(Response_type::ConfigurationUpdate(ConfigurationUpdate { version_nonce: "v".into(), update_type: Some(Update_type::StateOfTheWorld(sotw)), ..Default::default() })),
    ..Default::default()
  }
}

/// What may be the case, and what may be found after a kill.
#[derive(Clone, Debug, Default)]
struct Model {
  /// The progress of all workflows together.
  now: Vec<Vec<At>>,
  found: Vec<Vec<At>>,
  /// The session and its last activity.
  session: Vec<(String, OffsetDateTime)>,
  session_found: Vec<(String, OffsetDateTime)>,
  fired: u64,
}

impl Model {
  fn another_session(&mut self, flows: usize) {
    self.now = vec![vec![(0, 0); flows]];
    self.found = self.now.clone();
  }
}

type Judged = Result<(), (&'static str, String)>;
fn bad(sig: &'static str, d: String) -> Judged {
  Err((sig, d))
}

/// How the uploader of metrics and the buffers answer a flush.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
  Done,
  Late(u64),
  Dropped,
}

struct Life<'a> {
  c: &'a Check,
  logger: bd_logger::Logger,
  buffers: Arc<Mutex<Vec<(String, Arc<Buffer>)>>>,
  consumer: Option<bd_buffer::CursorConsumer>,
  n: u64,
  loaded: bool,
  /// The order of the session read is not known before it was.
  met: bool,
}

impl Life<'_> {
  async fn call<T: Send + 'static>(&self, f: impl FnOnce(&LoggerHandle) -> T + Send + 'static) -> Result<T, (&'static str, String)> {
    let l = self.logger.new_logger_handle();
    match tokio::time::timeout(PATIENCE, tokio::task::spawn_blocking(move || f(&l))).await {
      Ok(Ok(x)) => Ok(x),
      Ok(Err(e)) => Err(("a call that panics", format!("{e}"))),
      Err(_) => Err(("a call that does not return", String::new())),
    }
  }

  /// The record of the newest log.
  async fn next(&mut self, at_once: bool) -> Result<Found, (&'static str, String)> {
    let t = Instant::now();
    loop {
      let b = self.buffers.lock().unwrap().iter().find(|b| b.0 == "c").map(|b| b.1.clone());
      if let Some(b) = &b {
        if self.consumer.is_none() {
          self.consumer = Some(b.create_continous_consumer().map_err(|e| ("a buffer that cannot be read", e.to_string()))?);
        }
      }
      let mut last = None;
      while let Some(consumer) = &mut self.consumer {
        let Ok(Ok(data)) = tokio::time::timeout(Duration::ZERO, consumer.read()).await else { break };
        last = Some(found("c", data).map_err(|e| ("a record that cannot be read", e))?);
        let _ = consumer.advance_read_cursor();
      }
      if let Some(f) = last.filter(|f| f.id == self.n.to_string()) {
        return Ok(f);
      }
      if at_once || t.elapsed() > PATIENCE {
        return Err(("a log that is not in its buffer", format!("log {}, at once: {at_once}", self.n)));
      }
      if let Some(b) = b {
        let _ = tokio::task::spawn_blocking(move || b.flush()).await;
      }
      tokio::time::sleep(Duration::from_micros(200)).await;
    }
  }

  /// The session that was used at an instant is one that may be.
  fn met(&mut self, m: &mut Model, id: &str, now: OffsetDateTime, s: &Setup) -> Judged {
    let fresh = |la: OffsetDateTime| now < la || now - la > s.limit;
    let known = m.session.iter().any(|s| s.0 == id);
    let right = if known { m.session.iter().any(|s| s.0 == id && !fresh(s.1)) } else { m.session.is_empty() || m.session.iter().any(|s| fresh(s.1)) };
    if !right {
      return bad("the session", format!("at {now} it is {id}, it may have been, with their last activity: {:?}, in this life known: {}", m.session, self.met));
    }
    let what = if known { "continued" } else { "begun" };
    self.c.count(&format!("sessions_{what}{}", if self.met { "" } else { "_by_the_next_life" }));
    if !self.met && known && m.session.iter().any(|s| fresh(s.1)) {
      self.c.count("sessions_that_might_have_ended");
    }
    m.session = vec![(id.to_string(), now)];
    if known {
      m.session_found.push((id.to_string(), now));
    } else {
      m.session_found = m.session.clone();
      m.another_session(s.flows.len());
    }
    self.met = true;
    Ok(())
  }
}

#[derive(Clone, Debug)]
struct Setup {
  flows: Vec<Flow>,
  limit: time::Duration,
  interval: u32,
}

/// One life of the process, which ends with a kill.
async fn life(c: &Check, dir: &Path, s: &Setup, mem: &Arc<vstore::Mem>, clock: &Arc<Clock>, m: &mut Model, r: &mut Rng, n: &mut u64, first: bool, story: &mut Vec<String>) -> Judged {
  let loader = ConfigLoader::new(dir);
  switches(&loader, &[("workflows.persistence_write_interval_ms", s.interval)], &[("workflows.enabled", true)]);
  let scope = Collector::default().scope("");
  let store = mem.store();
  let strategy = bd_session::activity_based::Strategy::new(s.limit, store.clone(), Arc::new(Told), clock.clone());
  let session = Arc::new(bd_session::Strategy::ActivityBased(strategy));
  let shutdown = ComponentShutdownTrigger::default();
  let targets = (Box::new(Idle) as Box<_>, Box::new(Idle) as Box<_>, Box::new(Idle) as Box<_>);
  let p = pipeline::build(dir, &loader, &scope, (512, 1 << 20), session.clone(), Arc::new(Platform), store, targets, shutdown.make_handle()).map_err(|e| ("a start that fails", e.to_string()))?;
  let pipeline::Parts { logger, mut config, manager, mut events, mut flushes, mut triggers, mut uploads, mut stats, run } = p;
  let buffers: Arc<Mutex<Vec<(String, Arc<Buffer>)>>> = Arc::default();
  let watch = async {
    while let Some(e) = events.recv().await {
      if let BufferEvent::ContinuousBufferCreated(id, b) | BufferEvent::TriggerBufferCreated(id, b) = &e.event {
        buffers.lock().unwrap().push((id.clone(), b.clone()));
      }
    }
    std::future::pending::<()>().await;
  };
  let wants = r.bool();
  let server = async {
    while let Some(u) = uploads.recv().await {
      match u {
        DataUpload::LogsUploadIntentRequest(t) => drop(t.response_tx.send(IntentResponse { uuid: t.uuid, decision: if wants { IntentDecision::UploadImmediately } else { IntentDecision::Drop } })),
        DataUpload::LogsUploadRequest(t) => drop(t.response_tx.send(UploadResponse { uuid: t.uuid, success: true })),
        _ => {},
      }
    }
    std::future::pending::<()>().await;
  };
  let pick = |r: &mut Rng| match r.below(6) {
    0 => Answer::Dropped,
    1 => Answer::Late(r.below(8)),
    _ => Answer::Done,
  };
  let (stat, flush) = (pick(r), pick(r));
  let (asked, answered, flushing) = (AtomicU64::new(0), AtomicU64::new(0), AtomicBool::new(false));
  let rest = async {
    tokio::join!(
      async { while triggers.recv().await.is_some() {} },
      async {
        while let Some(t) = stats.recv().await {
          asked.fetch_add(1, Ordering::SeqCst);
          if let Answer::Late(ms) = stat {
            tokio::time::sleep(Duration::from_millis(ms)).await;
          }
          answered.fetch_add(1, Ordering::SeqCst);
          if stat != Answer::Dropped {
            drop(t.map(|t| t.send(())));
          }
        }
      },
      async {
        match flush {
          Answer::Done => manager.process_flushes(flushes).await.unwrap(),
          Answer::Dropped => while flushes.recv().await.is_some() {},
          Answer::Late(ms) => {
            let (tx, rx) = tokio::sync::mpsc::channel(1);
            tokio::join!(async { drop(manager.process_flushes(rx).await) }, async {
              while let Some(f) = flushes.recv().await {
                tokio::time::sleep(Duration::from_millis(ms)).await;
                let _ = tx.send(f).await;
              }
              drop(tx);
            });
          },
        }
      }
    );
    std::future::pending::<()>().await;
  };
  let mut l = Life { c, logger, buffers: buffers.clone(), consumer: None, n: *n, loaded: false, met: false };
  story.push(format!("life: flushes of metrics {stat:?}, of buffers {flush:?}, uploads wanted {wants}"));
  let script = async {
    let steps = 2 + r.idx(14);
    let load_at = if r.chance(1, 4) { r.idx(3) } else { 0 };
    for step in 0 .. steps.max(load_at + 1) {
      if step == load_at {
        for _ in 0 .. 50 {
          tokio::task::yield_now().await;
        }
        if first {
          config.try_apply_config(&self::config(&s.flows)).await;
        } else {
          config.try_load_persisted_config().await;
        }
        // A new configuration is in force when the pipeline has taken note of it.
        for _ in 0 .. 200 {
          tokio::task::yield_now().await;
        }
        l.loaded = true;
      }
      let now = *clock.0.lock().unwrap();
      match r.below(12) {
        // A log.
        0 ..= 5 if l.loaded => {
          let (class, blocking) = (*r.pick(&CLASSES), r.chance(1, 3));
          l.n += 1;
          let (id, text) = (l.n.to_string(), format!("{class} message"));
          story.push(format!("log {id} {class}{}", if blocking { " blocking" } else { "" }));
          l.call(move |l| l.log(2, LogType::Normal, text.as_str().into(), vec![field("id", &id, false)], vec![], None, blocking)).await?;
          let blocking = blocking || {
            // What it saw is safe then as well.
            let flushed = r.chance(1, 4);
            if flushed {
              story.push("  flush".into());
              l.call(|l| l.flush_state(true)).await?;
              c.count("flushes_right_after_a_log");
            }
            flushed
          };
          let f = l.next(blocking && flush != Answer::Dropped).await?;
          story.push(format!("  in session {:.4} it fires {:?}", f.session, f.actions));
          l.met(m, &f.session, now, s)?;
          let (mut next, mut expected) = (BTreeSet::new(), BTreeSet::new());
          for p in &m.now {
            let (mut to, mut fired) = (vec![], BTreeSet::new());
            for (f, at) in s.flows.iter().zip(p) {
              let (at, fires) = f.step(*at, class);
              to.push(at);
              if fires {
                fired.insert(f.id.clone());
              }
            }
            if fired == f.actions.iter().cloned().collect() {
              next.insert(to);
            }
            expected.insert(fired);
          }
          if next.is_empty() {
            return bad("the progress of workflows", format!("log {}: fired {:?}, expected {expected:?}, progress before {:?}", l.n, f.actions, m.now));
          }
          if expected.len() > 1 {
            c.count("candidates_told_apart");
          }
          m.now = next.into_iter().collect();
          if blocking {
            m.found = m.now.clone();
          } else {
            m.found.extend(m.now.iter().cloned());
          }
          m.fired += f.actions.len() as u64;
          c.add("workflows_completed", f.actions.len() as u64);
          c.count(if blocking { "blocking_logs" } else { "logs" });
        },
        // A flush.
        6 | 7 | 8 => {
          let before = answered.load(Ordering::SeqCst);
          flushing.store(true, Ordering::SeqCst);
          let blocking = r.chance(5, 6);
          story.push(format!("flush{}", if blocking { "" } else { " in the background" }));
          l.call(move |l| l.flush_state(blocking)).await?;
          if blocking {
            if answered.load(Ordering::SeqCst) == before {
              return bad("a flush that did not wait for the metrics", format!("asked {}, answered {before}", asked.load(Ordering::SeqCst)));
            }
            if l.loaded {
              m.found = m.now.clone();
            }
            if l.met {
              m.session_found = m.session.clone();
            }
            c.count("flushes");
          } else {
            // Until it is done the clock stands still, as it is not known when it is.
            for _ in 0 .. 300 {
              tokio::task::yield_now().await;
            }
          }
        },
        // Time passes.
        9 => {
          let d = match r.below(7) {
            0 => s.limit,
            1 => s.limit + time::Duration::nanoseconds(1),
            2 => s.limit / 2,
            3 => time::Duration::seconds(14),
            4 => time::Duration::seconds(r.range(15, 17)),
            5 => s.limit - time::Duration::seconds(1),
            _ => time::Duration::milliseconds(r.range(1, 20_000)),
          };
          story.push(format!("{d} later"));
          *clock.0.lock().unwrap() += d;
        },
        // The application asks.
        10 => {
          let id = session.session_id();
          story.push(format!("session {id}"));
          l.met(m, &id, now, s)?;
        },
        _ if r.chance(1, 3) => {
          story.push("new session".into());
          l.call(|l| l.start_new_session()).await?;
          let id = session.session_id();
          if m.session.iter().any(|x| x.0 == id) {
            return bad("a session that is not new", id);
          }
          m.session = vec![(id, now)];
          m.session_found = m.session.clone();
          l.met = true;
          m.another_session(s.flows.len());
        },
        _ => {},
      }
    }
    *n = l.n;
    Ok(())
  };
  tokio::select! {
    e = script => e?,
    () = run => return bad("the pipeline ends", String::new()),
    () = async { tokio::join!(watch, server, rest); } => unreachable!(),
  }
  c.count("kills");
  // Nothing is shut down.
  std::mem::forget(shutdown);
  Ok(())
}

fn case(c: &Check, case: u64, r: &mut Rng) {
  let dir = Scratch::new();
  let flows = (0 .. 1 + r.idx(4))
    .map(|i| {
      let mut classes = CLASSES.to_vec();
      r.shuffle(&mut classes);
      classes.truncate(1 + r.idx(3));
      Flow { id: format!("f{i}"), steps: classes.into_iter().map(|c| (c, 1 + r.below(4) as u32)).collect() }
    })
    .collect();
  let setup = Setup { flows, limit: time::Duration::seconds(*r.pick(&[20, 60, 1800])), interval: *r.pick(&[0, 1, 1000, 3_600_000, 3_600_000]) };
  let mem = vstore::Mem::new(r.u64());
  let clock = Arc::new(Clock(Mutex::new(OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap())));
  let mut m = Model::default();
  m.another_session(setup.flows.len());
  let mut story = vec![format!("{setup:?}")];
  let mut n = 0;
  let lives = 2 + r.idx(4);
  for k in 0 .. lives {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let got = vh::no_panic(|| rt.block_on(life(c, dir.path(), &setup, &mem, &clock, &mut m, r, &mut n, k == 0, &mut story)));
    // What is being written is written.
    rt.shutdown_timeout(Duration::from_secs(5));
    let e = match got {
      Ok(Ok(())) => None,
      Ok(Err((sig, d))) => Some((sig, d)),
      Err(e) => Some(("a panic", e)),
    };
    if let Some((sig, d)) = e {
      c.violation(sig, &format!("case {case}, life {k}: {d}\n{story:#?}"));
      return;
    }
    m.found.sort();
    m.found.dedup();
    m.now = m.found.clone();
    m.session = m.session_found.clone();
    if m.now.len() > 1 {
      c.count("kills_after_progress_that_is_not_safe");
    } else if m.now[0].iter().any(|a| *a != (0, 0)) {
      c.count("kills_after_progress_that_is_safe");
    }
    if r.bool() {
      let d = match r.below(4) {
        0 => setup.limit,
        1 => setup.limit + time::Duration::nanoseconds(1),
        _ => time::Duration::milliseconds(r.range(1, 30_000)),
      };
      story.push(format!("{d} later"));
      *clock.0.lock().unwrap() += d;
    }
  }
  c.eval((m.fired > 0).then(|| hash_of(&story)));
  c.sample(|| format!("case {case}: {lives} lives, {n} logs, {story:?}"));
}

pub fn run(c: &Check) {
  c.rule("Each case: 2-5 lives of the real pipeline over one directory and store, each ended by dropping everything without a shutdown: 1-4 workflows of 1-3 steps that count logs, logs that may block, blocking flushes, a clock moved to and past the session's limit, and failing, late or lost flushes of metrics and buffers. After each log the session and the workflows it completes are compared with those that may be in force: all since the last that is safe. Non-trivial: a workflow was completed; distinct by the steps.");
  c.assume("What is being written to the state file at the time of the kill is written to its end (W06 has those that are cut off).");
  let limit = Duration::from_secs(c.n(10, 300));
  c.cases(c.n(400, 20_000), limit, |i, r| {
    let lanes: Vec<Rng> = (0 .. 4).map(|_| r.fork()).collect();
    std::thread::scope(|s| {
      for (k, mut r) in lanes.into_iter().enumerate() {
        s.spawn(move || case(c, 4 * i + k as u64, &mut r));
      }
    });
  });
}
