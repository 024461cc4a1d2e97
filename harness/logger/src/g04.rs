//! G04: the upload of buffers, over writes, configuration updates, triggers, failures and restarts.
use crate::g02::configure;
use bd_api::upload::UploadResponse;
use bd_api::{DataUpload, TriggerUpload};
use bd_buffer::buffer::RingBuffer as _;
use bd_buffer::{Manager, Producer};
use bd_client_common::fb::{make_log, root_as_log};
use bd_client_stats_store::Collector;
use bd_log_primitives::{log_level, LogFields, LogLevel, LogMessage, LogType};
use bd_logger::verif_driver::consumer;
use bd_proto::protos::config::v1::config::{buffer_config, BufferConfig, BufferConfigList};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::{mpsc, oneshot, Notify};
use tokio::time::Instant;
use vh::{Check, Rng, Scratch};

const SLACK: Duration = Duration::from_millis(3);
const HOUR: Duration = Duration::from_secs(3600);

struct NoLog;
impl bd_internal_logging::Logger for NoLog {
  fn log(&self, _: LogLevel, _: LogType, _: &str, _: LogFields) {}
}

/// A log as it was written.
#[derive(Clone, Debug)]
struct W {
  id: u32,
  at: Instant,
  size: usize,
  old: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
  Continuous,
  Trigger,
  Stream,
}

/// What became of a buffer from its creation until it was removed.
#[derive(Debug)]
struct Era {
  buffer: String,
  kind: Kind,
  w: Vec<W>,
  /// From when until when it was served, one for each start.
  lives: Vec<(Instant, Option<Instant>)>,
  requests: Vec<Request>,
  over: bool,
}

#[derive(Clone, Debug)]
struct Request {
  at: Instant,
  n: usize,
  life: usize,
  flags: Flags,
  no: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Flags {
  logs: u32,
  bytes: u32,
  deadline: u32,
  lookback: u32,
}

fn flags(r: &mut Rng) -> Flags {
  Flags {
    logs: *r.pick(&[0, 1, 2, 3, 5, 10, 1000]),
    bytes: *r.pick(&[1, 300, 1000, 1_000_000]),
    deadline: *r.pick(&[1, 50, 1000, 30_000]),
    lookback: *r.pick(&[0, 0, 3_600_000]),
  }
}

#[derive(Clone, Copy, Debug)]
struct Fixed {
  retries: u32,
  rate: u32,
  period: u32,
  stream: u32,
}

fn apply(loader: &ConfigLoader, f: &Flags, x: &Fixed) {
  configure(loader, &[
    ("log_uploader.batch_size", f.logs),
    ("log_uploader.batch_size_bytes", f.bytes),
    ("log_uploader.batch_deadline_ms", f.deadline),
    ("workflows.flush_buffer_lookback_ms", f.lookback),
    ("log_uploader.retry_count", x.retries),
    ("log_uploader.initial_retry_backoff_ms", 10),
    ("log_uploader.max_retry_backoff_ms", 100),
    ("upload_ratelimit.bytes_count_per_period", x.rate),
    ("upload_ratelimit.period_ms", x.period),
    ("buffers.stream_buffer_size_bytes", x.stream),
  ]);
}

#[derive(Clone, Debug)]
struct Attempt {
  uuid: String,
  logs: Vec<String>,
  at: Instant,
  /// When it was answered, and whether it was acknowledged.
  answered: Option<(Instant, bool)>,
}

/// A batch with all its attempts.
#[derive(Clone, Debug)]
struct Group {
  logs: Vec<String>,
  at: Instant,
  /// When the uploader was told of its end.
  end: Option<Instant>,
}

#[derive(Default)]
struct Server {
  attempts: RefCell<Vec<Attempt>>,
  frozen: Cell<bool>,
  thaw: Notify,
  /// How often it acknowledges, fails, loses and leaves unanswered.
  mix: Cell<[u64; 4]>,
  delays: Cell<[u64; 2]>,
  release: Notify,
}

impl Server {
  async fn thawed(&self) {
    while self.frozen.get() {
      self.thaw.notified().await;
    }
  }
  fn freeze(&self, on: bool) {
    self.frozen.set(on);
    if !on {
      self.thaw.notify_waiters();
    }
  }
}

async fn serve(s: Rc<Server>, mut rx: mpsc::Receiver<DataUpload>, mut r: Rng) {
  loop {
    s.thawed().await;
    let Some(up) = rx.recv().await else { return };
    s.thawed().await;
    let DataUpload::LogsUploadRequest(up) = up else { panic!("not logs") };
    let logs = up.payload.logs.iter().map(|l| root_as_log(l).ok().and_then(|l| l.message_as_string_data().map(|m| m.data().split(' ').next().unwrap().to_string())).unwrap_or_else(|| format!("undecodable {l:?}"))).collect();
    let i = s.attempts.borrow().len();
    s.attempts.borrow_mut().push(Attempt { uuid: up.uuid.clone(), logs, at: Instant::now(), answered: None });
    let mix = s.mix.get();
    let mut k = r.below(mix.iter().sum());
    let what = mix.iter().position(|m| if k < *m { true } else { k -= m; false }).unwrap();
    let d = s.delays.get();
    let delay = Duration::from_millis(if r.bool() { d[0] } else { d[1] });
    let s = s.clone();
    tokio::task::spawn_local(async move {
      if what == 3 {
        s.release.notified().await;
      } else {
        tokio::time::sleep(delay).await;
      }
      s.thawed().await;
      s.attempts.borrow_mut()[i].answered = Some((Instant::now(), what == 0));
      if what < 2 {
        drop(up.response_tx.send(UploadResponse { success: what == 0, uuid: up.uuid }));
      }
    });
  }
}

/// What the driver keeps.
struct World {
  dir: Scratch,
  fixed: Fixed,
  flags: Flags,
  flag_changes: Vec<Instant>,
  history: Vec<(Instant, Flags)>,
  freezes: Vec<(Instant, Instant)>,
  eras: Vec<Era>,
  alive: BTreeMap<String, usize>,
  responses: Rc<RefCell<HashMap<usize, Instant>>>,
  requests: Vec<(Instant, Vec<String>, usize)>,
  next: u32,
  trace: Vec<String>,
  config: (Vec<String>, bool),
  t0: Instant,
  cut: bool,
}

impl World {
  fn note(&mut self, s: String) {
    let t = self.t0.elapsed().as_secs_f64() * 1000.0;
    self.trace.push(format!("{t:.0}: {s}"));
  }
}

fn kind(id: &str) -> Kind {
  match &id[.. 1] {
    "c" => Kind::Continuous,
    "t" => Kind::Trigger,
    _ => Kind::Stream,
  }
}

pub fn run(c: &Check) {
  vh::logcap::install(log::LevelFilter::Off);
  c.rule("Each case: 1-4 lives of the buffer manager and the upload manager on one directory; 5-40 steps each: bursts of logs to continuous, trigger and streaming buffers, waits, triggers, configuration updates that add and remove buffers while the server is not served, changed limits; a server that acknowledges, fails, loses or leaves open every attempt. Every write, attempt, answer and response is recorded with its time and judged offline per buffer: the content and order of batches against what was written and acknowledged, their size, the moment of their upload, what a restart sends again, what a trigger covers and when it is answered. Distinct by batches and lives.");
  c.assume("Time is tokio's paused clock; what falls within 3 ms of a deadline, answer or shutdown is taken either way.");
  let limit = Duration::from_secs(c.n(14, 400));
  c.cases(c.n(2500, 100_000), limit, |i, r| {
    drop(vh::last_panic());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, case(c, i, r));
    let p = vh::last_panic();
    c.ensure(p.is_empty(), "a task panics", || format!("case {i}: {p}"));
  });
}

fn encode(id: &str, pad: usize, old: bool) -> Vec<u8> {
  let mut out = vec![];
  let t = time::OffsetDateTime::now_utc() - if old { time::Duration::hours(2) } else { time::Duration::ZERO };
  let mut b = flatbuffers::FlatBufferBuilder::new();
  make_log(&mut b, log_level::INFO, LogType::Normal, &LogMessage::String(format!("{id} {}", "x".repeat(pad))), &vec![], "s", t, std::iter::empty(), std::iter::empty(), |l| { out = l.to_vec(); Ok(()) }).unwrap();
  out
}

fn list(ids: &[String]) -> BufferConfigList {
  BufferConfigList {
    buffer_config: ids
      .iter()
      .map(|id| BufferConfig {
        name: id.clone(),
        id: id.clone(),
        type_: if kind(id) == Kind::Trigger { buffer_config::Type::TRIGGER } else { buffer_config::Type::CONTINUOUS }.into(),
        buffer_sizes: Some(buffer_config::BufferSizes { volatile_buffer_size_bytes: 60_000, non_volatile_buffer_size_bytes: 300_000, ..Default::default() }).into(),
        ..Default::default()
      })
      .collect(),
    ..Default::default()
  }
}

async fn case(c: &Check, case: u64, r: &mut Rng) {
  // At an equal instant a period of the rate limit is not over.
  tokio::time::advance(Duration::from_nanos(500)).await;
  let lives = *r.pick(&[1, 1, 2, 3, 4]);
  let mut w = World {
    dir: Scratch::new(),
    fixed: Fixed { retries: *r.pick(&[0, 1, 3]), rate: *r.pick(&[10_000_000, 10_000_000, 10_000_000, 400]), period: *r.pick(&[10, 1000]), stream: 100_000 },
    flags: flags(r),
    flag_changes: vec![],
    history: vec![],
    freezes: vec![],
    eras: vec![],
    alive: BTreeMap::new(),
    responses: Rc::default(),
    requests: vec![],
    next: 0,
    trace: vec![],
    config: (vec!["c0".into(), "t0".into()], false),
    t0: Instant::now(),
    cut: false,
  };
  let server = Rc::new(Server::default());
  let mut skipped = 0;
  for life in 0 .. lives {
    match live(c, case, r, &mut w, &server, life + 1 == lives).await {
      Some(n) => skipped += n,
      None => return,
    }
  }
  judge(c, case, &w, &server, skipped);
}

/// One life of the managers. Returns the number of logs that were counted as too old.
async fn live(c: &Check, case: u64, r: &mut Rng, w: &mut World, server: &Rc<Server>, last: bool) -> Option<u64> {
  let loader = ConfigLoader::new(&w.dir.path().join("rt"));
  w.flags = flags(r);
  apply(&loader, &w.flags, &w.fixed);
  w.history.push((Instant::now(), w.flags));
  let collector = Collector::default();
  let dir = w.dir.path().join("buffers");
  std::fs::create_dir_all(&dir).unwrap();
  let (manager, events) = Manager::new(dir, &collector.scope(""), &loader);
  let (data, rx) = mpsc::channel(1);
  let (triggers, trigger_rx) = mpsc::channel(10);
  let shutdown = ComponentShutdownTrigger::default();
  server.mix.set(*r.pick(&[[1, 0, 0, 0], [4, 1, 1, 0], [4, 1, 0, 1], [1, 2, 1, 0], [0, 1, 1, 1], [0, 0, 0, 1]]));
  server.delays.set(*r.pick(&[[0, 0], [0, 10], [1, 1000], [5000, 5000]]));
  let serving = tokio::task::spawn_local(serve(server.clone(), rx, r.fork()));
  let mut uploader = {
    let (loader, scope, shutdown) = (loader.clone(), collector.scope(""), shutdown.make_shutdown());
    tokio::spawn(async move { consumer::run(data, &loader, shutdown, events, trigger_rx, &scope, Arc::new(NoLog)).await })
  };
  tokio::task::yield_now().await;
  for e in w.alive.values() {
    // Those that come back are served from the first configuration on.
    assert!(!w.eras[*e].over);
  }
  let mut producers: HashMap<String, Producer> = HashMap::new();
  let mut first = true;
  let steps = 5 + r.below(36);
  w.note("start".into());
  for step in 0 ..= steps {
    if uploader.is_finished() {
      c.violation("the upload manager stops", &format!("case {case}: {:?} {}: {:#?}", uploader.await, vh::last_panic(), w.trace));
      return None;
    }
    let what = if step == 0 { 9 } else { r.below(10) };
    match what {
      0 ..= 3 => {
        let ids: Vec<String> = w.alive.keys().cloned().collect();
        if ids.is_empty() {
          continue;
        }
        let id = r.pick(&ids).clone();
        let e = w.alive[&id];
        let most = *r.pick(&[1, 3, 8]);
        let n = 1 + r.below(most);
        if w.eras[e].w.len() > 200 {
          continue;
        }
        let Some(p) = producers.get_mut(&id) else { continue };
        let mut refused = 0;
        for _ in 0 .. n {
          w.next += 1;
          let old = r.chance(1, 4);
          let bytes = encode(&format!("{id}#{}", w.next), *r.pick(&[0, 0, 20, 300]), old);
          if p.write(&bytes).is_ok() {
            w.eras[e].w.push(W { id: w.next, at: Instant::now(), size: bytes.len(), old });
          } else {
            refused += 1;
          }
        }
        if kind(&id) == Kind::Continuous {
          manager.buffers()[&id].1.flush();
        }
        w.note(format!("{n} logs to {id} until {}, {refused} refused", w.next));
        if refused > 0 {
          c.add("writes refused", refused);
          if !c.ensure(kind(&id) == Kind::Trigger, "a write is refused", || format!("case {case}: {:#?}", w.trace)) {
            return None;
          }
        }
        if r.bool() {
          tokio::task::yield_now().await;
        }
      },
      4 | 5 => {
        let d = *r.pick(&[0, 1, 7, 60, 1000, 31_000, 100_000]);
        tokio::time::sleep(Duration::from_millis(d)).await;
      },
      6 | 7 => {
        let mut ids: Vec<String> = vec![];
        for _ in 0 .. 1 + r.below(2) {
          let id = (*r.pick(&["t0", "t0", "t1", "t2", "c0", "zz"])).to_string();
          if !ids.contains(&id) {
            ids.push(id);
          }
        }
        let (tx, rx) = oneshot::channel();
        let no = w.requests.len();
        let at = Instant::now();
        w.requests.push((at, ids.clone(), no));
        for id in &ids {
          if kind(id) == Kind::Trigger {
            if let Some(e) = w.alive.get(id) {
              let flags = w.flags;
              let e = &mut w.eras[*e];
              let q = Request { at, n: e.w.len(), life: e.lives.len() - 1, flags, no };
              e.requests.push(q);
            }
          }
        }
        let responses = w.responses.clone();
        tokio::task::spawn_local(async move {
          if rx.await.is_ok() {
            responses.borrow_mut().insert(no, Instant::now());
          }
        });
        w.note(format!("trigger {no} of {ids:?}"));
        if triggers.send(TriggerUpload::new(ids, tx)).await.is_err() {
          c.violation("the upload manager stops", &format!("case {case}: {:#?}", w.trace));
          return None;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
      },
      8 => {
        w.flags = flags(r);
        apply(&loader, &w.flags, &w.fixed);
        w.flag_changes.push(Instant::now());
        w.history.push((Instant::now(), w.flags));
        w.note(format!("limits {:?}", w.flags));
        if r.bool() {
          server.mix.set(*r.pick(&[[1, 0, 0, 0], [4, 1, 1, 0], [1, 2, 1, 0], [0, 1, 1, 1]]));
        }
      },
      _ => {
        if !first && r.chance(1, 3) {
          continue;
        }
        // A new configuration; the first one after a restart keeps what there was, as the cached one does.
        let mut ids = w.config.0.clone();
        let mut stream = w.config.1;
        if !first || w.eras.is_empty() {
          for id in ["c0", "c1", "t0", "t1", "t2"] {
            if r.chance(1, 4) {
              if let Some(i) = ids.iter().position(|x| x == id) {
                ids.remove(i);
              } else {
                ids.push(id.to_string());
              }
            }
          }
          stream ^= r.chance(1, 3);
        }
        let gone: Vec<String> = w.alive.keys().filter(|id| if kind(id) == Kind::Stream { !stream } else { !ids.contains(id) }).cloned().collect();
        let from = Instant::now();
        let freeze = r.bool();
        server.freeze(freeze);
        for id in &gone {
          producers.remove(id);
        }
        w.note(format!("configuration {ids:?}{}{}", if stream { " streaming" } else { "" }, if freeze { " while not served" } else { "" }));
        let r = tokio::time::timeout(HOUR, manager.update_from_config(&list(&ids), stream)).await;
        if freeze {
          c.count("updates while the server is not served");
        }
        let streaming = match r {
          Ok(Ok(s)) => s,
          x => {
            c.violation(if x.is_err() { "an update does not end" } else { "an update fails" }, &format!("case {case}: {:?}: {:#?}", x.map(|x| x.map(|_| ())), w.trace));
            return None;
          },
        };
        server.freeze(false);
        let now = Instant::now();
        if freeze || now > from {
          w.freezes.push((from, now));
        }
        for id in gone {
          let e = w.alive.remove(&id).unwrap();
          let e = &mut w.eras[e];
          e.over = true;
          if let Some(l) = e.lives.last_mut() {
            l.1.get_or_insert(from);
          }
        }
        let all = manager.buffers();
        let mut known: Vec<String> = all.keys().cloned().collect();
        known.sort();
        let mut want = ids.clone();
        want.sort();
        if !c.ensure(known == want && streaming.is_some() == stream, "the buffers after an update", || format!("case {case}: {known:?}, {}: {:#?}", streaming.is_some(), w.trace)) {
          return None;
        }
        if stream {
          known.push("s".into());
        }
        for id in known {
          let e = match w.alive.get(&id) {
            Some(e) => *e,
            None => {
              w.eras.push(Era { buffer: id.clone(), kind: kind(&id), w: vec![], lives: vec![], requests: vec![], over: false });
              w.alive.insert(id.clone(), w.eras.len() - 1);
              w.eras.len() - 1
            },
          };
          let e = &mut w.eras[e];
          if e.lives.last().is_none_or(|l| l.1.is_some()) {
            e.lives.push((now, None));
          }
          if !producers.contains_key(&id) {
            let p = match all.get(&id) {
              Some((_, b)) => b.new_thread_local_producer().unwrap(),
              None => streaming.clone().unwrap().register_producer().unwrap(),
            };
            producers.insert(id, p);
          }
        }
        w.config = (ids, stream);
        first = false;
      },
    }
  }
  if last {
    // Everything is answered from now on, and what is to be uploaded is.
    server.mix.set([1, 0, 0, 0]);
    server.delays.set([0, 0]);
    let mut still = 0;
    for _ in 0 .. 400 {
      let before = server.attempts.borrow().len();
      server.release.notify_waiters();
      tokio::time::sleep(Duration::from_secs(31)).await;
      still = if before == server.attempts.borrow().len() { still + 1 } else { 0 };
      if still == 5 {
        break;
      }
    }
    w.note("all is done".into());
  } else {
    w.note("shutdown".into());
  }
  let now = Instant::now();
  let old = collector.scope("").counter("old_logs_dropped").get();
  let end = async {
    shutdown.shutdown().await;
    (&mut uploader).await
  };
  match tokio::time::timeout(HOUR, end).await {
    Ok(Ok(Ok(()))) => {},
    x => {
      c.violation(if x.is_err() { "a shutdown does not end" } else { "the upload manager fails" }, &format!("case {case}: {:?} {}: {:#?}", x.map(|_| ()), vh::last_panic(), w.trace));
      return None;
    },
  }
  if !c.ensure(now.elapsed() < Duration::from_secs(1), "a shutdown takes long", || format!("case {case}: {:?}: {:#?}", now.elapsed(), w.trace)) {
    return None;
  }
  if !last {
    w.cut = true;
    for e in w.alive.values() {
      if let Some(l) = w.eras[*e].lives.last_mut() {
        l.1.get_or_insert(now);
      }
    }
    // What was streamed and not uploaded is not kept.
    if let Some(e) = w.alive.remove("s") {
      w.eras[e].over = true;
    }
  }
  drop(producers);
  drop(manager);
  serving.abort();
  let _ = serving.await;
  server.release.notify_waiters();
  tokio::time::sleep(Duration::from_secs(10)).await;
  c.count("lives");
  Some(old)
}

// ------------------------------------------------------------------------------------ the oracle

fn judge(c: &Check, case: u64, w: &World, server: &Server, skipped: u64) {
  let attempts = server.attempts.borrow();
  let show = |what: String| {
    let mut lines = w.trace.iter().map(|t| (t.split(':').next().unwrap().parse::<u64>().unwrap(), t.clone())).collect::<Vec<_>>();
    for a in attempts.iter() {
      let ms = |t: Instant| t.duration_since(w.t0).as_millis() as u64;
      lines.push((ms(a.at), format!("{}: attempt {} of {:?}, {}", ms(a.at), &a.uuid[.. 4], a.logs, a.answered.map_or("no answer".to_string(), |(t, y)| format!("{} at {}", if y { "acknowledged" } else { "failed" }, ms(t))))));
    }
    for (no, t) in w.responses.borrow().iter() {
      let t = t.duration_since(w.t0).as_millis() as u64;
      lines.push((t, format!("{t}: trigger {no} is answered")));
    }
    lines.sort_by_key(|x| x.0);
    format!("case {case}: {what}; {:?}\n{}", w.fixed, lines.into_iter().map(|x| x.1).collect::<Vec<_>>().join("\n"))
  };
  // Attempts to batches.
  let mut groups: Vec<Group> = vec![];
  let mut by: HashMap<&str, (usize, u32)> = HashMap::new();
  for a in attempts.iter() {
    let g = match by.get_mut(&a.uuid[..]) {
      Some((g, n)) => {
        *n += 1;
        *g
      },
      None => {
        groups.push(Group { logs: a.logs.clone(), at: a.at, end: None });
        by.insert(&a.uuid, (groups.len() - 1, 1));
        groups.len() - 1
      },
    };
    if !c.ensure(groups[g].logs == a.logs && !a.logs.is_empty(), "what a retry carries", || show(format!("{a:?}"))) {
      return;
    }
    if let Some((t, yes)) = a.answered {
      if yes || by[&a.uuid[..]].1 > w.fixed.retries {
        groups[g].end = Some(t);
      }
    }
  }
  let mut per: HashMap<usize, Vec<Group>> = HashMap::new();
  let era_of: HashMap<String, usize> = w.eras.iter().enumerate().flat_map(|(i, e)| e.w.iter().map(move |x| (format!("{}#{}", e.buffer, x.id), i))).collect();
  for g in groups {
    let eras: HashSet<Option<&usize>> = g.logs.iter().map(|l| era_of.get(l)).collect();
    let one = eras.into_iter().collect::<Vec<_>>();
    match one[..] {
      [Some(e)] => per.entry(*e).or_default().push(g),
      _ => {
        c.ensure(false, "what a batch carries", || show(format!("{g:?} is of no one buffer")));
        return;
      },
    }
  }
  let mut key = vec![];
  let mut old = 0;
  let mut sure = true;
  for (i, e) in w.eras.iter().enumerate() {
    let gs = per.remove(&i).unwrap_or_default();
    key.push((e.buffer.clone(), e.lives.len(), gs.iter().map(|g| g.logs.len()).collect::<Vec<_>>()));
    c.add(&format!("{:?} batches", e.kind), gs.len() as u64);
    let bad = match e.kind {
      Kind::Trigger => {
        let x = trigger(c, w, e, &gs, &mut old, &mut sure);
        x.err()
      },
      _ => continuous(c, w, e, &gs).err(),
    };
    if let Some((sig, what)) = bad {
      c.ensure(false, sig, || show(format!("buffer {}: {what}; written {:?}", e.buffer, e.w.iter().map(|x| (x.id, x.size, x.old)).collect::<Vec<_>>())));
      return;
    }
  }
  // A trigger of nothing that is there is answered at once.
  for (at, ids, no) in &w.requests {
    if ids.iter().all(|id| kind(id) != Kind::Trigger) {
      let a = w.responses.borrow().get(no).copied();
      if !c.ensure(a.is_some_and(|a| a - *at <= SLACK), "the answer of a trigger", || show(format!("trigger {no} of {ids:?} is answered {a:?}"))) {
        return;
      }
    }
  }
  if sure && !w.cut {
    c.ensure(old == skipped, "what is counted as too old", || show(format!("{skipped} are counted, {old} were skipped")));
  }
  c.eval(Some(vh::hash_of(&key)));
  c.sample(|| format!("case {case}: {} buffers, {} attempts, {} triggers", w.eras.len(), attempts.len(), w.requests.len()));
}

type Bad = (&'static str, String);

fn index(e: &Era, log: &str) -> usize {
  let id: u32 = log.split('#').nth(1).unwrap().parse().unwrap();
  e.w.iter().position(|x| x.id == id).unwrap()
}

/// Whether the moment of something due at `t` and seen at `seen` can be judged.
fn quiet(w: &World, from: Instant, seen: Instant) -> bool {
  w.fixed.rate > 1_000_000 && !w.freezes.iter().any(|f| f.0 <= seen + SLACK && f.1 + SLACK >= from)
}

fn continuous(c: &Check, w: &World, e: &Era, gs: &[Group]) -> Result<(), Bad> {
  let stream = e.kind == Kind::Stream;
  let mut next = 0;
  let mut last: Option<(usize, &Group, usize)> = None; // life, group, start
  for g in gs {
    let at = index(e, &g.logs[0]);
    let n = g.logs.len();
    // One sent just before its buffer was no longer served may be taken later.
    let life = e.lives.iter().rposition(|l| l.0 <= g.at).unwrap_or(0);
    let all: Vec<String> = e.w[at ..].iter().take(n).map(|x| format!("{}#{}", e.buffer, x.id)).collect();
    if all != g.logs {
      return Err(("the order of a batch", format!("{:?}", g.logs)));
    }
    let mut idle = e.lives[life].0;
    match last {
      None => {
        if at != 0 {
          return Err(("the first batch", format!("{:?}", g.logs)));
        }
      },
      Some((l, p, start)) if l == life => {
        let Some(end) = p.end.filter(|t| *t <= g.at) else {
          return Err(("a batch before the end of the one before", format!("{:?} at {:?}", g.logs, g.at - w.t0)));
        };
        if at != start + p.logs.len() {
          return Err(("the batch after another", format!("{:?} after {:?}", g.logs, p.logs)));
        }
        idle = idle.max(end);
      },
      Some((l, p, start)) => {
        c.count("first batches after a restart");
        let down = e.lives[l].1.unwrap();
        let (again, done) = (at == start, at == start + p.logs.len());
        let ok = match p.end {
          Some(t) if t + SLACK < down => done,
          Some(t) if t <= down + SLACK => again || done,
          _ => again,
        };
        if !ok {
          return Err(("what a restart sends", format!("{:?} after {:?}, which ended {:?} with the shutdown at {:?}", g.logs, p.logs, p.end.map(|t| t - w.t0), down - w.t0)));
        }
        if again {
          c.count("batches sent again after a restart");
        }
      },
    }
    if e.lives[life].1.is_some_and(|t| g.at > t + SLACK) && quiet(w, g.at, g.at) {
      return Err(("a batch of a buffer that is not served", format!("{:?}", g.logs)));
    }
    if stream {
      if n != 1 {
        return Err(("the size of a streamed batch", format!("{:?}", g.logs)));
      }
      let due = idle.max(e.w[at].at);
      if quiet(w, due, g.at) && g.at > due + SLACK {
        return Err(("the moment of a streamed log", format!("{:?} is due at {:?}", g.logs, due - w.t0)));
      }
    } else {
      let t = |i: usize| idle.max(e.w[i].at);
      let changed = w.flag_changes.iter().any(|f| *f + SLACK >= t(at).min(idle) && *f <= g.at);
      // The limits at the time: those in force are known when none changed; a life begins with its own.
      if let (false, Some(f)) = (changed, flags_at(w, g.at)) {
        let mut bytes = 0;
        let reach = (at .. e.w.len()).position(|i| {
          bytes += e.w[i].size;
          bytes >= f.bytes as usize || i - at + 1 >= f.logs as usize
        });
        let dl = t(at) + Duration::from_millis(f.deadline.into());
        if reach.is_some_and(|k| n > k + 1) {
          return Err(("the size of a batch", format!("{:?} with {f:?}", g.logs)));
        }
        let full = reach.is_some_and(|k| n == k + 1);
        let due = if full { t(at + n - 1).min(dl) } else { dl };
        let late = if full { t(at + n - 1) } else { dl };
        if quiet(w, due, g.at) {
          c.count(if full { "batches that were full" } else { "batches at their deadline" });
          if full && t(at + n - 1) > dl + SLACK {
            return Err(("a batch after its deadline", format!("{:?} with {f:?}", g.logs)));
          }
          if g.at + SLACK < due || g.at > late + SLACK {
            return Err(("the moment of a batch", format!("{:?} at {:?}, due at {:?}, with {f:?}", g.logs, g.at - w.t0, due - w.t0)));
          }
          if !full {
            if t(at + n - 1) > dl + SLACK {
              return Err(("what a batch holds at its deadline", format!("{:?} with {f:?}", g.logs)));
            }
            if at + n < e.w.len() && t(at + n) + SLACK < dl {
              return Err(("what a batch holds at its deadline", format!("{:?} without the next, with {f:?}", g.logs)));
            }
          }
        }
      }
    }
    next = at + n;
    last = Some((life, g, at));
  }
  if !e.over {
    let (done, life) = last.map_or((true, 0), |(l, p, _)| (p.end.is_some(), l));
    if next != e.w.len() || !done || (life + 1 != e.lives.len() && !e.w.is_empty() && last.is_some_and(|(l, p, _)| p.end.is_none_or(|t| t > e.lives[l].1.unwrap() + SLACK))) {
      return Err(("what is never uploaded", format!("{:?}", e.w[next.min(e.w.len()) ..].iter().map(|x| x.id).collect::<Vec<_>>())));
    }
    c.add("logs uploaded from continuous buffers", next as u64);
  }
  Ok(())
}

fn flags_at(w: &World, t: Instant) -> Option<Flags> {
  w.history.iter().rev().find(|h| h.0 <= t).map(|h| h.1)
}

/// The batches of a request for the logs from `from` on: what each holds and where it ends.
fn chunks(e: &Era, from: usize, q: &Request, old: &mut u64) -> Vec<(Vec<String>, usize)> {
  let mut out = vec![];
  let (mut now, mut bytes) = (vec![], 0);
  for i in from .. q.n {
    let x = &e.w[i];
    if q.flags.lookback > 0 && x.old {
      *old += 1;
      continue;
    }
    now.push(format!("{}#{}", e.buffer, x.id));
    bytes += x.size;
    if bytes >= q.flags.bytes as usize || now.len() >= q.flags.logs as usize {
      out.push((std::mem::take(&mut now), i + 1));
      bytes = 0;
    }
  }
  if !now.is_empty() {
    out.push((now, q.n));
  }
  out
}

#[derive(Clone)]
struct At {
  ptr: usize,
  g: usize,
  q: usize,
  busy: Option<(Instant, usize)>,
  old: u64,
  sure: bool,
}

fn trigger(c: &Check, w: &World, e: &Era, gs: &[Group], old: &mut u64, sure: &mut bool) -> Result<(), Bad> {
  let mut worst: (usize, Bad) = (0, ("what no trigger covers", format!("{:?}", gs.iter().map(|g| &g.logs).collect::<Vec<_>>())));
  let start = At { ptr: 0, g: 0, q: 0, busy: None, old: 0, sure: true };
  let mut todo = vec![start];
  while let Some(s) = todo.pop() {
    if s.q == e.requests.len() {
      if s.g == gs.len() {
        *old += s.old;
        *sure &= s.sure;
        c.add("triggers", e.requests.len() as u64);
        c.add("logs uploaded by triggers", gs.iter().map(|g| g.logs.len() as u64).sum());
        return Ok(());
      }
      if s.g >= worst.0 {
        worst = (s.g, ("what no trigger covers", format!("{:?}", gs[s.g].logs)));
      }
      continue;
    }
    match step(w, e, gs, &s) {
      Ok(more) => todo.extend(more),
      Err(b) => {
        if s.q + s.g >= worst.0 {
          worst = (s.q + s.g, b);
        }
      },
    }
  }
  Err(worst.1)
}

fn step(w: &World, e: &Era, gs: &[Group], s: &At) -> Result<Vec<At>, Bad> {
  let q = &e.requests[s.q];
  let mut out = vec![];
  let down = e.lives[q.life].1;
  if let Some((until, life)) = s.busy {
    if life == q.life && until + SLACK >= q.at {
      // The one before is not over: this one is not acted on.
      out.push(At { q: s.q + 1, ..s.clone() });
      if until > q.at + SLACK {
        return Ok(out);
      }
    }
  }
  let mut skipped = 0;
  let want = chunks(e, s.ptr, q, &mut skipped);
  let changed = w.flag_changes.iter().any(|f| *f >= q.at);
  let mut got = 0;
  let mut end = q.at;
  let mut open = false;
  let mut ptr = s.ptr;
  let mut steady = true;
  // Consumes the batches that are there.
  let mut flat: Vec<(String, usize)> = want.iter().flat_map(|(l, _)| l.iter().map(|x| (x.clone(), index(e, x) + 1))).collect();
  let total = flat.len();
  while let Some(g) = gs.get(s.g + got) {
    if flat.is_empty() || open {
      break;
    }
    // One that is later belongs to another trigger.
    if down.is_some_and(|d| g.at > d + Duration::from_secs(5)) {
      break;
    }
    if down.is_some_and(|d| g.at > d + SLACK) && quiet(w, g.at, g.at) {
      return Err(("a batch of a buffer that is not served", format!("{:?}", g.logs)));
    }
    // Limits that change meanwhile change how the rest is cut.
    let still = !changed || !w.flag_changes.iter().any(|f| *f >= q.at && *f <= g.at + SLACK);
    steady &= still;
    let n = g.logs.len();
    if n > flat.len() || flat[.. n].iter().map(|x| &x.0).ne(&g.logs) {
      if got == 0 && !(down.is_none() && !e.over) {
        break;
      }
      return Err(("what a trigger covers", format!("{:?} instead of {:?}, for trigger {}", g.logs, &flat, q.no)));
    }
    if steady && g.logs != want[got].0 {
      return Err(("how a trigger's logs are cut", format!("{:?} instead of {:?} for trigger {}, with {:?}", g.logs, want[got].0, q.no, q.flags)));
    }
    if g.at + SLACK < end {
      return Err(("a batch before the end of the one before", format!("{:?}", g.logs)));
    }
    if quiet(w, end, g.at) && g.at > end + SLACK {
      if got == 0 {
        break;
      }
      return Err(("the moment of a trigger's batch", format!("{:?}, for trigger {}", g.logs, q.no)));
    }
    ptr = flat[n - 1].1;
    flat.drain(.. n);
    got += 1;
    match g.end {
      Some(t) => end = t,
      None => open = true,
    }
  }
  let cut = open || !flat.is_empty();
  let full = At { g: s.g + got, q: s.q + 1, ..s.clone() };
  if !cut {
    // All of it went.
    let a = w.responses.borrow().get(&q.no).copied();
    let dead = down.is_some_and(|d| end + SLACK >= d);
    if !dead && a.is_none_or(|a| a + SLACK < end) {
      return Err(("the answer of a trigger", format!("trigger {} is answered {:?}, its upload ends at {:?}", q.no, a.map(|a| a - w.t0), end - w.t0)));
    }
    if !dead && total == 0 && w.requests[q.no].1.len() == 1 && a.is_some_and(|a| a > q.at + SLACK) {
      return Err(("the answer of a trigger", format!("trigger {} of nothing is answered late", q.no)));
    }
    if !dead && w.requests[q.no].1.len() == 1 && a.is_some_and(|a| a > end + SLACK) {
      return Err(("the answer of a trigger", format!("trigger {} is answered late", q.no)));
    }
    out.push(At { ptr: q.n, busy: Some((end, q.life)), old: s.old + skipped, ..full.clone() });
    // Just before the end of a life the last part may not have been looked at.
    if dead {
      out.push(At { ptr, busy: Some((end, q.life)), sure: false, ..full });
    }
  } else {
    // It may only be cut short with the life of the buffer.
    let Some(d) = down else {
      return Err(("what a trigger does not upload", format!("{flat:?}, for trigger {}", q.no)));
    };
    let stalled = open || end + SLACK >= d || w.fixed.rate < 1_000_000 || w.freezes.iter().any(|f| f.0 <= d && f.1 + SLACK >= end);
    if !stalled {
      return Err(("what a trigger does not upload", format!("{flat:?}, for trigger {}", q.no)));
    }
    let busy = Some((d + HOUR, q.life));
    // The batch at hand may be gone with it, and no more.
    out.push(At { ptr, busy, sure: false, ..full.clone() });
    if !open {
      // With other limits, the one at hand could be of any size within them.
      let mut ends: Vec<usize> = if steady && !changed { want.get(got).map(|x| x.1).into_iter().collect() } else { (1 ..= flat.len()).map(|k| flat[k - 1].1).collect() };
      ends.dedup();
      for p in ends {
        out.push(At { ptr: p, busy, sure: false, ..full.clone() });
      }
    }
    // What is too old is passed over on the way.
    if flat.is_empty() || (!open && (changed || want.len() <= got + 1)) {
      out.push(At { ptr: q.n, busy, sure: false, ..full });
    }
  }
  Ok(out)
}
