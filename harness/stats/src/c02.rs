//! From recording to acknowledgement, with restarts, deaths at any file operation, failing files and uploads.
use crate::world::{add, add_all, configure, pack, timed, totals, unpack, Id, MemFs, Plan, Proc, Totals, Val};
use bd_client_common::error::{Reporter, UnexpectedErrorHandler};
use bd_proto::protos::client::api::stats_upload_request::snapshot::{Occurred_at, Snapshot_type};
use bd_proto::protos::client::api::stats_upload_request::Snapshot;
use bd_proto::protos::client::api::StatsUploadRequest;
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::metric::{FixedBucketHistogram, Metric, MetricsList};
use bd_runtime::runtime::ConfigLoader;
use bd_time::{TestTimeProvider, TimeProvider, TimestampExt};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;
use time::OffsetDateTime;
use vh::{Check, Rng};

/// What is reported is counted by the code; the checks look at the effect.
pub struct Silent;
impl Reporter for Silent {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<Cow<'_, str>, Cow<'_, str>>) {}
}

struct World<'a> {
  c: &'a Check,
  case: u64,
  fs: MemFs,
  time: TestTimeProvider,
  loader: Arc<ConfigLoader>,
  max_files: u32,
  window: i64,
  max_dynamic: u32,
  p: Option<Proc>,
  /// Recorded since the last flush.
  delta: Totals,
  /// Dynamic metrics that the process holds; true: used since the last flush.
  dynamic: BTreeMap<Id, (bool, bool)>,
  /// What each upload contained when it was first handed over.
  sent: HashMap<String, StatsUploadRequest>,
  acked: HashSet<String>,
  /// Upper bound of what may arrive, and what must.
  recorded: Totals,
  flushed: Totals,
  dropped: HashMap<String, Totals>,
  /// Something failed, so that not everything can be told for sure.
  blurred: bool,
  /// The process may know less than its files say, until the next one starts.
  behind: bool,
  /// Nothing failed, although the process may have died.
  tidy: bool,
  log: Vec<String>,
}

fn one(name: &str) -> Id {
  (name.to_string(), BTreeMap::new())
}

fn diff(a: &Totals, b: &Totals) -> String {
  let mut s = vec![];
  for k in a.keys().chain(b.keys()).collect::<std::collections::BTreeSet<_>>() {
    if a.get(k) != b.get(k) {
      s.push(format!("{}{:?}: {:?} and {:?}", k.0, k.1, a.get(k), b.get(k)));
    }
  }
  s.join(", ")
}

impl World<'_> {
  fn p(&mut self) -> &mut Proc {
    self.p.as_mut().unwrap()
  }
  fn say(&self, what: &str) -> String {
    let n = self.log.len().saturating_sub(60);
    format!("case {}: {what}; steps: {}", self.case, self.log[n ..].join(" | "))
  }
  fn note(&mut self, s: String) {
    self.log.push(s);
  }
  fn flags(&self) {
    configure(&self.loader, &[
      ("stats.max_aggregated_files", self.max_files),
      ("stats.max_aggregation_window_per_file_ms", self.window as u32),
      ("stats.max_dynamic_stats", self.max_dynamic),
    ]);
  }
  fn files(&self) -> BTreeMap<String, Totals> {
    let mut m = BTreeMap::new();
    for (k, v) in self.fs.data() {
      if let Some(r) = unpack::<StatsUploadRequest>(&v) {
        m.insert(k, totals(&r));
      }
    }
    m
  }
  fn start(&mut self) {
    let time: Arc<dyn TimeProvider> = Arc::new(self.time.clone());
    self.p = Some(Proc::start(&self.fs, time, &self.loader));
    self.dynamic.clear();
    self.delta.clear();
    self.behind = false;
  }
  fn got(&mut self, id: Id, v: Val) {
    add(&mut self.delta, &id, &v);
    add(&mut self.recorded, &id, &v);
  }

  fn record(&mut self, r: &mut Rng) {
    let n = *r.pick(&[1, 1, 2, 3, 12]);
    for _ in 0 .. n {
      let x = r.below(3);
      let v = r.range(1, 1_000);
      match r.below(5) {
        0 => {
          self.p().stats.scope("s").counter(&format!("c{x}")).inc_by(v as u64);
          self.got(one(&format!("s:c{x}")), Val::Counter(v as u64));
        },
        1 => {
          let labels: BTreeMap<String, String> = [("l".to_string(), format!("{}", r.below(2)))].into();
          self.p().stats.scope("s").scope("t").counter_with_labels("c", labels.clone()).inc();
          self.got(("s:t:c".into(), labels), Val::Counter(1));
        },
        2 => {
          self.p().stats.scope("").histogram(&format!("h{x}")).observe(v as f64);
          self.got(one(&format!("h{x}")), Val::Hist(1, v as f64));
        },
        k => {
          let labels: BTreeMap<String, String> =
            (0 .. r.below(3)).map(|i| (format!("t{i}"), format!("{}", r.below(2)))).collect();
          // Rarely as the other kind.
          let name = format!("{}{x}", if k == 4 { "dh" } else { "dc" });
          let id = (name.clone(), labels.clone());
          let other = r.chance(1, 10) && self.dynamic.contains_key(&id);
          let hist = (k == 4) != other;
          if hist {
            self.p().dynamic.record_dynamic_histogram(&name, labels, v as f64);
          } else {
            self.p().dynamic.record_dynamic_counter(&name, labels, v as u64);
          }
          match self.dynamic.get(&id) {
            None if self.dynamic.len() >= self.max_dynamic as usize => {
              self.c.count("beyond_the_limit_of_metrics");
              self.got(one("stats:dynamic_stats_overflow"), Val::Counter(1));
            },
            Some((h, _)) if *h != hist => self.c.count("changed_kind"),
            _ => {
              self.dynamic.insert(id.clone(), (hist, true));
              self.got(id, if hist { Val::Hist(1, v as f64) } else { Val::Counter(v as u64) });
            },
          }
        },
      }
    }
    self.note(format!("record {n}"));
  }

  /// The index says that everything up to here was closed; the open file, if it may be continued.
  fn open_file(&self) -> Option<String> {
    let i = self.fs.index()?;
    let f = i.pending_files.last()?;
    let end = f.period_start.to_offset_date_time() + time::Duration::milliseconds(self.window);
    (f.period_end.is_none() && end > self.time.now()).then(|| f.name.clone())
  }

  async fn flush(&mut self, r: &mut Rng) {
    let before = self.files();
    let open = self.open_file();
    let (readable, wiped) = (self.fs.index().is_some(), self.fs.0.lock().unwrap().wiped);
    let listed = self.fs.index().map_or(0, |i| i.pending_files.len());
    let oldest = self.fs.index().and_then(|i| i.pending_files.first().map(|f| f.name.clone()));
    let failed = self.fs.0.lock().unwrap().failed;
    self.fs.0.lock().unwrap().deleted.clear();
    let by_tick = r.chance(1, 3);
    let delta = std::mem::take(&mut self.delta);
    let mut done = true;
    if by_tick {
      let _ = self.p().flush_ticks.send(()).await;
      self.p().settle().await;
    } else {
      let (tx, rx) = bd_completion::Sender::new();
      self.p().trigger.flush(Some(tx)).await.unwrap();
      let mut rx = Box::pin(rx.recv());
      done = tokio::select! {
        x = &mut rx => x.is_ok(),
        () = async { for _ in 0 .. 300 { tokio::task::yield_now().await; } } => false,
      };
    }
    self.note(format!("flush {}", delta.len()));
    // A metric without data that nobody holds is forgotten.
    self.dynamic.retain(|_, u| u.1);
    self.dynamic.values_mut().for_each(|u| u.1 = false);
    if self.fs.0.lock().unwrap().dead {
      return;
    }
    let clean = self.fs.0.lock().unwrap().failed == failed;
    self.c.ensure(done, "flush-not-completed", || self.say("a flush is not completed"));
    // It timed itself.
    add(&mut self.delta, &one("stats:flush_time"), &Val::Hist(1, 0.0));
    add(&mut self.recorded, &one("stats:flush_time"), &Val::Hist(1, 0.0));
    let after = self.files();
    let deleted: Vec<_> = self.fs.0.lock().unwrap().deleted.drain(..).collect();
    if !clean {
      self.blurred = true;
      self.behind = true;
      self.c.count("flushes_with_failing_files");
      return;
    }
    self.c.count("flushes");
    // What disappears is the oldest file, once there are too many.
    let mut want = before.clone();
    if self.fs.0.lock().unwrap().wiped > wiped {
      self.c.ensure(!readable, "wiped", || self.say("all files are deleted although the index is good"));
      self.c.count("starts_over_after_a_torn_index");
      want.clear();
    }
    let needs_new = open.is_none();
    for (name, old) in &deleted {
      let legal = deleted.len() == 1 && (self.behind || (needs_new && Some(name) == oldest.as_ref() && listed >= self.max_files as usize));
      self.c.ensure(legal, "deleted", || {
        self.say(&format!("file {name} was deleted by a flush, with {listed} files of {}", self.max_files))
      });
      self.c.count("files_beyond_the_limit");
      want.remove(name);
      if let Some(t) = old.as_ref().and_then(|b| unpack(b)).map(|m| totals(&m)) {
        self.dropped.insert(name.clone(), t);
      }
    }
    let new: Vec<_> = after.keys().filter(|k| !before.contains_key(*k)).cloned().collect();
    let target = match (&open, new.first()) {
      (_, Some(n)) if self.behind => Some(n.clone()),
      (Some(o), _) => Some(o.clone()),
      (None, n) => n.cloned(),
    };
    if !delta.is_empty() {
      let Some(t) = &target else {
        self.c.violation("not-on-disk", &self.say("a flush wrote nothing"));
        return;
      };
      add_all(want.entry(t.clone()).or_default(), &delta);
    }
    self.c.ensure(after == want && new.len() <= 1, "flushed", || {
      let d: Vec<_> = after
        .keys()
        .chain(want.keys())
        .collect::<HashSet<_>>()
        .into_iter()
        .filter(|k| after.get(*k) != want.get(*k))
        .map(|k| format!("{k} (open {open:?}): {}", diff(after.get(k).unwrap_or(&Totals::new()), want.get(k).unwrap_or(&Totals::new()))))
        .collect();
      self.say(&format!("after a flush the files are not the previous ones with what was recorded: {d:?}"))
    });
    add_all(&mut self.flushed, &delta);
    self.c.saw("files on disk", &after.len());
    let now = self.fs.index().map_or(0, |i| i.pending_files.len());
    self.c.ensure(self.behind || now <= listed.max(self.max_files as usize).max(1), "too-many-files", || {
      self.say(&format!("there are {now} files after a flush, {listed} before, the limit is {}", self.max_files))
    });
  }

  fn upload_seen(&mut self, how: &str) -> bool {
    let Some(u) = self.p().take() else { return false };
    let (uuid, payload) = (u.uuid.clone(), u.payload.clone());
    self.note(format!("{how} {}", &uuid[.. 4]));
    self.c.count("uploads");
    let t = totals(&payload);
    let disk = self.fs.data().get(&uuid).and_then(|b| unpack::<StatsUploadRequest>(b)).map(|m| totals(&m));
    self.c.ensure(payload.upload_uuid == uuid && disk.as_ref() == Some(&t), "upload-content", || {
      self.say(&format!("upload {uuid} (in it {}) does not have the content of its file: {}", payload.upload_uuid, diff(&t, disk.as_ref().unwrap_or(&Totals::new()))))
    });
    let entry = self.fs.index().and_then(|i| {
      let p = i.pending_files.iter().position(|f| f.name == uuid)?;
      (p == 0 || self.behind).then(|| i.pending_files[p].clone())
    });
    let when = payload.snapshot.first().and_then(|s| match &s.occurred_at {
      Some(Occurred_at::Aggregated(a)) => Some((a.period_start.clone(), a.period_end.clone())),
      _ => None,
    });
    let ok = entry.as_ref().is_some_and(|e| e.name == uuid && e.period_end.is_some() && when == Some((e.period_start.clone(), e.period_end.clone())));
    self.c.ensure(ok, "upload-entry", || {
      self.say(&format!("upload {uuid} of the time {when:?} is listed as {entry:?}"))
    });
    // What it covers ends where the next begins.
    let next = self.fs.index().and_then(|i| i.pending_files.get(1).cloned());
    if let (Some(e), Some(n), false) = (&entry, &next, self.behind) {
      let (end, start) = (e.period_end.to_offset_date_time(), n.period_start.to_offset_date_time());
      self.c.ensure(end <= start, "overlap", || self.say(&format!("upload {uuid} covers the time to {end}, the next file begins at {start}")));
    }
    if let Some(old) = self.sent.get(&uuid) {
      self.c.count("retries");
      self.c.ensure(*old == payload, "retry-differs", || {
        self.say(&format!("upload {uuid} is sent again with another content: {}", diff(&totals(old), &t)))
      });
    } else {
      self.sent.insert(uuid.clone(), payload);
    }
    self.c.ensure(self.blurred || !self.acked.contains(&uuid), "sent-again", || {
      self.say(&format!("upload {uuid} is sent again after it was acknowledged"))
    });
    true
  }

  async fn tick(&mut self) {
    let busy = self.p().in_flight.is_some();
    let failed = self.fs.0.lock().unwrap().failed;
    let _ = self.p().upload_ticks.send(()).await;
    self.p().settle().await;
    self.note("tick".into());
    if self.fs.0.lock().unwrap().dead {
      return;
    }
    let oldest = self.fs.index().and_then(|i| i.pending_files.first().cloned());
    if busy {
      let x = self.p().uploads.try_recv().is_ok();
      self.c.ensure(!x, "two-uploads", || self.say("a second upload is started"));
      return;
    }
    let up = self.upload_seen("upload");
    let clean = self.fs.0.lock().unwrap().failed == failed;
    if clean && oldest.is_some() && !self.behind {
      self.c.ensure(up, "no-upload", || self.say(&format!("nothing is uploaded although {oldest:?} is there")));
    }
    if !clean {
      self.blurred = true;
      self.behind = true;
    }
  }

  async fn respond(&mut self, success: bool, lost: bool) {
    let Some(u) = &self.p().in_flight else { return };
    let uuid = u.uuid.clone();
    let failed = self.fs.0.lock().unwrap().failed;
    let next = self.fs.index().map(|i| i.pending_files).unwrap_or_default();
    let before = self.fs.data();
    let there = next.first().is_some_and(|f| f.name == uuid) && before.contains_key(&uuid) && !self.behind;
    if success && !lost {
      self.acked.insert(uuid.clone());
    }
    if lost {
      self.p().in_flight = None;
    } else {
      self.p().answer(success);
    }
    self.p().settle().await;
    self.note(format!("{} {}", if lost { "lost" } else if success { "ack" } else { "nack" }, &uuid[.. 4]));
    if self.fs.0.lock().unwrap().dead {
      return;
    }
    let clean = self.fs.0.lock().unwrap().failed == failed;
    if !clean {
      self.blurred = true;
      self.behind = true;
      self.upload_seen("next");
      return;
    }
    let gone = !self.fs.data().contains_key(&uuid);
    if there {
      self.c.ensure(gone == (success && !lost), "after-answer", || {
        self.say(&format!("the file {uuid} is {} after the answer", if gone { "gone" } else { "there" }))
      });
    }
    let up = self.upload_seen("next");
    // One after the other while they are old.
    if success && !lost {
      let mut old = false;
      for f in next.iter().filter(|f| f.name != uuid) {
        if f.period_start.to_offset_date_time() + time::Duration::milliseconds(self.window) > self.time.now() {
          break;
        }
        // Those that cannot be read are passed over.
        if before.get(&f.name).is_some_and(|b| unpack::<StatsUploadRequest>(b).is_some()) {
          old = true;
          break;
        }
      }
      self.c.ensure(up == old || self.behind, "old-files", || self.say(&format!("upload of the next file: {up}, it is old: {old}")));
    } else {
      self.c.ensure(!up, "eager", || self.say("another upload right after a failure"));
    }
  }

  /// The process ends, one way or another, and the next one starts.
  async fn restart(&mut self, how: u64) {
    let p = self.p.take().unwrap();
    if how == 0 {
      // Gracefully: it stops by itself.
      let mut p = p;
      let s = p.shutdown.take().unwrap();
      let stopped = tokio::time::timeout(Duration::from_secs(5), s.shutdown()).await.is_ok();
      self.c.ensure(stopped, "shutdown", || self.say("the flusher does not stop"));
      p.kill().await;
    } else {
      p.kill().await;
    }
    {
      let mut d = self.fs.0.lock().unwrap();
      d.plan = None;
      d.dead = false;
    }
    self.note("restart".into());
    self.start();
  }

  async fn check_alive(&mut self) -> bool {
    if self.tidy && matches!(self.fs.0.lock().unwrap().plan, Some(Plan::Torn(_) | Plan::Fail(..))) {
      self.tidy = false;
    }
    if self.tidy {
      let listed: Vec<_> = self.fs.index().map_or(vec![], |i| i.pending_files.into_iter().map(|f| f.name).collect());
      let stray: Vec<_> = self.fs.data().into_keys().filter(|f| !listed.contains(f)).collect();
      self.c.ensure(stray.is_empty(), "stray-file", || self.say(&format!("{stray:?} are in no index, so nothing will delete them")));
    }
    if self.p.as_ref().unwrap().task.is_finished() {
      let p = self.p.take().unwrap();
      let e = p.task.await.err().map(|e| format!("{e}"));
      self.c.violation("flusher-died", &self.say(&format!("the flusher ended: {e:?} {}", vh::last_panic())));
      return false;
    }
    if self.fs.0.lock().unwrap().dead {
      self.c.count("deaths_at_a_file_operation");
      // A torn or half-done step: what it was about to write may be missing.
      self.blurred = true;
      self.behind = true;
      self.restart(1).await;
    }
    true
  }

  /// A stored metric of a kind that is no longer there.
  fn old_metric(&mut self) {
    let Some(i) = self.fs.index() else { return };
    let Some(f) = i.pending_files.last() else { return };
    let Some(b) = self.fs.data().get(&f.name).cloned() else { return };
    let Some(mut m) = unpack::<StatsUploadRequest>(&b) else { return };
    if self.sent.contains_key(&f.name) {
      return;
    }
    if let Some(Snapshot_type::Metrics(l)) = m.snapshot.first_mut().and_then(|s: &mut Snapshot| s.snapshot_type.as_mut()) {
      let l: &mut MetricsList = l;
      // As previous versions wrote them.
      for m in &mut l.metric {
        if let Some(Data::Counter(k)) = &mut m.data {
          let n = k.value + u64::from(k.value_deprecated);
          k.value_deprecated = u32::try_from(n / 2).unwrap();
          k.value = n - n / 2;
        }
      }
      l.metric.push(Metric {
        name: "old".into(),
        data: Some(Data::FixedBucketHistogramDeprecated(FixedBucketHistogram::default())),
        ..Default::default()
      });
    }
    self.fs.put(&f.name, pack(&m));
    self.note("old metric".into());
  }

  async fn drain(&mut self) {
    if !self.check_alive().await {
      return;
    }
    self.fs.0.lock().unwrap().plan = None;
    let mut r = Rng::new(1);
    self.flush(&mut r).await;
    // What the last flush timed about itself is still in memory.
    for _ in 0 .. 200 {
      if self.p().in_flight.is_some() {
        self.respond(true, false).await;
      } else if self.fs.index().is_some_and(|i| !i.pending_files.is_empty()) {
        self.tick().await;
      } else {
        break;
      }
      if !self.check_alive().await {
        return;
      }
    }
    let left = self.fs.index().map_or(0, |i| i.pending_files.len());
    self.c.ensure(left == 0, "not-drained", || self.say(&format!("{left} files are left")));
    let mut arrived = Totals::new();
    for u in &self.acked {
      add_all(&mut arrived, &totals(&self.sent[u]));
    }
    for (k, v) in &arrived {
      let ok = match (v, self.recorded.get(k)) {
        (Val::Counter(a), Some(Val::Counter(b))) => a <= b,
        (Val::Hist(a, s), Some(Val::Hist(b, t))) => a <= b && s <= t,
        _ => false,
      };
      self.c.ensure(ok, "arrived-more", || {
        self.say(&format!("of {k:?} arrived {v:?}, recorded was {:?}", self.recorded.get(k)))
      });
    }
    if !self.blurred {
      let mut sum = arrived.clone();
      // One that was under way may have arrived all the same.
      self.dropped.iter().filter(|d| !self.acked.contains(d.0)).for_each(|d| add_all(&mut sum, d.1));
      self.c.ensure(sum == self.flushed, "arrived", || {
        self.say(&format!("what arrived and was dropped is not what was flushed: {}", diff(&sum, &self.flushed)))
      });
      self.c.count("histories_balanced_exactly");
    }
    self.c.add("metrics_arrived", arrived.keys().filter(|k| !timed(k)).count() as u64);
  }
}

async fn history(c: &Check, r: &mut Rng, case: u64, dir: &vh::Scratch) {
  let fs = MemFs::default();
  let mut w = World {
    c,
    case,
    fs,
    time: TestTimeProvider::new(OffsetDateTime::from_unix_timestamp(1_700_000_000 + r.range(0, 1000)).unwrap()),
    loader: ConfigLoader::new(dir.path()),
    max_files: *r.pick(&[0, 1, 1, 2, 3, 10]),
    window: *r.pick(&[0, 1_000, 60_000, 300_000]),
    max_dynamic: *r.pick(&[0, 1, 3, 500]),
    p: None,
    delta: Totals::new(),
    dynamic: BTreeMap::new(),
    sent: HashMap::new(),
    acked: HashSet::new(),
    recorded: Totals::new(),
    flushed: Totals::new(),
    dropped: HashMap::new(),
    blurred: false,
    behind: false,
    tidy: true,
    log: vec![],
  };
  w.flags();
  w.note(format!("max {} window {} dynamic {}", w.max_files, w.window, w.max_dynamic));
  w.start();
  let faulty = r.chance(1, 2);
  let n = r.range(3, 60);
  for _ in 0 .. n {
    match r.below(100) {
      0 ..= 29 => w.record(r),
      30 ..= 49 => w.flush(r).await,
      50 ..= 64 => w.tick().await,
      65 ..= 79 => {
        let (a, b) = (r.chance(3, 5), r.chance(1, 6));
        w.respond(a, b).await;
      },
      80 ..= 87 => {
        let ms = *r.pick(&[1, 500, 1_000, 30_000, 60_000, 300_000, 3_000_000]);
        w.time.advance(time::Duration::milliseconds(ms));
        w.note(format!("+{ms}"));
      },
      88 ..= 90 => {
        w.max_files = *r.pick(&[0, 1, 2, 3, 10]);
        w.window = *r.pick(&[0, 1_000, 60_000, 300_000]);
        w.flags();
        w.note(format!("max {} window {}", w.max_files, w.window));
      },
      91 ..= 93 => {
        let how = r.below(2);
        w.restart(how).await;
        c.count("restarts");
      },
      94 => w.old_metric(),
      _ if faulty => {
        let at = w.fs.0.lock().unwrap().ops + r.below(6);
        let plan = match r.below(5) {
          0 => Plan::Before(at),
          1 => Plan::After(at),
          2 => Plan::Torn(at),
          _ => Plan::Fail(at, at + 1 + r.below(3)),
        };
        c.saw("faults", &std::mem::discriminant(&plan));
        w.fs.0.lock().unwrap().plan = Some(plan);
        w.note(format!("{plan:?}"));
      },
      _ => {},
    }
    if !w.check_alive().await {
      return;
    }
    if c.violated() {
      return;
    }
  }
  w.drain().await;
  c.eval((w.sent.len() > 0).then(|| vh::hash_of(&w.log)));
  c.sample(|| w.log.join(" | "));
  if let Some(p) = w.p {
    p.kill().await;
  }
}

/// Nobody takes uploads, as without a connection: flushes and the shutdown are done all the same.
async fn offline(c: &Check, r: &mut Rng, case: u64, dir: &vh::Scratch) {
  let fs = MemFs::default();
  let time = TestTimeProvider::new(OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap());
  let loader = ConfigLoader::new(dir.path());
  let mut p = Proc::start(&fs, Arc::new(time.clone()), &loader);
  // Another upload, perhaps.
  let (other, _rx) = bd_api::upload::TrackedStatsUploadRequest::new("other".into(), StatsUploadRequest::default());
  let full = r.chance(3, 4);
  if full {
    let _ = p.uploads_tx.try_send(bd_api::DataUpload::StatsUploadRequest(other));
  }
  let mut log = vec![];
  let mut recorded = 0;
  let (mut flushed, mut ticks) = (0, 0);
  for _ in 0 .. r.range(2, 30) {
    match r.below(5) {
      0 | 1 => {
        let v = r.range(1, 100) as u64;
        p.stats.scope("s").counter("c").inc_by(v);
        recorded += v;
        log.push(format!("+{v}"));
      },
      2 => {
        let _ = p.upload_ticks.send(()).await;
        p.settle().await;
        ticks += 1;
        log.push("upload".into());
      },
      3 => {
        time.advance(time::Duration::milliseconds(r.range(1, 400_000)));
        log.push("later".into());
      },
      _ => {
        let (tx, rx) = bd_completion::Sender::new();
        let asked = tokio::select! {
          x = p.trigger.flush(Some(tx)) => x.is_ok(),
          () = p.settle() => false,
        };
        let mut rx = Box::pin(rx.recv());
        let done = asked && tokio::select! {
          x = &mut rx => x.is_ok(),
          () = async { for _ in 0 .. 300 { tokio::task::yield_now().await; } } => false,
        };
        log.push("flush".into());
        c.ensure(done, "flush-not-completed", || format!("case {case}: a flush is not completed while an upload waits: {}", log.join(" | ")));
        if !done {
          return p.kill().await;
        }
        flushed = recorded;
        let on_disk: u64 = fs.data().values().filter_map(|v| unpack::<StatsUploadRequest>(v)).map(|m| match totals(&m).get(&one("s:c")) {
          Some(Val::Counter(n)) => *n,
          _ => 0,
        }).sum();
        c.ensure(on_disk == flushed, "not-on-disk", || format!("case {case}: {on_disk} of {flushed} are on disk: {}", log.join(" | ")));
        c.count("flushes_while_an_upload_waits");
      },
    }
  }
  if r.bool() {
    // The connection is back.
    if full {
      let _ = p.uploads.try_recv();
    }
    let mut arrived = 0;
    for _ in 0 .. 20 {
      p.settle().await;
      if let Some(u) = p.take() {
        if let Some(Val::Counter(n)) = totals(&u.payload).get(&one("s:c")) {
          arrived += n;
        }
        p.answer(true);
      } else {
        let _ = p.upload_ticks.send(()).await;
      }
    }
    c.ensure(arrived == flushed, "arrived", || format!("case {case}: {arrived} of {flushed} arrive later: {}", log.join(" | ")));
    c.count("uploads_after_waiting");
  }
  let t = p.shutdown.take().unwrap();
  let done = tokio::select! {
    () = t.shutdown() => true,
    () = async { for _ in 0 .. 300 { tokio::task::yield_now().await; } } => false,
  };
  c.ensure(done, "shutdown-not-completed", || format!("case {case}: the shutdown does not end while an upload waits: {}", log.join(" | ")));
  c.eval((ticks > 0 && flushed > 0).then(|| vh::hash_of(&log)));
  p.kill().await;
}

pub fn run(c: &Check) {
  c.rule("cases are histories of recording, flushing, uploading, answers, restarts and faults; non-trivial: something was uploaded; distinct by history");
  UnexpectedErrorHandler::set_reporter(Arc::new(Silent));
  let dir = vh::Scratch::new();
  c.cases(c.n(4_000, 300_000), Duration::from_secs(c.n(14, 900)), |case, r| {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    if case % 8 == 7 {
      rt.block_on(offline(c, r, case, &dir));
    } else {
      rt.block_on(history(c, r, case, &dir));
    }
  });
}
