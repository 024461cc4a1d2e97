//! The stats of a process on a file system in memory that can fail, and on which the process can die at
//! any operation.
use bd_api::upload::{TrackedStatsUploadRequest, UploadResponse};
use bd_api::DataUpload;
use bd_client_stats::verif_driver::{flush_handles, FileSystem};
use bd_client_stats::{DynamicStats, FlushTrigger, Stats};
use bd_client_stats_store::{make_sketch, Collector};
use bd_proto::protos::client::api::stats_upload_request::snapshot::Snapshot_type;
use bd_proto::protos::client::api::{RuntimeUpdate, StatsUploadRequest};
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::metric::{Metric, PendingAggregationIndex};
use bd_proto::protos::client::runtime::runtime::{value::Type, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use bd_time::TimeProvider;
use protobuf::Message;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::path::Path;
use std::sync::{Arc, Mutex};

pub type Id = (String, BTreeMap<String, String>);

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
  Counter(u64),
  /// Count and sum. The sums of the checks are of small integers, so they are exact.
  Hist(u64, f64),
}

pub type Totals = BTreeMap<Id, Val>;

pub fn add(t: &mut Totals, id: &Id, v: &Val) {
  match (t.entry(id.clone()).or_insert(match v {
    Val::Counter(_) => Val::Counter(0),
    Val::Hist(..) => Val::Hist(0, 0.0),
  }), v)
  {
    (Val::Counter(a), Val::Counter(b)) => *a += b,
    (Val::Hist(a, s), Val::Hist(b, r)) => {
      *a += b;
      *s += r;
    },
    (a, b) => panic!("{id:?} is both {a:?} and {b:?}"),
  }
}

pub fn add_all(t: &mut Totals, o: &Totals) {
  for (k, v) in o {
    add(t, k, v);
  }
}

/// How long a flush took is not known beforehand.
pub fn timed(id: &Id) -> bool {
  id.0 == "stats:flush_time"
}

pub fn val(m: &Metric) -> Option<Val> {
  Some(match m.data.as_ref()? {
    Data::Counter(c) => Val::Counter(c.value + u64::from(c.value_deprecated)),
    Data::InlineHistogramValues(v) => Val::Hist(v.values.len() as u64, v.values.iter().sum()),
    Data::DdsketchHistogram(h) => {
      let mut s = make_sketch();
      s.decode_and_merge_with(&h.serialized).ok()?;
      Val::Hist(s.count() as u64, s.get_sum().unwrap_or(0.0))
    },
    _ => return None,
  })
}

pub fn totals(r: &StatsUploadRequest) -> Totals {
  let mut t = Totals::new();
  for s in &r.snapshot {
    if let Some(Snapshot_type::Metrics(l)) = &s.snapshot_type {
      for m in &l.metric {
        if let Some(v) = val(m) {
          let id = (m.name.clone(), m.tags.clone().into_iter().collect());
          let v = if timed(&id) { match v { Val::Hist(n, _) => Val::Hist(n, 0.0), v => v } } else { v };
          add(&mut t, &id, &v);
        }
      }
    }
  }
  t
}

pub fn unpack<M: Message>(b: &[u8]) -> Option<M> {
  let mut v = vec![];
  let mut z = flate2::read::ZlibDecoder::new(b);
  z.read_to_end(&mut v).ok()?;
  // A stream that was cut ends early without an error. It ends with the sum of its content.
  let (x, y) = v.iter().fold((1u32, 0u32), |(x, y), b| ((x + u32::from(*b)) % 65521, (x + u32::from(*b) + y) % 65521));
  if b.get(b.len().checked_sub(4)? ..) != Some(&(y << 16 | x).to_be_bytes()[..]) {
    return None;
  }
  M::parse_from_bytes(&v).ok()
}

pub fn pack<M: Message>(m: &M) -> Vec<u8> {
  let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(3));
  z.write_all(&m.write_to_bytes().unwrap()).unwrap();
  z.finish().unwrap()
}

// ---------------------------------------------------------------------------------------------
// Files

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Plan {
  None,
  /// Operations from a number on up to another fail without an effect.
  Fail(u64, u64),
  /// The process dies before, after or in the middle of the operation.
  Before(u64),
  After(u64),
  Torn(u64),
}

#[derive(Default)]
pub struct Disk {
  pub dir: bool,
  pub files: BTreeMap<String, Vec<u8>>,
  pub plan: Option<Plan>,
  pub ops: u64,
  pub failed: u64,
  pub dead: bool,
  pub deleted: Vec<(String, Option<Vec<u8>>)>,
  pub wiped: u64,
}

#[derive(Clone, Default)]
pub struct MemFs(pub Arc<Mutex<Disk>>);

const INDEX: &str = "stats_uploads/pending_aggregation_index.pb";

impl MemFs {
  /// Decides about an operation; false: it fails.
  async fn gate(&self, effect: impl FnOnce(&mut Disk, bool)) -> bool {
    let (die, ok) = {
      let mut d = self.0.lock().unwrap();
      let n = d.ops;
      d.ops += 1;
      match d.plan.unwrap_or(Plan::None) {
        Plan::Fail(a, b) if (a .. b).contains(&n) => {
          d.failed += 1;
          (false, false)
        },
        Plan::Before(a) if a == n => (true, false),
        Plan::After(a) if a == n => {
          effect(&mut d, false);
          (true, true)
        },
        Plan::Torn(a) if a == n => {
          effect(&mut d, true);
          (true, true)
        },
        _ => {
          effect(&mut d, false);
          (false, true)
        },
      }
    };
    if die {
      self.0.lock().unwrap().dead = true;
      std::future::pending::<()>().await;
    }
    ok
  }
  pub fn index(&self) -> Option<PendingAggregationIndex> {
    unpack(self.0.lock().unwrap().files.get(INDEX)?)
  }
  /// The files by name, without the index.
  pub fn data(&self) -> BTreeMap<String, Vec<u8>> {
    let d = self.0.lock().unwrap();
    d.files
      .iter()
      .filter(|(k, _)| *k != INDEX)
      .map(|(k, v)| (k.trim_start_matches("stats_uploads/").to_string(), v.clone()))
      .collect()
  }
  pub fn put(&self, name: &str, b: Vec<u8>) {
    self.0.lock().unwrap().files.insert(format!("stats_uploads/{name}"), b);
  }
}

fn key(p: &Path) -> String {
  p.to_string_lossy().into_owned()
}

#[async_trait::async_trait]
impl FileSystem for MemFs {
  async fn read_file(&self, path: &Path) -> anyhow::Result<Vec<u8>> {
    let mut out = None;
    let ok = self.gate(|d, _| out = d.files.get(&key(path)).cloned()).await;
    anyhow::ensure!(ok, "injected");
    out.ok_or_else(|| anyhow::anyhow!("no such file"))
  }
  async fn write_file(&self, path: &Path, data: &[u8]) -> anyhow::Result<()> {
    let mut there = false;
    let ok = self
      .gate(|d, torn| {
        there = d.dir;
        if d.dir {
          let n = if torn { data.len() / 2 } else { data.len() };
          d.files.insert(key(path), data[.. n].to_vec());
        }
      })
      .await;
    anyhow::ensure!(ok, "injected");
    anyhow::ensure!(there, "no such directory");
    Ok(())
  }
  async fn delete_file(&self, path: &Path) -> anyhow::Result<()> {
    let ok = self
      .gate(|d, _| {
        let k = key(path);
        let old = d.files.remove(&k);
        d.deleted.push((k.trim_start_matches("stats_uploads/").to_string(), old));
      })
      .await;
    anyhow::ensure!(ok, "injected");
    Ok(())
  }
  async fn remove_dir(&self, _: &Path) -> anyhow::Result<()> {
    let ok = self
      .gate(|d, _| {
        d.dir = false;
        d.files.clear();
        d.wiped += 1;
      })
      .await;
    anyhow::ensure!(ok, "injected");
    Ok(())
  }
  async fn create_dir(&self, _: &Path) -> anyhow::Result<()> {
    let mut there = false;
    let ok = self
      .gate(|d, _| {
        there = d.dir;
        d.dir = true;
      })
      .await;
    anyhow::ensure!(ok && !there, "injected, or exists");
    Ok(())
  }
}

// ---------------------------------------------------------------------------------------------
// The process

pub fn configure(loader: &ConfigLoader, values: &[(&str, u32)]) {
  let values: HashMap<String, Value> = values
    .iter()
    .map(|(k, v)| ((*k).to_string(), Value { type_: Some(Type::UintValue(*v)), ..Default::default() }))
    .collect();
  loader.update_snapshot(&RuntimeUpdate {
    version_nonce: "x".into(),
    runtime: Some(Runtime { values, ..Default::default() }).into(),
    ..Default::default()
  });
}

pub struct Proc {
  pub stats: Arc<Stats>,
  pub dynamic: Arc<DynamicStats>,
  pub trigger: FlushTrigger,
  pub flush_ticks: tokio::sync::mpsc::Sender<()>,
  pub upload_ticks: tokio::sync::mpsc::Sender<()>,
  pub uploads: tokio::sync::mpsc::Receiver<DataUpload>,
  pub uploads_tx: tokio::sync::mpsc::Sender<DataUpload>,
  pub shutdown: Option<ComponentShutdownTrigger>,
  pub task: tokio::task::JoinHandle<()>,
  pub in_flight: Option<TrackedStatsUploadRequest>,
}

impl Proc {
  pub fn start(fs: &MemFs, time: Arc<dyn TimeProvider>, loader: &Arc<ConfigLoader>) -> Self {
    let collector = Collector::default();
    let dynamic = Arc::new(DynamicStats::new(&collector.scope(""), loader));
    let stats = Stats::new(collector, dynamic.clone());
    let (flush_ticks, f) = tokio::sync::mpsc::channel(8);
    let (upload_ticks, u) = tokio::sync::mpsc::channel(8);
    let (tx, uploads) = tokio::sync::mpsc::channel(1);
    let shutdown = ComponentShutdownTrigger::default();
    let h = flush_handles(&stats, f, u, shutdown.make_shutdown(), tx.clone(), Box::new(fs.clone()), time, loader).unwrap();
    let task = tokio::spawn(h.flusher.periodic_flush());
    Self {
      stats,
      dynamic,
      trigger: h.flush_trigger,
      flush_ticks,
      upload_ticks,
      uploads,
      uploads_tx: tx,
      shutdown: Some(shutdown),
      task,
      in_flight: None,
    }
  }
  /// Lets the flusher do everything it can. Nothing in it waits for anything but the harness.
  pub async fn settle(&self) {
    for _ in 0 .. 60 {
      tokio::task::yield_now().await;
    }
  }
  pub fn answer(&mut self, success: bool) {
    if let Some(u) = self.in_flight.take() {
      let _ = u.response_tx.send(UploadResponse { success, uuid: u.uuid });
    }
  }
  /// An upload that was handed over, to be answered later.
  pub fn take(&mut self) -> Option<&TrackedStatsUploadRequest> {
    match self.uploads.try_recv() {
      Ok(DataUpload::StatsUploadRequest(t)) => {
        self.in_flight = Some(t);
        self.in_flight.as_ref()
      },
      Ok(_) => panic!("another kind of upload"),
      Err(_) => None,
    }
  }
  /// What it held in memory is gone.
  pub async fn kill(self) {
    self.task.abort();
    let _ = self.task.await;
  }
}
