//! The buffer manager: configurations come and go, against a model of which buffers there are and what they hold.
use crate::ring::*;
use bd_buffer::{BufferEvent, Buffer, BuffersWithAck, Manager};
use bd_proto::protos::config::v1::config::buffer_config::{BufferSizes, Type};
use bd_proto::protos::config::v1::config::{BufferConfig, BufferConfigList};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::Duration;
use vh::{Check, Rng, Scratch};

const NV: u32 = 1040;
const RAM: u32 = 900;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Seen {
  Continuous(String),
  Trigger(String),
  Removed(String),
  StreamAdded,
  StreamRemoved,
}

/// What a file should hold.
#[derive(Clone, Debug, Default)]
struct Model {
  records: VecDeque<(u32, u32)>,
}

impl Model {
  /// At least these many bytes of the newest are always kept.
  fn certain(&self) -> Vec<u32> {
    let widest = self.records.iter().map(|x| x.1 + 8).max().unwrap_or(0);
    let mut left = i64::from(NV - 40) - 2 * i64::from(widest);
    let mut out = vec![];
    for (id, size) in self.records.iter().rev() {
      left -= i64::from(size + 8);
      if left < 0 {
        break;
      }
      out.push(*id);
    }
    out.reverse();
    out
  }
}

fn config(ids: &[(String, Type, u32, u32)]) -> BufferConfigList {
  BufferConfigList {
    buffer_config: ids
      .iter()
      .map(|(id, t, ram, nv)| BufferConfig {
        name: format!("name of {id}"),
        id: id.clone(),
        type_: (*t).into(),
        buffer_sizes: Some(BufferSizes {
          volatile_buffer_size_bytes: *ram,
          non_volatile_buffer_size_bytes: *nv,
          ..Default::default()
        })
        .into(),
        ..Default::default()
      })
      .collect(),
    ..Default::default()
  }
}

pub fn run(c: &Check) {
  c.rule("cases are histories of configurations, writes, flush requests, uploads, damage and restarts; non-trivial: a buffer was removed and one kept its records over a change; distinct by history");
  c.cases(c.n(1_000, 8_000), Duration::from_secs(c.n(60, 800)), |case, r: &mut Rng| {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let key = rt.block_on(history(c, format!("case {case}"), r));
    c.eval(key);
    rt.shutdown_background();
  });
}

async fn drain(b: &Arc<Buffer>) -> Result<Vec<u32>, String> {
  let mut q = b.new_consumer().map_err(|e| e.to_string())?;
  let mut out = vec![];
  loop {
    match q.try_read() {
      Ok(d) => out.push(identify(&d).ok_or_else(|| format!("{} bytes that are no record", d.len()))?),
      Err(bd_buffer::Error::AbslStatus(bd_buffer::AbslCode::Unavailable, _)) => return Ok(out),
      Err(e) => return Err(e.to_string()),
    }
  }
}

async fn history(c: &Check, what: String, r: &mut Rng) -> Option<u64> {
  let dir = Scratch::new();
  let names = ["a", "b", "c", "long-name-d"];
  let mut model: BTreeMap<String, (Type, Model)> = BTreeMap::new();
  let mut on_disk: HashMap<String, Model> = HashMap::new();
  let mut log: Vec<String> = vec![];
  let mut next = 0u32;
  let (mut removed, mut kept) = (0u64, 0u64);
  for life in 0 .. 1 + r.below(3) {
    let runtime = bd_runtime::runtime::ConfigLoader::new(&PathBuf::from(dir.path()));
    let (m, mut events) = Manager::new(dir.path().to_path_buf(), &bd_client_stats_store::Collector::default().scope("t"), &runtime);
    let seen: Arc<parking_lot::Mutex<Vec<Seen>>> = Arc::default();
    let s2 = seen.clone();
    // The uploader: knows the buffers it is told of and lets go of those that it is told to.
    let uploader = tokio::spawn(async move {
      let mut known: HashMap<String, Arc<Buffer>> = HashMap::new();
      while let Some(e) = events.recv().await {
        let s = match &e.event {
          BufferEvent::ContinuousBufferCreated(id, b) => {
            known.insert(id.clone(), b.clone());
            Seen::Continuous(id.clone())
          },
          BufferEvent::TriggerBufferCreated(id, b) => {
            known.insert(id.clone(), b.clone());
            Seen::Trigger(id.clone())
          },
          BufferEvent::BufferRemoved(id) => {
            known.remove(id);
            Seen::Removed(id.clone())
          },
          BufferEvent::StreamBufferAdded(_) => Seen::StreamAdded,
          BufferEvent::StreamBufferRemoved(_) => Seen::StreamRemoved,
        };
        tokio::task::yield_now().await;
        s2.lock().push(s);
      }
    });
    let (flush_tx, flush_rx) = tokio::sync::mpsc::channel(4);
    let m2 = m.clone();
    let flusher = tokio::spawn(async move { m2.process_flushes(flush_rx).await });
    let mut streaming = false;
    if life > 0 {
      log.push("restart".into());
    }
    for _ in 0 .. 4 + r.below(16) {
      match r.below(10) {
        0 ..= 2 => {
          // A new configuration.
          let mut ids: Vec<(String, Type, u32, u32)> = vec![];
          for n in names {
            if r.chance(3, 5) {
              let t = match model.get(n) {
                Some((t, _)) => *t,
                None => *r.pick(&[Type::CONTINUOUS, Type::TRIGGER]),
              };
              ids.push((n.to_string(), t, RAM, NV));
            }
          }
          let bad = r.chance(1, 5);
          if bad {
            let (id, ram, nv) = r.pick(&[("bad", 5_000, 100), ("nowhere/bad", RAM, NV), ("bad", 10, 30), ("bad", u32::MAX, 100)]).clone();
            let at = r.idx(ids.len() + 1);
            ids.insert(at, (id.to_string(), Type::TRIGGER, ram, nv));
          }
          let stream = r.chance(1, 3);
          // Some of the disk is damaged before a buffer is made of it.
          for (id, ..) in &ids {
            if !model.contains_key(id) && on_disk.contains_key(id) && r.chance(1, 5) {
              let p = dir.path().join(id);
              let mut f = std::fs::read(&p).unwrap();
              let n = r.idx(40);
              f[n] ^= 1 << r.below(8);
              std::fs::write(&p, f).unwrap();
              log.push(format!("damage {id}"));
              // (Bytes 16 to 19 and so on may be padding: then it is not lost.)
              on_disk.insert(id.clone(), Model::default());
            }
          }
          log.push(format!("config {:?}, stream {stream}", ids.iter().map(|i| format!("{}{}", i.0, if i.1 == Type::TRIGGER { "t" } else { "c" })).collect::<Vec<_>>()));
          let before = seen.lock().len();
          let got = m.update_from_config(&config(&ids), stream).await;
          let told = seen.lock()[before ..].to_vec();
          if bad {
            c.ensure(got.is_err(), "bad", || format!("{what}: {log:?}: accepted"));
            c.ensure(told.is_empty(), "bad", || format!("{what}: {log:?}: refused, and yet {told:?}"));
            // What it made files of is no buffer.
            for (id, ..) in &ids {
              if !model.contains_key(id) && dir.path().join(id).is_file() && !on_disk.contains_key(id) {
                on_disk.insert(id.clone(), Model::default());
              }
            }
          } else {
            if let Err(e) = &got {
              c.violation("refused", &format!("{what}: {log:?}: {e}"));
              return None;
            }
            let mut want = vec![];
            let gone: Vec<String> = model.keys().filter(|k| !ids.iter().any(|i| &i.0 == *k)).cloned().collect();
            for id in gone {
              want.push(Seen::Removed(id.clone()));
              model.remove(&id);
              on_disk.remove(&id);
              removed += 1;
            }
            kept += model.values().filter(|m| !m.1.records.is_empty()).count() as u64;
            for (id, t, ..) in &ids {
              if !model.contains_key(id) {
                want.push(if *t == Type::TRIGGER { Seen::Trigger(id.clone()) } else { Seen::Continuous(id.clone()) });
                model.insert(id.clone(), (*t, on_disk.remove(id).unwrap_or_default()));
              }
            }
            if stream != streaming {
              want.push(if stream { Seen::StreamAdded } else { Seen::StreamRemoved });
            }
            streaming = stream;
            let order = |v: &[Seen]| {
              let mut k: Vec<String> = v.iter().map(|s| format!("{s:?}")).collect();
              k.sort();
              k
            };
            c.ensure(order(&told) == order(&want), "events", || format!("{what}: {log:?}: told {told:?} by the time it was applied, and not {want:?}"));
            c.ensure(got.unwrap().is_some() == streaming, "stream", || format!("{what}: {log:?}: stream buffer"));
          }
        },
        3 ..= 6 => {
          // Writing.
          let Some(id) = pick(&model, r) else { continue };
          let (_, b) = m.buffers()[&id].clone();
          let mut p = b.new_thread_local_producer().unwrap();
          let (t, k) = model.get_mut(&id).unwrap();
          let n = 1 + r.below(6);
          for _ in 0 .. n {
            let size = 4 + r.below(60) as u32;
            // One that does not overwrite takes only so much, and what is in front is then overwritten.
            let held: u32 = k.records.iter().map(|x| x.1 + 8).sum();
            if *t == Type::CONTINUOUS && held + 200 > NV - 40 {
              break;
            }
            next += 1;
            if let Err(e) = p.write(&content(next, size as usize)) {
              c.violation("write", &format!("{what}: {log:?}: {e}"));
            }
            k.records.push_back((next, size));
          }
          log.push(format!("write {n} to {id}"));
        },
        7 | 8 => {
          // A request to flush, also of what is not there.
          let mut ids: Vec<String> = vec![];
          for n in names.iter().chain(&["unknown"]) {
            if r.chance(1, 3) {
              ids.push((*n).to_string());
            }
          }
          log.push(format!("flush {ids:?}"));
          let (tx, rx) = bd_completion::Sender::new();
          let sent = flush_tx.send(if ids.is_empty() { BuffersWithAck::new_all_buffers(Some(tx)) } else { BuffersWithAck::new(ids, Some(tx)) }).await;
          c.ensure(sent.is_ok(), "flush", || format!("{what}: {log:?}: nobody takes the request"));
          let done = tokio::time::timeout(Duration::from_secs(20), rx.recv()).await;
          c.ensure(matches!(done, Ok(Ok(()))), "flush", || format!("{what}: {log:?}: {done:?}"));
        },
        _ => {
          // An upload of everything a buffer has.
          let Some(id) = pick(&model, r) else { continue };
          let (_, b) = m.buffers()[&id].clone();
          let got = drain(&b).await;
          log.push(format!("upload {id}"));
          check(c, &what, &log, &id, got, &mut model.get_mut(&id).unwrap().1);
        },
      }
      // Which there are.
      let have: BTreeMap<String, Type> = m.buffers().into_iter().map(|(k, v)| (k, v.0)).collect();
      let want: BTreeMap<String, Type> = model.iter().map(|(k, v)| (k.clone(), v.0)).collect();
      c.ensure(have == want, "buffers", || format!("{what}: {log:?}: there are {have:?}, and not {want:?}"));
      c.ensure(m.stream_buffer().is_some() == streaming, "stream", || format!("{what}: {log:?}: stream buffer"));
      for n in names {
        let p = dir.path().join(n).exists();
        c.ensure(p == (model.contains_key(n) || on_disk.contains_key(n)), "files", || format!("{what}: {log:?}: the file of {n} exists: {p}"));
      }
      if c.violated() {
        return None;
      }
    }
    // The end: flushed, as only those that overwrite are when they shut down.
    let (tx, rx) = bd_completion::Sender::new();
    let _ = flush_tx.send(BuffersWithAck::new_all_buffers(Some(tx))).await;
    let done = tokio::time::timeout(Duration::from_secs(20), rx.recv()).await;
    c.ensure(matches!(done, Ok(Ok(()))), "flush", || format!("{what}: {log:?}: {done:?}"));
    drop(flush_tx);
    c.ensure(matches!(flusher.await, Ok(Ok(()))), "flush", || format!("{what}: {log:?}: the flushing ends badly"));
    drop(m);
    let _ = uploader.await;
    for (id, (_, k)) in std::mem::take(&mut model) {
      on_disk.insert(id, k);
    }
  }
  c.sample(|| format!("{what}: {log:?}"));
  c.add("buffers removed", removed);
  c.add("records kept over a change of configuration", kept);
  c.add("records", u64::from(next));
  (removed > 0 && kept > 0).then(|| vh::hash_of(&log))
}

fn pick(model: &BTreeMap<String, (Type, Model)>, r: &mut Rng) -> Option<String> {
  let k: Vec<&String> = model.keys().collect();
  (!k.is_empty()).then(|| (*r.pick(&k)).clone())
}

fn check(c: &Check, what: &str, log: &[String], id: &str, got: Result<Vec<u32>, String>, k: &mut Model) {
  let got = match got {
    Ok(g) => g,
    Err(e) => {
      c.violation("upload", &format!("{what}: {log:?}: {id}: {e}"));
      return;
    },
  };
  let all: Vec<u32> = k.records.iter().map(|x| x.0).collect();
  let certain = k.certain();
  // The newest ones, all of those that there is certainly space for.
  let damaged = log.iter().any(|l| *l == format!("damage {id}"));
  let ok = all.ends_with(&got) && got.len() >= certain.len();
  // (What was damaged harmlessly may still be there in front.)
  let ok = ok || (damaged && got.ends_with(&certain));
  c.ensure(ok, "records", || format!("{what}: {log:?}: {id} holds {got:?} of {all:?}, and certainly {certain:?}"));
  k.records.clear();
}
