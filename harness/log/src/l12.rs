//! Log enrichment: merging of fields, and the fields added at run time.
use crate::gen::{annotated, field, key, refused};
use bd_log_metadata::{AnnotatedLogFields, MetadataProvider};
use bd_logger::verif_driver::meta::Collector;
use bd_logger::{AnnotatedLogField, LogField, LogFieldKind, LogFieldValue, LogType};
use parking_lot::Mutex;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;
use time::OffsetDateTime;
use vh::{Check, Rng};

#[derive(Default)]
struct Prov {
  now: Mutex<Option<OffsetDateTime>>,
  fields: Mutex<Option<AnnotatedLogFields>>,
}
impl MetadataProvider for Prov {
  fn timestamp(&self) -> anyhow::Result<OffsetDateTime> {
    self.now.lock().ok_or_else(|| anyhow::anyhow!("no time"))
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    self.fields.lock().clone().ok_or_else(|| anyhow::anyhow!("no fields"))
  }
}

type Map = BTreeMap<String, LogFieldValue2>;
/// Ordered, printable form of a value.
type LogFieldValue2 = (bool, Vec<u8>);
fn v2(v: &LogFieldValue) -> LogFieldValue2 {
  match v {
    LogFieldValue::String(s) => (true, s.clone().into_bytes()),
    LogFieldValue::Bytes(b) => (false, b.clone()),
  }
}

/// The first value of each key over the sources, the strongest first.
fn merge(sources: &[Vec<&LogField>]) -> Map {
  let mut m = Map::new();
  for s in sources {
    for f in s {
      m.entry(f.key.clone()).or_insert_with(|| v2(&f.value));
    }
  }
  m
}
fn ootb(f: &[AnnotatedLogField]) -> Vec<&LogField> {
  f.iter().filter(|f| f.kind == LogFieldKind::Ootb).map(|f| &f.field).collect()
}
fn custom(f: &[AnnotatedLogField]) -> Vec<&LogField> {
  f.iter().filter(|f| f.kind == LogFieldKind::Custom && !refused(&f.field.key)).map(|f| &f.field).collect()
}

fn types() -> Vec<LogType> {
  (0 .. 12).map(LogType).collect()
}
fn internal(t: LogType) -> bool {
  [LogType::Replay, LogType::Resource, LogType::InternalSDK].contains(&t)
}

fn instant(r: &mut Rng) -> OffsetDateTime {
  OffsetDateTime::from_unix_timestamp_nanos(i128::from(r.range(-1 << 60, 1 << 60))).unwrap()
}

/// As a map, and whether a key was there twice.
fn judge(c: &Check, what: &str, got: &[LogField], want: &Map, sig: &str) {
  let mut m = Map::new();
  for f in got {
    c.ensure(m.insert(f.key.clone(), v2(&f.value)).is_none(), "duplicate", || format!("{what}: {:?} is there twice in {got:?}", f.key));
  }
  c.ensure(m == *want, sig, || {
    let lost: Vec<_> = want.iter().filter(|(k, v)| m.get(*k) != Some(v)).collect();
    let more: Vec<_> = m.iter().filter(|(k, v)| want.get(*k) != Some(v)).collect();
    format!("{what}: expected but not there {lost:?}, there but not expected {more:?}")
  });
}

pub fn l01(c: &Check) {
  c.rule("cases are provider, log, matching and global fields with a log type; non-trivial: a key comes from two sources or a field is refused; distinct by all fields");
  vh::logcap::install(log::LevelFilter::Off);
  c.cases(c.n(30_000, 1_000_000), Duration::from_secs(c.n(8, 600)), |case, r| {
    let p = Arc::new(Prov::default());
    let mut col = Collector::new(p.clone());
    let mut global: Vec<LogField> = vec![];
    for _ in 0 .. r.below(6) {
      let f = field(r);
      if col.add(f.clone()).is_ok() {
        global.retain(|g| g.key != f.key);
        global.push(f);
      }
    }
    for _ in 0 .. r.range(1, 4) {
      let t = *r.pick(&types());
      let (prov, fields, matching) = (annotated(r, 8), annotated(r, 8), annotated(r, 6));
      let (bad_time, bad_fields) = (r.chance(1, 30), r.chance(1, 30));
      let now = instant(r);
      *p.now.lock() = (!bad_time).then_some(now);
      *p.fields.lock() = (!bad_fields).then(|| prov.clone());
      let what = format!("case {case}: type {t:?}, provider {prov:?}, log {fields:?}, matching {matching:?}, global {global:?}");
      let got = col.collect(fields.clone(), matching.clone(), t);
      if bad_time || bad_fields {
        c.ensure(got.is_err(), "provider-failure", || format!("{what}: a failing provider was ignored"));
        c.count("provider_failures");
        continue;
      }
      let Ok(got) = got else {
        c.violation("failed", &what);
        continue;
      };
      c.ensure(got.timestamp == now, "timestamp", || format!("{what}: time {now} became {}", got.timestamp));
      let none = vec![];
      let (cap, mat): (&AnnotatedLogFields, &AnnotatedLogFields) = if internal(t) { (&none, &prov) } else { (&prov, &none) };
      let want = merge(&[ootb(cap), ootb(&fields), custom(&fields), global.iter().collect(), custom(cap)]);
      judge(c, &what, &got.fields, &want, "captured");
      let want_m = merge(&[ootb(mat), ootb(&matching), custom(&matching), custom(mat)]);
      judge(c, &what, &got.matching_fields, &want_m, "matching");
      let n = prov.len() + fields.len() + matching.len() + global.len();
      c.add("fields_in", n as u64);
      c.add("fields_out", (got.fields.len() + got.matching_fields.len()) as u64);
      c.saw("log types", &t.0);
      let trivial = want.len() + want_m.len() == n;
      c.eval((!trivial).then(|| vh::hash_of(&what)));
      c.sample(|| what);
    }
  });
}

pub fn l02(c: &Check) {
  c.rule("cases are histories of adding, replacing and removing fields with logs in between; non-trivial: at least one replacement or removal; distinct by history");
  vh::logcap::install(log::LevelFilter::Off);
  c.cases(c.n(6_000, 200_000), Duration::from_secs(c.n(8, 600)), |case, r| {
    let p = Arc::new(Prov::default());
    *p.now.lock() = Some(instant(r));
    *p.fields.lock() = Some(vec![]);
    let mut col = Collector::new(p);
    let mut model: Map = Map::new();
    let mut hist = vec![];
    let mut changed = false;
    for _ in 0 .. r.range(3, 60) {
      match r.below(6) {
        0 | 1 | 2 => {
          let f = field(r);
          hist.push(format!("add {:?}={:?}", f.key, v2(&f.value)));
          let ok = col.add(f.clone()).is_ok();
          c.ensure(ok != refused(&f.key), "acceptance", || format!("case {case}: adding {:?} {}", f.key, if ok { "succeeded" } else { "failed" }));
          if !refused(&f.key) {
            changed |= model.insert(f.key, v2(&f.value)).is_some();
            c.count("accepted");
          } else {
            c.count("refused");
          }
        },
        3 => {
          let k = key(r);
          hist.push(format!("remove {k:?}"));
          col.remove(&k);
          changed |= model.remove(&k).is_some();
          c.count("removed");
        },
        _ => {
          let t = *r.pick(&types());
          match col.collect(vec![], vec![], t) {
            Ok(m) => judge(c, &format!("case {case}: {hist:?}, log of type {t:?}"), &m.fields, &model, "fields"),
            Err(e) => c.violation("failed", &format!("case {case}: {e}")),
          }
          c.count("logs");
        },
      }
    }
    let m = col.collect(vec![], vec![], LogType::Normal).unwrap();
    judge(c, &format!("case {case}: {hist:?}, last log"), &m.fields, &model, "fields");
    c.eval(changed.then(|| vh::hash_of(&hist)));
    c.sample(|| format!("{hist:?}"));
  });
}
