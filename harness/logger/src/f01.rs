//! F01: the encoding of logs, read by a decoder of its own.
use bd_client_common::fb::{make_log, root_as_log};
use bd_log_primitives::{LogField, LogFields, LogMessage, LogType, StringOrBytes};
use flatbuffers::FlatBufferBuilder;
use std::time::Duration;
use time::OffsetDateTime;
use vh::{hash_of, no_panic, Check, Rng};

/// What the schema says of the layout: the slots of the tables and the values of the union.
mod schema {
  pub const TEXT: u8 = 1;
  pub const BINARY: u8 = 2;
  pub const TEXT_DATA: usize = 4;
  pub const BINARY_TYPE: usize = 4;
  pub const BINARY_DATA: usize = 6;
  pub const SECONDS: usize = 4;
  pub const NANOS: usize = 6;
  pub const KEY: usize = 4;
  pub const VALUE_TYPE: usize = 6;
  pub const VALUE: usize = 8;
  pub const LEVEL: usize = 4;
  pub const MESSAGE_TYPE: usize = 6;
  pub const MESSAGE: usize = 8;
  pub const FIELDS: usize = 10;
  pub const SESSION: usize = 12;
  pub const TIME: usize = 14;
  pub const ACTIONS: usize = 16;
  pub const TYPE: usize = 18;
  pub const STREAMS: usize = 20;
}

#[derive(Debug, Clone, PartialEq, Hash)]
pub enum V {
  Text(String),
  Bytes(Vec<u8>),
}

#[derive(Debug, Clone, PartialEq, Hash)]
pub struct L {
  pub level: u32,
  pub typ: u32,
  pub message: V,
  pub fields: Vec<(String, V)>,
  pub session: String,
  pub nanos: i128,
  pub actions: Vec<String>,
  pub streams: Vec<String>,
}

pub fn decode(b: &[u8]) -> Result<L, String> {
  Reader(b).log()
}

/// Bounds are checked everywhere, and so is the alignment.
struct Reader<'a>(&'a [u8]);
type R<T> = Result<T, String>;

impl<'a> Reader<'a> {
  fn bytes(&self, at: usize, n: usize) -> R<&'a [u8]> {
    at.checked_add(n).and_then(|e| self.0.get(at .. e)).ok_or(format!("{n} bytes at {at} of {}", self.0.len()))
  }
  fn num(&self, at: usize, n: usize) -> R<u64> {
    if at % n != 0 {
      return Err(format!("{n} bytes at {at} are not aligned"));
    }
    Ok(self.bytes(at, n)?.iter().rev().fold(0, |x, b| x << 8 | u64::from(*b)))
  }
  fn follow(&self, at: usize) -> R<usize> {
    Ok(at + self.num(at, 4)? as usize)
  }
  /// Where the slot of the table has its value.
  fn slot(&self, table: usize, slot: usize) -> R<Option<usize>> {
    let back = self.num(table, 4)? as u32 as i32;
    let vt = (table as i64 - i64::from(back)) as usize;
    if slot + 2 > self.num(vt, 2)? as usize {
      return Ok(None);
    }
    let o = self.num(vt + slot, 2)? as usize;
    if o + 1 > self.num(vt + 2, 2)? as usize {
      return Err("a slot outside of its table".into());
    }
    Ok((o != 0).then_some(table + o))
  }
  fn scalar(&self, table: usize, slot: usize, n: usize) -> R<u64> {
    self.slot(table, slot)?.map_or(Ok(0), |at| self.num(at, n))
  }
  fn to(&self, table: usize, slot: usize) -> R<Option<usize>> {
    self.slot(table, slot)?.map(|at| self.follow(at)).transpose()
  }
  fn need(&self, table: usize, slot: usize) -> R<usize> {
    self.to(table, slot)?.ok_or(format!("slot {slot} is missing"))
  }
  fn vector(&self, at: usize) -> R<&'a [u8]> {
    let n = self.num(at, 4)? as usize;
    self.bytes(at + 4, n)
  }
  fn text(&self, at: usize) -> R<String> {
    let b = self.vector(at)?;
    if self.bytes(at + 4 + b.len(), 1)? != [0] {
      return Err("a string without its end".into());
    }
    String::from_utf8(b.to_vec()).map_err(|e| e.to_string())
  }
  fn list<T>(&self, at: Option<usize>, f: impl Fn(usize) -> R<T>) -> R<Vec<T>> {
    let Some(at) = at else { return Ok(vec![]) };
    (0 .. self.num(at, 4)? as usize).map(|i| f(self.follow(at + 4 + 4 * i)?)).collect()
  }
  fn union(&self, table: usize, kind: usize, slot: usize) -> R<V> {
    let t = self.need(table, slot)?;
    match self.scalar(table, kind, 1)? as u8 {
      schema::TEXT => Ok(V::Text(self.text(self.need(t, schema::TEXT_DATA)?)?)),
      schema::BINARY => match self.to(t, schema::BINARY_TYPE)? {
        None => Ok(V::Bytes(self.vector(self.need(t, schema::BINARY_DATA)?)?.to_vec())),
        Some(_) => Err("a type of the bytes was given".into()),
      },
      x => Err(format!("data of kind {x}")),
    }
  }
  fn log(&self) -> R<L> {
    use schema::*;
    let t = self.follow(0)?;
    let at = self.need(t, TIME)?;
    let nanos = self.scalar(at, NANOS, 4)? as u32 as i32;
    if !(0 .. 1_000_000_000).contains(&nanos) {
      return Err(format!("{nanos} ns"));
    }
    Ok(L {
      level: self.scalar(t, LEVEL, 4)? as u32,
      typ: self.scalar(t, TYPE, 4)? as u32,
      message: self.union(t, MESSAGE_TYPE, MESSAGE)?,
      fields: self.list(self.to(t, FIELDS)?, |f| Ok((self.text(self.need(f, KEY)?)?, self.union(f, VALUE_TYPE, VALUE)?)))?,
      session: self.text(self.need(t, SESSION)?)?,
      nanos: i128::from(self.scalar(at, SECONDS, 8)? as i64) * 1_000_000_000 + i128::from(nanos),
      actions: self.list(self.to(t, ACTIONS)?, |s| self.text(s))?,
      streams: self.list(self.to(t, STREAMS)?, |s| self.text(s))?,
    })
  }
}

fn value(r: &mut Rng, big: bool) -> V {
  let n = match r.below(6) {
    0 => 0,
    1 if big => r.idx(70_000),
    1 => r.idx(600),
    _ => r.idx(40),
  };
  match r.below(3) {
    0 => V::Bytes(r.bytes(n)),
    1 => V::Text("x".repeat(n)),
    _ => V::Text(r.string()),
  }
}

fn log(r: &mut Rng) -> L {
  let big = r.chance(1, 30);
  let fields = match r.below(8) {
    0 => 0,
    1 => r.idx(60),
    2 if big => r.idx(1000),
    _ => r.idx(6),
  };
  let keys: Vec<String> = (0 .. 4).map(|_| r.string()).collect();
  let ids = |r: &mut Rng| -> Vec<String> {
    let n = *r.pick(&[0, 0, 1, 2, 9]);
    (0 .. n).map(|_| r.string()).collect()
  };
  let (lo, hi) = (-62_000_000_000_i64, 253_000_000_000_i64);
  L {
    level: *r.pick(&[0, 1, 2, 3, 4, 5, 255, 256, u32::MAX]),
    typ: *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, u32::MAX]),
    message: value(r, big),
    fields: (0 .. fields).map(|_| (if r.bool() { r.pick(&keys).clone() } else { r.string() }, value(r, false))).collect(),
    session: r.string(),
    nanos: i128::from(match r.below(5) {
      0 => 0,
      1 => -1,
      2 => r.range(lo, hi),
      3 => r.range(-3, 3),
      _ => r.range(1_600_000_000, 1_900_000_000),
    }) * 1_000_000_000
      + i128::from(*r.pick(&[0, 1, 999_999_999, 500_000_000, 123])),
    actions: ids(r),
    streams: ids(r),
  }
}

fn given(v: &V) -> StringOrBytes<String, Vec<u8>> {
  match v {
    V::Text(t) => StringOrBytes::String(t.clone()),
    V::Bytes(b) => StringOrBytes::Bytes(b.clone()),
  }
}

/// What the published decoder says.
fn published(b: &[u8]) -> R<L> {
  let l = root_as_log(b).map_err(|e| format!("{e}"))?;
  let bytes = |b: bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::BinaryData<'_>| V::Bytes(b.data().bytes().to_vec());
  let text = |t: bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::StringData<'_>| V::Text(t.data().to_string());
  let t = l.timestamp().ok_or("no time")?;
  Ok(L {
    level: l.log_level(),
    typ: l.log_type().0,
    message: l.message_as_string_data().map(text).or(l.message_as_binary_data().map(bytes)).ok_or("no message")?,
    fields: l.fields().into_iter().flatten().map(|f| Some((f.key().to_string(), f.value_as_string_data().map(text).or(f.value_as_binary_data().map(bytes))?))).collect::<Option<_>>().ok_or("no value")?,
    session: l.session_id().ok_or("no session")?.to_string(),
    nanos: i128::from(t.seconds()) * 1_000_000_000 + i128::from(t.nanos()),
    actions: l.workflow_action_ids().into_iter().flatten().map(String::from).collect(),
    streams: l.stream_ids().into_iter().flatten().map(String::from).collect(),
  })
}

pub fn run(c: &Check) {
  c.rule("Logs of arbitrary level, type, text and bytes, fields (repeated and empty keys, none to 1000), session, instant from year 5 to 9986 and identifiers are encoded one after the other with the same builder, some of them with an output that fails; every encoding is read by a decoder written from the schema, which checks all bounds and alignments, and by the published one with its verifier, and compared with the log. Distinct by the log.");
  let limit = Duration::from_secs(c.n(5, 120));
  c.cases(c.n(3000, 1_000_000), limit, |case, r| {
    let mut b = FlatBufferBuilder::new();
    let mut done: Vec<(L, Vec<u8>)> = vec![];
    for _ in 0 .. 1 + r.idx(12) {
      let l = log(r);
      let fields: LogFields = l.fields.iter().map(|(k, v)| LogField { key: k.clone(), value: given(v) }).collect();
      let message: LogMessage = given(&l.message);
      let at = OffsetDateTime::from_unix_timestamp_nanos(l.nanos).unwrap();
      let at = if r.bool() { at } else { at.to_offset(time::UtcOffset::from_hms(*r.pick(&[-11, 5, 13]), 0, 0).unwrap()) };
      let fails = r.chance(1, 6);
      let mut out = None;
      let res = no_panic(|| {
        make_log(&mut b, l.level, LogType(l.typ), &message, &fields, &l.session, at, l.actions.iter().map(String::as_str), l.streams.iter().map(String::as_str), |d| {
          out = Some(d.to_vec());
          anyhow::ensure!(!fails, "refused");
          Ok(())
        })
      });
      c.eval(Some(hash_of(&l)));
      c.add("fields", l.fields.len() as u64);
      c.count(if fails { "outputs that fail" } else { "outputs" });
      let ok = matches!(&res, Ok(x) if x.is_err() == fails) && (fails || out.is_some());
      if !c.ensure(ok, "the outcome of an encoding", || format!("case {case}: {res:?} for {l:?}")) {
        return;
      }
      let Some(out) = out else { continue };
      c.add("bytes", out.len() as u64);
      done.push((l, out));
    }
    for (l, out) in &done {
      let own = Reader(out).log();
      c.ensure(own.as_ref() == Ok(l), "the log read back", || format!("case {case}: {own:?} instead of {l:?}"));
      let p = no_panic(|| published(out)).unwrap_or_else(Err);
      c.ensure(p.as_ref() == Ok(l), "the published decoder", || format!("case {case}: {p:?} instead of {l:?}"));
      if c.violated() {
        return;
      }
    }
    c.sample(|| format!("{:?}", done.first().map(|d| (&d.0, d.1.len()))));
  });
}
