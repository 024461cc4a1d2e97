//! Logs over few keys and values, so that conditions on them are true about as often as not.
use bd_log_primitives::{FieldsRef, Log, LogField, LogFieldValue, LogFields, LogMessage, LogType};
use vh::Rng;

pub const KEYS: [&str; 9] = ["a", "b", "c", "dd", "", "é", "log_level", "log_type", "_message"];
pub const TEXTS: [&str; 28] = [
  "", "x", "y", "xy", "X", "x y", "foo", "foobar", "barfoo", "é", "🦀", "\0", "a\nb", " x", "1", "2", "10", "-1", "+1", "1.5", "-0.5", "1e2", "2.10",
  "2.9", "2", "1.0.0-rc", "inf", "99999999999",
];

pub fn key(r: &mut Rng) -> String {
  let n = if r.chance(3, 4) { 4 } else { KEYS.len() };
  (*r.pick(&KEYS[.. n])).to_string()
}

pub fn text(r: &mut Rng) -> String {
  const EDGES: [i64; 8] = [
    i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX, i64::MIN,
  ];
  match r.below(12) {
    0 => r.string(),
    1 | 2 => r.range(-3, 12).to_string(),
    3 => r.pick(&EDGES).to_string(),
    4 => format!("{}.{}", r.range(-2, 3), r.below(100)),
    5 => crate::w02::version(r),
    _ => (*r.pick(&TEXTS)).to_string(),
  }
}

pub fn value(r: &mut Rng) -> LogFieldValue {
  if r.chance(1, 8) { LogFieldValue::Bytes(text(r).into_bytes()) } else { LogFieldValue::String(text(r)) }
}

pub fn fields(r: &mut Rng, most: u64, repeats: bool) -> LogFields {
  let mut v: LogFields = vec![];
  for _ in 0 .. r.below(most + 1) {
    let key = key(r);
    if repeats || !v.iter().any(|f| f.key == key) {
      v.push(LogField { key, value: value(r) });
    }
  }
  v
}

pub fn log(r: &mut Rng, repeats: bool) -> Log {
  let message: LogMessage = value(r);
  Log {
    log_level: if r.chance(1, 10) { r.u32() } else { r.below(6) as u32 },
    log_type: LogType(if r.chance(1, 10) { r.u32() } else { r.below(9) as u32 }),
    message,
    fields: fields(r, 5, repeats),
    matching_fields: fields(r, 4, repeats),
    session_id: "s".into(),
    occurred_at: time::OffsetDateTime::UNIX_EPOCH,
  }
}

/// What a lookup should find: None when this is left open (bytes captured, text for matching).
pub fn lookup<'a>(log: &'a Log, key: &str) -> Option<Option<&'a str>> {
  let a = log.fields.iter().find(|f| f.key == key).map(|f| f.value.as_str());
  let b = log.matching_fields.iter().find(|f| f.key == key).and_then(|f| f.value.as_str());
  match a {
    Some(Some(t)) => Some(Some(t)),
    Some(None) if b.is_some() => None,
    _ => Some(b),
  }
}

pub fn fields_ref(log: &Log) -> FieldsRef<'_> {
  FieldsRef::new(&log.fields, &log.matching_fields)
}
