//! Fields and names that are likely to collide.
use bd_logger::{AnnotatedLogField, LogField, LogFieldKind, LogFieldValue};
use vh::Rng;

pub const RESERVED: [&str; 11] = [
  "app_id", "app_version", "carrier", "foreground", "log_level", "log_type", "model", "network_type", "os", "os_version",
  "radio_type",
];
const NEAR: [&str; 12] = ["OS", "os_", "osx", "log_levels", "log", "Model", "app_versio", " os", "x_", "-_", "", "app_id2"];

pub fn refused(k: &str) -> bool {
  RESERVED.contains(&k) || k.starts_with('_')
}

pub fn key(r: &mut Rng) -> String {
  match r.below(10) {
    0 => (*r.pick(&RESERVED)).to_string(),
    1 => (*r.pick(&NEAR)).to_string(),
    2 => format!("_{}", r.below(3)),
    3 => r.string(),
    _ => format!("k{}", r.below(5)),
  }
}

pub fn value(r: &mut Rng) -> LogFieldValue {
  match r.below(6) {
    0 => { let n = r.idx(8); LogFieldValue::Bytes(r.bytes(n)) },
    1 => LogFieldValue::String(r.string()),
    2 => LogFieldValue::Bytes(format!("v{}", r.below(3)).into_bytes()),
    _ => LogFieldValue::String(format!("v{}", r.below(1000))),
  }
}

pub fn field(r: &mut Rng) -> LogField {
  LogField { key: key(r), value: value(r) }
}

pub fn annotated(r: &mut Rng, most: u64) -> Vec<AnnotatedLogField> {
  (0 .. r.below(most + 1))
    .map(|_| AnnotatedLogField { field: field(r), kind: if r.bool() { LogFieldKind::Ootb } else { LogFieldKind::Custom } })
    .collect()
}
