//! Field lookup and values.
use crate::gen::{field, key, value};
use bd_logger::{FieldsRef, LogField, LogFieldValue, LogMessage, LogRef, LogType};
use bd_matcher::FieldProvider;
use std::time::Duration;
use vh::Check;

fn text(v: &LogFieldValue) -> Option<&str> {
  match v {
    LogFieldValue::String(s) => Some(s),
    LogFieldValue::Bytes(_) => None,
  }
}

pub fn run(c: &Check) {
  c.rule("cases are captured and matching-only field lists looked up by every key; non-trivial: some key is in both; distinct by the lists");
  c.cases(c.n(20_000, 500_000), Duration::from_secs(c.n(8, 600)), |case, r| {
    let uniq = |v: Vec<LogField>| {
      let mut o: Vec<LogField> = vec![];
      for f in v {
        if !o.iter().any(|x| x.key == f.key) {
          o.push(f);
        }
      }
      o
    };
    let mut cap = uniq((0 .. r.below(8)).map(|_| field(r)).collect());
    let mut mat = uniq((0 .. r.below(8)).map(|_| field(r)).collect());
    // A key that is there again, with another value: the first one counts.
    for l in [&mut cap, &mut mat] {
      if r.chance(1, 3) && !l.is_empty() {
        for _ in 0 .. r.range(1, 3) {
          let (from, to) = (r.idx(l.len()), r.idx(l.len() + 1));
          let f = LogField { key: l[from].key.clone(), value: value(r) };
          l.insert(to, f);
        }
      }
    }
    let fr = FieldsRef::new(&cap, &mat);
    let msg: LogMessage = value(r);
    let (level, t) = (r.u32() % 7, LogType(r.u32() % 12));
    let log = LogRef {
      log_type: t,
      log_level: level,
      message: &msg,
      fields: &fr,
      session_id: "s",
      occurred_at: time::OffsetDateTime::UNIX_EPOCH,
    };
    let mut keys: Vec<String> = cap.iter().chain(&mat).map(|f| f.key.clone()).collect();
    let both = keys.len() > { let mut k = keys.clone(); k.sort(); k.dedup(); k.len() };
    for _ in 0 .. 5 {
      keys.push(key(r));
    }
    let more: Vec<String> = keys.iter().take(3).flat_map(|k| [format!("{k} "), k.to_uppercase(), k.chars().skip(1).collect()]).collect();
    keys.extend(more);
    keys.extend(["log_level", "log_type", "_message"].map(String::from));
    for k in &keys {
      let a = cap.iter().find(|f| f.key == *k).map(|f| &f.value);
      let b = mat.iter().find(|f| f.key == *k).map(|f| &f.value);
      let what = || format!("case {case}: {k:?} in captured {cap:?}, matching {mat:?}");
      c.ensure(fr.matching_field_value(k) == b.and_then(text), "matching-lookup", what);
      let got = fr.field_value(k).map(|x| x.into_owned());
      let got_l = log.field_value(k).map(|x| x.into_owned());
      c.add("lookups", 3);
      match (a, b) {
        // A captured value without text over a text for matching: only the captured one or nothing
        // would do, but the code falls back to the text; either way nothing is made up.
        (Some(LogFieldValue::Bytes(_)), Some(LogFieldValue::String(s))) => {
          c.ensure(got.is_none() || got.as_ref() == Some(s), "lookup", || format!("{} gives {got:?}", what()));
        },
        (Some(a), _) => {
          c.ensure(got.as_deref() == text(a), "lookup", || format!("{} gives {got:?}", what()));
        },
        (None, Some(b)) => {
          c.ensure(got.as_deref() == text(b), "lookup", || format!("{} gives {got:?}", what()));
        },
        (None, None) => {
          c.ensure(got.is_none(), "lookup", || format!("{} gives {got:?}", what()));
        },
      }
      let want_l = match k.as_str() {
        "log_level" => Some(level.to_string()),
        "log_type" => Some(t.0.to_string()),
        _ => got,
      };
      c.ensure(got_l == want_l, "log-lookup", || format!("{} on a log of level {level} and type {t:?} gives {got_l:?}", what()));
    }
    // Values.
    let (x, y) = (value(r), value(r));
    let same = match (&x, &y) {
      (LogFieldValue::String(a), LogFieldValue::String(b)) => a == b,
      (LogFieldValue::Bytes(a), LogFieldValue::Bytes(b)) => a == b,
      _ => false,
    };
    c.ensure((x == y) == same && (y == x) == same && x == x.clone(), "equality", || format!("case {case}: {x:?} == {y:?}"));
    let s = r.string();
    let n = r.idx(20);
    let b = r.bytes(n);
    let vs: [LogFieldValue; 4] = [s.clone().into(), s.as_str().into(), b.clone().into(), b.as_slice().into()];
    c.ensure(vs[0] == LogFieldValue::String(s.clone()) && vs[1] == vs[0] && vs[0].as_str() == Some(&s), "text", || format!("case {case}: {s:?} became {:?}", vs[0]));
    c.ensure(vs[2] == LogFieldValue::Bytes(b.clone()) && vs[3] == vs[2] && vs[2].as_str().is_none(), "bytes", || format!("case {case}: {b:?} became {:?}", vs[2]));
    c.ensure(vs[0].to_string() == s, "display", || format!("case {case}: {s:?} prints as {}", vs[0]));
    c.eval(both.then(|| vh::hash_of(&format!("{cap:?}{mat:?}"))));
    c.sample(|| format!("captured {cap:?}, matching {mat:?}"));
  });
}
