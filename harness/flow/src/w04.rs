//! Filters that change logs.
use crate::cond::Cond;
use crate::gen;
use bd_log_filter::FilterChain;
use bd_log_primitives::{Log, LogField, LogFieldValue};
use bd_proto::protos::filter::filter::filter::transform::set_field::set_field_value::{ExistingField, Value};
use bd_proto::protos::filter::filter::filter::transform::set_field::{FieldType, SetFieldValue};
use bd_proto::protos::filter::filter::filter::transform::{CaptureField, RegexMatchAndSubstituteField, RemoveField, SetField, Transform_type};
use bd_proto::protos::filter::filter::filter::Transform;
use bd_proto::protos::filter::filter::{Filter, FiltersConfiguration};
use protobuf::{EnumOrUnknown, Message, MessageField};
use regex::Regex;
use std::time::Duration;
use vh::{Check, Rng};

#[derive(Debug, Clone)]
enum V {
  Text(String),
  Of(String),
}

#[derive(Debug, Clone)]
enum T {
  Capture(String),
  /// key, value, field type, override
  Set(String, Option<Option<V>>, i32, bool),
  Remove(String),
  Replace(String, String, String),
  Empty,
}

const REPLACE: [(&str, &str); 10] = [
  ("x", "y"), ("o", "<$0>"), (r"(\w)(\w)", "$2$1"), ("", "-"), ("^", "p"), ("$", "s"), ("[0-9]+", ""), ("foo|bar", "${0}${0}"), ("(", "x"), ("x*", "q"),
];

fn transform(r: &mut Rng) -> T {
  match r.below(40) {
    0 => T::Empty,
    1 ..= 8 => T::Capture(gen::key(r)),
    9 ..= 14 => T::Remove(gen::key(r)),
    15 ..= 22 => {
      let n = REPLACE.len() - 2;
      let (p, s) = if r.chance(1, 25) { REPLACE[n] } else if r.chance(1, 10) { REPLACE[n + 1] } else { REPLACE[r.idx(n)] };
      T::Replace(gen::key(r), p.into(), s.into())
    },
    _ => {
      let v = match r.below(30) {
        0 => None,
        1 => Some(None),
        x if x < 14 => Some(Some(V::Of(gen::key(r)))),
        _ => Some(Some(V::Text(gen::text(r)))),
      };
      let t = *r.pick(&[FieldType::CAPTURED, FieldType::MATCHING_ONLY]) as i32;
      let t = match r.below(40) {
        0 => FieldType::UNKNOWN as i32,
        1 => 17,
        _ => t,
      };
      T::Set(gen::key(r), v, t, r.bool())
    },
  }
}

impl T {
  fn proto(&self) -> Transform {
    let transform_type = match self {
      Self::Capture(k) => Some(Transform_type::CaptureField(CaptureField { name: k.clone(), ..Default::default() })),
      Self::Remove(k) => Some(Transform_type::RemoveField(RemoveField { name: k.clone(), ..Default::default() })),
      Self::Replace(k, p, s) => Some(Transform_type::RegexMatchAndSubstituteField(RegexMatchAndSubstituteField {
        name: k.clone(),
        pattern: p.clone(),
        substitution: s.clone(),
        ..Default::default()
      })),
      Self::Set(k, v, t, o) => Some(Transform_type::SetField(SetField {
        name: k.clone(),
        value: match v {
          None => MessageField::none(),
          Some(v) => MessageField::some(SetFieldValue {
            value: v.as_ref().map(|v| match v {
              V::Text(t) => Value::StringValue(t.clone()),
              V::Of(k) => Value::ExistingField(ExistingField { name: k.clone(), ..Default::default() }),
            }),
            ..Default::default()
          }),
        },
        field_type: EnumOrUnknown::from_i32(*t),
        allow_override: *o,
        ..Default::default()
      })),
      Self::Empty => None,
    };
    Transform { transform_type, ..Default::default() }
  }
  fn valid(&self) -> bool {
    match self {
      Self::Empty => false,
      Self::Replace(_, p, _) => crate::cond::found(p, "").is_some(),
      Self::Set(_, v, t, _) => {
        matches!(v, Some(Some(_))) && matches!(EnumOrUnknown::from_i32(*t).enum_value(), Ok(FieldType::CAPTURED | FieldType::MATCHING_ONLY))
      },
      _ => true,
    }
  }
  /// None where the outcome is left open.
  fn apply(&self, log: &mut Log) -> Option<()> {
    fn put(l: &mut Vec<LogField>, f: LogField) {
      l.retain(|x| x.key != f.key);
      l.push(f);
    }
    match self {
      Self::Capture(k) => {
        if let Some(i) = log.matching_fields.iter().position(|f| f.key == *k) {
          let f = log.matching_fields.remove(i);
          put(&mut log.fields, f);
        }
      },
      Self::Remove(k) => {
        log.fields.retain(|f| f.key != *k);
        log.matching_fields.retain(|f| f.key != *k);
      },
      Self::Replace(k, p, s) => {
        let re = Regex::new(p).unwrap();
        if let Some(f) = log.fields.iter_mut().chain(log.matching_fields.iter_mut()).find(|f| f.key == *k) {
          if let LogFieldValue::String(t) = &f.value {
            f.value = LogFieldValue::String(re.replace_all(t, s.as_str()).into_owned());
          }
        }
      },
      Self::Set(k, v, t, over) => {
        let part = |log: &Log, k: &str| match k {
          "log_level" => Some(log.log_level.to_string().into()),
          "log_type" => Some(log.log_type.0.to_string().into()),
          "_message" => Some(log.message.clone()),
          _ => log.fields.iter().chain(&log.matching_fields).find(|f| f.key == k).map(|f| f.value.clone()),
        };
        if !over && part(log, k).is_some() {
          return Some(());
        }
        let v = match v {
          Some(Some(V::Text(t))) => LogFieldValue::String(t.clone()),
          Some(Some(V::Of(from))) => match part(log, from) {
            Some(LogFieldValue::String(t)) => LogFieldValue::String(t),
            // A value without text is not copied; where both lists have the key the copy could be
            // of either.
            Some(LogFieldValue::Bytes(_)) => {
              return if log.matching_fields.iter().any(|f| f.key == *from) { None } else { Some(()) };
            },
            None => return Some(()),
          },
          _ => unreachable!(),
        };
        let f = LogField { key: k.clone(), value: v };
        if *t == FieldType::CAPTURED as i32 { put(&mut log.fields, f) } else { put(&mut log.matching_fields, f) }
      },
      Self::Empty => unreachable!(),
    }
    Some(())
  }
}

fn copy(l: &Log) -> Log {
  Log {
    log_level: l.log_level,
    log_type: l.log_type,
    message: l.message.clone(),
    fields: l.fields.clone(),
    matching_fields: l.matching_fields.clone(),
    session_id: l.session_id.clone(),
    occurred_at: l.occurred_at,
  }
}

/// The log as sets: where in a list a field is put is not part of the contract.
fn key(l: &Log) -> String {
  let set = |v: &Vec<LogField>| {
    let mut v: Vec<_> = v.iter().map(|f| format!("{f:?}")).collect();
    v.sort();
    v
  };
  format!("{} {:?} {:?} {} {} {:?} {:?}", l.log_level, l.log_type, l.message, l.session_id, l.occurred_at, set(&l.fields), set(&l.matching_fields))
}

pub fn run(c: &Check) {
  c.rule("cases are chains of filters, each on several logs; non-trivial: some log is changed by two filters; distinct by chain");
  c.cases(c.n(18_000, 600_000), Duration::from_secs(c.n(12, 900)), |case, r| {
    let logs: Vec<_> = (0 .. 4).map(|_| gen::log(r, case % 6 == 0)).collect();
    let chain: Vec<(Option<Cond>, Vec<T>)> = (0 .. r.below(6))
      .map(|_| {
        let depth = r.below(2);
        let k = match r.below(24) {
          0 => None,
          x if x < 10 => Some(Cond::And(vec![])),
          _ => Some(Cond::gen(r, Some(&logs[0]), depth)),
        };
        (k, (0 .. r.below(4)).map(|_| transform(r)).collect())
      })
      .collect();
    let p = FiltersConfiguration {
      filters: chain
        .iter()
        .map(|(k, t)| Filter { matcher: k.as_ref().map(Cond::proto).into(), transforms: t.iter().map(T::proto).collect(), ..Default::default() })
        .collect(),
      ..Default::default()
    };
    let p = FiltersConfiguration::parse_from_bytes(&p.write_to_bytes().unwrap()).unwrap();
    let (f, failures) = FilterChain::new(p);
    let valid: Vec<_> = chain
      .iter()
      .map(|(k, t)| match k.as_ref().map_or(Some(false), Cond::valid) {
        _ if t.iter().any(|t| !t.valid()) => Some(false),
        x => x,
      })
      .collect();
    let (bad, open) = (valid.iter().filter(|v| **v == Some(false)).count() as u64, valid.iter().filter(|v| v.is_none()).count() as u64);
    c.ensure((bad ..= bad + open).contains(&failures), "failure-count", || format!("case {case}: {failures} of {chain:?} failed, should be {bad}"));
    c.add("invalid_filters", bad);
    if open > 0 {
      return c.eval(None);
    }
    let mut twice = false;
    for (i, log) in logs.iter().enumerate() {
      let mut got = copy(log);
      f.process(&mut got);
      let mut want = copy(log);
      let mut changed = 0;
      let mut known = true;
      for ((k, t), _) in chain.iter().zip(&valid).filter(|x| *x.1 == Some(true)) {
        let before = key(&want);
        match k.as_ref().unwrap().holds(&want) {
          Some(true) => known &= t.iter().all(|t| t.apply(&mut want).is_some()),
          Some(false) => {},
          None => known = false,
        }
        if !known {
          break;
        }
        changed += u32::from(before != key(&want));
      }
      if !known {
        c.count("left_open");
        continue;
      }
      c.count("logs");
      c.add("changes", u64::from(changed));
      twice |= changed > 1;
      c.ensure(key(&got) == key(&want), "outcome", || format!("case {case}, log {i}: {log:?} became {got:?}, should be {want:?}, by {chain:?}"));
    }
    c.eval(twice.then(|| vh::hash_of(&format!("{chain:?}"))));
    c.sample(|| format!("{chain:?} on {:?}", logs[0]));
  });
}
