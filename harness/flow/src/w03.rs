//! Which buffers a log goes to.
use crate::gen;
use bd_log_primitives::{Log, LogRef};
use bd_matcher::buffer_selector::BufferSelector;
use bd_proto::protos::config::v1::config::buffer_config::BufferFilter;
use bd_proto::protos::config::v1::config::log_matcher::base_log_matcher::{
  AnyMatch, LogLevelMatch, Match_type as Base, MessageMatch, StringMatchType, TagMatch, TypeMatch,
};
use bd_proto::protos::config::v1::config::log_matcher::base_log_matcher::log_level_match::ComparisonOperator;
use bd_proto::protos::config::v1::config::log_matcher::{BaseLogMatcher, Match_type, MatcherList};
use bd_proto::protos::config::v1::config::{BufferConfig, BufferConfigList, LogMatcher};
use protobuf::{EnumOrUnknown, Message, MessageField};
use std::collections::BTreeSet;
use std::time::Duration;
use vh::{Check, Rng};

#[derive(Debug, Clone)]
enum F {
  Level(i32, i32),
  Message(i32, String),
  Tag(String, i32, String),
  Type(u32),
  Any,
  And(Vec<F>),
  Or(Vec<F>),
  Not(Box<F>),
  Missing(bool),
}

fn how(k: i32) -> EnumOrUnknown<StringMatchType> {
  EnumOrUnknown::from_i32(k)
}

fn text(k: i32, v: &str, have: &str) -> Option<bool> {
  Some(match how(k).enum_value().ok()? {
    StringMatchType::EXACT => have == v,
    StringMatchType::PREFIX => have.as_bytes().get(.. v.len()) == Some(v.as_bytes()),
    StringMatchType::REGEX => crate::cond::found(v, have)?,
  })
}

impl F {
  fn leaf(r: &mut Rng, log: &Log) -> Self {
    let kind = |r: &mut Rng| if r.chance(1, 60) { 3 + r.below(4) as i32 } else { r.below(3) as i32 };
    let val = |r: &mut Rng, k: i32, have: Option<&str>| -> String {
      if how(k) == EnumOrUnknown::new(StringMatchType::REGEX) {
        let n = crate::cond::PATTERNS.len() - if r.chance(1, 8) { 0 } else { 4 };
        return (*r.pick(&crate::cond::PATTERNS[.. n])).to_string();
      }
      match have {
        Some(t) if r.chance(2, 3) => {
          let n = r.idx(t.chars().count() + 1);
          if r.bool() { t.to_string() } else { t.chars().take(n).collect() }
        },
        _ => gen::text(r),
      }
    };
    match r.below(10) {
      0 | 1 => {
        let o = if r.chance(1, 60) { 5 + r.below(4) as i32 } else { r.below(5) as i32 };
        Self::Level(o, if r.chance(1, 60) { -1 } else if r.bool() { log.log_level as i32 & 0x7fff_ffff } else { r.below(6) as i32 })
      },
      2 | 3 => {
        let k = kind(r);
        Self::Message(k, val(r, k, log.message.as_str()))
      },
      4 ..= 7 => {
        let k = kind(r);
        let key = gen::key(r);
        let v = val(r, k, gen::lookup(log, &key).flatten());
        Self::Tag(key, k, v)
      },
      8 => Self::Type(if r.bool() { log.log_type.0 } else { r.below(9) as u32 }),
      _ => Self::Any,
    }
  }
  fn gen(r: &mut Rng, log: &Log, depth: u64) -> Self {
    if depth == 0 || r.chance(2, 5) {
      return if r.chance(1, 120) { Self::Missing(r.bool()) } else { Self::leaf(r, log) };
    }
    match r.below(5) {
      0 => Self::Not(Box::new(Self::gen(r, log, depth - 1))),
      x => {
        let n = r.below(4);
        let v = (0 .. n).map(|_| Self::gen(r, log, depth - 1)).collect();
        if x < 3 { Self::And(v) } else { Self::Or(v) }
      },
    }
  }
  fn proto(&self) -> LogMatcher {
    let base = |m| Some(Match_type::BaseMatcher(BaseLogMatcher { match_type: m, ..Default::default() }));
    let list = |v: &[F]| MatcherList { matcher: v.iter().map(F::proto).collect(), ..Default::default() };
    let match_type = match self {
      Self::Level(o, l) => base(Some(Base::LogLevelMatch(LogLevelMatch {
        operator: EnumOrUnknown::from_i32(*o),
        log_level: EnumOrUnknown::from_i32(*l),
        ..Default::default()
      }))),
      Self::Message(k, v) => base(Some(Base::MessageMatch(MessageMatch { match_type: how(*k), match_value: v.clone(), ..Default::default() }))),
      Self::Tag(key, k, v) => {
        base(Some(Base::TagMatch(TagMatch { match_type: how(*k), tag_key: key.clone(), match_value: v.clone(), ..Default::default() })))
      },
      Self::Type(t) => base(Some(Base::TypeMatch(TypeMatch { type_: *t, ..Default::default() }))),
      Self::Any => base(Some(Base::AnyMatch(AnyMatch::default()))),
      Self::And(v) => Some(Match_type::AndMatcher(list(v))),
      Self::Or(v) => Some(Match_type::OrMatcher(list(v))),
      Self::Not(v) => Some(Match_type::NotMatcher(Box::new(v.proto()))),
      Self::Missing(true) => None,
      Self::Missing(false) => base(None),
    };
    LogMatcher { match_type, ..Default::default() }
  }
  fn valid(&self) -> bool {
    match self {
      Self::Level(o, l) => EnumOrUnknown::<ComparisonOperator>::from_i32(*o).enum_value().is_ok() && *l >= 0,
      Self::Message(k, v) | Self::Tag(_, k, v) => text(*k, v, "").is_some(),
      Self::And(v) | Self::Or(v) => v.iter().all(F::valid),
      Self::Not(v) => v.valid(),
      Self::Missing(_) => false,
      _ => true,
    }
  }
  /// By the log alone; level and type pseudo-fields are looked up with the log.
  fn holds(&self, log: &Log, whole: bool) -> Option<bool> {
    Some(match self {
      Self::Level(o, l) => {
        let (have, l) = (i64::from(log.log_level), i64::from(*l));
        match EnumOrUnknown::<ComparisonOperator>::from_i32(*o).enum_value().unwrap() {
          ComparisonOperator::LESS_THAN => have < l,
          ComparisonOperator::LESS_THAN_OR_EQUAL => have <= l,
          ComparisonOperator::EQUALS => have == l,
          ComparisonOperator::GREATER_THAN => have > l,
          ComparisonOperator::GREATER_THAN_OR_EQUAL => have >= l,
        }
      },
      Self::Message(k, v) => log.message.as_str().map_or(Some(false), |m| text(*k, v, m))?,
      Self::Tag(key, k, v) => {
        let of_log = match key.as_str() {
          "log_level" if whole => Some(log.log_level.to_string()),
          "log_type" if whole => Some(log.log_type.0.to_string()),
          _ => None,
        };
        match of_log {
          Some(t) => text(*k, v, &t)?,
          None => match gen::lookup(log, key)? {
            Some(t) => text(*k, v, t)?,
            None => false,
          },
        }
      },
      Self::Type(t) => *t == log.log_type.0,
      Self::Any => true,
      Self::And(v) => {
        let all: Vec<_> = v.iter().map(|x| x.holds(log, whole)).collect();
        if all.contains(&Some(false)) { false } else if all.contains(&None) { return None } else { true }
      },
      Self::Or(v) => {
        let all: Vec<_> = v.iter().map(|x| x.holds(log, whole)).collect();
        if all.contains(&Some(true)) { true } else if all.contains(&None) { return None } else { false }
      },
      Self::Not(v) => !v.holds(log, whole)?,
      Self::Missing(_) => return None,
    })
  }
}

pub fn run(c: &Check) {
  c.rule("cases are configurations of up to six buffers, each on several logs; non-trivial: some log goes to some but not all buffers; distinct by configuration");
  c.cases(c.n(25_000, 1_000_000), Duration::from_secs(c.n(12, 900)), |case, r| {
    let logs: Vec<_> = (0 .. 5).map(|_| gen::log(r, case % 5 == 0)).collect();
    let mut cfg: Vec<(String, Vec<Option<F>>)> = vec![];
    for _ in 0 .. r.below(7) {
      let id = if r.chance(1, 8) { "b0".to_string() } else { format!("b{}", cfg.len()) };
      let filters = (0 .. r.below(4))
        .map(|_| {
          let (l, depth) = (r.idx(logs.len()), r.below(3));
          (!r.chance(1, 20)).then(|| F::gen(r, &logs[l], depth))
        })
        .collect();
      cfg.push((id, filters));
    }
    let p = BufferConfigList {
      buffer_config: cfg
        .iter()
        .map(|(id, f)| BufferConfig {
          name: "n".into(),
          id: id.clone(),
          filters: f
            .iter()
            .map(|f| BufferFilter { id: "f".into(), filter: f.as_ref().map(F::proto).into(), ..Default::default() })
            .collect(),
          ..Default::default()
        })
        .collect(),
      ..Default::default()
    };
    let p = BufferConfigList::parse_from_bytes(&p.write_to_bytes().unwrap()).unwrap();
    let s = BufferSelector::new(&p);
    let valid = cfg.iter().all(|(_, f)| f.iter().flatten().all(F::valid));
    c.count(if valid { "valid_configurations" } else { "invalid_configurations" });
    c.ensure(s.is_ok() == valid, if valid { "valid-refused" } else { "invalid-accepted" }, || format!("case {case}: {cfg:?}: {:?}", s.as_ref().err()));
    let Ok(s) = s else { return c.eval(None) };
    let mut some = false;
    for (i, log) in logs.iter().enumerate() {
      let fields = gen::fields_ref(log);
      let whole = LogRef {
        log_type: log.log_type,
        log_level: log.log_level,
        message: &log.message,
        fields: &fields,
        session_id: "s",
        occurred_at: log.occurred_at,
      };
      for as_log in [false, true] {
        let got = if as_log {
          s.buffers(log.log_type, log.log_level, &log.message, &whole)
        } else {
          s.buffers(log.log_type, log.log_level, &log.message, &fields)
        };
        let got: BTreeSet<String> = got.into_iter().map(|x| x.into_owned()).collect();
        let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
        for (id, f) in &cfg {
          for f in f.iter().flatten() {
            match f.holds(log, as_log) {
              Some(true) => {
                must.insert(id.clone());
              },
              None => {
                may.insert(id.clone());
              },
              Some(false) => {},
            }
          }
        }
        c.count("logs");
        some |= !got.is_empty() && got.len() < cfg.len();
        let ok = must.is_subset(&got) && got.iter().all(|g| must.contains(g) || may.contains(g));
        c.ensure(ok, "buffers", || format!("case {case}, log {i}: {log:?} goes to {got:?}, should to {must:?}, by {cfg:?}"));
      }
    }
    c.eval(some.then(|| vh::hash_of(&format!("{cfg:?}"))));
    c.sample(|| format!("{cfg:?}"));
  });
}
