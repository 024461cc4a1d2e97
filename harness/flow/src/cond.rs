//! Conditions: generated, put into the form of the configuration, and decided by the book.
use crate::gen;
use bd_log_primitives::Log;
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::tag_match::Value_match;
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::{
  IntValueMatch, IsSetMatch, Match_type, MessageMatch, Operator, SemVerValueMatch, StringValueMatch, TagMatch,
};
use bd_proto::protos::log_matcher::log_matcher::log_matcher::{BaseLogMatcher, Matcher, MatcherList};
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use protobuf::{EnumOrUnknown, MessageField};
use regex::Regex;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use vh::Rng;

/// An operator as written: 0..=7 are defined, 0 is "unspecified", others are unknown.
pub type Op = i32;
pub const LT: Op = 1;
pub const REGEX: Op = 7;

/// Whether the pattern is found in the text; None when it is no pattern.
pub fn found(p: &str, t: &str) -> Option<bool> {
  thread_local!(static KNOWN: RefCell<HashMap<String, Option<Regex>>> = RefCell::default());
  KNOWN.with_borrow_mut(|k| {
    if k.len() > 10_000 {
      k.clear();
    }
    k.entry(p.to_string()).or_insert_with(|| Regex::new(p).ok()).as_ref().map(|r| r.is_match(t))
  })
}

pub fn op(o: Op) -> EnumOrUnknown<Operator> {
  EnumOrUnknown::from_i32(o)
}

pub fn named(o: Op) -> &'static str {
  match op(o).enum_value() {
    Ok(Operator::OPERATOR_UNSPECIFIED) => "?",
    Ok(Operator::OPERATOR_LESS_THAN) => "<",
    Ok(Operator::OPERATOR_LESS_THAN_OR_EQUAL) => "<=",
    Ok(Operator::OPERATOR_EQUALS) => "==",
    Ok(Operator::OPERATOR_GREATER_THAN) => ">",
    Ok(Operator::OPERATOR_GREATER_THAN_OR_EQUAL) => ">=",
    Ok(Operator::OPERATOR_NOT_EQUALS) => "!=",
    Ok(Operator::OPERATOR_REGEX) => "~",
    Err(_) => "unknown",
  }
}

/// What the comparison gives, None when the operator compares nothing.
pub fn holds(o: Op, ord: Ordering) -> Option<bool> {
  Some(match named(o) {
    "<" => ord == Ordering::Less,
    "<=" => ord != Ordering::Greater,
    "==" => ord == Ordering::Equal,
    ">" => ord == Ordering::Greater,
    ">=" => ord != Ordering::Less,
    "!=" => ord != Ordering::Equal,
    _ => return None,
  })
}

#[derive(Clone, Debug)]
pub enum Cond {
  Message(Op, String),
  Text(String, Op, String),
  Int(String, Op, i32),
  Version(String, Op, String),
  Set(String),
  And(Vec<Cond>),
  Or(Vec<Cond>),
  Not(Box<Cond>),
  /// Definitions with something missing.
  NoMatcher,
  NoMatchType,
  NoValueMatch,
  NoMessageMatch,
}

pub const PATTERNS: [&str; 14] =
  ["^x", "o+b", "x$", "^$", ".*", "[0-9]+", "(?i)X", "foo|bar", "^(foo)?bar", r"\d\.\d", "(", "[", "*", "a{2,1}"];

fn an_op(r: &mut Rng, regex: bool) -> Op {
  match r.below(40) {
    0 => 0,
    1 => 8 + r.below(3) as i32,
    2 => REGEX,
    x if regex && x < 12 => REGEX,
    _ => 1 + r.below(6) as i32,
  }
}

impl Cond {
  pub fn leaf(r: &mut Rng, log: Option<&Log>) -> Self {
    // Half of the time about something that is there.
    let near = |r: &mut Rng, key: &str| -> String {
      match log {
        Some(l) if r.bool() => gen::lookup(l, key).flatten().map_or_else(|| gen::text(r), str::to_string),
        _ => gen::text(r),
      }
    };
    let key = match log {
      Some(l) if r.bool() && !(l.fields.is_empty() && l.matching_fields.is_empty()) => {
        let all: Vec<_> = l.fields.iter().chain(&l.matching_fields).collect();
        r.pick(&all).key.clone()
      },
      _ => gen::key(r),
    };
    match r.below(12) {
      0 | 1 => {
        let o = an_op(r, true);
        let v = if o == REGEX {
          (*r.pick(&PATTERNS)).to_string()
        } else {
          match log.and_then(|l| l.message.as_str()) {
            Some(m) if r.bool() => m.to_string(),
            _ => gen::text(r),
          }
        };
        Self::Message(o, v)
      },
      2 | 3 => {
        let o = an_op(r, true);
        let v = if o == REGEX { (*r.pick(&PATTERNS)).to_string() } else { near(r, &key) };
        Self::Text(key, o, v)
      },
      4 => Self::Int("log_level".into(), an_op(r, false), log.filter(|_| r.bool()).map_or(r.range(-1, 6) as i32, |l| l.log_level as i32)),
      5 => Self::Int("log_type".into(), an_op(r, false), log.filter(|_| r.bool()).map_or(r.range(-1, 9) as i32, |l| l.log_type.0 as i32)),
      6 | 7 => {
        let v = match near(r, &key).parse::<f64>() {
          Ok(x) if r.bool() => x as i32,
          _ if r.chance(1, 4) => *r.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, i32::MAX - 1]),
          _ => r.range(-3, 12) as i32,
        };
        Self::Int(key, an_op(r, false), v)
      },
      8 | 9 => {
        let o = an_op(r, true);
        let v = match o {
          REGEX => (*r.pick(&PATTERNS)).to_string(),
          _ if r.bool() => crate::w02::version(r),
          _ => near(r, &key),
        };
        Self::Version(key, o, v)
      },
      _ => Self::Set(key),
    }
  }

  pub fn gen(r: &mut Rng, log: Option<&Log>, depth: u64) -> Self {
    if depth == 0 || r.chance(2, 5) {
      return match r.below(60) {
        0 => match r.below(4) {
          0 => Self::NoMatcher,
          1 => Self::NoMatchType,
          2 => Self::NoValueMatch,
          _ => Self::NoMessageMatch,
        },
        _ => Self::leaf(r, log),
      };
    }
    match r.below(5) {
      0 => Self::Not(Box::new(Self::gen(r, log, depth - 1))),
      x => {
        let n = r.below(4);
        let v = (0 .. n).map(|_| Self::gen(r, log, depth - 1)).collect();
        if x < 3 { Self::And(v) } else { Self::Or(v) }
      },
    }
  }

  pub fn proto(&self) -> LogMatcher {
    let sv = |o: Op, v: &str| StringValueMatch { operator: op(o), match_value: v.into(), ..Default::default() };
    let base = |m: Option<Match_type>| Some(Matcher::BaseMatcher(BaseLogMatcher { match_type: m, ..Default::default() }));
    let tag = |k: &str, v: Option<Value_match>| base(Some(Match_type::TagMatch(TagMatch { tag_key: k.into(), value_match: v, ..Default::default() })));
    let list = |v: &[Cond]| MatcherList { log_matchers: v.iter().map(Self::proto).collect(), ..Default::default() };
    let matcher = match self {
      Self::Message(o, v) => base(Some(Match_type::MessageMatch(MessageMatch { string_value_match: MessageField::some(sv(*o, v)), ..Default::default() }))),
      Self::Text(k, o, v) => tag(k, Some(Value_match::StringValueMatch(sv(*o, v)))),
      Self::Int(k, o, v) => tag(k, Some(Value_match::IntValueMatch(IntValueMatch { operator: op(*o), match_value: *v, ..Default::default() }))),
      Self::Version(k, o, v) => {
        tag(k, Some(Value_match::SemVerValueMatch(SemVerValueMatch { operator: op(*o), match_value: v.clone(), ..Default::default() })))
      },
      Self::Set(k) => tag(k, Some(Value_match::IsSetMatch(IsSetMatch::default()))),
      Self::And(v) => Some(Matcher::AndMatcher(list(v))),
      Self::Or(v) => Some(Matcher::OrMatcher(list(v))),
      Self::Not(v) => Some(Matcher::NotMatcher(Box::new(v.proto()))),
      Self::NoMatcher => None,
      Self::NoMatchType => base(None),
      Self::NoValueMatch => tag("a", None),
      Self::NoMessageMatch => base(Some(Match_type::MessageMatch(MessageMatch::default()))),
    };
    LogMatcher { matcher, ..Default::default() }
  }

  /// Whether the definition means something; None where that is left open.
  pub fn valid(&self) -> Option<bool> {
    let text = |o: Op, v: &str| match named(o) {
      "?" | "unknown" => false,
      "~" => found(v, "").is_some(),
      _ => true,
    };
    match self {
      Self::Message(o, v) | Self::Text(_, o, v) | Self::Version(_, o, v) => Some(text(*o, v)),
      Self::Int(k, _, v) if k == "log_type" => Some(*v >= 0),
      Self::Int(_, o, _) => match named(*o) {
        "~" | "unknown" => Some(false),
        "?" => None,
        _ => Some(true),
      },
      Self::Set(_) => Some(true),
      Self::And(v) | Self::Or(v) => {
        let all: Vec<_> = v.iter().map(Self::valid).collect();
        if all.contains(&Some(false)) { Some(false) } else if all.contains(&None) { None } else { Some(true) }
      },
      Self::Not(v) => v.valid(),
      Self::NoMatcher | Self::NoMatchType | Self::NoValueMatch | Self::NoMessageMatch => Some(false),
    }
  }

  /// Whether the log meets it; None where that is left open.
  pub fn holds(&self, log: &Log) -> Option<bool> {
    let text = |o: Op, v: &str, have: &str| if o == REGEX { found(v, have) } else { holds(o, have.cmp(v)) };
    match self {
      Self::Message(o, v) => match log.message.as_str() {
        Some(m) => text(*o, v, m),
        None => Some(false),
      },
      Self::Text(k, o, v) => match gen::lookup(log, k)? {
        Some(t) => text(*o, v, t),
        None => Some(false),
      },
      Self::Int(k, o, v) => match k.as_str() {
        "log_level" => match i32::try_from(log.log_level) {
          Ok(l) => holds(*o, l.cmp(v)),
          Err(_) => Some(false),
        },
        "log_type" => Some(i64::from(log.log_type.0) == i64::from(*v)),
        k => match gen::lookup(log, k)?.map(str::parse::<f64>) {
          Some(Ok(x)) if x.is_nan() => None,
          // A number with a fraction counts without it, one out of range as the end of the range.
          Some(Ok(x)) => holds(*o, (x.trunc().clamp(f64::from(i32::MIN), f64::from(i32::MAX)) as i32).cmp(v)),
          _ => Some(false),
        },
      },
      Self::Version(k, o, v) => match gen::lookup(log, k)? {
        Some(t) if *o == REGEX => found(v, t),
        Some(t) => holds(*o, crate::w02::compare(t, v)),
        None => Some(false),
      },
      Self::Set(k) => Some(gen::lookup(log, k)?.is_some()),
      Self::And(v) => {
        let all: Vec<_> = v.iter().map(|x| x.holds(log)).collect();
        if all.contains(&Some(false)) { Some(false) } else if all.contains(&None) { None } else { Some(true) }
      },
      Self::Or(v) => {
        let all: Vec<_> = v.iter().map(|x| x.holds(log)).collect();
        if all.contains(&Some(true)) { Some(true) } else if all.contains(&None) { None } else { Some(false) }
      },
      Self::Not(v) => v.holds(log).map(|x| !x),
      _ => None,
    }
  }

  pub fn size(&self) -> usize {
    match self {
      Self::And(v) | Self::Or(v) => 1 + v.iter().map(Self::size).sum::<usize>(),
      Self::Not(v) => 1 + v.size(),
      _ => 1,
    }
  }
}
