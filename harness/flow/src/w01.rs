//! Conditions on logs.
use crate::cond::{named, Cond};
use crate::gen;
use bd_log_matcher::matcher::Tree;
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use protobuf::Message;
use std::time::Duration;
use vh::Check;

fn kinds(c: &Check, x: &Cond) {
  match x {
    Cond::Message(o, _) => c.saw("leaves", &("message", named(*o))),
    Cond::Text(_, o, _) => c.saw("leaves", &("text", named(*o))),
    Cond::Int(k, o, _) => c.saw("leaves", &(if k.starts_with("log_") { k.as_str() } else { "int" }, named(*o))),
    Cond::Version(_, o, _) => c.saw("leaves", &("version", named(*o))),
    Cond::Set(_) => c.saw("leaves", &("set", "")),
    Cond::And(v) | Cond::Or(v) => v.iter().for_each(|x| kinds(c, x)),
    Cond::Not(v) => kinds(c, v),
    _ => {},
  }
}

pub fn run(c: &Check) {
  c.rule("cases are trees of conditions, each on several logs; non-trivial: the tree is valid and has several nodes; distinct by tree");
  c.cases(c.n(100_000, 3_000_000), Duration::from_secs(c.n(12, 900)), |case, r| {
    let logs: Vec<_> = (0 .. 6).map(|_| gen::log(r, case % 5 == 0)).collect();
    let depth = *r.pick(&[0, 0, 1, 2, 3, 4]);
    let x = if depth == 0 { Cond::leaf(r, Some(&logs[0])) } else { Cond::gen(r, Some(&logs[0]), depth) };
    // Through the wire, as it comes from the server.
    let p = LogMatcher::parse_from_bytes(&x.proto().write_to_bytes().unwrap()).unwrap();
    let t = Tree::new(&p);
    kinds(c, &x);
    match x.valid() {
      Some(false) => {
        c.count("invalid_definitions");
        c.ensure(t.is_err(), "invalid-accepted", || format!("case {case}: {x:?} was accepted"));
      },
      Some(true) => {
        c.ensure(t.is_ok(), "valid-refused", || format!("case {case}: {x:?} was refused: {:?}", t.as_ref().err()));
      },
      None => {},
    }
    let Ok(t) = t else { return c.eval(None) };
    for (i, log) in logs.iter().enumerate() {
      let got = t.do_match(log.log_level, log.log_type, &log.message, &gen::fields_ref(log));
      let again = t.do_match(log.log_level, log.log_type, &log.message, &gen::fields_ref(log));
      c.ensure(got == again, "unstable", || format!("case {case}: {x:?} on {log:?} gives {got}, then {again}"));
      if let Some(want) = x.holds(log) {
        c.ensure(got == want, "decision", || format!("case {case}, log {i}: {x:?} on {log:?} gives {got}"));
        c.count(if want { "matches" } else { "no_matches" });
      }
    }
    c.eval((x.size() > 1 && x.valid() == Some(true)).then(|| vh::hash_of(&format!("{x:?}"))));
    c.sample(|| format!("{x:?} on {:?}", logs[0]));
  });
}
