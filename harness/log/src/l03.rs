//! Recognition of application updates.
use bd_logger::verif_driver::version::Repo;
use bd_logger::AppVersionExtra;
use std::time::Duration;
use vh::{Check, Rng};
use vstore::Mem;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum E {
  Code(i64),
  Build(String),
}
impl E {
  fn to(&self) -> AppVersionExtra {
    match self {
      Self::Code(c) => AppVersionExtra::AppVersionCode(*c),
      Self::Build(b) => AppVersionExtra::BuildNumber(b.clone()),
    }
  }
}
fn from(e: AppVersionExtra) -> E {
  match e {
    AppVersionExtra::AppVersionCode(c) => E::Code(c),
    AppVersionExtra::BuildNumber(b) => E::Build(b),
  }
}

fn version(r: &mut Rng) -> (String, E) {
  let v = match r.below(6) {
    0 => r.string(),
    1 => "1.0".into(),
    2 => "1.0.0".into(),
    3 => "01.0".into(),
    _ => format!("{}.{}", r.below(2), r.below(2)),
  };
  let e = match r.below(8) {
    0 => E::Code(*r.pick(&[i64::MIN, i64::MAX, -1, 0])),
    1 => E::Build(r.string()),
    2 | 3 => E::Build((*r.pick(&["1", "1.0", "01", "2", "1 ", ""])).to_string()),
    _ => E::Code(r.range(0, 2)),
  };
  (v, e)
}

pub fn run(c: &Check) {
  c.rule("cases are histories of process starts over one storage, each asking for and recording versions; non-trivial: an update was reported; distinct by history");
  vh::logcap::install(log::LevelFilter::Off);
  c.cases(c.n(15_000, 500_000), Duration::from_secs(c.n(8, 600)), |case, r| {
    let mem = Mem::new(case);
    let mut known: Option<(String, E)> = None;
    let mut hist = vec![];
    let mut updates = 0;
    for _ in 0 .. r.range(1, 9) {
      // Storage kept by something else in the same application.
      if r.chance(1, 4) {
        mem.put_raw("other", "x");
      }
      let repo = Repo::new(mem.store());
      let mut cur = version(r);
      hist.push(format!("start {cur:?}"));
      for _ in 0 .. r.below(6) {
        if r.chance(1, 8) {
          cur = version(r);
        }
        let differs = known.as_ref().is_some_and(|k| *k != cur);
        if r.bool() {
          let got = repo.has_changed(&cur.0, cur.1.to());
          hist.push(format!("changed? {cur:?} {got}"));
          c.ensure(got == differs, "has-changed", || format!("case {case}: recorded {known:?}, {hist:?}"));
          c.count("questions");
        } else {
          let got = repo.set(&cur.0, cur.1.to()).map(|(v, e)| (v, from(e)));
          hist.push(format!("record {cur:?} {got:?}"));
          let want = if differs { known.clone() } else { None };
          c.ensure(got == want, "record", || format!("case {case}: recorded {known:?}, expected {want:?}, {hist:?}"));
          updates += u64::from(differs);
          if differs {
            known = Some(cur.clone());
          }
        }
        if known.is_none() {
          known = Some(cur.clone());
        }
      }
    }
    c.add("updates", updates);
    c.eval((updates > 0).then(|| vh::hash_of(&hist)));
    c.sample(|| format!("{hist:?}"));
  });
}
