//! Static client metadata.
use bd_metadata::{Metadata, Platform};
use std::collections::HashMap;
use std::time::Duration;
use vh::{Check, Rng};

struct M {
  p: Platform,
  v: &'static str,
  app: HashMap<String, String>,
}
impl Metadata for M {
  fn sdk_version(&self) -> &'static str {
    self.v
  }
  fn platform(&self) -> &Platform {
    &self.p
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    self.app.clone()
  }
}

fn leak(s: String) -> &'static str {
  Box::leak(s.into_boxed_str())
}

pub fn run(c: &Check) {
  c.rule("cases are platform, version and application pairs; non-trivial: the application supplies a static key or a key close to one; distinct by all of them");
  let mut config_version: Option<String> = None;
  c.cases(c.n(3_000, 60_000), Duration::from_secs(60), |case, r: &mut Rng| {
    let (p, os, kind): (Platform, String, String) = match r.below(5) {
      0 => (Platform::Android, "android".into(), "mobile".into()),
      1 => (Platform::Ios, "ios".into(), "mobile".into()),
      2 => (Platform::Pulse, "pulse".into(), "pulse".into()),
      _ => {
        let (o, k) = (leak(r.string()), leak(r.string()));
        (Platform::Other(o, k), o.into(), k.into())
      },
    };
    let v = leak(match r.below(3) {
      0 => String::new(),
      1 => format!("{}.{}.{}", r.below(20), r.below(20), r.below(20)),
      _ => r.string(),
    });
    let keys = ["os", "kind", "sdk_version", "config_version", "OS", "os_version", "_kind", "platform", "app_version", "sdk", "config", "device_id", " os", "kind "];
    let mut app = HashMap::new();
    let mut special = false;
    for _ in 0 .. r.below(8) {
      let k = if r.chance(3, 4) { (*r.pick(&keys)).to_string() } else { r.string() };
      special |= keys.contains(&k.as_str());
      let v = match r.below(4) {
        0 => "26".to_string(),
        1 => "mobile".to_string(),
        _ => r.string(),
      };
      app.insert(k, v);
    }
    let m = M { p, v, app: app.clone() };
    let mut got = m.collect();
    let desc = format!("case {case}: os {os:?} kind {kind:?} version {v:?} application {app:?} -> {got:?}");
    c.ensure(got.remove("os").as_ref() == Some(&os), "os", || desc.clone());
    c.ensure(got.remove("kind").as_ref() == Some(&kind), "kind", || desc.clone());
    c.ensure(got.remove("sdk_version").as_deref() == Some(v), "sdk-version", || desc.clone());
    match (got.remove("config_version"), &mut config_version) {
      (Some(x), y @ None) => {
        c.ensure(x.parse::<u32>().is_ok_and(|x| x >= 1), "config-version", || desc.clone());
        *y = Some(x);
      },
      (x, y) => {
        c.ensure(x == *y, "config-version", || desc.clone());
      },
    }
    for k in ["os", "kind", "sdk_version", "config_version"] {
      app.remove(k);
    }
    c.ensure(got == app, "application-pairs", || desc.clone());
    c.add("pairs", got.len() as u64 + 4);
    c.eval(special.then(|| vh::hash_of(&desc)));
    c.sample(|| desc.clone());
  });
}
