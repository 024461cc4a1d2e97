//! Versions, through conditions on a field.
use crate::cond::{holds, named, Cond};
use bd_log_matcher::matcher::Tree;
use bd_log_primitives::{FieldsRef, LogField, LogMessage, LogType};
use std::cmp::Ordering;
use std::time::Duration;
use vh::{Check, Rng};

enum Part<'a> {
  Number(u32),
  Text(&'a str),
}

fn part(s: &str) -> Part<'_> {
  if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
    return Part::Text(s);
  }
  let d = s.trim_start_matches('0');
  if d.len() > 10 {
    return Part::Text(s);
  }
  match d.bytes().fold(0u64, |n, b| n * 10 + u64::from(b - b'0')) {
    n if n <= u64::from(u32::MAX) => Part::Number(n as u32),
    _ => Part::Text(s),
  }
}

/// Numbers up to 32 bits compare as such, other parts as text, and what is missing is 0. What
/// follows the first - or + is ignored.
pub fn compare(a: &str, b: &str) -> Ordering {
  fn cut(s: &str) -> Vec<&str> {
    s[.. s.find(['-', '+']).unwrap_or(s.len())].split('.').collect()
  }
  let (a, b) = (cut(a), cut(b));
  for i in 0 .. a.len().max(b.len()) {
    let o = match (part(a.get(i).unwrap_or(&"0")), part(b.get(i).unwrap_or(&"0"))) {
      (Part::Number(x), Part::Number(y)) => x.cmp(&y),
      (Part::Number(x), Part::Text(y)) => x.to_string().as_str().cmp(y),
      (Part::Text(x), Part::Number(y)) => x.cmp(y.to_string().as_str()),
      (Part::Text(x), Part::Text(y)) => x.cmp(y),
    };
    if o != Ordering::Equal {
      return o;
    }
  }
  Ordering::Equal
}

fn segment(r: &mut Rng) -> String {
  match r.below(16) {
    0 => String::new(),
    1 => format!("0{}", r.below(12)),
    15 => [" 1", "1 ", " ", "+1", "1_0", "١"][r.idx(6)].into(),
    2 => "00".into(),
    3 => ["a", "foo", "1a", "a1", "B", "é", "x y", "10b"][r.idx(8)].into(),
    4 => ["4294967295", "4294967296", "4294967297", "99999999999", "0000000000001", "18446744073709551616"][r.idx(6)].into(),
    5 => r.below(20_000).to_string(),
    _ => r.below(13).to_string(),
  }
}

pub fn version(r: &mut Rng) -> String {
  let n = r.range(1, 4);
  let mut s: Vec<_> = (0 .. n).map(|_| segment(r)).collect();
  if r.chance(1, 4) {
    s = s.into_iter().map(|x| if x.parse::<u32>().is_ok() { x } else { "1".into() }).collect();
  }
  let mut s = s.join(".");
  if r.chance(1, 4) {
    s += ["-", "-alpha", "-1.2", "+build", "+7", "-rc+b", "+b-rc", "-.", "+"][r.idx(9)];
  }
  s
}

fn numeric(s: &str) -> bool {
  s[.. s.find(['-', '+']).unwrap_or(s.len())].split('.').all(|p| matches!(part(p), Part::Number(_)))
}

/// Which of the six comparisons of a with b hold.
fn ask(a: &str, b: &str) -> Vec<bool> {
  let f = vec![LogField { key: "v".into(), value: a.into() }];
  let m: LogMessage = "".into();
  (1 ..= 6)
    .map(|o| {
      let t = Tree::new(&Cond::Version("v".into(), o, b.into()).proto()).expect("a valid definition");
      t.do_match(0, LogType(0), &m, &FieldsRef::new(&f, &vec![]))
    })
    .collect()
}

fn order(c: &Check, a: &str, b: &str) -> Option<Ordering> {
  let g = ask(a, b);
  c.add("comparisons", 6);
  let all = [Ordering::Less, Ordering::Equal, Ordering::Greater];
  let fits: Vec<_> = all.into_iter().filter(|o| (1 ..= 6).all(|x| holds(x, *o) == Some(g[x as usize - 1]))).collect();
  let said = || (1 ..= 6).filter(|x| g[*x as usize - 1]).map(named).collect::<Vec<_>>().join(" ");
  c.ensure(fits.len() == 1, "operators", || format!("{a:?} is {} {b:?}, which no order gives", said()));
  fits.first().copied()
}

fn pair(c: &Check, what: &str, a: &str, b: &str) -> Option<Ordering> {
  let o = order(c, a, b)?;
  c.ensure(order(c, b, a) == Some(o.reverse()), "antisymmetry", || format!("{what}: {a:?} is {o:?} than {b:?}, but not the other way around"));
  c.ensure(o == compare(a, b), "order", || format!("{what}: {a:?} compares as {o:?} with {b:?}"));
  Some(o)
}

pub fn run(c: &Check) {
  c.rule("cases are triples of versions compared by all operators in both directions; non-trivial: not all equal; distinct by the triple");
  c.assume("parts over 32 bits and parts with other characters than digits compare as text with any other part, as the code says; transitivity is only required of versions of numbers");
  // All short ones.
  if c.only.is_none() {
    let parts = ["0", "1", "2", "10", "01", "a"];
    let mut all: Vec<String> = vec!["".into(), ".".into(), "-".into(), "+".into(), "1-".into(), "1+2".into()];
    for x in parts {
      all.push(x.into());
      for y in parts {
        all.push(format!("{x}.{y}"));
      }
    }
    for a in &all {
      for b in &all {
        pair(c, "all short", a, b);
        c.count("pairs_of_short_versions");
      }
    }
  }
  c.cases(c.n(15_000, 400_000), Duration::from_secs(c.n(12, 900)), |case, r| {
    let a = version(r);
    // Variations of a more often than not.
    let vary = |r: &mut Rng| match r.below(6) {
      0 => format!("{a}.0"),
      1 => format!("{a}-{}", r.string()),
      2 => format!("{a}+{}", r.string()),
      3 => {
        let mut p: Vec<String> = a.split('.').map(String::from).collect();
        let i = r.idx(p.len());
        p[i] = segment(r);
        p.join(".")
      },
      _ => version(r),
    };
    let (b, d) = (vary(r), vary(r));
    let what = format!("case {case}");
    let (ab, bd, ad) = (pair(c, &what, &a, &b), pair(c, &what, &b, &d), pair(c, &what, &a, &d));
    for x in [&a, &b, &d] {
      c.ensure(order(c, x, x) == Some(Ordering::Equal), "reflexive", || format!("{what}: {x:?} is not equal to itself"));
      let padded = if x.contains(['-', '+']) { x.clone() } else { format!("{x}.0.0") };
      c.ensure(order(c, x, &padded) == Some(Ordering::Equal), "missing-parts", || format!("{what}: {x:?} is not equal to {padded:?}"));
      let suffixed = format!("{x}{}", ["-z", "+z", "-z.1+2", "+z-1"][r.idx(4)]);
      c.ensure(order(c, x, &suffixed) == Some(Ordering::Equal), "suffix", || format!("{what}: {x:?} is not equal to {suffixed:?}"));
    }
    if let (Some(x), Some(y), Some(z)) = (ab, bd, ad) {
      if [&a, &b, &d].iter().all(|v| numeric(v)) {
        c.count("triples_of_numbers");
        if x == y {
          c.ensure(z == x, "transitive", || format!("{what}: {a:?} is {x:?} than {b:?}, that {y:?} than {d:?}, but {z:?}"));
        }
      }
      c.eval((x != Ordering::Equal || y != Ordering::Equal).then(|| vh::hash_of(&(&a, &b, &d))));
    }
    c.sample(|| format!("{a:?} {b:?} {d:?}: {ab:?} {bd:?} {ad:?}"));
  });
}
