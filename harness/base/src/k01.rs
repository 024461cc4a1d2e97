//! K01: the typed store against a model, over arbitrary values, corrupted texts and failing storage.

use crate::store::Mem;
use base64::Engine;
use bd_key_value::{Key, Storable};
use std::collections::BTreeMap;
use std::time::Duration;
use vh::{Check, Rng};

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
enum Kind {
  Unit,
  Num(i64),
  Text { a: String, b: Option<Box<Kind>> },
}

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
struct Rec {
  a: u64,
  b: Option<String>,
  c: Vec<u8>,
  d: BTreeMap<String, i32>,
  e: Kind,
  f: f64,
  g: (bool, char),
}
impl Storable for Rec {}

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
struct Num(u32);
impl Storable for Num {}

const S: [Key<String>; 9] = [
  Key::new("s0"),
  Key::new("s1"),
  Key::new(""),
  Key::new("weird \0 ключ"),
  Key::new("s0.1"),
  Key::new("S0"),
  Key::new(" s0"),
  Key::new("a_rather.long/name:that.goes.on.for_more_than_sixty_four_characters.and.ends.with.this.part"),
  Key::new("a_rather.long/name:that.goes.on.for_more_than_sixty_four_characters.and.ends.with.that.part"),
];
const R: [Key<Rec>; 4] = [Key::new("r0"), Key::new("r1"), Key::new("r2"), Key::new("r2.state.1")];
const N: [Key<Num>; 3] = [Key::new("n0"), Key::new("n1"), Key::new("n2")];

fn kind(r: &mut Rng, depth: u32) -> Kind {
  match r.below(if depth > 3 { 2 } else { 4 }) {
    0 => Kind::Unit,
    1 => Kind::Num(r.u64() as i64),
    _ => Kind::Text { a: r.string(), b: r.bool().then(|| Box::new(kind(r, depth + 1))) },
  }
}

fn rec(r: &mut Rng) -> Rec {
  let f = f64::from_bits(r.u64());
  let n = r.idx(40);
  Rec {
    a: r.u64(),
    b: r.bool().then(|| r.string()),
    c: { if r.chance(1, 40) { r.bytes(70_000) } else { r.bytes(n) } },
    d: (0 .. r.idx(5)).map(|_| (r.string(), r.u32() as i32)).collect(),
    e: kind(r, 0),
    f: if f.is_nan() { 0.5 } else { f },
    g: (r.bool(), *r.pick(&['a', '\0', '✓', '\u{10FFFF}'])),
  }
}

#[derive(Clone, Debug, PartialEq)]
enum Stored {
  /// Put there by the store.
  Good,
  /// Not an encoding of the key's type.
  Bad,
  /// Undecidable here, anything but a panic goes.
  Odd,
}

/// Is `text` certainly not an encoding of T?
fn judge<T: Storable + PartialEq>(text: &str) -> Result<Option<T>, ()> {
  // Strict base64 by hand: alphabet, padding, length.
  let b = text.as_bytes();
  let body = b.iter().rposition(|c| *c != b'=').map_or(0, |p| p + 1);
  let ok = b.len() % 4 == 0
    && b.len() - body <= 2
    && b[.. body].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'+' || *c == b'/');
  if !ok {
    return Ok(None);
  }
  let Ok(raw) = base64::engine::general_purpose::STANDARD.decode(text) else {
    return Ok(None);
  };
  let Ok(v) = bincode::deserialize::<T>(&raw) else {
    return Ok(None);
  };
  // The text is one the store would write for v: it is v. Otherwise leave it open.
  if base64::engine::general_purpose::STANDARD.encode(bincode::serialize(&v).unwrap()) == text {
    Ok(Some(v))
  } else {
    Err(())
  }
}

fn corrupt(r: &mut Rng, t: &str) -> String {
  let mut b: Vec<char> = t.chars().collect();
  match r.below(9) {
    0 => String::new(),
    1 => r.string(),
    2 if !b.is_empty() => {
      b.truncate(r.idx(b.len()));
      b.into_iter().collect()
    },
    3 if !b.is_empty() => {
      let i = r.idx(b.len());
      b[i] = *r.pick(&['A', '/', '-', '_', '=', '\n', 'é', '!']);
      b.into_iter().collect()
    },
    4 => format!("{t}{t}"),
    5 => format!(" {t}"),
    6 => {
      // Truncated after decoding: valid base64 of half a value.
      let raw = base64::engine::general_purpose::STANDARD.decode(t).unwrap_or_default();
      let n = r.idx(raw.len() + 1);
      base64::engine::general_purpose::STANDARD.encode(&raw[.. n])
    },
    7 => {
      // A length prefix that promises far more than there is.
      let mut raw = base64::engine::general_purpose::STANDARD.decode(t).unwrap_or_default();
      for x in raw.iter_mut().take(8) {
        *x = 0xff;
      }
      base64::engine::general_purpose::STANDARD.encode(&raw)
    },
    _ => {
      let n = r.idx(30);
      let bytes = r.bytes(n);
      base64::engine::general_purpose::STANDARD.encode(bytes)
    },
  }
}

struct Model<T> {
  want: Option<T>,
  state: Stored,
}

fn step<T: Storable + Clone + PartialEq + std::fmt::Debug>(
  c: &Check,
  r: &mut Rng,
  mem: &std::sync::Arc<Mem>,
  store: &bd_key_value::Store,
  key: &Key<T>,
  m: &mut Model<T>,
  v: T,
  faults: bool,
) {
  let before: Vec<(String, String)> =
    mem.map.lock().iter().filter(|(k, _)| k.as_str() != key.key()).map(|(k, v)| (k.clone(), v.clone())).collect();
  let f0 = mem.failed.load(std::sync::atomic::Ordering::SeqCst);
  match r.below(5) {
    0 | 1 => {
      store.set(key, &v);
      let failed = mem.failed.load(std::sync::atomic::Ordering::SeqCst) != f0;
      c.count(if failed { "set with a storage failure" } else { "set" });
      if !failed {
        *m = Model { want: Some(v), state: Stored::Good };
      }
    },
    2 if faults => {
      let text = mem.raw(key.key()).unwrap_or_default();
      let bad = corrupt(r, &text);
      mem.put_raw(key.key(), &bad);
      *m = match judge::<T>(&bad) {
        Ok(None) => Model { want: None, state: Stored::Bad },
        Ok(Some(v)) => Model { want: Some(v), state: Stored::Good },
        Err(()) => Model { want: None, state: Stored::Odd },
      };
      c.count("text corrupted");
      return;
    },
    _ => {
      let got = match vh::no_panic(|| store.get(key)) {
        Ok(g) => g,
        Err(p) => {
          c.violation("get-panicked", &format!("get of {:?} with stored {:?}: {p}", key.key(), mem.raw(key.key())));
          return;
        },
      };
      let failed = mem.failed.load(std::sync::atomic::Ordering::SeqCst) != f0;
      if failed {
        c.count("get with a storage failure");
        // Nothing or (when only the clean-up failed) nothing too; never a wrong value.
        c.ensure(got.is_none() || got == m.want, "wrong-value-on-failure", || format!("{:?}: {got:?} for {:?}", key.key(), m.want));
        // A failed read removes the entry, unless that failed as well.
        match mem.raw(key.key()) {
          None => *m = Model { want: None, state: Stored::Good },
          Some(_) if got.is_some() => {},
          Some(_) if m.state == Stored::Good && m.want.is_none() => {},
          Some(_) => {
            let attempted = mem.ops.lock().iter().rev().take(1).any(|o| *o == crate::store::Op::Delete(key.key().into()));
            c.ensure(attempted, "unreadable-entry-kept", || format!("{:?} was unreadable and no removal was attempted", key.key()));
          },
        }
      } else {
        match m.state {
          Stored::Good => {
            c.count(if m.want.is_some() { "get of a value" } else { "get of nothing" });
            c.ensure(got == m.want, "wrong-value", || format!("{:?}: read {got:?}, last set {:?}", key.key(), m.want));
            if m.want.is_some() {
              c.ensure(mem.raw(key.key()).is_some(), "value-removed-by-read", || format!("{:?}", key.key()));
            }
          },
          Stored::Bad => {
            c.count("get of a corrupted text");
            c.ensure(got.is_none(), "corrupted-read-returned-value", || format!("{:?}: {got:?} from {:?}", key.key(), mem.raw(key.key())));
            c.ensure(mem.raw(key.key()).is_none(), "corrupted-entry-kept", || format!("{:?} still holds {:?}", key.key(), mem.raw(key.key())));
            *m = Model { want: None, state: Stored::Good };
          },
          Stored::Odd => {
            c.count("get of a text that decodes but was not written");
            *m = match mem.raw(key.key()) {
              None => Model { want: None, state: Stored::Good },
              Some(_) => Model { want: None, state: Stored::Odd },
            };
          },
        }
      }
    },
  }
  let after = mem.map.lock();
  for (k, v) in before {
    c.ensure(after.get(&k) == Some(&v), "other-key-disturbed", || format!("{k:?} changed by an operation on {:?}", key.key()));
  }
}

pub fn run(c: &Check) {
  c.rule("Each case: a random history of typed sets and gets over 16 keys and 3 types (strings, a nested record, a number) with random values, corrupted stored texts, storage failures and reopened stores, judged against a map model; distinct by the hash of the history's values.");
  let n = c.n(1500, 40_000);
  c.cases(n, Duration::from_secs(c.n(20, 600)), |i, r| {
    let mem = Mem::new(r.u64());
    // Two of them over the same storage.
    let mut stores = [mem.store(), mem.store()];
    let mut s: Vec<Model<String>> = (0 .. S.len()).map(|_| Model { want: None, state: Stored::Good }).collect();
    let mut q: Vec<Model<Rec>> = (0 .. R.len()).map(|_| Model { want: None, state: Stored::Good }).collect();
    let mut w: Vec<Model<Num>> = (0 .. N.len()).map(|_| Model { want: None, state: Stored::Good }).collect();
    let faults = i % 3 != 0;
    let mut h = 0u64;
    for _ in 0 .. 60 {
      if faults {
        let f = r.chance(1, 3);
        let (a, b, d) = (r.below(120), r.below(120), r.below(120));
        mem.faults(if f { a } else { 0 }, if f { b } else { 0 }, if f { d } else { 0 });
      }
      if r.chance(1, 10) {
        stores[r.idx(2)] = mem.store();
        c.count("storage reopened");
      }
      let store = &stores[if r.chance(1, 5) { 1 } else { 0 }];
      match r.below(3) {
        0 => {
          let k = r.idx(S.len());
          let v = if r.chance(1, 1500) {
            c.count("huge values");
            r.string().repeat(1 << 14).chars().cycle().take(1_000_000 + r.idx(4_000_000)).collect()
          } else {
            r.string()
          };
          h ^= vh::hash_of(&(k, &v)).rotate_left(7);
          step(c, r, &mem, store, &S[k], &mut s[k], v, faults);
        },
        1 => {
          let k = r.idx(R.len());
          let v = rec(r);
          h = h.wrapping_mul(31) ^ v.a;
          step(c, r, &mem, store, &R[k], &mut q[k], v, faults);
        },
        _ => {
          let k = r.idx(N.len());
          let v = Num(r.u32());
          h = h.wrapping_mul(31) ^ u64::from(v.0);
          step(c, r, &mem, store, &N[k], &mut w[k], v, faults);
        },
      }
    }
    c.eval(Some(h));
    c.sample(|| format!("case {i}: final store {:?}", mem.map.lock().iter().map(|(k, v)| (k.clone(), v.chars().take(40).collect::<String>())).collect::<Vec<_>>()));
  });

  // Threads over one store, a key each plus one shared: a read never mixes values.
  let n = c.n(20, 400);
  c.cases(n, Duration::from_secs(c.n(5, 60)), |_, r| {
    let mem = Mem::new(r.u64());
    let store = mem.store();
    std::thread::scope(|sc| {
      for t in 0 .. 3usize {
        let store = store.clone();
        let mut r = r.fork();
        sc.spawn(move || {
          let mut last: Option<Rec> = None;
          for j in 0 .. 60 {
            if r.bool() {
              let v = rec(&mut r);
              store.set(&R[t], &v);
              last = Some(v);
            } else {
              let got = store.get(&R[t]);
              if got != last {
                c.violation("wrong-value", &format!("thread {t} step {j}: {got:?} instead of {last:?}"));
              }
            }
            // The shared key only ever holds one of these.
            store.set(&S[0], &"x".repeat(10 + t));
            if let Some(v) = store.get(&S[0]) {
              if !(v.len() >= 10 && v.len() < 13 && v.bytes().all(|b| b == b'x')) {
                c.violation("mixed-value", &v);
              }
            }
          }
        });
      }
    });
    c.count("concurrent run");
    c.eval(None);
  });
}
