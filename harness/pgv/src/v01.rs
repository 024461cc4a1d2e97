//! The validator on messages of types made at run time, against what their rules mean.
use bd_pgv::generated::protos::validate::{self as pv, FieldRules};
use bd_pgv::proto_validate_real::validate;
use protobuf::descriptor::{FieldOptions, OneofOptions};
use protobuf::reflect::{DynField, DynMessage, DynOneof, DynType, DynValue, EnumDescriptor, FieldProto, OneofProto, RuntimeFieldType as K, RuntimeType as T, Slot};
use protobuf::well_known_types::duration::Duration as ProtoDuration;
use protobuf::{Message, MessageDyn, MessageField};
use std::sync::Arc;
use std::time::Duration;
use vh::{Check, Rng};

/// A rule of a field, as the check understands it.
#[derive(Clone, Debug, Hash, PartialEq)]
enum Rule {
  ConstBool(bool),
  Defined,
  /// Of the field's own integer type.
  Gt(i128),
  Len(Option<u64>, Option<u64>),
  Items(u64),
  DurationGt(i64, i32),
  Required,
  /// One the validator does not have; which it has to say.
  Unsupported(u64),
}

#[derive(Clone, Debug)]
struct Field {
  kind: Kind,
  shape: Shape,
  rules: Vec<Rule>,
  oneof: Option<usize>,
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Shape {
  One,
  Many,
  Map,
}
#[derive(Clone, Debug, PartialEq)]
enum Kind {
  I32,
  I64,
  U32,
  U64,
  F32,
  F64,
  Bool,
  Str,
  Bytes,
  Enum(Vec<i32>),
  Duration,
  Message(usize),
}
#[derive(Clone, Debug)]
struct Oneof {
  required: bool,
  synthetic: bool,
}
struct Schema {
  fields: Vec<Field>,
  oneofs: Vec<Oneof>,
}

fn int(r: &mut Rng, lo: i128, hi: i128) -> i128 {
  let v = match r.below(7) {
    0 => lo,
    1 => hi,
    2 => lo + 1,
    3 => hi - 1,
    4 => 0,
    _ => i128::from(r.range(-3, 4)),
  };
  v.clamp(lo, hi)
}

fn limits(k: &Kind) -> (i128, i128) {
  match k {
    Kind::I32 => (i32::MIN.into(), i32::MAX.into()),
    Kind::I64 => (i64::MIN.into(), i64::MAX.into()),
    Kind::U32 => (0, u32::MAX.into()),
    _ => (0, u64::MAX.into()),
  }
}

fn schema(r: &mut Rng, at: usize, types: usize, busy: bool) -> Schema {
  let mut oneofs = vec![];
  let mut fields: Vec<Field> = vec![];
  for _ in 0 .. r.below(2) {
    oneofs.push(Oneof { required: r.bool(), synthetic: false });
  }
  for _ in 0 .. r.below(6) {
    let kind = match r.below(if at + 1 < types { 15 } else { 12 }) {
      0 => Kind::I32,
      1 => Kind::I64,
      2 => Kind::U32,
      3 => Kind::U64,
      4 => Kind::F32,
      5 => Kind::F64,
      6 => Kind::Bool,
      7 | 8 => Kind::Str,
      9 => Kind::Bytes,
      10 => Kind::Enum((0 .. 1 + r.below(3)).map(|i| i as i32 * if r.bool() { 1 } else { -7 }).collect()),
      11 => Kind::Duration,
      _ => Kind::Message(at + 1 + r.idx(types - at - 1)),
    };
    let shape = match r.below(6) {
      0 => Shape::Many,
      1 => Shape::Map,
      _ => Shape::One,
    };
    let oneof = if shape != Shape::One {
      None
    } else if oneofs.first().is_some_and(|o| !o.synthetic) && r.chance(1, 3) {
      Some(0)
    } else if r.chance(1, 3) && !matches!(kind, Kind::Message(_) | Kind::Duration) {
      oneofs.push(Oneof { required: false, synthetic: true });
      Some(oneofs.len() - 1)
    } else {
      None
    };
    let mut rules = vec![];
    if r.chance(1, if busy { 2 } else { 4 }) {
      if r.chance(1, 14) && (shape != Shape::One || kind != Kind::Bool) {
        rules.push(Rule::Unsupported(r.below(30)));
      } else {
        match (shape, &kind) {
          (Shape::Many, _) => rules.push(Rule::Items(r.below(3))),
          (Shape::Map, _) => {},
          (_, Kind::Bool) => rules.push(Rule::ConstBool(r.bool())),
          (_, Kind::Enum(_)) => rules.push(Rule::Defined),
          (_, Kind::Str) => rules.push(Rule::Len(r.bool().then(|| r.below(4)), r.bool().then(|| r.below(6)))),
          (_, Kind::I32 | Kind::I64 | Kind::U32 | Kind::U64) => {
            let (lo, hi) = limits(&kind);
            rules.push(Rule::Gt(int(r, lo, hi)));
          },
          (_, Kind::Duration) => {
            if r.bool() {
              rules.push(Rule::Required);
            }
            rules.push(Rule::DurationGt(r.below(3) as i64, if r.bool() { 0 } else { r.below(1_000_000_000) as i32 }));
          },
          (_, Kind::Message(_)) => rules.push(Rule::Required),
          _ => {},
        }
      }
    }
    fields.push(Field { kind, shape, rules, oneof });
  }
  // A oneof has fields.
  if oneofs.first().is_some_and(|o| !o.synthetic) && !fields.iter().any(|f| f.oneof == Some(0)) {
    oneofs[0].required = false;
  }
  Schema { fields, oneofs }
}

fn encode(f: &Field) -> Option<FieldOptions> {
  if f.rules.is_empty() {
    return None;
  }
  let mut out = FieldRules::new();
  macro_rules! ints {
    ($set:ident, $ty:ident, $t:ty, $rule:expr) => {{
      let mut x = pv::$ty::new();
      match $rule {
        Rule::Gt(v) => x.gt = Some(*v as $t),
        Rule::Unsupported(n) => match n % 6 {
          0 => x.lt = Some(5),
          1 => x.lte = Some(5),
          2 => x.gte = Some(0),
          3 => x.const_ = Some(0),
          4 => x.in_.push(0),
          _ => x.not_in.push(9),
        },
        _ => unreachable!(),
      }
      out.$set(x);
    }};
  }
  for rule in &f.rules {
    if let (Rule::Unsupported(n), true) = (rule, f.shape == Shape::Many) {
      let mut x = pv::RepeatedRules::new();
      match n % 3 {
        0 => x.set_max_items(9),
        1 => x.set_unique(true),
        _ => x.items = MessageField::some(FieldRules::new()),
      }
      out.set_repeated(x);
      continue;
    }
    if f.shape == Shape::Map {
      let mut x = pv::MapRules::new();
      x.set_min_pairs(0);
      out.set_map(x);
      continue;
    }
    match (rule, &f.kind) {
      (Rule::Items(n), _) => {
        let mut x = pv::RepeatedRules::new();
        x.set_min_items(*n);
        out.set_repeated(x);
      },
      (rule, Kind::I32) => ints!(set_int32, Int32Rules, i32, rule),
      (rule, Kind::I64) => ints!(set_int64, Int64Rules, i64, rule),
      (rule, Kind::U32) => ints!(set_uint32, UInt32Rules, u32, rule),
      (rule, Kind::U64) => ints!(set_uint64, UInt64Rules, u64, rule),
      (_, Kind::F32) => out.set_float(pv::FloatRules::new()),
      (_, Kind::F64) => out.set_double(pv::DoubleRules::new()),
      (_, Kind::Bytes) => out.set_bytes(pv::BytesRules::new()),
      (rule, Kind::Bool) => {
        let mut x = pv::BoolRules::new();
        if let Rule::ConstBool(b) = rule {
          x.set_const(*b);
        }
        out.set_bool(x);
      },
      (rule, Kind::Enum(_)) => {
        let mut x = pv::EnumRules::new();
        match rule {
          Rule::Defined => x.set_defined_only(true),
          Rule::Unsupported(n) => match n % 3 {
            0 => x.set_const(0),
            1 => x.in_.push(0),
            _ => x.not_in.push(77),
          },
          _ => unreachable!(),
        }
        out.set_enum(x);
      },
      (rule, Kind::Str) => {
        let mut x = pv::StringRules::new();
        match rule {
          Rule::Len(lo, hi) => {
            lo.map(|n| x.set_min_len(n));
            hi.map(|n| x.set_max_len(n));
          },
          Rule::Unsupported(n) => match n % 12 {
            0 => x.set_const(String::new()),
            1 => x.set_len(1),
            2 => x.set_len_bytes(1),
            3 => x.set_min_bytes(0),
            4 => x.set_max_bytes(9),
            5 => x.set_pattern(".*".into()),
            6 => x.set_prefix(String::new()),
            7 => x.set_suffix(String::new()),
            8 => x.set_contains(String::new()),
            9 => x.set_uuid(true),
            10 => x.in_.push(String::new()),
            _ => x.not_in.push("q".into()),
          },
          _ => unreachable!(),
        }
        out.set_string(x);
      },
      (Rule::Required, _) => {
        let mut x = pv::MessageRules::new();
        x.set_required(true);
        out.message = MessageField::some(x);
      },
      (rule, Kind::Duration) => {
        let mut x = pv::DurationRules::new();
        let d = |s| MessageField::some(ProtoDuration { seconds: s, ..Default::default() });
        match rule {
          Rule::DurationGt(s, n) => x.gt = MessageField::some(ProtoDuration { seconds: *s, nanos: *n, ..Default::default() }),
          Rule::Unsupported(n) => match n % 5 {
            0 => x.lt = d(9),
            1 => x.lte = d(9),
            2 => x.gte = d(0),
            3 => x.const_ = d(0),
            _ => x.set_required(true),
          },
          _ => unreachable!(),
        }
        out.set_duration(x);
      },
      (_, Kind::Message(_)) => out.set_any(pv::AnyRules::new()),
      x => unreachable!("{x:?}"),
    }
  }
  let raw = out.write_to_bytes().unwrap();
  let mut bytes = vec![0xfa, 0x42];
  let mut n = raw.len();
  while n >= 128 {
    bytes.push((n & 127) as u8 | 128);
    n >>= 7;
  }
  bytes.push(n as u8);
  bytes.extend(raw);
  Some(FieldOptions::parse_from_bytes(&bytes).unwrap())
}

fn made(i: usize, s: &Schema) -> DynType {
  let t = |k: &Kind| match k {
    Kind::I32 => T::I32,
    Kind::I64 => T::I64,
    Kind::U32 => T::U32,
    Kind::U64 => T::U64,
    Kind::F32 => T::F32,
    Kind::F64 => T::F64,
    Kind::Bool => T::Bool,
    Kind::Str => T::String,
    Kind::Bytes => T::VecU8,
    Kind::Enum(v) => T::Enum(EnumDescriptor::with(v.clone())),
    Kind::Duration => T::Message("google.protobuf.Duration".into()),
    Kind::Message(m) => T::Message(format!("verif.M{m}")),
  };
  DynType {
    name: format!("verif.M{i}"),
    fields: s
      .fields
      .iter()
      .enumerate()
      .map(|(n, f)| DynField {
        name: format!("verif.M{i}.f{n}"),
        proto: FieldProto { options: encode(f).map_or_else(MessageField::none, MessageField::some) },
        kind: match f.shape {
          Shape::One => K::Singular(t(&f.kind)),
          Shape::Many => K::Repeated(t(&f.kind)),
          Shape::Map => K::Map(T::String, t(&f.kind)),
        },
        oneof: f.oneof,
      })
      .collect(),
    oneofs: s
      .oneofs
      .iter()
      .enumerate()
      .map(|(n, o)| DynOneof {
        name: format!("verif.M{i}.o{n}"),
        proto: OneofProto { options: if o.required { MessageField::some(OneofOptions::parse_from_bytes(&[0xf8, 0x42, 1]).unwrap()) } else { MessageField::none() } },
        synthetic: o.synthetic,
      })
      .collect(),
  }
}

/// What is wrong with a message, if anything, and the message.
struct World<'a> {
  schemas: &'a [Schema],
  types: &'a [Arc<DynType>],
  wrong: Vec<String>,
  deep: u64,
}

impl World<'_> {
  fn value(&mut self, r: &mut Rng, f: &Field, path: &str, good: bool) -> DynValue {
    let (lo, hi) = limits(&f.kind);
    let edge = |r: &mut Rng| {
      let v = f.rules.iter().find_map(|x| if let Rule::Gt(v) = x { Some(*v) } else { None });
      match v {
        Some(v) if r.chance(3, 4) => (v + i128::from(if good { r.range(1, 3) } else { r.range(-1, 2) })).clamp(lo, hi),
        _ => int(r, lo, hi),
      }
    };
    match &f.kind {
      Kind::I32 => DynValue::I32(edge(r) as i32),
      Kind::I64 => DynValue::I64(edge(r) as i64),
      Kind::U32 => DynValue::U32(edge(r) as u32),
      Kind::U64 => DynValue::U64(edge(r) as u64),
      Kind::F32 => DynValue::F32(r.range(-2, 3) as f32),
      Kind::F64 => DynValue::F64(r.range(-2, 3) as f64),
      Kind::Bool => DynValue::Bool(match f.rules.first() {
        Some(Rule::ConstBool(b)) if good => *b,
        _ => r.bool(),
      }),
      Kind::Str => {
        let n = match f.rules.first() {
          Some(Rule::Len(lo, hi)) if good => lo.unwrap_or(0).max(hi.unwrap_or(3).min(3)),
          _ => r.below(8),
        };
        DynValue::String((0 .. n).map(|_| *r.pick(&['a', 'b', 'é', '日', '🦀'])).collect())
      },
      Kind::Bytes => { let k = r.below(4) as usize; DynValue::Bytes(r.bytes(k)) },
      Kind::Enum(v) => DynValue::Enum(EnumDescriptor::with(v.clone()), if good || r.chance(2, 3) { *r.pick(v) } else { r.range(-9, 9) as i32 }),
      Kind::Duration => {
        let (s, n) = match f.rules.iter().find_map(|x| if let Rule::DurationGt(s, n) = x { Some((*s, *n)) } else { None }) {
          Some((s, n)) if good => (s, (n + 1).min(999_999_999) + i32::from(n == 999_999_999) * 0),
          Some((s, n)) if r.chance(3, 4) => (s + r.range(0, 2), (n + r.range(-1, 2) as i32).clamp(-1, 999_999_999)),
          _ => (r.range(-1, 4), r.below(2) as i32),
        };
        DynValue::Message(Box::new(ProtoDuration { seconds: s, nanos: n, ..Default::default() }))
      },
      Kind::Message(m) => DynValue::Message(Box::new(self.message(r, *m, path, good))),
    }
  }

  /// Judges a value a field has, or the default it stands for.
  fn judge(&mut self, f: &Field, v: &DynValue, path: &str) {
    for rule in &f.rules {
      let ok = match (rule, v) {
        (Rule::ConstBool(b), DynValue::Bool(v)) => b == v,
        (Rule::Defined, DynValue::Enum(_, v)) => matches!(&f.kind, Kind::Enum(d) if d.contains(v)),
        (Rule::Gt(x), DynValue::I32(v)) => i128::from(*v) > *x,
        (Rule::Gt(x), DynValue::I64(v)) => i128::from(*v) > *x,
        (Rule::Gt(x), DynValue::U32(v)) => i128::from(*v) > *x,
        (Rule::Gt(x), DynValue::U64(v)) => i128::from(*v) > *x,
        (Rule::Len(lo, hi), DynValue::String(s)) => {
          let n = s.chars().count() as u64;
          lo.map_or(true, |lo| n >= lo) && hi.map_or(true, |hi| n <= hi)
        },
        (Rule::DurationGt(s, n), DynValue::Message(m)) => {
          let d: &ProtoDuration = m.downcast_ref().unwrap();
          d.seconds >= 0 && d.nanos >= 0 && (d.seconds, d.nanos) > (*s, *n)
        },
        (Rule::Required, _) => true,
        (Rule::Unsupported(_), _) => false,
        x => unreachable!("{x:?}"),
      };
      if !ok {
        self.wrong.push(format!("{path} {rule:?}"));
      }
    }
  }

  fn message(&mut self, r: &mut Rng, m: usize, path: &str, good: bool) -> DynMessage {
    self.deep += 1;
    let s = &self.schemas[m];
    let chosen: Vec<usize> = (0 .. s.fields.len()).filter(|i| s.fields[*i].oneof == Some(0) && !s.oneofs[0].synthetic).collect();
    let chosen = if chosen.is_empty() || (!good && r.chance(1, 4)) { None } else { Some(*r.pick(&chosen)) };
    let mut slots = vec![];
    for (i, f) in s.fields.iter().enumerate() {
      let path = format!("{path}.{i}");
      let in_oneof = f.oneof.is_some_and(|o| !s.oneofs[o].synthetic);
      let unsupported = f.rules.iter().any(|x| matches!(x, Rule::Unsupported(_)));
      slots.push(match f.shape {
        Shape::Many => {
          let least = f.rules.iter().find_map(|x| if let Rule::Items(n) = x { Some(*n) } else { None });
          let n = if good { least.unwrap_or(0).max(r.below(3)) } else { r.below(4) };
          let n = if self.deep > 40 { n.min(1) } else { n };
          if least.is_some_and(|l| n < l) || unsupported {
            self.wrong.push(format!("{path} items"));
          }
          // Rules of the list are not rules of its elements.
          let element = Field { rules: vec![], ..f.clone() };
          Slot::Repeated((0 .. n).map(|_| self.value(r, &element, &path, good)).collect())
        },
        Shape::Map => {
          if unsupported {
            self.wrong.push(format!("{path} map"));
          }
          let n = if self.deep > 40 { 0 } else { r.below(3) };
          let element = Field { rules: vec![], ..f.clone() };
          Slot::Map((0 .. n).map(|k| (DynValue::String(format!("k{k}")), self.value(r, &element, &path, good))).collect())
        },
        Shape::One => {
          let message = matches!(f.kind, Kind::Message(_) | Kind::Duration);
          let there = if in_oneof { chosen == Some(i) } else { (message && f.rules.contains(&Rule::Required) && good) || r.chance(2, 3) };
          let v = there.then(|| self.value(r, f, &path, good));
          match &v {
            Some(v) => self.judge(f, v, &path),
            None if message => {
              // What is not there has to be only if that is required.
              if f.rules.contains(&Rule::Required) || (unsupported && matches!(f.kind, Kind::Message(_))) {
                self.wrong.push(format!("{path} missing"));
              }
            },
            // A rule that does not exist for these types at all is refused whatever the message has.
            None if f.oneof.is_some() => {
              if unsupported && matches!(f.kind, Kind::F32 | Kind::F64 | Kind::Bytes) {
                self.wrong.push(format!("{path} unsupported"));
              }
            },
            None => {
              let d = match &f.kind {
                Kind::I32 => DynValue::I32(0),
                Kind::I64 => DynValue::I64(0),
                Kind::U32 => DynValue::U32(0),
                Kind::U64 => DynValue::U64(0),
                Kind::F32 => DynValue::F32(0.0),
                Kind::F64 => DynValue::F64(0.0),
                Kind::Bool => DynValue::Bool(false),
                Kind::Str => DynValue::String(String::new()),
                Kind::Bytes => DynValue::Bytes(vec![]),
                Kind::Enum(v) => DynValue::Enum(EnumDescriptor::with(v.clone()), 0),
                _ => unreachable!(),
              };
              self.judge(f, &d, &path);
            },
          }
          Slot::Singular(v)
        },
      });
    }
    // A oneof is set if one of its fields is.
    for (o, one) in s.oneofs.iter().enumerate() {
      let set = s.fields.iter().zip(&slots).any(|(f, v)| f.oneof == Some(o) && matches!(v, Slot::Singular(Some(_))));
      if one.required && !set {
        self.wrong.push(format!("{path} oneof"));
      }
    }
    DynMessage { ty: self.types[m].clone(), slots, special_fields: Default::default() }
  }
}

pub fn run(c: &Check) {
  c.rule("a case is a schema with twelve messages; distinct by schema");
  c.assume("reflection is a stand-in: types made at run time, with the presence rules of proto3");
  c.cases(c.n(12_000, 600_000), Duration::from_secs(if c.thorough() { 300 } else { 60 }), |case, r| {
    let types = 1 + r.idx(4);
    let busy = r.bool();
    let schemas: Vec<Schema> = (0 .. types).map(|i| schema(r, i, types, busy)).collect();
    let made: Vec<Arc<DynType>> = schemas.iter().enumerate().map(|(i, s)| Arc::new(made(i, s))).collect();
    let shape = format!("{:?}", schemas.iter().map(|s| (&s.fields, &s.oneofs)).collect::<Vec<_>>());
    for _ in 0 .. 12 {
      let mut w = World { schemas: &schemas, types: &made, wrong: vec![], deep: 0 };
      let good = r.chance(2, 3);
      let m = w.message(r, 0, "", good);
      let got = match vh::no_panic(|| validate(&m as &dyn MessageDyn)) {
        Ok(g) => g,
        Err(e) => {
          c.violation("panic", &format!("case {case}: {e}: {m:?}"));
          return;
        },
      };
      c.add("messages", w.deep);
      c.count(if got.is_ok() { "accepted" } else { "refused" });
      if w.wrong.len() == 1 {
        c.saw("single reasons", &(w.wrong[0].rsplit(' ').next().unwrap().to_string(), w.wrong[0].matches('.').count()));
        c.count("refused for one reason");
      }
      c.ensure(got.is_ok() == w.wrong.is_empty(), "verdict", || format!("case {case}: the verdict is {got:?}, wrong is {:?}: {:?} of {shape}", w.wrong, m.slots));
    }
    c.eval(Some(vh::hash_of(&shape)));
    c.sample(|| shape.chars().take(300).collect());
  });
}
