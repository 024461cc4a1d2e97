macro_rules! wkt {
    ($m:ident $n:ident { $($num:literal $f:ident : $t:ty, $read:ident, $write:ident, $size:ident, $empty:expr);* $(;)? }) => {
        pub mod $m {
            use crate::*;
            #[derive(PartialEq, Clone, Default, Debug)]
            pub struct $n { $(pub $f: $t,)* pub special_fields: SpecialFields }
            impl $n { pub fn new() -> Self { Self::default() } }
            impl<'a> Default for &'a $n { fn default() -> &'a $n { <$n as Message>::default_instance() } }
            impl Message for $n {
                const NAME: &'static str = stringify!($n);
                fn is_initialized(&self) -> bool { true }
                fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()> {
                    while let Some(tag) = is.read_raw_tag_or_eof()? {
                        $( if tag >> 3 == $num && tag & 7 == wt::$read { self.$f = is.$read()?; continue; } )*
                        rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?;
                    }
                    Ok(())
                }
                fn compute_size(&self) -> u64 {
                    #[allow(unused_mut)]
                    let mut n = rt::unknown_fields_size(self.special_fields.unknown_fields());
                    $( if !($empty)(&self.$f) { n += rt::$size($num, wt::val(&self.$f)); } )*
                    self.special_fields.cached_size().set(n as u32);
                    n
                }
                fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
                    $( if !($empty)(&self.$f) { os.$write($num, wt::val(&self.$f))?; } )*
                    os.write_unknown_fields(self.special_fields.unknown_fields())
                }
                fn special_fields(&self) -> &SpecialFields { &self.special_fields }
                fn mut_special_fields(&mut self) -> &mut SpecialFields { &mut self.special_fields }
                fn new() -> Self { Self::default() }
                fn default_instance() -> &'static Self {
                    static I: std::sync::OnceLock<$n> = std::sync::OnceLock::new();
                    I.get_or_init(Default::default)
                }
            }
            impl std::fmt::Display for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { text_format::fmt(self, f) }
            }
            impl reflect::ProtobufValue for $n { type RuntimeType = reflect::rt::RuntimeTypeMessage<Self>; }
            impl MessageFull for $n {
                fn descriptor() -> reflect::MessageDescriptor {
                    reflect::FileDescriptor.message_by_package_relative_name(stringify!($n)).unwrap()
                }
            }
            pub fn file_descriptor() -> &'static reflect::FileDescriptor { &reflect::FileDescriptor }
            mod wt {
                #[allow(non_upper_case_globals, dead_code)] pub const read_int64: u32 = 0;
                #[allow(non_upper_case_globals, dead_code)] pub const read_int32: u32 = 0;
                #[allow(non_upper_case_globals, dead_code)] pub const read_string: u32 = 2;
                #[allow(non_upper_case_globals, dead_code)] pub const read_bytes: u32 = 2;
                pub trait V<'a> { type O; fn v(&'a self) -> Self::O; }
                impl<'a> V<'a> for i64 { type O = i64; fn v(&'a self) -> i64 { *self } }
                impl<'a> V<'a> for i32 { type O = i32; fn v(&'a self) -> i32 { *self } }
                impl<'a> V<'a> for String { type O = &'a str; fn v(&'a self) -> &'a str { self } }
                impl<'a> V<'a> for Vec<u8> { type O = &'a [u8]; fn v(&'a self) -> &'a [u8] { self } }
                pub fn val<'a, T: V<'a>>(v: &'a T) -> T::O { v.v() }
            }
        }
    };
}
wkt!(timestamp Timestamp { 1 seconds: i64, read_int64, write_int64, int64_size, |v: &i64| *v == 0; 2 nanos: i32, read_int32, write_int32, int32_size, |v: &i32| *v == 0 });
wkt!(duration Duration { 1 seconds: i64, read_int64, write_int64, int64_size, |v: &i64| *v == 0; 2 nanos: i32, read_int32, write_int32, int32_size, |v: &i32| *v == 0 });
wkt!(bytes_value BytesValue { 1 value: Vec<u8>, read_bytes, write_bytes, bytes_size, Vec::is_empty });
wkt!(any Any { 1 type_url: String, read_string, write_string, string_size, String::is_empty; 2 value: Vec<u8>, read_bytes, write_bytes, bytes_size, Vec::is_empty });

impl From<std::time::Duration> for duration::Duration {
    fn from(d: std::time::Duration) -> Self {
        duration::Duration {
            seconds: d.as_secs() as i64,
            nanos: d.subsec_nanos() as i32,
            special_fields: Default::default(),
        }
    }
}
#[derive(Debug)]
pub struct OutOfRange;
impl std::fmt::Display for OutOfRange {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("out of range")
    }
}
impl std::error::Error for OutOfRange {}
impl TryFrom<duration::Duration> for std::time::Duration {
    type Error = OutOfRange;
    fn try_from(d: duration::Duration) -> Result<Self, OutOfRange> {
        let (s, n) = (u64::try_from(d.seconds).map_err(|_| OutOfRange)?, u32::try_from(d.nanos).map_err(|_| OutOfRange)?);
        if n >= 1_000_000_000 {
            return Err(OutOfRange);
        }
        Ok(std::time::Duration::new(s, n))
    }
}
impl From<std::time::SystemTime> for timestamp::Timestamp {
    fn from(t: std::time::SystemTime) -> Self {
        let d = t.duration_since(std::time::UNIX_EPOCH).unwrap();
        timestamp::Timestamp {
            seconds: d.as_secs() as i64,
            nanos: d.subsec_nanos() as i32,
            special_fields: Default::default(),
        }
    }
}

pub mod struct_ {
    use crate::*;
    use std::collections::HashMap;

    #[derive(PartialEq, Clone, Default, Debug)]
    pub struct Struct {
        pub fields: HashMap<String, Value>,
        pub special_fields: SpecialFields,
    }
    #[derive(PartialEq, Clone, Default, Debug)]
    pub struct Value {
        pub kind: Option<value::Kind>,
        pub special_fields: SpecialFields,
    }
    #[derive(PartialEq, Clone, Default, Debug)]
    pub struct ListValue {
        pub values: Vec<Value>,
        pub special_fields: SpecialFields,
    }
    pub mod value {
        #[derive(PartialEq, Clone, Debug)]
        pub enum Kind {
            NullValue(i32),
            NumberValue(f64),
            StringValue(String),
            BoolValue(bool),
            StructValue(super::Struct),
            ListValue(super::ListValue),
        }
    }
    impl Struct {
        pub fn new() -> Self {
            Self::default()
        }
    }
    impl Value {
        pub fn new() -> Self {
            Self::default()
        }
    }
    impl Struct {
        fn entry_size(k: &str, v: &Value) -> u64 {
            let n = v.compute_size();
            rt::string_size(1, k) + 1 + rt::compute_raw_varint64_size(n) + n
        }
    }
    impl Message for Struct {
        const NAME: &'static str = "Struct";
        fn is_initialized(&self) -> bool {
            true
        }
        fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()> {
            while let Some(tag) = is.read_raw_tag_or_eof()? {
                if tag == 10 {
                    let n = is.read_raw_varint32()?;
                    let old = is.push_limit(n.into())?;
                    let (mut k, mut v) = (String::new(), Value::default());
                    while let Some(tag) = is.read_raw_tag_or_eof()? {
                        match tag {
                            10 => k = is.read_string()?,
                            18 => v = is.read_message()?,
                            _ => rt::skip_field_for_tag(tag, is)?,
                        }
                    }
                    is.pop_limit(old);
                    self.fields.insert(k, v);
                } else {
                    rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?;
                }
            }
            Ok(())
        }
        fn compute_size(&self) -> u64 {
            let mut n = rt::unknown_fields_size(self.special_fields.unknown_fields());
            for (k, v) in &self.fields {
                let e = Self::entry_size(k, v);
                n += 1 + rt::compute_raw_varint64_size(e) + e;
            }
            self.special_fields.cached_size().set(n as u32);
            n
        }
        fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
            for (k, v) in &self.fields {
                let e = Self::entry_size(k, v);
                os.write_tag(1, 2)?;
                os.write_raw_varint32(e as u32)?;
                os.write_string(1, k)?;
                rt::write_message_field_with_cached_size(2, v, os)?;
            }
            os.write_unknown_fields(self.special_fields.unknown_fields())
        }
        fn special_fields(&self) -> &SpecialFields {
            &self.special_fields
        }
        fn mut_special_fields(&mut self) -> &mut SpecialFields {
            &mut self.special_fields
        }
        fn new() -> Self {
            Self::default()
        }
        fn default_instance() -> &'static Self {
            static I: std::sync::OnceLock<Struct> = std::sync::OnceLock::new();
            I.get_or_init(Default::default)
        }
    }
    impl Message for Value {
        const NAME: &'static str = "Value";
        fn is_initialized(&self) -> bool {
            true
        }
        fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()> {
            while let Some(tag) = is.read_raw_tag_or_eof()? {
                self.kind = Some(match tag {
                    8 => value::Kind::NullValue(is.read_int32()?),
                    17 => value::Kind::NumberValue(is.read_double()?),
                    26 => value::Kind::StringValue(is.read_string()?),
                    32 => value::Kind::BoolValue(is.read_bool()?),
                    42 => value::Kind::StructValue(is.read_message()?),
                    50 => value::Kind::ListValue(is.read_message()?),
                    _ => {
                        rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?;
                        continue;
                    }
                });
            }
            Ok(())
        }
        fn compute_size(&self) -> u64 {
            use value::Kind::*;
            let m = |n: u64| 1 + rt::compute_raw_varint64_size(n) + n;
            let n = rt::unknown_fields_size(self.special_fields.unknown_fields())
                + match &self.kind {
                    None => 0,
                    Some(NullValue(v)) => rt::int32_size(1, *v),
                    Some(NumberValue(_)) => 9,
                    Some(StringValue(s)) => rt::string_size(3, s),
                    Some(BoolValue(_)) => 2,
                    Some(StructValue(s)) => m(s.compute_size()),
                    Some(ListValue(s)) => m(s.compute_size()),
                };
            self.special_fields.cached_size().set(n as u32);
            n
        }
        fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
            use value::Kind::*;
            match &self.kind {
                None => {}
                Some(NullValue(v)) => os.write_int32(1, *v)?,
                Some(NumberValue(v)) => os.write_double(2, *v)?,
                Some(StringValue(s)) => os.write_string(3, s)?,
                Some(BoolValue(b)) => os.write_bool(4, *b)?,
                Some(StructValue(s)) => rt::write_message_field_with_cached_size(5, s, os)?,
                Some(ListValue(s)) => rt::write_message_field_with_cached_size(6, s, os)?,
            }
            os.write_unknown_fields(self.special_fields.unknown_fields())
        }
        fn special_fields(&self) -> &SpecialFields {
            &self.special_fields
        }
        fn mut_special_fields(&mut self) -> &mut SpecialFields {
            &mut self.special_fields
        }
        fn new() -> Self {
            Self::default()
        }
        fn default_instance() -> &'static Self {
            static I: std::sync::OnceLock<Value> = std::sync::OnceLock::new();
            I.get_or_init(Default::default)
        }
    }
    impl Message for ListValue {
        const NAME: &'static str = "ListValue";
        fn is_initialized(&self) -> bool {
            true
        }
        fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()> {
            while let Some(tag) = is.read_raw_tag_or_eof()? {
                if tag == 10 {
                    self.values.push(is.read_message()?);
                } else {
                    rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?;
                }
            }
            Ok(())
        }
        fn compute_size(&self) -> u64 {
            let mut n = rt::unknown_fields_size(self.special_fields.unknown_fields());
            for v in &self.values {
                let s = v.compute_size();
                n += 1 + rt::compute_raw_varint64_size(s) + s;
            }
            self.special_fields.cached_size().set(n as u32);
            n
        }
        fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
            for v in &self.values {
                rt::write_message_field_with_cached_size(1, v, os)?;
            }
            os.write_unknown_fields(self.special_fields.unknown_fields())
        }
        fn special_fields(&self) -> &SpecialFields {
            &self.special_fields
        }
        fn mut_special_fields(&mut self) -> &mut SpecialFields {
            &mut self.special_fields
        }
        fn new() -> Self {
            Self::default()
        }
        fn default_instance() -> &'static Self {
            static I: std::sync::OnceLock<ListValue> = std::sync::OnceLock::new();
            I.get_or_init(Default::default)
        }
    }
}
