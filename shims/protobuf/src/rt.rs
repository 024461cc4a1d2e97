use crate::{CodedInputStream, CodedOutputStream, Enum, EnumOrUnknown, Message, MessageField, Result, UnknownFields, UnknownValue};
use std::sync::OnceLock;

pub struct Lazy<T>(OnceLock<T>);
impl<T> Lazy<T> {
    pub const fn new() -> Self {
        Lazy(OnceLock::new())
    }
    pub fn get(&self, f: impl FnOnce() -> T) -> &T {
        self.0.get_or_init(f)
    }
}

pub fn compute_raw_varint64_size(v: u64) -> u64 {
    (70 - u64::from((v | 1).leading_zeros())) / 7
}
pub fn compute_raw_varint32_size(v: u32) -> u64 {
    compute_raw_varint64_size(v.into())
}
fn tag_size(f: u32) -> u64 {
    compute_raw_varint32_size(f << 3)
}
pub fn uint64_size(f: u32, v: u64) -> u64 {
    tag_size(f) + compute_raw_varint64_size(v)
}
pub fn uint32_size(f: u32, v: u32) -> u64 {
    uint64_size(f, v.into())
}
pub fn int64_size(f: u32, v: i64) -> u64 {
    uint64_size(f, v as u64)
}
pub fn int32_size(f: u32, v: i32) -> u64 {
    int64_size(f, v.into())
}
pub fn sint64_size(f: u32, v: i64) -> u64 {
    uint64_size(f, ((v << 1) ^ (v >> 63)) as u64)
}
pub fn sint32_size(f: u32, v: i32) -> u64 {
    uint32_size(f, ((v << 1) ^ (v >> 31)) as u32)
}
pub fn bytes_size(f: u32, v: &[u8]) -> u64 {
    tag_size(f) + compute_raw_varint64_size(v.len() as u64) + v.len() as u64
}
pub fn string_size(f: u32, v: &str) -> u64 {
    bytes_size(f, v.as_bytes())
}
pub fn vec_packed_double_size(f: u32, v: &[f64]) -> u64 {
    if v.is_empty() {
        return 0;
    }
    let n = v.len() as u64 * 8;
    tag_size(f) + compute_raw_varint64_size(n) + n
}
pub fn vec_packed_enum_or_unknown_size<E: Enum>(f: u32, v: &[EnumOrUnknown<E>]) -> u64 {
    if v.is_empty() {
        return 0;
    }
    let n: u64 = v.iter().map(|e| compute_raw_varint64_size(i64::from(e.value()) as u64)).sum();
    tag_size(f) + compute_raw_varint64_size(n) + n
}
pub fn int32_size_no_tag(v: i32) -> u64 {
    compute_raw_varint64_size(i64::from(v) as u64)
}
pub fn unknown_fields_size(u: &UnknownFields) -> u64 {
    u.iter()
        .map(|(f, v)| {
            tag_size(f)
                + match v {
                    UnknownValue::Varint(x) => compute_raw_varint64_size(*x),
                    UnknownValue::Fixed64(_) => 8,
                    UnknownValue::Fixed32(_) => 4,
                    UnknownValue::LengthDelimited(x) => {
                        compute_raw_varint64_size(x.len() as u64) + x.len() as u64
                    }
                }
        })
        .sum()
}
pub fn read_unknown_or_skip_group(tag: u32, is: &mut CodedInputStream<'_>, u: &mut UnknownFields) -> Result<()> {
    let (field, w) = (tag >> 3, tag & 7);
    if field == 0 {
        return crate::wire("incorrect tag");
    }
    if w == 3 {
        return is.skip_group(field);
    }
    let v = is.read_unknown(w)?;
    u.add(field, v);
    Ok(())
}
pub fn skip_field_for_tag(tag: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    let mut u = UnknownFields::new();
    read_unknown_or_skip_group(tag, is, &mut u)
}
pub fn write_message_field_with_cached_size<M: Message>(f: u32, m: &M, os: &mut CodedOutputStream<'_>) -> Result<()> {
    os.write_tag(f, 2)?;
    os.write_raw_varint32(m.cached_size())?;
    m.write_to_with_cached_sizes(os)
}
pub fn read_singular_message_into_field<M: Message>(is: &mut CodedInputStream<'_>, f: &mut MessageField<M>) -> Result<()> {
    let mut m = M::new();
    is.merge_message(&mut m)?;
    *f = MessageField::some(m);
    Ok(())
}
pub fn read_repeated_packed_enum_or_unknown_into<E: Enum>(is: &mut CodedInputStream<'_>, out: &mut Vec<EnumOrUnknown<E>>) -> Result<()> {
    is.packed_enums(out)
}
