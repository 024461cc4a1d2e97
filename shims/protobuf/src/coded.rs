use crate::{wire, Chars, Enum, EnumOrUnknown, Error, ErrorKind, Message, Result, UnknownFields, UnknownValue};

const RECURSION_LIMIT: u32 = 100;

/// Reader of the wire format over a byte slice.
pub struct CodedInputStream<'a> {
    buf: &'a [u8],
    pos: usize,
    limit: usize,
    depth: u32,
}

impl<'a> CodedInputStream<'a> {
    pub fn from_bytes(buf: &'a [u8]) -> CodedInputStream<'a> {
        CodedInputStream { buf, pos: 0, limit: buf.len(), depth: 0 }
    }
    pub fn from_tokio_bytes(b: &'a bytes::Bytes) -> CodedInputStream<'a> {
        Self::from_bytes(b)
    }
    pub fn pos(&self) -> u64 {
        self.pos as u64
    }
    pub fn eof(&mut self) -> Result<bool> {
        Ok(self.pos == self.limit)
    }
    pub fn check_eof(&mut self) -> Result<()> {
        if self.eof()? {
            Ok(())
        } else {
            wire("expecting EOF")
        }
    }
    pub fn bytes_until_limit(&self) -> u64 {
        (self.limit - self.pos) as u64
    }
    pub fn push_limit(&mut self, limit: u64) -> Result<u64> {
        let old = self.limit;
        let new = (self.pos as u64).checked_add(limit);
        match new {
            Some(n) if n <= old as u64 => {
                self.limit = n as usize;
                Ok(old as u64)
            }
            _ => wire("truncated message"),
        }
    }
    pub fn pop_limit(&mut self, limit: u64) {
        self.limit = limit as usize;
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8]> {
        if self.limit - self.pos < n {
            return wire("unexpected EOF");
        }
        let r = &self.buf[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    pub fn read_raw_byte(&mut self) -> Result<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn read_raw_varint64(&mut self) -> Result<u64> {
        let mut r = 0u64;
        for i in 0..10 {
            let b = self.read_raw_byte()?;
            if i == 9 && b > 1 {
                return wire("incorrect varint");
            }
            r |= u64::from(b & 0x7f) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(r);
            }
        }
        wire("incorrect varint")
    }
    pub fn read_raw_varint32(&mut self) -> Result<u32> {
        let v = self.read_raw_varint64()?;
        if v > u64::from(u32::MAX) {
            return wire("u32 overflow");
        }
        Ok(v as u32)
    }
    pub fn read_raw_tag_or_eof(&mut self) -> Result<Option<u32>> {
        if self.eof()? {
            return Ok(None);
        }
        Ok(Some(self.read_raw_varint32()?))
    }
    pub fn read_double(&mut self) -> Result<f64> {
        Ok(f64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn read_float(&mut self) -> Result<f32> {
        Ok(f32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn read_fixed64(&mut self) -> Result<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn read_fixed32(&mut self) -> Result<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn read_sfixed64(&mut self) -> Result<i64> {
        Ok(self.read_fixed64()? as i64)
    }
    pub fn read_sfixed32(&mut self) -> Result<i32> {
        Ok(self.read_fixed32()? as i32)
    }
    pub fn read_int64(&mut self) -> Result<i64> {
        Ok(self.read_raw_varint64()? as i64)
    }
    pub fn read_uint64(&mut self) -> Result<u64> {
        self.read_raw_varint64()
    }
    pub fn read_uint32(&mut self) -> Result<u32> {
        self.read_raw_varint32()
    }
    pub fn read_int32(&mut self) -> Result<i32> {
        let v = self.read_int64()?;
        i32::try_from(v).or_else(|_| wire("i32 overflow"))
    }
    pub fn read_sint32(&mut self) -> Result<i32> {
        let v = self.read_raw_varint32()?;
        Ok((v >> 1) as i32 ^ -((v & 1) as i32))
    }
    pub fn read_sint64(&mut self) -> Result<i64> {
        let v = self.read_raw_varint64()?;
        Ok((v >> 1) as i64 ^ -((v & 1) as i64))
    }
    pub fn read_bool(&mut self) -> Result<bool> {
        Ok(self.read_raw_varint64()? != 0)
    }
    pub fn read_enum_or_unknown<E: Enum>(&mut self) -> Result<EnumOrUnknown<E>> {
        Ok(EnumOrUnknown::from_i32(self.read_int32()?))
    }
    fn read_len(&mut self) -> Result<&'a [u8]> {
        let n = self.read_raw_varint32()? as usize;
        self.take(n)
    }
    pub fn read_bytes(&mut self) -> Result<Vec<u8>> {
        Ok(self.read_len()?.to_vec())
    }
    pub fn read_tokio_bytes(&mut self) -> Result<bytes::Bytes> {
        Ok(bytes::Bytes::copy_from_slice(self.read_len()?))
    }
    pub fn read_string(&mut self) -> Result<String> {
        let b = self.read_len()?;
        Ok(std::str::from_utf8(b).map_err(|_| Error(ErrorKind::Utf8))?.to_string())
    }
    pub fn read_tokio_chars(&mut self) -> Result<Chars> {
        Ok(self.read_string()?.into())
    }
    pub fn merge_message<M: Message>(&mut self, m: &mut M) -> Result<()> {
        if self.depth >= RECURSION_LIMIT {
            return wire("over recursion limit");
        }
        self.depth += 1;
        let n = self.read_raw_varint64()?;
        let old = self.push_limit(n)?;
        m.merge_from(self)?;
        self.pop_limit(old);
        self.depth -= 1;
        Ok(())
    }
    pub fn read_message<M: Message>(&mut self) -> Result<M> {
        let mut m = M::new();
        self.merge_message(&mut m)?;
        m.check_initialized()?;
        Ok(m)
    }
    fn packed<T>(&mut self, out: &mut Vec<T>, f: impl Fn(&mut Self) -> Result<T>) -> Result<()> {
        let n = self.read_raw_varint64()?;
        let old = self.push_limit(n)?;
        while !self.eof()? {
            out.push(f(self)?);
        }
        self.pop_limit(old);
        Ok(())
    }
    pub fn read_repeated_packed_double_into(&mut self, out: &mut Vec<f64>) -> Result<()> {
        self.packed(out, Self::read_double)
    }
    pub fn read_repeated_packed_uint64_into(&mut self, out: &mut Vec<u64>) -> Result<()> {
        self.packed(out, Self::read_uint64)
    }
    pub fn read_repeated_packed_uint32_into(&mut self, out: &mut Vec<u32>) -> Result<()> {
        self.packed(out, Self::read_uint32)
    }
    pub fn read_repeated_packed_int32_into(&mut self, out: &mut Vec<i32>) -> Result<()> {
        self.packed(out, Self::read_int32)
    }
    pub fn read_repeated_packed_int64_into(&mut self, out: &mut Vec<i64>) -> Result<()> {
        self.packed(out, Self::read_int64)
    }
    pub fn read_repeated_packed_float_into(&mut self, out: &mut Vec<f32>) -> Result<()> {
        self.packed(out, Self::read_float)
    }
    pub fn read_repeated_packed_fixed32_into(&mut self, out: &mut Vec<u32>) -> Result<()> {
        self.packed(out, Self::read_fixed32)
    }
    pub fn read_repeated_packed_fixed64_into(&mut self, out: &mut Vec<u64>) -> Result<()> {
        self.packed(out, Self::read_fixed64)
    }
    pub fn read_repeated_packed_sfixed32_into(&mut self, out: &mut Vec<i32>) -> Result<()> {
        self.packed(out, Self::read_sfixed32)
    }
    pub fn read_repeated_packed_sfixed64_into(&mut self, out: &mut Vec<i64>) -> Result<()> {
        self.packed(out, Self::read_sfixed64)
    }
    pub fn read_repeated_packed_sint32_into(&mut self, out: &mut Vec<i32>) -> Result<()> {
        self.packed(out, Self::read_sint32)
    }
    pub fn read_repeated_packed_sint64_into(&mut self, out: &mut Vec<i64>) -> Result<()> {
        self.packed(out, Self::read_sint64)
    }
    pub(crate) fn packed_enums<E: Enum>(&mut self, out: &mut Vec<EnumOrUnknown<E>>) -> Result<()> {
        self.packed(out, Self::read_enum_or_unknown)
    }
    pub(crate) fn read_unknown(&mut self, wire_type: u32) -> Result<UnknownValue> {
        Ok(match wire_type {
            0 => UnknownValue::Varint(self.read_raw_varint64()?),
            1 => UnknownValue::Fixed64(self.read_fixed64()?),
            2 => UnknownValue::LengthDelimited(self.read_bytes()?),
            5 => UnknownValue::Fixed32(self.read_fixed32()?),
            _ => return wire("unexpected wire type"),
        })
    }
    pub(crate) fn skip_group(&mut self, field: u32) -> Result<()> {
        if self.depth >= RECURSION_LIMIT {
            return wire("over recursion limit");
        }
        self.depth += 1;
        loop {
            let Some(tag) = self.read_raw_tag_or_eof()? else {
                return wire("unexpected EOF");
            };
            match (tag & 7, tag >> 3) {
                (4, f) if f == field => {
                    self.depth -= 1;
                    return Ok(());
                }
                (4, _) => return wire("group end mismatch"),
                (3, f) => self.skip_group(f)?,
                (w, _) => {
                    self.read_unknown(w)?;
                }
            }
        }
    }
}

enum Target<'a> {
    Slice(&'a mut [u8], usize),
    Vec(&'a mut Vec<u8>),
    Writer(&'a mut dyn std::io::Write, Vec<u8>),
}

/// Writer of the wire format.
pub struct CodedOutputStream<'a> {
    target: Target<'a>,
}

impl<'a> CodedOutputStream<'a> {
    pub fn new(w: &'a mut dyn std::io::Write) -> Self {
        CodedOutputStream { target: Target::Writer(w, Vec::with_capacity(8 * 1024)) }
    }
    pub fn bytes(b: &'a mut [u8]) -> Self {
        CodedOutputStream { target: Target::Slice(b, 0) }
    }
    pub fn vec(v: &'a mut Vec<u8>) -> Self {
        CodedOutputStream { target: Target::Vec(v) }
    }
    pub fn check_eof(&self) {
        if let Target::Slice(b, n) = &self.target {
            assert_eq!(b.len(), *n);
        }
    }
    pub fn flush(&mut self) -> Result<()> {
        if let Target::Writer(w, b) = &mut self.target {
            w.write_all(b)?;
            b.clear();
        }
        Ok(())
    }
    pub fn write_raw_bytes(&mut self, bytes: &[u8]) -> Result<()> {
        match &mut self.target {
            Target::Slice(b, n) => {
                if b.len() - *n < bytes.len() {
                    return wire("not enough space in output");
                }
                b[*n..*n + bytes.len()].copy_from_slice(bytes);
                *n += bytes.len();
            }
            Target::Vec(v) => v.extend_from_slice(bytes),
            Target::Writer(w, b) => {
                if b.len() + bytes.len() > 8 * 1024 {
                    w.write_all(b)?;
                    b.clear();
                }
                if bytes.len() > 8 * 1024 {
                    w.write_all(bytes)?;
                } else {
                    b.extend_from_slice(bytes);
                }
            }
        }
        Ok(())
    }
    pub fn write_raw_varint64(&mut self, mut v: u64) -> Result<()> {
        let mut b = [0u8; 10];
        let mut n = 0;
        loop {
            if v < 0x80 {
                b[n] = v as u8;
                n += 1;
                return self.write_raw_bytes(&b[..n]);
            }
            b[n] = v as u8 | 0x80;
            n += 1;
            v >>= 7;
        }
    }
    pub fn write_raw_varint32(&mut self, v: u32) -> Result<()> {
        self.write_raw_varint64(v.into())
    }
    pub fn write_tag(&mut self, field: u32, wire_type: u32) -> Result<()> {
        self.write_raw_varint32(field << 3 | wire_type)
    }
    pub fn write_double(&mut self, f: u32, v: f64) -> Result<()> {
        self.write_tag(f, 1)?;
        self.write_raw_bytes(&v.to_le_bytes())
    }
    pub fn write_float(&mut self, f: u32, v: f32) -> Result<()> {
        self.write_tag(f, 5)?;
        self.write_raw_bytes(&v.to_le_bytes())
    }
    pub fn write_fixed32(&mut self, f: u32, v: u32) -> Result<()> {
        self.write_tag(f, 5)?;
        self.write_raw_bytes(&v.to_le_bytes())
    }
    pub fn write_fixed64(&mut self, f: u32, v: u64) -> Result<()> {
        self.write_tag(f, 1)?;
        self.write_raw_bytes(&v.to_le_bytes())
    }
    pub fn write_sfixed32(&mut self, f: u32, v: i32) -> Result<()> {
        self.write_tag(f, 5)?;
        self.write_raw_bytes(&v.to_le_bytes())
    }
    pub fn write_sfixed64(&mut self, f: u32, v: i64) -> Result<()> {
        self.write_tag(f, 1)?;
        self.write_raw_bytes(&v.to_le_bytes())
    }
    pub fn write_uint64(&mut self, f: u32, v: u64) -> Result<()> {
        self.write_tag(f, 0)?;
        self.write_raw_varint64(v)
    }
    pub fn write_uint32(&mut self, f: u32, v: u32) -> Result<()> {
        self.write_uint64(f, v.into())
    }
    pub fn write_int64(&mut self, f: u32, v: i64) -> Result<()> {
        self.write_uint64(f, v as u64)
    }
    pub fn write_int32(&mut self, f: u32, v: i32) -> Result<()> {
        self.write_int64(f, v.into())
    }
    pub fn write_sint64(&mut self, f: u32, v: i64) -> Result<()> {
        self.write_uint64(f, ((v << 1) ^ (v >> 63)) as u64)
    }
    pub fn write_sint32(&mut self, f: u32, v: i32) -> Result<()> {
        self.write_uint32(f, ((v << 1) ^ (v >> 31)) as u32)
    }
    pub fn write_bool(&mut self, f: u32, v: bool) -> Result<()> {
        self.write_uint64(f, v.into())
    }
    pub fn write_enum(&mut self, f: u32, v: i32) -> Result<()> {
        self.write_int32(f, v)
    }
    pub fn write_bytes(&mut self, f: u32, v: &[u8]) -> Result<()> {
        self.write_tag(f, 2)?;
        self.write_raw_varint32(v.len() as u32)?;
        self.write_raw_bytes(v)
    }
    pub fn write_string(&mut self, f: u32, v: &str) -> Result<()> {
        self.write_bytes(f, v.as_bytes())
    }
    pub fn write_repeated_packed_double(&mut self, f: u32, v: &[f64]) -> Result<()> {
        if v.is_empty() {
            return Ok(());
        }
        self.write_tag(f, 2)?;
        self.write_raw_varint32(v.len() as u32 * 8)?;
        for x in v {
            self.write_raw_bytes(&x.to_le_bytes())?;
        }
        Ok(())
    }
    pub fn write_repeated_packed_enum_or_unknown<E: Enum>(
        &mut self,
        f: u32,
        v: &[EnumOrUnknown<E>],
    ) -> Result<()> {
        if v.is_empty() {
            return Ok(());
        }
        self.write_tag(f, 2)?;
        let n: u64 = v.iter().map(|e| crate::rt::compute_raw_varint64_size(i64::from(e.value()) as u64)).sum();
        self.write_raw_varint32(n as u32)?;
        for x in v {
            self.write_raw_varint64(i64::from(x.value()) as u64)?;
        }
        Ok(())
    }
    pub fn write_unknown_fields(&mut self, u: &UnknownFields) -> Result<()> {
        for (f, v) in u.iter() {
            match v {
                UnknownValue::Varint(x) => self.write_uint64(f, *x)?,
                UnknownValue::Fixed64(x) => {
                    self.write_tag(f, 1)?;
                    self.write_raw_bytes(&x.to_le_bytes())?;
                }
                UnknownValue::Fixed32(x) => {
                    self.write_tag(f, 5)?;
                    self.write_raw_bytes(&x.to_le_bytes())?;
                }
                UnknownValue::LengthDelimited(x) => self.write_bytes(f, x)?,
            }
        }
        Ok(())
    }
}

impl Drop for CodedOutputStream<'_> {
    fn drop(&mut self) {
        let _ = self.flush();
    }
}
