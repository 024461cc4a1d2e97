//! Stand-in for the protobuf runtime (bitdriftlabs/rust-protobuf, 4.0.0-alpha.0), which cannot be
//! fetched here. It implements the part of the interface that generated code and this repository
//! use: the binary wire format in full, with unknown fields kept, and reflection as placeholders.
#![allow(clippy::all)]

pub const VERSION_4_0_0_ALPHA_0: () = ();

mod chars;
mod coded;
mod fields;
pub mod descriptor;
pub mod ext;
pub mod dynamic;
pub mod reflect;
pub mod rt;
pub mod text_format;
pub mod well_known_types;

pub use chars::Chars;
pub use coded::{CodedInputStream, CodedOutputStream};
pub use fields::{CachedSize, EnumOrUnknown, MessageField, SpecialFields, UnknownFields, UnknownValue};

use std::any::Any;
use std::fmt;

#[derive(Debug)]
pub struct Error(pub(crate) ErrorKind);

#[derive(Debug)]
pub(crate) enum ErrorKind {
    Io(std::io::Error),
    Wire(&'static str),
    Utf8,
    NotInitialized,
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            ErrorKind::Io(e) => write!(f, "{e}"),
            ErrorKind::Wire(m) => write!(f, "{m}"),
            ErrorKind::Utf8 => write!(f, "not UTF-8 string"),
            ErrorKind::NotInitialized => write!(f, "message is missing required fields"),
        }
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error(ErrorKind::Io(e))
    }
}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        match e.0 {
            ErrorKind::Io(e) => e,
            _ => std::io::Error::new(std::io::ErrorKind::Other, e),
        }
    }
}
pub(crate) fn wire<T>(m: &'static str) -> Result<T> {
    Err(Error(ErrorKind::Wire(m)))
}

pub type Result<T> = std::result::Result<T, Error>;

pub trait Message: Default + Clone + Send + Sync + Sized + PartialEq + fmt::Debug + 'static {
    const NAME: &'static str;

    fn is_initialized(&self) -> bool;
    fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()>;
    fn compute_size(&self) -> u64;
    fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()>;
    fn special_fields(&self) -> &SpecialFields;
    fn mut_special_fields(&mut self) -> &mut SpecialFields;
    fn new() -> Self;
    fn clear(&mut self) {
        *self = Self::new();
    }
    fn default_instance() -> &'static Self;

    fn cached_size(&self) -> u32 {
        self.special_fields().cached_size().get()
    }
    fn unknown_fields(&self) -> &UnknownFields {
        self.special_fields().unknown_fields()
    }
    fn check_initialized(&self) -> Result<()> {
        if self.is_initialized() {
            Ok(())
        } else {
            Err(Error(ErrorKind::NotInitialized))
        }
    }
    fn parse_from(is: &mut CodedInputStream<'_>) -> Result<Self> {
        let mut r = Self::new();
        r.merge_from(is)?;
        r.check_initialized()?;
        Ok(r)
    }
    fn parse_from_bytes(bytes: &[u8]) -> Result<Self> {
        let mut is = CodedInputStream::from_bytes(bytes);
        let r = Self::parse_from(&mut is)?;
        is.check_eof()?;
        Ok(r)
    }
    fn parse_from_tokio_bytes(bytes: &bytes::Bytes) -> Result<Self> {
        Self::parse_from_bytes(bytes)
    }
    fn parse_from_reader(reader: &mut dyn std::io::Read) -> Result<Self> {
        let mut v = Vec::new();
        reader.read_to_end(&mut v)?;
        Self::parse_from_bytes(&v)
    }
    fn merge_from_bytes(&mut self, bytes: &[u8]) -> Result<()> {
        let mut is = CodedInputStream::from_bytes(bytes);
        self.merge_from(&mut is)
    }
    fn write_to(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
        self.check_initialized()?;
        self.compute_size();
        self.write_to_with_cached_sizes(os)
    }
    fn write_to_writer(&self, w: &mut dyn std::io::Write) -> Result<()> {
        let mut os = CodedOutputStream::new(w);
        self.write_to(&mut os)?;
        os.flush()
    }
    fn write_to_vec(&self, v: &mut Vec<u8>) -> Result<()> {
        let mut os = CodedOutputStream::vec(v);
        self.write_to(&mut os)?;
        os.flush()
    }
    fn write_to_bytes(&self) -> Result<Vec<u8>> {
        let mut v = Vec::new();
        self.write_to_vec(&mut v)?;
        Ok(v)
    }
    fn write_length_delimited_to_bytes(&self) -> Result<Vec<u8>> {
        let mut v = Vec::new();
        {
            let mut os = CodedOutputStream::vec(&mut v);
            let size = self.compute_size();
            os.write_raw_varint32(size as u32)?;
            self.write_to_with_cached_sizes(&mut os)?;
            os.flush()?;
        }
        Ok(v)
    }
}

pub trait MessageFull: Message + reflect::ProtobufValue {
    fn descriptor() -> reflect::MessageDescriptor;
}

pub trait MessageDyn: Any + fmt::Debug + Send + Sync {
    fn name_dyn(&self) -> &'static str;
    fn write_to_bytes_dyn(&self) -> Result<Vec<u8>>;
    fn compute_size_dyn(&self) -> u64;
    fn as_any(&self) -> &dyn Any;
    fn descriptor_dyn(&self) -> reflect::MessageDescriptor;
}
impl<M: Message> MessageDyn for M {
    fn name_dyn(&self) -> &'static str {
        M::NAME
    }
    fn write_to_bytes_dyn(&self) -> Result<Vec<u8>> {
        self.write_to_bytes()
    }
    fn compute_size_dyn(&self) -> u64 {
        self.compute_size()
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn descriptor_dyn(&self) -> reflect::MessageDescriptor {
        if let Some(m) = self.as_any().downcast_ref::<dynamic::DynMessage>() {
            return reflect::MessageDescriptor("", Some(m.ty.clone()));
        }
        let duration = self.as_any().is::<well_known_types::duration::Duration>();
        reflect::MessageDescriptor(if duration { "google.protobuf.Duration" } else { M::NAME }, None)
    }
}
impl dyn MessageDyn {
    pub fn downcast_ref<M: Message>(&self) -> Option<&M> {
        self.as_any().downcast_ref()
    }
}

pub trait Enum: Eq + Sized + Copy + fmt::Debug + Default + Send + Sync + 'static {
    const NAME: &'static str;
    fn value(&self) -> i32;
    fn from_i32(v: i32) -> Option<Self>;
    fn from_str(s: &str) -> Option<Self>;
    const VALUES: &'static [Self];
}
pub trait EnumFull: Enum {
    fn enum_descriptor() -> reflect::EnumDescriptor;
    fn descriptor(&self) -> reflect::EnumValueDescriptor;
}
pub trait Oneof {}
pub trait OneofFull: Oneof {
    fn descriptor() -> reflect::OneofDescriptor;
}
