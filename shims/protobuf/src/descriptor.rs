//! Descriptors are kept as opaque messages: every field is unknown.
use crate::*;

macro_rules! opaque {
    ($($n:ident)*) => {$(
        #[derive(PartialEq, Clone, Default, Debug)]
        pub struct $n { pub special_fields: SpecialFields }
        impl Message for $n {
            const NAME: &'static str = stringify!($n);
            fn is_initialized(&self) -> bool { true }
            fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()> {
                while let Some(tag) = is.read_raw_tag_or_eof()? {
                    rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?;
                }
                Ok(())
            }
            fn compute_size(&self) -> u64 {
                let n = rt::unknown_fields_size(self.special_fields.unknown_fields());
                self.special_fields.cached_size().set(n as u32);
                n
            }
            fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
                os.write_unknown_fields(self.special_fields.unknown_fields())
            }
            fn special_fields(&self) -> &SpecialFields { &self.special_fields }
            fn mut_special_fields(&mut self) -> &mut SpecialFields { &mut self.special_fields }
            fn new() -> Self { Self::default() }
            fn default_instance() -> &'static Self {
                static I: $n = $n { special_fields: SpecialFields::new() };
                &I
            }
        }
    )*};
}
opaque!(FileDescriptorProto FileOptions MessageOptions FieldOptions OneofOptions EnumOptions EnumValueOptions ServiceOptions MethodOptions);

pub mod field_descriptor_proto {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Type {
        TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT64, TYPE_UINT64, TYPE_INT32, TYPE_FIXED64, TYPE_FIXED32,
        TYPE_BOOL, TYPE_STRING, TYPE_GROUP, TYPE_MESSAGE, TYPE_BYTES, TYPE_UINT32, TYPE_ENUM,
        TYPE_SFIXED32, TYPE_SFIXED64, TYPE_SINT32, TYPE_SINT64,
    }
}

pub fn file_descriptor() -> &'static reflect::FileDescriptor {
    &reflect::FileDescriptor
}
