use crate::{CodedInputStream, Message};
use std::marker::PhantomData;
pub struct ExtFieldOptional<M, T> {
    pub field_number: u32,
    _m: PhantomData<fn(M, T)>,
}
/// What an extension may hold.
pub trait ExtValue: Sized {
    const WIRE: u32;
    fn read(is: &mut CodedInputStream<'_>) -> crate::Result<Self>;
}
impl ExtValue for bool {
    const WIRE: u32 = 0;
    fn read(is: &mut CodedInputStream<'_>) -> crate::Result<Self> {
        is.read_bool()
    }
}
impl<T: Message> ExtValue for T {
    const WIRE: u32 = 2;
    fn read(is: &mut CodedInputStream<'_>) -> crate::Result<Self> {
        T::parse_from_bytes(&is.read_bytes()?)
    }
}
impl<M, T> ExtFieldOptional<M, T> {
    pub const fn new(field_number: u32, _: crate::descriptor::field_descriptor_proto::Type) -> Self {
        ExtFieldOptional { field_number, _m: PhantomData }
    }
}
impl<M: Message, T: ExtValue> ExtFieldOptional<M, T> {
    pub fn get(&self, m: &M) -> Option<T> {
        let bytes = m.write_to_bytes().unwrap();
        let mut is = CodedInputStream::from_bytes(&bytes);
        let mut out = None;
        while let Some(tag) = is.read_raw_tag_or_eof().unwrap() {
            // The options made by the checks have this extension alone.
            assert_eq!(tag, self.field_number << 3 | T::WIRE);
            out = Some(T::read(&mut is).unwrap());
        }
        out
    }
}
