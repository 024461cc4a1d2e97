//! Messages of types that are made at run time, with the reflection that a validator needs.
use crate::descriptor::{FieldOptions, OneofOptions};
use crate::reflect::{EnumDescriptor, OneofDescriptor};
use crate::*;
use std::sync::Arc;

#[derive(Debug, Default)]
pub struct DynType {
    pub name: String,
    pub fields: Vec<DynField>,
    pub oneofs: Vec<DynOneof>,
}
#[derive(Debug, Default)]
pub struct FieldProto {
    pub options: MessageField<FieldOptions>,
}
#[derive(Debug, Default)]
pub struct OneofProto {
    pub options: MessageField<OneofOptions>,
}
#[derive(Debug)]
pub struct DynField {
    pub name: String,
    pub proto: FieldProto,
    pub kind: RuntimeFieldType,
    /// The oneof the field is in, also the one that the keyword optional makes.
    pub oneof: Option<usize>,
}
#[derive(Debug)]
pub struct DynOneof {
    pub name: String,
    pub proto: OneofProto,
    pub synthetic: bool,
}
#[derive(Clone, Debug)]
pub enum RuntimeType {
    I32,
    I64,
    U32,
    U64,
    F32,
    F64,
    Bool,
    String,
    VecU8,
    Enum(EnumDescriptor),
    Message(String),
}
#[derive(Clone, Debug)]
pub enum RuntimeFieldType {
    Singular(RuntimeType),
    Repeated(RuntimeType),
    Map(RuntimeType, RuntimeType),
}
#[derive(Debug)]
pub enum DynValue {
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Bool(bool),
    String(String),
    Bytes(Vec<u8>),
    Enum(EnumDescriptor, i32),
    Message(Box<dyn MessageDyn>),
}
#[derive(Debug)]
pub enum Slot {
    Singular(Option<DynValue>),
    Repeated(Vec<DynValue>),
    Map(Vec<(DynValue, DynValue)>),
}
#[derive(Debug, Default)]
pub struct DynMessage {
    pub ty: Arc<DynType>,
    pub slots: Vec<Slot>,
    pub special_fields: SpecialFields,
}
/// Only so that it can be handed around as a message.
impl Clone for DynMessage {
    fn clone(&self) -> Self {
        unimplemented!()
    }
}
impl PartialEq for DynMessage {
    fn eq(&self, _: &Self) -> bool {
        unimplemented!()
    }
}
impl Message for DynMessage {
    const NAME: &'static str = "";
    fn is_initialized(&self) -> bool {
        true
    }
    fn merge_from(&mut self, _: &mut CodedInputStream<'_>) -> Result<()> {
        unimplemented!()
    }
    fn compute_size(&self) -> u64 {
        unimplemented!()
    }
    fn write_to_with_cached_sizes(&self, _: &mut CodedOutputStream<'_>) -> Result<()> {
        unimplemented!()
    }
    fn special_fields(&self) -> &SpecialFields {
        &self.special_fields
    }
    fn mut_special_fields(&mut self) -> &mut SpecialFields {
        &mut self.special_fields
    }
    fn new() -> Self {
        Self::default()
    }
    fn default_instance() -> &'static Self {
        unimplemented!()
    }
}

#[derive(Clone, Debug)]
pub enum ReflectValueRef<'a> {
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Bool(bool),
    String(&'a str),
    Bytes(&'a [u8]),
    Enum(EnumDescriptor, i32),
    Message(&'a dyn MessageDyn),
}
impl DynValue {
    pub fn reflect(&self) -> ReflectValueRef<'_> {
        match self {
            DynValue::I32(v) => ReflectValueRef::I32(*v),
            DynValue::I64(v) => ReflectValueRef::I64(*v),
            DynValue::U32(v) => ReflectValueRef::U32(*v),
            DynValue::U64(v) => ReflectValueRef::U64(*v),
            DynValue::F32(v) => ReflectValueRef::F32(*v),
            DynValue::F64(v) => ReflectValueRef::F64(*v),
            DynValue::Bool(v) => ReflectValueRef::Bool(*v),
            DynValue::String(v) => ReflectValueRef::String(v),
            DynValue::Bytes(v) => ReflectValueRef::Bytes(v),
            DynValue::Enum(d, v) => ReflectValueRef::Enum(d.clone(), *v),
            DynValue::Message(m) => ReflectValueRef::Message(&**m),
        }
    }
    fn is_default(&self) -> bool {
        match self {
            DynValue::I32(v) => *v == 0,
            DynValue::I64(v) => *v == 0,
            DynValue::U32(v) => *v == 0,
            DynValue::U64(v) => *v == 0,
            DynValue::F32(v) => v.to_bits() == 0,
            DynValue::F64(v) => v.to_bits() == 0,
            DynValue::Bool(v) => !*v,
            DynValue::String(v) => v.is_empty(),
            DynValue::Bytes(v) => v.is_empty(),
            DynValue::Enum(_, v) => *v == 0,
            DynValue::Message(_) => false,
        }
    }
}
pub enum ReflectFieldRef<'a> {
    Optional(ReflectOptionalRef<'a>),
    Repeated(ReflectRepeatedRef<'a>),
    Map(ReflectMapRef<'a>),
}
pub struct ReflectOptionalRef<'a>(Option<&'a DynValue>);
impl<'a> ReflectOptionalRef<'a> {
    pub fn value(&self) -> Option<ReflectValueRef<'a>> {
        self.0.map(DynValue::reflect)
    }
}
#[derive(Clone, Copy)]
pub struct ReflectRepeatedRef<'a>(&'a [DynValue]);
impl<'a> ReflectRepeatedRef<'a> {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn get(&self, i: usize) -> ReflectValueRef<'a> {
        self.0[i].reflect()
    }
}
impl<'a> IntoIterator for ReflectRepeatedRef<'a> {
    type Item = ReflectValueRef<'a>;
    type IntoIter = std::iter::Map<std::slice::Iter<'a, DynValue>, fn(&'a DynValue) -> ReflectValueRef<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter().map(DynValue::reflect)
    }
}
impl<'a> IntoIterator for &ReflectRepeatedRef<'a> {
    type Item = ReflectValueRef<'a>;
    type IntoIter = <ReflectRepeatedRef<'a> as IntoIterator>::IntoIter;
    fn into_iter(self) -> Self::IntoIter {
        (*self).into_iter()
    }
}
#[derive(Clone, Copy)]
pub struct ReflectMapRef<'a>(&'a [(DynValue, DynValue)]);
impl<'a> ReflectMapRef<'a> {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl<'a> IntoIterator for ReflectMapRef<'a> {
    type Item = (ReflectValueRef<'a>, ReflectValueRef<'a>);
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter().map(|(k, v)| (k.reflect(), v.reflect())).collect::<Vec<_>>().into_iter()
    }
}
impl<'a> IntoIterator for &ReflectMapRef<'a> {
    type Item = (ReflectValueRef<'a>, ReflectValueRef<'a>);
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter {
        (*self).into_iter()
    }
}

#[derive(Clone, Debug)]
pub struct FieldDescriptor(pub Arc<DynType>, pub usize);
impl FieldDescriptor {
    fn field(&self) -> &DynField {
        &self.0.fields[self.1]
    }
    fn slot<'a>(&self, m: &'a dyn MessageDyn) -> &'a Slot {
        let m: &DynMessage = m.downcast_ref().unwrap();
        assert!(Arc::ptr_eq(&m.ty, &self.0), "a field of another type");
        &m.slots[self.1]
    }
    pub fn name(&self) -> &str {
        self.field().name.rsplit('.').next().unwrap()
    }
    pub fn full_name(&self) -> String {
        self.field().name.clone()
    }
    pub fn number(&self) -> i32 {
        self.1 as i32 + 1
    }
    pub fn proto(&self) -> &FieldProto {
        &self.field().proto
    }
    pub fn runtime_field_type(&self) -> RuntimeFieldType {
        self.field().kind.clone()
    }
    pub fn is_repeated(&self) -> bool {
        matches!(self.field().kind, RuntimeFieldType::Repeated(_))
    }
    pub fn is_map(&self) -> bool {
        matches!(self.field().kind, RuntimeFieldType::Map(..))
    }
    pub fn is_singular(&self) -> bool {
        matches!(self.field().kind, RuntimeFieldType::Singular(_))
    }
    pub fn containing_oneof_including_synthetic(&self) -> Option<OneofDescriptor> {
        self.field().oneof.map(|i| OneofDescriptor::of(&self.0, i))
    }
    pub fn containing_oneof(&self) -> Option<OneofDescriptor> {
        self.field().oneof.filter(|i| !self.0.oneofs[*i].synthetic).map(|i| OneofDescriptor::of(&self.0, i))
    }
    /// A value of a field without presence counts as set if it is not the default.
    fn present<'a>(&self, m: &'a dyn MessageDyn) -> Option<&'a DynValue> {
        match self.slot(m) {
            Slot::Singular(v) => v.as_ref().filter(|v| self.field().oneof.is_some() || !v.is_default()),
            _ => panic!("not a singular field"),
        }
    }
    pub fn get_singular<'a>(&self, m: &'a dyn MessageDyn) -> Option<ReflectValueRef<'a>> {
        self.present(m).map(DynValue::reflect)
    }
    pub fn get_singular_field_or_default<'a>(&self, m: &'a dyn MessageDyn) -> ReflectValueRef<'a> {
        if let Some(v) = self.get_singular(m) {
            return v;
        }
        let RuntimeFieldType::Singular(t) = &self.field().kind else { panic!("not a singular field") };
        match t {
            RuntimeType::I32 => ReflectValueRef::I32(0),
            RuntimeType::I64 => ReflectValueRef::I64(0),
            RuntimeType::U32 => ReflectValueRef::U32(0),
            RuntimeType::U64 => ReflectValueRef::U64(0),
            RuntimeType::F32 => ReflectValueRef::F32(0.0),
            RuntimeType::F64 => ReflectValueRef::F64(0.0),
            RuntimeType::Bool => ReflectValueRef::Bool(false),
            RuntimeType::String => ReflectValueRef::String(""),
            RuntimeType::VecU8 => ReflectValueRef::Bytes(&[]),
            RuntimeType::Enum(d) => ReflectValueRef::Enum(d.clone(), 0),
            RuntimeType::Message(_) => unimplemented!("the default of a message"),
        }
    }
    pub fn get_repeated<'a>(&self, m: &'a dyn MessageDyn) -> ReflectRepeatedRef<'a> {
        match self.slot(m) {
            Slot::Repeated(v) => ReflectRepeatedRef(v),
            _ => panic!("not a repeated field"),
        }
    }
    pub fn get_map<'a>(&self, m: &'a dyn MessageDyn) -> ReflectMapRef<'a> {
        match self.slot(m) {
            Slot::Map(v) => ReflectMapRef(v),
            _ => panic!("not a map"),
        }
    }
    pub fn get_reflect<'a>(&self, m: &'a dyn MessageDyn) -> ReflectFieldRef<'a> {
        match self.slot(m) {
            Slot::Singular(_) => ReflectFieldRef::Optional(ReflectOptionalRef(self.present(m))),
            Slot::Repeated(v) => ReflectFieldRef::Repeated(ReflectRepeatedRef(v)),
            Slot::Map(v) => ReflectFieldRef::Map(ReflectMapRef(v)),
        }
    }
    pub fn has_field(&self, m: &dyn MessageDyn) -> bool {
        match self.slot(m) {
            Slot::Singular(_) => self.present(m).is_some(),
            Slot::Repeated(v) => !v.is_empty(),
            Slot::Map(v) => !v.is_empty(),
        }
    }
}
