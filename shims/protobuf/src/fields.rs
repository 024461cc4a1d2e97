use crate::{Enum, Message};
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Default)]
pub struct CachedSize(AtomicU32);
impl CachedSize {
    pub const fn new() -> Self {
        CachedSize(AtomicU32::new(0))
    }
    pub fn get(&self) -> u32 {
        self.0.load(Ordering::Relaxed)
    }
    pub fn set(&self, v: u32) {
        self.0.store(v, Ordering::Relaxed)
    }
}
impl Clone for CachedSize {
    fn clone(&self) -> Self {
        CachedSize(AtomicU32::new(self.get()))
    }
}
impl PartialEq for CachedSize {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for CachedSize {}
impl fmt::Debug for CachedSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "CachedSize")
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum UnknownValue {
    Fixed32(u32),
    Fixed64(u64),
    Varint(u64),
    LengthDelimited(Vec<u8>),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct UnknownFields {
    fields: Option<Box<Vec<(u32, UnknownValue)>>>,
}
impl UnknownFields {
    pub const fn new() -> Self {
        UnknownFields { fields: None }
    }
    pub fn clear(&mut self) {
        self.fields = None;
    }
    pub(crate) fn add(&mut self, f: u32, v: UnknownValue) {
        self.fields.get_or_insert_with(Default::default).push((f, v));
    }
    pub fn iter(&self) -> impl Iterator<Item = (u32, &UnknownValue)> {
        self.fields.iter().flat_map(|v| v.iter().map(|(f, v)| (*f, v)))
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct SpecialFields {
    unknown_fields: UnknownFields,
    cached_size: CachedSize,
}
impl std::hash::Hash for SpecialFields {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.unknown_fields.hash(h)
    }
}
impl SpecialFields {
    pub const fn new() -> Self {
        SpecialFields { unknown_fields: UnknownFields::new(), cached_size: CachedSize::new() }
    }
    pub fn unknown_fields(&self) -> &UnknownFields {
        &self.unknown_fields
    }
    pub fn mut_unknown_fields(&mut self) -> &mut UnknownFields {
        &mut self.unknown_fields
    }
    pub fn cached_size(&self) -> &CachedSize {
        &self.cached_size
    }
    pub fn clear(&mut self) {
        self.unknown_fields.clear();
    }
}

/// An optional message field.
#[derive(Hash, Eq)]
pub struct MessageField<T>(pub Option<Box<T>>);

impl<T> MessageField<T> {
    pub const fn none() -> Self {
        MessageField(None)
    }
    pub fn some(v: T) -> Self {
        MessageField(Some(Box::new(v)))
    }
    pub fn from_option(v: Option<T>) -> Self {
        MessageField(v.map(Box::new))
    }
    pub fn is_some(&self) -> bool {
        self.0.is_some()
    }
    pub fn is_none(&self) -> bool {
        self.0.is_none()
    }
    pub fn as_ref(&self) -> Option<&T> {
        self.0.as_deref()
    }
    pub fn as_mut(&mut self) -> Option<&mut T> {
        self.0.as_deref_mut()
    }
    pub fn into_option(self) -> Option<T> {
        self.0.map(|b| *b)
    }
    pub fn take(&mut self) -> Option<T> {
        self.0.take().map(|b| *b)
    }
    pub fn clear(&mut self) {
        self.0 = None;
    }
    pub fn unwrap(self) -> T {
        *self.0.unwrap()
    }
    pub fn map<R>(self, f: impl FnOnce(T) -> R) -> MessageField<R> {
        MessageField::from_option(self.into_option().map(f))
    }
    pub fn ok_or<E>(self, e: E) -> Result<T, E> {
        self.into_option().ok_or(e)
    }
    pub fn ok_or_else<E>(self, e: impl FnOnce() -> E) -> Result<T, E> {
        self.into_option().ok_or_else(e)
    }
    pub fn iter(&self) -> impl Iterator<Item = &T> {
        self.as_ref().into_iter()
    }
    pub fn unwrap_or_else(self, f: impl FnOnce() -> T) -> T {
        self.into_option().unwrap_or_else(f)
    }
}
impl<T: Default> MessageField<T> {
    pub fn unwrap_or_default(self) -> T {
        self.into_option().unwrap_or_default()
    }
}
impl<T: Message> MessageField<T> {
    pub fn get_or_default(&self) -> &T {
        match self.0.as_deref() {
            Some(v) => v,
            None => T::default_instance(),
        }
    }
    pub fn mut_or_insert_default(&mut self) -> &mut T {
        self.0.get_or_insert_with(Default::default)
    }
}
impl<T> Default for MessageField<T> {
    fn default() -> Self {
        Self::none()
    }
}
impl<T: Clone> Clone for MessageField<T> {
    fn clone(&self) -> Self {
        MessageField(self.0.clone())
    }
}
impl<T: PartialEq> PartialEq for MessageField<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: fmt::Debug> fmt::Debug for MessageField<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl<T: Message> Deref for MessageField<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.get_or_default()
    }
}
impl<T: Message> DerefMut for MessageField<T> {
    fn deref_mut(&mut self) -> &mut T {
        self.mut_or_insert_default()
    }
}
impl<T> From<T> for MessageField<T> {
    fn from(v: T) -> Self {
        Self::some(v)
    }
}
impl<T> From<Option<T>> for MessageField<T> {
    fn from(v: Option<T>) -> Self {
        Self::from_option(v)
    }
}
impl<'a, T> IntoIterator for &'a MessageField<T> {
    type Item = &'a T;
    type IntoIter = std::option::IntoIter<&'a T>;
    fn into_iter(self) -> Self::IntoIter {
        self.as_ref().into_iter()
    }
}
impl<T> IntoIterator for MessageField<T> {
    type Item = T;
    type IntoIter = std::option::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.into_option().into_iter()
    }
}

/// An enum value, possibly one this code does not know.
#[derive(Eq, PartialEq, Hash, Copy, Clone)]
pub struct EnumOrUnknown<E: Enum> {
    value: i32,
    _m: PhantomData<E>,
}
impl<E: Enum> EnumOrUnknown<E> {
    pub fn new(e: E) -> Self {
        Self::from_i32(e.value())
    }
    pub const fn from_i32(value: i32) -> Self {
        EnumOrUnknown { value, _m: PhantomData }
    }
    pub const fn value(&self) -> i32 {
        self.value
    }
    pub fn enum_value(&self) -> Result<E, i32> {
        E::from_i32(self.value).ok_or(self.value)
    }
    pub fn enum_value_or(&self, d: E) -> E {
        E::from_i32(self.value).unwrap_or(d)
    }
    pub fn enum_value_or_default(&self) -> E {
        E::from_i32(self.value).unwrap_or_default()
    }
    pub fn unwrap(self) -> E {
        E::from_i32(self.value).unwrap()
    }
}
impl<E: Enum> Default for EnumOrUnknown<E> {
    fn default() -> Self {
        Self::new(E::default())
    }
}
impl<E: Enum> From<E> for EnumOrUnknown<E> {
    fn from(e: E) -> Self {
        Self::new(e)
    }
}
impl<E: Enum> fmt::Debug for EnumOrUnknown<E> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.enum_value() {
            Ok(e) => fmt::Debug::fmt(&e, f),
            Err(v) => fmt::Debug::fmt(&v, f),
        }
    }
}
