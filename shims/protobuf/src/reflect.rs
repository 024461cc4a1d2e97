//! Placeholders for generated code; services are those that were registered, and `dynamic` has messages of types made at run time.
use std::sync::{Arc, Mutex};

pub use crate::dynamic::*;

#[derive(Clone, Debug)]
pub struct MethodDescriptor {
    pub name: &'static str,
    pub input: &'static str,
    pub output: &'static str,
}
impl MethodDescriptor {
    pub fn proto(&self) -> Named {
        Named(self.name)
    }
    pub fn input_type(&self) -> MessageDescriptor {
        MessageDescriptor(self.input, None)
    }
    pub fn output_type(&self) -> MessageDescriptor {
        MessageDescriptor(self.output, None)
    }
}
#[derive(Clone, Debug)]
pub struct ServiceDescriptor {
    pub name: &'static str,
    pub methods: Vec<MethodDescriptor>,
}
impl ServiceDescriptor {
    pub fn proto(&self) -> Named {
        Named(self.name)
    }
    pub fn methods(&self) -> impl Iterator<Item = MethodDescriptor> + '_ {
        self.methods.iter().cloned()
    }
}
pub struct Named(&'static str);
impl Named {
    pub fn name(&self) -> &'static str {
        self.0
    }
}
/// The services of every file, set by who runs the code.
pub static SERVICES: Mutex<Vec<ServiceDescriptor>> = Mutex::new(vec![]);

#[derive(Clone, Debug, PartialEq)]
pub struct FileDescriptor;
impl FileDescriptor {
    pub fn new_generated_2(_: &'static GeneratedFileDescriptor) -> Self {
        FileDescriptor
    }
    pub fn message_by_package_relative_name(&self, n: &'static str) -> Option<MessageDescriptor> {
        Some(MessageDescriptor(n, None))
    }
    pub fn services(&self) -> std::vec::IntoIter<ServiceDescriptor> {
        SERVICES.lock().unwrap().clone().into_iter()
    }
    pub fn package(&self) -> &'static str {
        "verif"
    }
    pub fn enum_by_package_relative_name(&self, n: &'static str) -> Option<EnumDescriptor> {
        Some(EnumDescriptor(n, None))
    }
}
#[derive(Clone, Debug)]
pub struct MessageDescriptor(pub(crate) &'static str, pub(crate) Option<Arc<DynType>>);
impl MessageDescriptor {
    pub fn full_name(&self) -> &str {
        self.1.as_ref().map_or(self.0, |t| &t.name)
    }
    pub fn name(&self) -> &str {
        self.full_name()
    }
    pub fn fields(&self) -> impl Iterator<Item = FieldDescriptor> + '_ {
        self.1.iter().flat_map(|t| (0..t.fields.len()).map(|i| FieldDescriptor(t.clone(), i)))
    }
    pub fn oneofs(&self) -> impl Iterator<Item = OneofDescriptor> + '_ {
        self.1.iter().flat_map(|t| (0..t.oneofs.len()).filter(|i| !t.oneofs[*i].synthetic).map(|i| OneofDescriptor("", Some((t.clone(), i)))))
    }
    pub fn file_descriptor(&self) -> &'static FileDescriptor {
        &FileDescriptor
    }
    pub fn oneof_by_name(&self, n: &'static str) -> Option<OneofDescriptor> {
        Some(OneofDescriptor(n, None))
    }
}
#[derive(Clone, Debug)]
pub struct EnumDescriptor(&'static str, Option<Arc<Vec<i32>>>);
impl EnumDescriptor {
    pub fn with(values: Vec<i32>) -> Self {
        EnumDescriptor("", Some(Arc::new(values)))
    }
    pub fn name(&self) -> &str {
        self.0
    }
    pub fn value_by_index(&self, i: usize) -> EnumValueDescriptor {
        EnumValueDescriptor(i)
    }
    pub fn value_by_number(&self, n: i32) -> Option<EnumValueDescriptor> {
        self.1.as_ref()?.iter().position(|v| *v == n).map(EnumValueDescriptor)
    }
}
#[derive(Clone, Debug)]
pub struct EnumValueDescriptor(pub usize);
#[derive(Clone, Debug)]
pub struct OneofDescriptor(&'static str, Option<(Arc<DynType>, usize)>);
impl OneofDescriptor {
    pub(crate) fn of(t: &Arc<DynType>, i: usize) -> Self {
        OneofDescriptor("", Some((t.clone(), i)))
    }
    pub fn full_name(&self) -> &str {
        self.1.as_ref().map_or(self.0, |(t, i)| &t.oneofs[*i].name)
    }
    pub fn proto(&self) -> &OneofProto {
        let (t, i) = self.1.as_ref().unwrap();
        &t.oneofs[*i].proto
    }
    pub fn fields(&self) -> impl Iterator<Item = FieldDescriptor> + '_ {
        self.1.iter().flat_map(|(t, i)| (0..t.fields.len()).filter(|f| t.fields[*f].oneof == Some(*i)).map(|f| FieldDescriptor(t.clone(), f)))
    }
    pub fn name(&self) -> &str {
        self.0
    }
}
pub struct GeneratedMessageDescriptorData;
impl GeneratedMessageDescriptorData {
    pub fn new_2<M>(_: &'static str, _: Vec<FieldAccessor>, _: Vec<GeneratedOneofDescriptorData>) -> Self {
        Self
    }
}
pub struct GeneratedEnumDescriptorData;
impl GeneratedEnumDescriptorData {
    pub fn new<E>(_: &'static str) -> Self {
        Self
    }
    pub fn new_with<E>(_: &'static str, _: fn(&E) -> usize) -> Self {
        Self
    }
}
pub struct GeneratedOneofDescriptorData;
impl GeneratedOneofDescriptorData {
    pub fn new<O>(_: &'static str) -> Self {
        Self
    }
}
pub struct GeneratedFileDescriptor;
impl GeneratedFileDescriptor {
    pub fn new_generated(
        _: &'static crate::descriptor::FileDescriptorProto,
        _: Vec<FileDescriptor>,
        _: Vec<GeneratedMessageDescriptorData>,
        _: Vec<GeneratedEnumDescriptorData>,
    ) -> Self {
        Self
    }
}
pub struct FieldAccessor;
pub trait ProtobufValue {
    type RuntimeType;
}
pub mod rt {
    pub struct RuntimeTypeMessage<M>(std::marker::PhantomData<M>);
    pub struct RuntimeTypeEnumOrUnknown<M>(std::marker::PhantomData<M>);
    pub mod v2 {
        use crate::reflect::FieldAccessor;
        use crate::MessageField;
        macro_rules! two {
            ($($n:ident)*) => {$(
                pub fn $n<M, V>(_: &'static str, _: fn(&M) -> &V, _: fn(&mut M) -> &mut V) -> FieldAccessor { FieldAccessor }
            )*};
        }
        two!(make_simpler_field_accessor make_vec_simpler_accessor make_option_accessor make_map_simpler_accessor_new);
        pub fn make_message_field_accessor<M, V>(_: &'static str, _: fn(&M) -> &MessageField<V>, _: fn(&mut M) -> &mut MessageField<V>) -> FieldAccessor {
            FieldAccessor
        }
        pub fn make_oneof_message_has_get_mut_set_accessor<M, V>(_: &'static str, _: fn(&M) -> bool, _: fn(&M) -> &V, _: fn(&mut M) -> &mut V, _: fn(&mut M, V)) -> FieldAccessor {
            FieldAccessor
        }
        pub fn make_oneof_copy_has_get_set_simpler_accessors<M, V>(_: &'static str, _: fn(&M) -> bool, _: fn(&M) -> V, _: fn(&mut M, V)) -> FieldAccessor {
            FieldAccessor
        }
        pub fn make_oneof_enum_accessors<M, E: crate::Enum>(_: &'static str, _: fn(&M) -> Option<crate::EnumOrUnknown<E>>, _: fn(&mut M, crate::EnumOrUnknown<E>), _: E) -> FieldAccessor {
            FieldAccessor
        }
        pub fn make_oneof_deref_has_get_set_simpler_accessor<M, F>(_: &'static str, _: fn(&M) -> bool, _: fn(&M) -> &<F as DerefTarget>::T, _: fn(&mut M, F)) -> FieldAccessor
        where
            F: DerefTarget,
        {
            FieldAccessor
        }
        pub trait DerefTarget {
            type T: ?Sized;
        }
        impl DerefTarget for String {
            type T = str;
        }
        impl DerefTarget for Vec<u8> {
            type T = [u8];
        }
        impl DerefTarget for crate::Chars {
            type T = str;
        }
        impl DerefTarget for bytes::Bytes {
            type T = [u8];
        }
    }
}
