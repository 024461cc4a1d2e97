//! Stand-in for intrusive-collections, which is not on this machine: a list of boxed values whose
//! addresses stay the same while they are in it.
use std::collections::VecDeque;

#[doc(hidden)]
pub use std::mem::offset_of as __offset_of;

#[macro_export]
macro_rules! offset_of {
    ($t:ty, $f:ident) => {
        $crate::__offset_of!($t, $f)
    };
}

#[derive(Default, Debug, Clone, Copy)]
pub struct LinkedListLink(());
impl LinkedListLink {
    pub const fn new() -> Self {
        LinkedListLink(())
    }
    pub fn is_linked(&self) -> bool {
        false
    }
}

pub trait Adapter {
    type Value;
}

#[macro_export]
macro_rules! intrusive_adapter {
    ($vis:vis $name:ident <$($g:ident),*> = Box<$v:ty> : $v2:ty { $link:ident : $lt:ty }) => {
        $vis struct $name<$($g),*>(std::marker::PhantomData<$v>);
        impl<$($g),*> $name<$($g),*> {
            #[allow(dead_code)]
            fn __link(v: &$v2) -> &$lt {
                &v.$link
            }
        }
        impl<$($g),*> $crate::Adapter for $name<$($g),*> {
            type Value = $v;
        }
    };
}

pub struct LinkedList<A: Adapter> {
    q: VecDeque<*mut A::Value>,
}
unsafe impl<A: Adapter> Send for LinkedList<A> where A::Value: Send {}

impl<A: Adapter> Default for LinkedList<A> {
    fn default() -> Self {
        LinkedList { q: VecDeque::new() }
    }
}

pub struct Cursor<'a, A: Adapter> {
    p: Option<*mut A::Value>,
    _m: std::marker::PhantomData<&'a LinkedList<A>>,
}
impl<'a, A: Adapter> Cursor<'a, A> {
    pub fn get(&self) -> Option<&'a A::Value> {
        self.p.map(|p| unsafe { &*p })
    }
    pub fn is_null(&self) -> bool {
        self.p.is_none()
    }
}

impl<A: Adapter> LinkedList<A> {
    pub fn is_empty(&self) -> bool {
        self.q.is_empty()
    }
    pub fn front(&self) -> Cursor<'_, A> {
        Cursor { p: self.q.front().copied(), _m: std::marker::PhantomData }
    }
    pub fn back(&self) -> Cursor<'_, A> {
        Cursor { p: self.q.back().copied(), _m: std::marker::PhantomData }
    }
    pub fn iter(&self) -> impl Iterator<Item = &A::Value> {
        self.q.iter().map(|p| unsafe { &**p })
    }
    pub fn push_back(&mut self, v: Box<A::Value>) {
        self.q.push_back(Box::into_raw(v));
    }
    pub fn push_front(&mut self, v: Box<A::Value>) {
        self.q.push_front(Box::into_raw(v));
    }
    pub fn pop_front(&mut self) -> Option<Box<A::Value>> {
        self.q.pop_front().map(|p| unsafe { Box::from_raw(p) })
    }
    pub fn pop_back(&mut self) -> Option<Box<A::Value>> {
        self.q.pop_back().map(|p| unsafe { Box::from_raw(p) })
    }
    pub fn clear(&mut self) {
        while self.pop_front().is_some() {}
    }
}
impl<A: Adapter> Drop for LinkedList<A> {
    fn drop(&mut self) {
        self.clear();
    }
}
