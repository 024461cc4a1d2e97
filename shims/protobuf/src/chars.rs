use bytes::Bytes;
use std::borrow::Borrow;
use std::fmt;
use std::ops::Deref;

/// A string backed by `Bytes`.
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
pub struct Chars(Bytes);

impl Chars {
    pub const fn new() -> Chars {
        Chars(Bytes::new())
    }
    pub fn from_bytes(bytes: Bytes) -> Result<Chars, std::str::Utf8Error> {
        std::str::from_utf8(&bytes)?;
        Ok(Chars(bytes))
    }
    pub fn as_str(&self) -> &str {
        self
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&mut self) {
        self.0.clear();
    }
}
impl std::hash::Hash for Chars {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        str::hash(self, h)
    }
}
impl Deref for Chars {
    type Target = str;
    fn deref(&self) -> &str {
        std::str::from_utf8(&self.0).unwrap()
    }
}
impl AsRef<str> for Chars {
    fn as_ref(&self) -> &str {
        self
    }
}
impl AsRef<[u8]> for Chars {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Borrow<str> for Chars {
    fn borrow(&self) -> &str {
        self
    }
}
impl fmt::Display for Chars {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&**self, f)
    }
}
impl fmt::Debug for Chars {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl From<&str> for Chars {
    fn from(s: &str) -> Chars {
        Chars(Bytes::copy_from_slice(s.as_bytes()))
    }
}
impl From<String> for Chars {
    fn from(s: String) -> Chars {
        Chars(Bytes::from(s))
    }
}
impl From<Chars> for String {
    fn from(s: Chars) -> String {
        s.to_string()
    }
}
impl From<Chars> for Bytes {
    fn from(s: Chars) -> Bytes {
        s.0
    }
}
impl PartialEq<str> for Chars {
    fn eq(&self, o: &str) -> bool {
        &**self == o
    }
}
impl PartialEq<&str> for Chars {
    fn eq(&self, o: &&str) -> bool {
        &**self == *o
    }
}
