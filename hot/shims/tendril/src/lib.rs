//! Offline stand-in for the `tendril` crate: a reference-counted string slice with inline storage
//! for up to eight bytes, sharing its buffer between clones and subtendrils.
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::rc::Rc;

const MAX_INLINE: usize = 8;

#[derive(Clone)]
enum Repr {
    Inline { len: u8, bytes: [u8; MAX_INLINE] },
    Shared { buf: Rc<str>, off: u32, len: u32 },
}

#[derive(Clone)]
pub struct StrTendril(Repr);

#[derive(Copy, Clone, Hash, Debug, PartialEq, Eq)]
pub enum SubtendrilError {
    OutOfBounds,
    ValidationFailed,
}

impl StrTendril {
    pub fn new() -> Self {
        StrTendril(Repr::Inline { len: 0, bytes: [0; MAX_INLINE] })
    }
    pub fn with_capacity(_: u32) -> Self {
        Self::new()
    }
    pub fn from_slice(s: &str) -> Self {
        if s.len() <= MAX_INLINE {
            let mut bytes = [0u8; MAX_INLINE];
            bytes[..s.len()].copy_from_slice(s.as_bytes());
            StrTendril(Repr::Inline { len: s.len() as u8, bytes })
        } else {
            StrTendril(Repr::Shared { buf: Rc::from(s), off: 0, len: s.len() as u32 })
        }
    }
    pub fn from_char(c: char) -> Self {
        let mut b = [0u8; 4];
        Self::from_slice(c.encode_utf8(&mut b))
    }
    pub fn as_str(&self) -> &str {
        match &self.0 {
            Repr::Inline { len, bytes } => std::str::from_utf8(&bytes[..*len as usize]).expect("utf8"),
            Repr::Shared { buf, off, len } => &buf[*off as usize..(*off + *len) as usize],
        }
    }
    pub fn as_bytes(&self) -> &[u8] {
        self.as_str().as_bytes()
    }
    pub fn len32(&self) -> u32 {
        self.as_str().len() as u32
    }
    pub fn is_shared(&self) -> bool {
        match &self.0 {
            Repr::Inline { .. } => false,
            Repr::Shared { buf, .. } => Rc::strong_count(buf) > 1,
        }
    }
    /// Slice out `len` bytes from `off`, sharing the buffer when long enough.
    pub fn subtendril(&self, off: u32, len: u32) -> StrTendril {
        let s = &self.as_str()[off as usize..(off + len) as usize];
        if s.len() <= MAX_INLINE {
            return Self::from_slice(s);
        }
        match &self.0 {
            Repr::Inline { .. } => Self::from_slice(s),
            Repr::Shared { buf, off: o, .. } => {
                StrTendril(Repr::Shared { buf: buf.clone(), off: o + off, len })
            }
        }
    }
    pub fn push_slice(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        let mut t = String::with_capacity(self.len() + s.len());
        t.push_str(self.as_str());
        t.push_str(s);
        *self = StrTendril::from(t);
    }
    pub fn push_tendril(&mut self, other: &StrTendril) {
        if let (
            Repr::Shared { buf: b1, off: o1, len: l1 },
            Repr::Shared { buf: b2, off: o2, len: l2 },
        ) = (&mut self.0, &other.0)
        {
            if Rc::ptr_eq(b1, b2) && *o1 + *l1 == *o2 {
                *l1 += *l2;
                return;
            }
        }
        self.push_slice(other.as_str());
    }
    pub fn push_char(&mut self, c: char) {
        let mut b = [0u8; 4];
        let s: &str = c.encode_utf8(&mut b);
        self.push_slice(s);
    }
    pub fn try_subtendril(&self, off: u32, len: u32) -> Result<StrTendril, SubtendrilError> {
        let end = off.checked_add(len).ok_or(SubtendrilError::OutOfBounds)?;
        if end > self.len32() {
            return Err(SubtendrilError::OutOfBounds);
        }
        if !self.is_char_boundary(off as usize) || !self.is_char_boundary(end as usize) {
            return Err(SubtendrilError::ValidationFailed);
        }
        Ok(self.subtendril(off, len))
    }
    pub fn try_push_char(&mut self, c: char) -> Result<(), ()> {
        self.push_char(c);
        Ok(())
    }
    pub fn reserve(&mut self, _: u32) {}
    pub fn is_shared_with(&self, o: &StrTendril) -> bool {
        match (&self.0, &o.0) {
            (Repr::Shared { buf: a, .. }, Repr::Shared { buf: b, .. }) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
    pub fn clear(&mut self) {
        *self = Self::new();
    }
    pub fn pop_front(&mut self, n: u32) {
        *self = self.subtendril(n, self.len32() - n);
    }
    pub fn pop_back(&mut self, n: u32) {
        *self = self.subtendril(0, self.len32() - n);
    }
    pub fn pop_front_char(&mut self) -> Option<char> {
        let c = self.chars().next()?;
        self.pop_front(c.len_utf8() as u32);
        Some(c)
    }
    /// Split off the longest prefix on which `classify` is constant.
    pub fn pop_front_char_run<C, R>(&mut self, mut classify: C) -> Option<(StrTendril, R)>
    where
        C: FnMut(char) -> R,
        R: PartialEq,
    {
        let mut it = self.as_str().char_indices();
        let (_, c0) = it.next()?;
        let class = classify(c0);
        let mut end = self.len();
        for (i, c) in it {
            if classify(c) != class {
                end = i;
                break;
            }
        }
        let t = self.subtendril(0, end as u32);
        self.pop_front(end as u32);
        Some((t, class))
    }
}

impl Default for StrTendril {
    fn default() -> Self {
        Self::new()
    }
}
impl Deref for StrTendril {
    type Target = str;
    fn deref(&self) -> &str {
        self.as_str()
    }
}
impl AsRef<str> for StrTendril {
    fn as_ref(&self) -> &str {
        self.as_str()
    }
}
impl Borrow<str> for StrTendril {
    fn borrow(&self) -> &str {
        self.as_str()
    }
}
impl From<&str> for StrTendril {
    fn from(s: &str) -> Self {
        Self::from_slice(s)
    }
}
impl From<&String> for StrTendril {
    fn from(s: &String) -> Self {
        Self::from_slice(s)
    }
}
impl From<String> for StrTendril {
    fn from(s: String) -> Self {
        Self::from_slice(&s)
    }
}
impl From<char> for StrTendril {
    fn from(c: char) -> Self {
        Self::from_char(c)
    }
}
impl From<StrTendril> for String {
    fn from(t: StrTendril) -> String {
        t.as_str().to_owned()
    }
}
impl std::str::FromStr for StrTendril {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Ok(Self::from_slice(s))
    }
}
impl PartialEq for StrTendril {
    fn eq(&self, o: &Self) -> bool {
        self.as_str() == o.as_str()
    }
}
impl Eq for StrTendril {}
impl PartialEq<str> for StrTendril {
    fn eq(&self, o: &str) -> bool {
        self.as_str() == o
    }
}
impl PartialEq<&str> for StrTendril {
    fn eq(&self, o: &&str) -> bool {
        self.as_str() == *o
    }
}
impl PartialOrd for StrTendril {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for StrTendril {
    fn cmp(&self, o: &Self) -> Ordering {
        self.as_str().cmp(o.as_str())
    }
}
impl Hash for StrTendril {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.as_str().hash(h)
    }
}
impl fmt::Debug for StrTendril {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Tendril<UTF8>({:?})", self.as_str())
    }
}
impl fmt::Display for StrTendril {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self.as_str(), f)
    }
}
impl fmt::Write for StrTendril {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.push_slice(s);
        Ok(())
    }
}
impl Extend<char> for StrTendril {
    fn extend<I: IntoIterator<Item = char>>(&mut self, it: I) {
        let s: String = it.into_iter().collect();
        self.push_slice(&s);
    }
}

impl<'a> Extend<&'a str> for StrTendril {
    fn extend<I: IntoIterator<Item = &'a str>>(&mut self, it: I) {
        for s in it {
            self.push_slice(s)
        }
    }
}
impl<'a> Extend<&'a StrTendril> for StrTendril {
    fn extend<I: IntoIterator<Item = &'a StrTendril>>(&mut self, it: I) {
        for s in it {
            self.push_tendril(s)
        }
    }
}
impl FromIterator<char> for StrTendril {
    fn from_iter<I: IntoIterator<Item = char>>(it: I) -> Self {
        let s: String = it.into_iter().collect();
        Self::from_slice(&s)
    }
}
impl<'a> FromIterator<&'a str> for StrTendril {
    fn from_iter<I: IntoIterator<Item = &'a str>>(it: I) -> Self {
        let s: String = it.into_iter().collect();
        Self::from_slice(&s)
    }
}
impl<'a> FromIterator<&'a StrTendril> for StrTendril {
    fn from_iter<I: IntoIterator<Item = &'a StrTendril>>(it: I) -> Self {
        let s: String = it.into_iter().map(|t| t.as_str()).collect();
        Self::from_slice(&s)
    }
}
impl From<&StrTendril> for String {
    fn from(t: &StrTendril) -> String {
        t.as_str().to_owned()
    }
}
impl From<std::borrow::Cow<'_, str>> for StrTendril {
    fn from(s: std::borrow::Cow<'_, str>) -> Self {
        Self::from_slice(&s)
    }
}
impl Borrow<[u8]> for StrTendril {
    fn borrow(&self) -> &[u8] {
        self.as_bytes()
    }
}

/// Consumer of string chunks, as implemented by the parser.
pub trait TendrilSink: Sized {
    type Output;
    fn process(&mut self, t: StrTendril);
    fn error(&mut self, _desc: std::borrow::Cow<'static, str>) {}
    fn finish(self) -> Self::Output;
    fn one<T: Into<StrTendril>>(mut self, t: T) -> Self::Output {
        self.process(t.into());
        self.finish()
    }
    fn from_iter<I>(mut self, i: I) -> Self::Output
    where
        I: IntoIterator,
        I::Item: Into<StrTendril>,
    {
        for t in i {
            self.process(t.into())
        }
        self.finish()
    }
}

pub mod stream {
    pub use crate::TendrilSink;
}

pub trait SliceExt {
    fn to_tendril(&self) -> StrTendril;
}
impl SliceExt for str {
    fn to_tendril(&self) -> StrTendril {
        StrTendril::from_slice(self)
    }
}

#[macro_export]
macro_rules! format_tendril {
    ($($arg:tt)*) => { $crate::StrTendril::from(::std::format!($($arg)*)) };
}
