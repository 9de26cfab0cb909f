//! Offline stand-in for `compact_str`: an owned string with the same interface.
use std::borrow::{Borrow, BorrowMut, Cow};
use std::fmt;
use std::ops::{Deref, DerefMut};

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CompactString(String);

impl CompactString {
    pub fn new<T: AsRef<str>>(s: T) -> Self {
        CompactString(s.as_ref().to_owned())
    }
    pub const fn const_new(s: &'static str) -> Self {
        // only the empty string can be built in a const context here
        assert!(s.is_empty());
        CompactString(String::new())
    }
    pub fn with_capacity(n: usize) -> Self {
        CompactString(String::with_capacity(n))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn as_mut_str(&mut self) -> &mut str {
        &mut self.0
    }
    pub fn into_string(self) -> String {
        self.0
    }
    pub fn from_string_buffer(s: String) -> Self {
        CompactString(s)
    }
    pub fn push_str(&mut self, s: &str) {
        self.0.push_str(s)
    }
    pub fn push(&mut self, c: char) {
        self.0.push(c)
    }
    pub fn pop(&mut self) -> Option<char> {
        self.0.pop()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn truncate(&mut self, n: usize) {
        self.0.truncate(n)
    }
    pub fn reserve(&mut self, n: usize) {
        self.0.reserve(n)
    }
    pub fn capacity(&self) -> usize {
        self.0.capacity()
    }
    pub fn insert(&mut self, i: usize, c: char) {
        self.0.insert(i, c)
    }
    pub fn insert_str(&mut self, i: usize, s: &str) {
        self.0.insert_str(i, s)
    }
    pub fn remove(&mut self, i: usize) -> char {
        self.0.remove(i)
    }
    pub fn from_utf8<B: AsRef<[u8]>>(b: B) -> Result<Self, std::str::Utf8Error> {
        std::str::from_utf8(b.as_ref()).map(Self::new)
    }
    pub fn from_utf8_lossy(b: &[u8]) -> Self {
        CompactString(String::from_utf8_lossy(b).into_owned())
    }
    pub fn as_bytes(&self) -> &[u8] {
        self.0.as_bytes()
    }
    pub fn shrink_to_fit(&mut self) {
        self.0.shrink_to_fit()
    }
    pub fn shrink_to(&mut self, n: usize) {
        self.0.shrink_to(n)
    }
    pub fn retain(&mut self, f: impl FnMut(char) -> bool) {
        self.0.retain(f)
    }
    pub fn replace_range(&mut self, r: impl std::ops::RangeBounds<usize>, with: &str) {
        self.0.replace_range(r, with)
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        CompactString(self.0.split_off(at))
    }
    pub fn drain(&mut self, r: impl std::ops::RangeBounds<usize>) -> std::string::Drain<'_> {
        self.0.drain(r)
    }
    pub fn repeat(&self, n: usize) -> Self {
        CompactString(self.0.repeat(n))
    }
    pub fn to_lowercase(&self) -> Self {
        CompactString(self.0.to_lowercase())
    }
    pub fn to_uppercase(&self) -> Self {
        CompactString(self.0.to_uppercase())
    }
    pub fn is_heap_allocated(&self) -> bool {
        self.0.len() > 24
    }
}
impl Deref for CompactString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl DerefMut for CompactString {
    fn deref_mut(&mut self) -> &mut str {
        &mut self.0
    }
}
impl AsRef<str> for CompactString {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl AsRef<[u8]> for CompactString {
    fn as_ref(&self) -> &[u8] {
        self.0.as_bytes()
    }
}
impl Borrow<str> for CompactString {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl BorrowMut<str> for CompactString {
    fn borrow_mut(&mut self) -> &mut str {
        &mut self.0
    }
}
impl From<&str> for CompactString {
    fn from(s: &str) -> Self {
        CompactString(s.to_owned())
    }
}
impl From<String> for CompactString {
    fn from(s: String) -> Self {
        CompactString(s)
    }
}
impl From<&String> for CompactString {
    fn from(s: &String) -> Self {
        CompactString(s.clone())
    }
}
impl From<Box<str>> for CompactString {
    fn from(s: Box<str>) -> Self {
        CompactString(s.into())
    }
}
impl From<Cow<'_, str>> for CompactString {
    fn from(s: Cow<'_, str>) -> Self {
        CompactString(s.into_owned())
    }
}
impl From<char> for CompactString {
    fn from(c: char) -> Self {
        CompactString(c.to_string())
    }
}
impl From<CompactString> for String {
    fn from(s: CompactString) -> String {
        s.0
    }
}
impl PartialEq<str> for CompactString {
    fn eq(&self, o: &str) -> bool {
        self.0 == o
    }
}
impl PartialEq<&str> for CompactString {
    fn eq(&self, o: &&str) -> bool {
        self.0 == *o
    }
}
impl PartialEq<String> for CompactString {
    fn eq(&self, o: &String) -> bool {
        &self.0 == o
    }
}
impl PartialEq<CompactString> for str {
    fn eq(&self, o: &CompactString) -> bool {
        *self == *o.0
    }
}
impl PartialEq<CompactString> for &str {
    fn eq(&self, o: &CompactString) -> bool {
        **self == *o.0
    }
}
impl PartialEq<CompactString> for String {
    fn eq(&self, o: &CompactString) -> bool {
        *self == o.0
    }
}
impl From<CompactString> for Box<str> {
    fn from(s: CompactString) -> Self {
        s.0.into_boxed_str()
    }
}
impl<'a> From<CompactString> for Cow<'a, str> {
    fn from(s: CompactString) -> Self {
        Cow::Owned(s.0)
    }
}
impl FromIterator<String> for CompactString {
    fn from_iter<I: IntoIterator<Item = String>>(i: I) -> Self {
        CompactString(i.into_iter().collect())
    }
}
impl<'a> FromIterator<&'a char> for CompactString {
    fn from_iter<I: IntoIterator<Item = &'a char>>(i: I) -> Self {
        CompactString(i.into_iter().collect())
    }
}
impl Extend<String> for CompactString {
    fn extend<I: IntoIterator<Item = String>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl fmt::Debug for CompactString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for CompactString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl fmt::Write for CompactString {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}
impl FromIterator<char> for CompactString {
    fn from_iter<I: IntoIterator<Item = char>>(it: I) -> Self {
        CompactString(it.into_iter().collect())
    }
}
impl<'a> FromIterator<&'a str> for CompactString {
    fn from_iter<I: IntoIterator<Item = &'a str>>(it: I) -> Self {
        CompactString(it.into_iter().collect())
    }
}
impl Extend<char> for CompactString {
    fn extend<I: IntoIterator<Item = char>>(&mut self, it: I) {
        self.0.extend(it)
    }
}
impl<'a> Extend<&'a str> for CompactString {
    fn extend<I: IntoIterator<Item = &'a str>>(&mut self, it: I) {
        self.0.extend(it)
    }
}
impl std::str::FromStr for CompactString {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(CompactString(s.to_owned()))
    }
}
impl std::ops::Add<&str> for CompactString {
    type Output = CompactString;
    fn add(mut self, o: &str) -> CompactString {
        self.0.push_str(o);
        self
    }
}
impl std::ops::AddAssign<&str> for CompactString {
    fn add_assign(&mut self, o: &str) {
        self.0.push_str(o)
    }
}

pub trait ToCompactString {
    fn to_compact_string(&self) -> CompactString;
}
impl<T: fmt::Display + ?Sized> ToCompactString for T {
    fn to_compact_string(&self) -> CompactString {
        CompactString(self.to_string())
    }
}
pub trait CompactStringExt {}

#[macro_export]
macro_rules! format_compact {
    ($($arg:tt)*) => { $crate::CompactString::from(::std::format!($($arg)*)) };
}
