//! Offline stand-in for `facet`: a (de)serialisation trait driven by the shape of the type,
//! and a derive macro that understands the attributes this repository uses.
pub use facet_macros::Facet;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DeError(pub String);
impl fmt::Display for DeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for DeError {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Unit,
    Newtype,
    Tuple,
    Struct,
}

/// Output side of a format.
pub trait Ser {
    fn unit(&mut self);
    fn bool(&mut self, v: bool);
    fn byte(&mut self, v: u8);
    fn uint(&mut self, v: u64);
    fn int(&mut self, v: i64);
    fn f64(&mut self, v: f64);
    fn str(&mut self, v: &str);
    fn none(&mut self);
    fn some(&mut self);
    fn seq_begin(&mut self, len: usize);
    fn seq_item(&mut self);
    fn seq_end(&mut self);
    fn group_begin(&mut self, shape: Shape, n: usize);
    fn field(&mut self, name: &'static str);
    fn group_end(&mut self);
    fn variant_begin(&mut self, index: u32, name: &'static str, shape: Shape);
    fn variant_end(&mut self);
}

/// Input side of a format.
pub trait De {
    fn unit(&mut self) -> Result<(), DeError>;
    fn bool(&mut self) -> Result<bool, DeError>;
    fn byte(&mut self) -> Result<u8, DeError>;
    fn uint(&mut self) -> Result<u64, DeError>;
    fn int(&mut self) -> Result<i64, DeError>;
    fn f64(&mut self) -> Result<f64, DeError>;
    fn str(&mut self) -> Result<String, DeError>;
    /// true when a value follows
    fn option(&mut self) -> Result<bool, DeError>;
    /// number of items when the format knows it
    fn seq_begin(&mut self) -> Result<Option<usize>, DeError>;
    fn seq_next(&mut self) -> Result<bool, DeError>;
    fn group_begin(&mut self, shape: Shape, n: usize) -> Result<(), DeError>;
    fn field(&mut self, name: &'static str) -> Result<(), DeError>;
    fn group_end(&mut self) -> Result<(), DeError>;
    fn variant_begin(&mut self, names: &'static [(&'static str, Shape)]) -> Result<u32, DeError>;
    fn variant_end(&mut self) -> Result<(), DeError>;
}

pub trait Facet<'facet>: Sized {
    fn __ser(&self, s: &mut dyn Ser);
    fn __de(d: &mut dyn De) -> Result<Self, DeError>;
}

macro_rules! uint {
    ($($t:ty),*) => {$(
        impl<'f> Facet<'f> for $t {
            fn __ser(&self, s: &mut dyn Ser) { s.uint(*self as u64) }
            fn __de(d: &mut dyn De) -> Result<Self, DeError> {
                let v = d.uint()?;
                <$t>::try_from(v).map_err(|_| DeError(format!("{v} out of range")))
            }
        }
    )*};
}
uint!(u16, u32, u64, usize);
macro_rules! sint {
    ($($t:ty),*) => {$(
        impl<'f> Facet<'f> for $t {
            fn __ser(&self, s: &mut dyn Ser) { s.int(*self as i64) }
            fn __de(d: &mut dyn De) -> Result<Self, DeError> {
                let v = d.int()?;
                <$t>::try_from(v).map_err(|_| DeError(format!("{v} out of range")))
            }
        }
    )*};
}
sint!(i8, i16, i32, i64, isize);

impl<'f> Facet<'f> for u8 {
    fn __ser(&self, s: &mut dyn Ser) {
        s.byte(*self)
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        d.byte()
    }
}
impl<'f> Facet<'f> for bool {
    fn __ser(&self, s: &mut dyn Ser) {
        s.bool(*self)
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        d.bool()
    }
}
impl<'f> Facet<'f> for f64 {
    fn __ser(&self, s: &mut dyn Ser) {
        s.f64(*self)
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        d.f64()
    }
}
impl<'f> Facet<'f> for () {
    fn __ser(&self, s: &mut dyn Ser) {
        s.unit()
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        d.unit()
    }
}
impl<'f> Facet<'f> for String {
    fn __ser(&self, s: &mut dyn Ser) {
        s.str(self)
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        d.str()
    }
}
impl<'f> Facet<'f> for compact_str::CompactString {
    fn __ser(&self, s: &mut dyn Ser) {
        s.str(self)
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        Ok(d.str()?.into())
    }
}
impl<'f> Facet<'f> for tendril::StrTendril {
    fn __ser(&self, s: &mut dyn Ser) {
        s.str(self)
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        Ok(d.str()?.into())
    }
}
impl<'f, 'a> Facet<'f> for Cow<'a, str> {
    fn __ser(&self, s: &mut dyn Ser) {
        s.str(self)
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        Ok(Cow::Owned(d.str()?))
    }
}
/// Borrowed strings serialise; decoding one needs a buffer to borrow from, which no format has here.
impl<'f> Facet<'f> for &'f str {
    fn __ser(&self, s: &mut dyn Ser) {
        s.str(self)
    }
    fn __de(_: &mut dyn De) -> Result<Self, DeError> {
        Err(DeError("cannot decode into a borrowed string".into()))
    }
}
impl<'f, T: Facet<'f>> Facet<'f> for Box<T> {
    fn __ser(&self, s: &mut dyn Ser) {
        (**self).__ser(s)
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        Ok(Box::new(T::__de(d)?))
    }
}
impl<'f, T: Facet<'f>> Facet<'f> for Option<T> {
    fn __ser(&self, s: &mut dyn Ser) {
        match self {
            None => s.none(),
            Some(v) => {
                s.some();
                v.__ser(s)
            }
        }
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        Ok(if d.option()? { Some(T::__de(d)?) } else { None })
    }
}
fn ser_seq<'a, 'f, T: Facet<'f> + 'a>(s: &mut dyn Ser, len: usize, it: impl Iterator<Item = &'a T>) {
    s.seq_begin(len);
    for v in it {
        s.seq_item();
        v.__ser(s);
    }
    s.seq_end();
}
fn de_seq<'f, T: Facet<'f>>(d: &mut dyn De, mut push: impl FnMut(T)) -> Result<(), DeError> {
    match d.seq_begin()? {
        Some(n) => {
            for _ in 0..n {
                push(T::__de(d)?);
            }
        }
        None => {
            while d.seq_next()? {
                push(T::__de(d)?);
            }
        }
    }
    Ok(())
}
impl<'f, T: Facet<'f>> Facet<'f> for Vec<T> {
    fn __ser(&self, s: &mut dyn Ser) {
        ser_seq(s, self.len(), self.iter())
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        let mut v = Vec::new();
        de_seq(d, |x| v.push(x))?;
        Ok(v)
    }
}
impl<'f, T: Facet<'f>, const N: usize> Facet<'f> for smallvec::SmallVec<[T; N]>
where
    [T; N]: smallvec::Array<Item = T>,
{
    fn __ser(&self, s: &mut dyn Ser) {
        ser_seq(s, self.len(), self.iter())
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        let mut v = smallvec::SmallVec::new();
        de_seq(d, |x| v.push(x))?;
        Ok(v)
    }
}
macro_rules! maps {
    ($($m:ident),*) => {$(
        impl<'f, V: Facet<'f>> Facet<'f> for $m<String, V> {
            fn __ser(&self, s: &mut dyn Ser) {
                s.seq_begin(self.len());
                let mut es: Vec<_> = self.iter().collect();
                es.sort_by(|a, b| a.0.cmp(b.0));
                for (k, v) in es {
                    s.seq_item();
                    s.group_begin(Shape::Tuple, 2);
                    s.field("0");
                    k.__ser(s);
                    s.field("1");
                    v.__ser(s);
                    s.group_end();
                }
                s.seq_end();
            }
            fn __de(d: &mut dyn De) -> Result<Self, DeError> {
                let mut m = $m::new();
                let n = d.seq_begin()?;
                let mut i = 0;
                loop {
                    match n {
                        Some(n) if i >= n => break,
                        Some(_) => {}
                        None => if !d.seq_next()? { break },
                    }
                    i += 1;
                    d.group_begin(Shape::Tuple, 2)?;
                    d.field("0")?;
                    let k = String::__de(d)?;
                    d.field("1")?;
                    let v = V::__de(d)?;
                    d.group_end()?;
                    m.insert(k, v);
                }
                Ok(m)
            }
        }
    )*};
}
maps!(HashMap, BTreeMap);
impl<'f, A: Facet<'f>, B: Facet<'f>> Facet<'f> for (A, B) {
    fn __ser(&self, s: &mut dyn Ser) {
        s.group_begin(Shape::Tuple, 2);
        s.field("0");
        self.0.__ser(s);
        s.field("1");
        self.1.__ser(s);
        s.group_end();
    }
    fn __de(d: &mut dyn De) -> Result<Self, DeError> {
        d.group_begin(Shape::Tuple, 2)?;
        d.field("0")?;
        let a = A::__de(d)?;
        d.field("1")?;
        let b = B::__de(d)?;
        d.group_end()?;
        Ok((a, b))
    }
}
