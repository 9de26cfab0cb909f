//! Offline stand-in for `facet-postcard`: the postcard wire format.
use facet::{De, DeError, Facet, Ser, Shape};
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DeserializeError(pub String);
impl fmt::Display for DeserializeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for DeserializeError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SerializeError(pub String);
impl fmt::Display for SerializeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SerializeError {}

struct W(Vec<u8>);
impl W {
    fn varint(&mut self, mut v: u64) {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.0.push(b);
                return;
            }
            self.0.push(b | 0x80);
        }
    }
}
impl Ser for W {
    fn unit(&mut self) {}
    fn bool(&mut self, v: bool) {
        self.0.push(v as u8)
    }
    fn byte(&mut self, v: u8) {
        self.0.push(v)
    }
    fn uint(&mut self, v: u64) {
        self.varint(v)
    }
    fn int(&mut self, v: i64) {
        self.varint(((v << 1) ^ (v >> 63)) as u64)
    }
    fn f64(&mut self, v: f64) {
        self.0.extend(v.to_le_bytes())
    }
    fn str(&mut self, v: &str) {
        self.varint(v.len() as u64);
        self.0.extend(v.as_bytes());
    }
    fn none(&mut self) {
        self.0.push(0)
    }
    fn some(&mut self) {
        self.0.push(1)
    }
    fn seq_begin(&mut self, len: usize) {
        self.varint(len as u64)
    }
    fn seq_item(&mut self) {}
    fn seq_end(&mut self) {}
    fn group_begin(&mut self, _: Shape, _: usize) {}
    fn field(&mut self, _: &'static str) {}
    fn group_end(&mut self) {}
    fn variant_begin(&mut self, index: u32, _: &'static str, _: Shape) {
        self.varint(index as u64)
    }
    fn variant_end(&mut self) {}
}
struct R<'a>(&'a [u8]);
impl R<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8], DeError> {
        if self.0.len() < n {
            return Err(DeError("unexpected end of input".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn varint(&mut self) -> Result<u64, DeError> {
        let mut v = 0u64;
        for i in 0..10 {
            let b = self.take(1)?[0];
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(DeError("varint too long".into()))
    }
}
impl De for R<'_> {
    fn unit(&mut self) -> Result<(), DeError> {
        Ok(())
    }
    fn bool(&mut self) -> Result<bool, DeError> {
        match self.take(1)?[0] {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(DeError("bad bool".into())),
        }
    }
    fn byte(&mut self) -> Result<u8, DeError> {
        Ok(self.take(1)?[0])
    }
    fn uint(&mut self) -> Result<u64, DeError> {
        self.varint()
    }
    fn int(&mut self) -> Result<i64, DeError> {
        let v = self.varint()?;
        Ok(((v >> 1) as i64) ^ -((v & 1) as i64))
    }
    fn f64(&mut self) -> Result<f64, DeError> {
        Ok(f64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn str(&mut self) -> Result<String, DeError> {
        let n = self.varint()? as usize;
        let b = self.take(n)?.to_vec();
        String::from_utf8(b).map_err(|_| DeError("invalid utf-8".into()))
    }
    fn option(&mut self) -> Result<bool, DeError> {
        self.bool()
    }
    fn seq_begin(&mut self) -> Result<Option<usize>, DeError> {
        Ok(Some(self.varint()? as usize))
    }
    fn seq_next(&mut self) -> Result<bool, DeError> {
        unreachable!()
    }
    fn group_begin(&mut self, _: Shape, _: usize) -> Result<(), DeError> {
        Ok(())
    }
    fn field(&mut self, _: &'static str) -> Result<(), DeError> {
        Ok(())
    }
    fn group_end(&mut self) -> Result<(), DeError> {
        Ok(())
    }
    fn variant_begin(&mut self, names: &'static [(&'static str, Shape)]) -> Result<u32, DeError> {
        let v = self.varint()?;
        if (v as usize) < names.len() {
            Ok(v as u32)
        } else {
            Err(DeError(format!("bad discriminant {v}")))
        }
    }
    fn variant_end(&mut self) -> Result<(), DeError> {
        Ok(())
    }
}

pub fn to_vec<'f, T: Facet<'f>>(v: &T) -> Result<Vec<u8>, SerializeError> {
    let mut w = W(Vec::new());
    v.__ser(&mut w);
    Ok(w.0)
}
pub fn from_slice<'f, T: Facet<'f>>(b: &[u8]) -> Result<T, DeserializeError> {
    T::__de(&mut R(b)).map_err(|e| DeserializeError(e.0))
}
pub fn from_slice_borrowed<'f, T: Facet<'f>>(b: &[u8]) -> Result<T, DeserializeError> {
    from_slice(b)
}
