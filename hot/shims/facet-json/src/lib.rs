//! Offline stand-in for `facet-json`.
use facet::{De, DeError, Facet, Ser, Shape};
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct JsonError(pub String);
impl fmt::Display for JsonError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for JsonError {}
pub type DeserializeError = JsonError;
pub type SerializeError = JsonError;

#[derive(Default)]
struct W {
    out: String,
    // (shape, count) of the open groups and sequences
    stack: Vec<(Option<Shape>, usize)>,
    variants: Vec<Shape>,
}
impl W {
    fn quoted(&mut self, v: &str) {
        self.out.push('"');
        for c in v.chars() {
            match c {
                '"' => self.out.push_str("\\\""),
                '\\' => self.out.push_str("\\\\"),
                '\n' => self.out.push_str("\\n"),
                '\r' => self.out.push_str("\\r"),
                '\t' => self.out.push_str("\\t"),
                c if (c as u32) < 0x20 => self.out.push_str(&format!("\\u{:04x}", c as u32)),
                c => self.out.push(c),
            }
        }
        self.out.push('"');
    }
}
impl Ser for W {
    fn unit(&mut self) {
        self.out.push_str("null")
    }
    fn bool(&mut self, v: bool) {
        self.out.push_str(if v { "true" } else { "false" })
    }
    fn byte(&mut self, v: u8) {
        self.out.push_str(&v.to_string())
    }
    fn uint(&mut self, v: u64) {
        self.out.push_str(&v.to_string())
    }
    fn int(&mut self, v: i64) {
        self.out.push_str(&v.to_string())
    }
    fn f64(&mut self, v: f64) {
        self.out.push_str(&format!("{v:?}"))
    }
    fn str(&mut self, v: &str) {
        self.quoted(v)
    }
    fn none(&mut self) {
        self.out.push_str("null")
    }
    fn some(&mut self) {}
    fn seq_begin(&mut self, _: usize) {
        self.out.push('[');
        self.stack.push((None, 0));
    }
    fn seq_item(&mut self) {
        let top = self.stack.last_mut().unwrap();
        if top.1 > 0 {
            self.out.push(',');
        }
        top.1 += 1;
    }
    fn seq_end(&mut self) {
        self.stack.pop();
        self.out.push(']');
    }
    fn group_begin(&mut self, shape: Shape, _: usize) {
        match shape {
            Shape::Unit => {
                if self.variants.last() != Some(&Shape::Unit) {
                    self.out.push_str("null")
                }
            }
            Shape::Newtype => {}
            Shape::Tuple => self.out.push('['),
            Shape::Struct => self.out.push('{'),
        }
        self.stack.push((Some(shape), 0));
    }
    fn field(&mut self, name: &'static str) {
        let (shape, n) = *self.stack.last().unwrap();
        if n > 0 {
            self.out.push(',');
        }
        self.stack.last_mut().unwrap().1 += 1;
        if shape == Some(Shape::Struct) {
            self.quoted(name);
            self.out.push(':');
        }
    }
    fn group_end(&mut self) {
        match self.stack.pop().unwrap().0.unwrap() {
            Shape::Tuple => self.out.push(']'),
            Shape::Struct => self.out.push('}'),
            _ => {}
        }
    }
    fn variant_begin(&mut self, _: u32, name: &'static str, shape: Shape) {
        self.variants.push(shape);
        if shape == Shape::Unit {
            self.quoted(name);
        } else {
            self.out.push('{');
            self.quoted(name);
            self.out.push(':');
        }
    }
    fn variant_end(&mut self) {
        if self.variants.pop() != Some(Shape::Unit) {
            self.out.push('}');
        }
    }
}

struct R<'a> {
    s: &'a str,
    first: Vec<bool>,
    stack: Vec<(Shape, usize)>,
    variants: Vec<Shape>,
}
impl R<'_> {
    fn ws(&mut self) {
        self.s = self.s.trim_start_matches([' ', '\n', '\r', '\t']);
    }
    fn eat(&mut self, c: char) -> Result<(), DeError> {
        self.ws();
        match self.s.strip_prefix(c) {
            Some(r) => {
                self.s = r;
                Ok(())
            }
            None => Err(DeError(format!("expected {c:?} at {:?}", self.s.chars().take(20).collect::<String>()))),
        }
    }
    fn peek(&mut self) -> Option<char> {
        self.ws();
        self.s.chars().next()
    }
    fn word(&mut self, w: &str) -> bool {
        self.ws();
        match self.s.strip_prefix(w) {
            Some(r) => {
                self.s = r;
                true
            }
            None => false,
        }
    }
    fn number(&mut self) -> Result<&str, DeError> {
        self.ws();
        let n = self.s.find(|c: char| !matches!(c, '0'..='9' | '-' | '+' | '.' | 'e' | 'E')).unwrap_or(self.s.len());
        let (a, b) = self.s.split_at(n);
        self.s = b;
        Ok(a)
    }
    fn string(&mut self) -> Result<String, DeError> {
        self.eat('"')?;
        let mut out = String::new();
        let mut it = self.s.char_indices();
        let bad = || DeError("bad string".into());
        loop {
            let (i, c) = it.next().ok_or_else(bad)?;
            match c {
                '"' => {
                    self.s = &self.s[i + 1..];
                    return Ok(out);
                }
                '\\' => match it.next().ok_or_else(bad)?.1 {
                    'n' => out.push('\n'),
                    'r' => out.push('\r'),
                    't' => out.push('\t'),
                    'b' => out.push('\u{8}'),
                    'f' => out.push('\u{c}'),
                    'u' => {
                        let mut hex = |n: usize| -> Result<u32, DeError> {
                            let mut v = 0;
                            for _ in 0..n {
                                v = v * 16 + it.next().and_then(|x| x.1.to_digit(16)).ok_or_else(bad)?;
                            }
                            Ok(v)
                        };
                        let mut v = hex(4)?;
                        if (0xd800..0xdc00).contains(&v) {
                            if it.next().map(|x| x.1) != Some('\\') || it.next().map(|x| x.1) != Some('u') {
                                return Err(bad());
                            }
                            let mut lo = 0;
                            for _ in 0..4 {
                                lo = lo * 16 + it.next().and_then(|x| x.1.to_digit(16)).ok_or_else(bad)?;
                            }
                            v = 0x10000 + ((v - 0xd800) << 10) + lo.wrapping_sub(0xdc00);
                        }
                        out.push(char::from_u32(v).ok_or_else(bad)?);
                    }
                    c => out.push(c),
                },
                c => out.push(c),
            }
        }
    }
}
impl De for R<'_> {
    fn unit(&mut self) -> Result<(), DeError> {
        if self.word("null") { Ok(()) } else { Err(DeError("expected null".into())) }
    }
    fn bool(&mut self) -> Result<bool, DeError> {
        if self.word("true") {
            Ok(true)
        } else if self.word("false") {
            Ok(false)
        } else {
            Err(DeError("expected bool".into()))
        }
    }
    fn byte(&mut self) -> Result<u8, DeError> {
        self.number()?.parse().map_err(|_| DeError("bad byte".into()))
    }
    fn uint(&mut self) -> Result<u64, DeError> {
        self.number()?.parse().map_err(|_| DeError("bad number".into()))
    }
    fn int(&mut self) -> Result<i64, DeError> {
        self.number()?.parse().map_err(|_| DeError("bad number".into()))
    }
    fn f64(&mut self) -> Result<f64, DeError> {
        self.number()?.parse().map_err(|_| DeError("bad number".into()))
    }
    fn str(&mut self) -> Result<String, DeError> {
        self.string()
    }
    fn option(&mut self) -> Result<bool, DeError> {
        Ok(!self.word("null"))
    }
    fn seq_begin(&mut self) -> Result<Option<usize>, DeError> {
        self.eat('[')?;
        self.first.push(true);
        Ok(None)
    }
    fn seq_next(&mut self) -> Result<bool, DeError> {
        if self.peek() == Some(']') {
            self.eat(']')?;
            self.first.pop();
            return Ok(false);
        }
        let first = self.first.last_mut().unwrap();
        if !std::mem::replace(first, false) {
            self.eat(',')?;
        }
        Ok(true)
    }
    fn group_begin(&mut self, shape: Shape, _: usize) -> Result<(), DeError> {
        match shape {
            Shape::Unit => {
                if self.variants.last() != Some(&Shape::Unit) {
                    self.unit()?
                }
            }
            Shape::Newtype => {}
            Shape::Tuple => self.eat('[')?,
            Shape::Struct => self.eat('{')?,
        }
        self.stack.push((shape, 0));
        Ok(())
    }
    fn field(&mut self, name: &'static str) -> Result<(), DeError> {
        let (shape, n) = *self.stack.last().unwrap();
        if n > 0 {
            self.eat(',')?;
        }
        self.stack.last_mut().unwrap().1 += 1;
        if shape == Shape::Struct {
            let k = self.string()?;
            if k != name {
                return Err(DeError(format!("expected field {name}, found {k}")));
            }
            self.eat(':')?;
        }
        Ok(())
    }
    fn group_end(&mut self) -> Result<(), DeError> {
        match self.stack.pop().unwrap().0 {
            Shape::Tuple => self.eat(']'),
            Shape::Struct => self.eat('}'),
            _ => Ok(()),
        }
    }
    fn variant_begin(&mut self, names: &'static [(&'static str, Shape)]) -> Result<u32, DeError> {
        let unit = self.peek() == Some('"');
        if !unit {
            self.eat('{')?;
        }
        let k = self.string()?;
        let i = names.iter().position(|(n, _)| *n == k).ok_or_else(|| DeError(format!("unknown variant {k}")))?;
        if unit != (names[i].1 == Shape::Unit) {
            return Err(DeError("variant shape mismatch".into()));
        }
        if !unit {
            self.eat(':')?;
        }
        self.variants.push(names[i].1);
        Ok(i as u32)
    }
    fn variant_end(&mut self) -> Result<(), DeError> {
        if self.variants.pop() != Some(Shape::Unit) {
            self.eat('}')?;
        }
        Ok(())
    }
}

pub fn to_string<'f, T: Facet<'f>>(v: &T) -> Result<String, JsonError> {
    let mut w = W::default();
    v.__ser(&mut w);
    Ok(w.out)
}
pub fn to_string_pretty<'f, T: Facet<'f>>(v: &T) -> Result<String, JsonError> {
    to_string(v)
}
pub fn from_str<'f, T: Facet<'f>>(s: &str) -> Result<T, JsonError> {
    let mut r = R { s, first: vec![], stack: vec![], variants: vec![] };
    let v = T::__de(&mut r).map_err(|e| JsonError(e.0))?;
    r.ws();
    if !r.s.is_empty() {
        return Err(JsonError("trailing characters".into()));
    }
    Ok(v)
}

pub fn to_vec<'f, T: Facet<'f>>(v: &T) -> Result<Vec<u8>, JsonError> {
    to_string(v).map(String::into_bytes)
}
