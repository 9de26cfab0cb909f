//! WHATWG tokenizer over a complete input.
use crate::entities::ENTITIES;
use crate::{Attribute, LocalName, QualName, ns};
use std::collections::VecDeque;
use tendril::StrTendril;

#[derive(Clone, Debug)]
pub struct TokenizerOpts {
    pub exact_errors: bool,
    pub discard_bom: bool,
    pub profile: bool,
    pub initial_state: Option<()>,
    pub last_start_tag_name: Option<String>,
}
impl Default for TokenizerOpts {
    fn default() -> Self {
        TokenizerOpts { exact_errors: false, discard_bom: true, profile: false, initial_state: None, last_start_tag_name: None }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TagKind {
    StartTag,
    EndTag,
}
#[derive(Clone, Debug)]
pub struct Tag {
    pub kind: TagKind,
    pub name: LocalName,
    pub self_closing: bool,
    pub attrs: Vec<Attribute>,
}
#[derive(Clone, Debug, Default)]
pub struct Doctype {
    pub name: Option<StrTendril>,
    pub public_id: Option<StrTendril>,
    pub system_id: Option<StrTendril>,
    pub force_quirks: bool,
}
#[derive(Clone, Debug)]
pub enum Token {
    Doctype(Doctype),
    Tag(Tag),
    Comment(StrTendril),
    Characters(StrTendril),
    Null,
    Eof,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Data,
    Rcdata,
    Rawtext,
    ScriptData,
    Plaintext,
    Cdata,
}

pub struct Tokenizer {
    inp: StrTendril,
    pos: usize,
    pub state: State,
    last_start: String,
    /// the adjusted current node is foreign, so `<![CDATA[` opens a CDATA section
    pub allow_cdata: bool,
    queue: VecDeque<Token>,
    pub errors: u64,
}

fn is_ws(b: u8) -> bool {
    matches!(b, b'\t' | b'\n' | 0x0c | b' ' | b'\r')
}

impl Tokenizer {
    pub fn new(inp: StrTendril) -> Self {
        Tokenizer {
            inp,
            pos: 0,
            state: State::Data,
            last_start: String::new(),
            allow_cdata: false,
            queue: VecDeque::new(),
            errors: 0,
        }
    }
    pub fn set_last_start(&mut self, s: &str) {
        self.last_start = s.to_string();
    }
    fn b(&self) -> &[u8] {
        self.inp.as_bytes()
    }
    fn at(&self, i: usize) -> Option<u8> {
        self.b().get(i).copied()
    }
    fn sub(&self, a: usize, b: usize) -> StrTendril {
        self.inp.subtendril(a as u32, (b - a) as u32)
    }
    fn starts_ci(&self, i: usize, s: &str) -> bool {
        let b = self.b();
        i + s.len() <= b.len() && b[i..i + s.len()].eq_ignore_ascii_case(s.as_bytes())
    }
    fn err(&mut self) {
        self.errors += 1;
    }

    pub fn next_token(&mut self) -> Token {
        loop {
            if let Some(t) = self.queue.pop_front() {
                return t;
            }
            if self.pos >= self.inp.len() {
                return Token::Eof;
            }
            match self.state {
                State::Data => self.data(),
                State::Rcdata | State::Rawtext | State::ScriptData => self.raw(),
                State::Plaintext => {
                    let end = self.inp.len();
                    self.text_run(end, true, false);
                }
                State::Cdata => self.cdata(),
            }
        }
    }

    fn chars(&mut self, t: StrTendril) {
        if !t.is_empty() {
            self.queue.push_back(Token::Characters(t));
        }
    }

    /// Emit `pos..end` as characters. NUL becomes U+FFFD when `replace_nul`, a Null token otherwise.
    fn text_run(&mut self, end: usize, replace_nul: bool, refs: bool) {
        while self.pos < end {
            let start = self.pos;
            let mut i = start;
            while i < end {
                let c = self.b()[i];
                if c == 0 || c == b'\r' || (refs && c == b'&') {
                    break;
                }
                i += 1;
            }
            let t = self.sub(start, i);
            self.chars(t);
            self.pos = i;
            if i >= end {
                return;
            }
            match self.b()[i] {
                0 => {
                    self.err();
                    self.pos += 1;
                    if replace_nul {
                        self.chars(StrTendril::from("\u{fffd}"));
                    } else {
                        self.queue.push_back(Token::Null);
                    }
                }
                b'\r' => {
                    self.pos += 1;
                    if self.at(self.pos) == Some(b'\n') {
                        self.pos += 1;
                    }
                    self.chars(StrTendril::from("\n"));
                }
                _ => {
                    let (s, n) = self.char_ref(self.pos, false);
                    self.pos += n;
                    self.chars(StrTendril::from(s));
                }
            }
        }
    }

    fn data(&mut self) {
        let mut i = self.pos;
        let n = self.inp.len();
        while i < n && self.b()[i] != b'<' {
            i += 1;
        }
        if i > self.pos {
            self.text_run(i, false, true);
            // a character reference never runs past a '<'
            return;
        }
        self.markup();
    }

    /// At '<' in the data state.
    fn markup(&mut self) {
        let p = self.pos;
        match self.at(p + 1) {
            Some(b'!') => self.markup_decl(),
            Some(b'/') => match self.at(p + 2) {
                Some(c) if c.is_ascii_alphabetic() => {
                    self.pos = p + 2;
                    self.tag(TagKind::EndTag);
                }
                Some(b'>') => {
                    self.err();
                    self.pos = p + 3;
                }
                Some(_) => {
                    self.err();
                    self.pos = p + 2;
                    self.bogus_comment();
                }
                None => {
                    self.err();
                    self.pos = p + 2;
                    self.chars(StrTendril::from("</"));
                }
            },
            Some(c) if c.is_ascii_alphabetic() => {
                self.pos = p + 1;
                self.tag(TagKind::StartTag);
            }
            Some(b'?') => {
                self.err();
                self.pos = p + 1;
                self.bogus_comment();
            }
            _ => {
                self.err();
                self.pos = p + 1;
                self.chars(StrTendril::from("<"));
            }
        }
    }

    fn normalized(&self, a: usize, b: usize) -> StrTendril {
        let s = &self.inp[a..b];
        if s.contains(['\0', '\r']) {
            StrTendril::from(s.replace("\r\n", "\n").replace('\r', "\n").replace('\0', "\u{fffd}"))
        } else {
            self.sub(a, b)
        }
    }

    fn bogus_comment(&mut self) {
        let start = self.pos;
        let end = self.inp[start..].find('>').map(|i| start + i).unwrap_or(self.inp.len());
        let t = self.normalized(start, end);
        self.pos = (end + 1).min(self.inp.len());
        self.queue.push_back(Token::Comment(t));
    }

    fn markup_decl(&mut self) {
        let p = self.pos + 2;
        if self.starts_ci(p, "--") {
            self.pos = p + 2;
            self.comment();
        } else if self.starts_ci(p, "doctype") {
            self.pos = p + 7;
            self.doctype();
        } else if self.inp[p..].starts_with("[CDATA[") && self.allow_cdata {
            self.pos = p + 7;
            self.state = State::Cdata;
        } else {
            self.err();
            self.pos = p;
            self.bogus_comment();
        }
    }

    fn cdata(&mut self) {
        let end = self.inp[self.pos..].find("]]>").map(|i| self.pos + i);
        let stop = end.unwrap_or(self.inp.len());
        self.text_run(stop, false, false);
        self.pos = end.map(|e| e + 3).unwrap_or(stop);
        self.state = State::Data;
    }

    fn comment(&mut self) {
        #[derive(Clone, Copy)]
        enum S {
            Start,
            StartDash,
            Comment,
            EndDash,
            End,
            EndBang,
        }
        let start = self.pos;
        let mut i = start;
        let mut st = S::Start;
        let end;
        loop {
            let c = self.at(i);
            match st {
                S::Start => match c {
                    Some(b'-') => {
                        st = S::StartDash;
                        i += 1;
                    }
                    Some(b'>') => {
                        self.err();
                        end = start;
                        i += 1;
                        break;
                    }
                    _ => st = S::Comment,
                },
                S::StartDash => match c {
                    Some(b'-') => {
                        st = S::End;
                        i += 1;
                    }
                    Some(b'>') => {
                        self.err();
                        end = start;
                        i += 1;
                        break;
                    }
                    None => {
                        self.err();
                        end = start;
                        break;
                    }
                    _ => st = S::Comment,
                },
                S::Comment => match c {
                    Some(b'-') => {
                        st = S::EndDash;
                        i += 1;
                    }
                    None => {
                        self.err();
                        end = i;
                        break;
                    }
                    _ => i += 1,
                },
                S::EndDash => match c {
                    Some(b'-') => {
                        st = S::End;
                        i += 1;
                    }
                    None => {
                        self.err();
                        end = i - 1;
                        break;
                    }
                    _ => st = S::Comment,
                },
                S::End => match c {
                    Some(b'>') => {
                        end = i - 2;
                        i += 1;
                        break;
                    }
                    Some(b'!') => {
                        st = S::EndBang;
                        i += 1;
                    }
                    Some(b'-') => i += 1,
                    None => {
                        self.err();
                        end = i - 2;
                        break;
                    }
                    _ => st = S::Comment,
                },
                S::EndBang => match c {
                    Some(b'-') => {
                        st = S::EndDash;
                        i += 1;
                    }
                    Some(b'>') => {
                        self.err();
                        end = i - 3;
                        i += 1;
                        break;
                    }
                    None => {
                        self.err();
                        end = i - 3;
                        break;
                    }
                    _ => st = S::Comment,
                },
            }
        }
        let t = self.normalized(start, end.max(start));
        self.pos = i;
        self.queue.push_back(Token::Comment(t));
    }

    fn skip_ws(&mut self) {
        while self.at(self.pos).is_some_and(is_ws) {
            self.pos += 1;
        }
    }

    fn doctype(&mut self) {
        let mut d = Doctype::default();
        self.skip_ws();
        let start = self.pos;
        while self.at(self.pos).is_some_and(|c| !is_ws(c) && c != b'>') {
            self.pos += 1;
        }
        if self.pos > start {
            let raw = &self.inp[start..self.pos];
            let lower = raw.to_ascii_lowercase().replace('\0', "\u{fffd}");
            d.name = Some(if lower == raw { self.sub(start, self.pos) } else { StrTendril::from(lower) });
        } else {
            d.force_quirks = true;
        }
        self.skip_ws();
        if d.name.is_some() && !matches!(self.at(self.pos), Some(b'>') | None) {
            let public = self.starts_ci(self.pos, "public");
            let system = self.starts_ci(self.pos, "system");
            if public || system {
                self.pos += 6;
                self.skip_ws();
                match self.quoted_id() {
                    Some((t, closed)) => {
                        if public {
                            d.public_id = Some(t);
                        } else {
                            d.system_id = Some(t);
                        }
                        if !closed {
                            d.force_quirks = true;
                        } else {
                            self.skip_ws();
                            if public && let Some((t, closed)) = self.quoted_id() {
                                d.system_id = Some(t);
                                if !closed {
                                    d.force_quirks = true;
                                }
                            }
                            self.skip_ws();
                            if public && d.system_id.is_none() && !matches!(self.at(self.pos), Some(b'>') | None) {
                                d.force_quirks = true;
                            }
                        }
                    }
                    None => d.force_quirks = true,
                }
            } else {
                d.force_quirks = true;
            }
        }
        if self.at(self.pos).is_none() {
            d.force_quirks = true;
        }
        while self.at(self.pos).is_some_and(|c| c != b'>') {
            self.pos += 1;
        }
        self.pos = (self.pos + 1).min(self.inp.len());
        self.queue.push_back(Token::Doctype(d));
    }

    fn quoted_id(&mut self) -> Option<(StrTendril, bool)> {
        let q = match self.at(self.pos) {
            Some(q @ (b'"' | b'\'')) => q,
            _ => return None,
        };
        let start = self.pos + 1;
        let mut i = start;
        while self.at(i).is_some_and(|c| c != q && c != b'>') {
            i += 1;
        }
        let t = self.normalized(start, i);
        let closed = self.at(i) == Some(q);
        self.pos = if closed { i + 1 } else { i };
        Some((t, closed))
    }

    /// At the first letter of a tag name.
    fn tag(&mut self, kind: TagKind) {
        let start = self.pos;
        let n = self.inp.len();
        let mut i = start;
        while i < n && !is_ws(self.b()[i]) && self.b()[i] != b'/' && self.b()[i] != b'>' {
            i += 1;
        }
        let name = self.inp[start..i].to_ascii_lowercase().replace('\0', "\u{fffd}");
        self.pos = i;
        let mut attrs: Vec<Attribute> = Vec::new();
        let mut self_closing = false;
        loop {
            // before attribute name
            self.skip_ws();
            match self.at(self.pos) {
                None => {
                    self.err();
                    return;
                }
                Some(b'>') => {
                    self.pos += 1;
                    break;
                }
                Some(b'/') => {
                    if self.at(self.pos + 1) == Some(b'>') {
                        self_closing = true;
                        self.pos += 2;
                        break;
                    }
                    self.pos += 1;
                    if self.at(self.pos).is_none() {
                        self.err();
                        return;
                    }
                    continue;
                }
                _ => {}
            }
            // attribute name; a leading '=' is part of it
            let ns_ = self.pos;
            let mut j = ns_;
            if self.at(j) == Some(b'=') {
                self.err();
                j += 1;
            }
            while self.at(j).is_some_and(|c| !is_ws(c) && c != b'/' && c != b'>' && c != b'=') {
                j += 1;
            }
            let aname = self.inp[ns_..j].to_ascii_lowercase().replace('\0', "\u{fffd}");
            self.pos = j;
            self.skip_ws();
            let mut value = StrTendril::new();
            if self.at(self.pos) == Some(b'=') {
                self.pos += 1;
                self.skip_ws();
                match self.at(self.pos) {
                    Some(q @ (b'"' | b'\'')) => {
                        let vs = self.pos + 1;
                        let mut k = vs;
                        while self.at(k).is_some_and(|c| c != q) {
                            k += 1;
                        }
                        if self.at(k).is_none() {
                            self.err();
                            self.pos = k;
                            return;
                        }
                        value = self.attr_value(vs, k);
                        self.pos = k + 1;
                    }
                    Some(b'>') => {
                        self.err();
                    }
                    _ => {
                        let vs = self.pos;
                        let mut k = vs;
                        while self.at(k).is_some_and(|c| !is_ws(c) && c != b'>') {
                            k += 1;
                        }
                        value = self.attr_value(vs, k);
                        self.pos = k;
                    }
                }
            }
            if attrs.iter().any(|a| a.name.local == *aname.as_str()) {
                self.err();
            } else {
                attrs.push(Attribute { name: QualName::new(None, ns!(), LocalName::from(aname)), value });
            }
        }
        if kind == TagKind::StartTag {
            self.last_start = name.clone();
        } else {
            if !attrs.is_empty() || self_closing {
                self.err();
            }
        }
        self.queue.push_back(Token::Tag(Tag { kind, name: LocalName::from(name), self_closing, attrs }));
    }

    fn attr_value(&mut self, a: usize, b: usize) -> StrTendril {
        if !self.inp[a..b].contains(['&', '\0', '\r']) {
            return self.sub(a, b);
        }
        let mut out = String::new();
        let mut i = a;
        while i < b {
            let c = self.inp[i..b].chars().next().unwrap();
            match c {
                '&' => {
                    let (s, n) = self.char_ref(i, true);
                    out.push_str(&s);
                    i += n;
                    continue;
                }
                '\0' => out.push('\u{fffd}'),
                '\r' => {
                    out.push('\n');
                    if self.at(i + 1) == Some(b'\n') && i + 1 < b {
                        i += 1;
                    }
                }
                c => out.push(c),
            }
            i += c.len_utf8();
        }
        StrTendril::from(out)
    }

    /// Character reference at `i` (which holds '&'): the text it stands for and the bytes it takes.
    fn char_ref(&self, i: usize, in_attr: bool) -> (String, usize) {
        let b = self.b();
        let rest = &b[i + 1..];
        if rest.first() == Some(&b'#') {
            let hex = matches!(rest.get(1), Some(b'x' | b'X'));
            let ds = if hex { 2 } else { 1 };
            let mut j = ds;
            let mut v: u32 = 0;
            while let Some(d) = rest.get(j).and_then(|c| (*c as char).to_digit(if hex { 16 } else { 10 })) {
                v = v.saturating_mul(if hex { 16 } else { 10 }).saturating_add(d).min(0x200000);
                j += 1;
            }
            if j == ds {
                return ("&".into(), 1);
            }
            let semi = rest.get(j) == Some(&b';');
            const C1: [u32; 32] = [
                0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152,
                0x8D, 0x017D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122,
                0x0161, 0x203A, 0x0153, 0x9D, 0x017E, 0x0178,
            ];
            let c = match v {
                0 => '\u{fffd}',
                0x80..=0x9f => char::from_u32(C1[(v - 0x80) as usize]).unwrap(),
                v => char::from_u32(v).unwrap_or('\u{fffd}'),
            };
            return (c.to_string(), 1 + j + semi as usize);
        }
        let mut n = 0;
        while rest.get(n).is_some_and(|c| c.is_ascii_alphanumeric()) {
            n += 1;
        }
        let name = std::str::from_utf8(&rest[..n]).unwrap();
        if rest.get(n) == Some(&b';') {
            let full = std::str::from_utf8(&rest[..n + 1]).unwrap();
            if let Ok(k) = ENTITIES.binary_search_by(|e| e.0.cmp(full)) {
                return (ENTITIES[k].1.to_string(), 1 + n + 1);
            }
        }
        // longest prefix that needs no semicolon
        for len in (2..=n.min(6)).rev() {
            if let Ok(k) = ENTITIES.binary_search_by(|e| e.0.cmp(&name[..len])) {
                let next = rest.get(len).copied();
                if in_attr && next.is_some_and(|c| c == b'=' || c.is_ascii_alphanumeric()) {
                    break;
                }
                return (ENTITIES[k].1.to_string(), 1 + len);
            }
        }
        ("&".into(), 1)
    }

    /// RCDATA, RAWTEXT or script data: text up to the appropriate end tag.
    fn raw(&mut self) {
        let n = self.inp.len();
        let end = self.raw_end();
        let stop = end.unwrap_or(n);
        let refs = self.state == State::Rcdata;
        self.text_run(stop, true, refs);
        if end.is_some() {
            self.state = State::Data;
            self.pos = stop + 2;
            self.tag(TagKind::EndTag);
        }
    }

    fn is_end_tag(&self, i: usize) -> bool {
        let l = self.last_start.len();
        !self.last_start.is_empty()
            && self.at(i) == Some(b'<')
            && self.at(i + 1) == Some(b'/')
            && self.starts_ci(i + 2, &self.last_start)
            && self.at(i + 2 + l).is_some_and(|c| is_ws(c) || c == b'/' || c == b'>')
    }

    fn raw_end(&self) -> Option<usize> {
        let b = self.b();
        let n = b.len();
        let mut i = self.pos;
        if self.state != State::ScriptData {
            while i < n {
                if b[i] == b'<' && self.is_end_tag(i) {
                    return Some(i);
                }
                i += 1;
            }
            return None;
        }
        #[derive(PartialEq)]
        enum S {
            Data,
            Escaped,
            Double,
        }
        let word_delim = |i: usize, w: &str| {
            self.starts_ci(i, w) && self.at(i + w.len()).is_some_and(|c| is_ws(c) || c == b'/' || c == b'>')
        };
        let mut st = S::Data;
        let mut dashes = 0;
        while i < n {
            let c = b[i];
            match st {
                S::Data => {
                    if c == b'<' {
                        if self.is_end_tag(i) {
                            return Some(i);
                        }
                        if self.starts_ci(i, "<!--") {
                            st = S::Escaped;
                            dashes = 2;
                            i += 4;
                            continue;
                        }
                    }
                }
                S::Escaped | S::Double => match c {
                    b'-' => {
                        dashes += 1;
                        i += 1;
                        continue;
                    }
                    b'>' if dashes >= 2 => st = S::Data,
                    b'<' => {
                        if st == S::Escaped {
                            if self.is_end_tag(i) {
                                return Some(i);
                            }
                            if word_delim(i + 1, "script") {
                                st = S::Double;
                                i += 7;
                            }
                        } else if self.at(i + 1) == Some(b'/') && word_delim(i + 2, "script") {
                            st = S::Escaped;
                            i += 8;
                        }
                    }
                    _ => {}
                },
            }
            dashes = 0;
            i += 1;
        }
        None
    }
}
