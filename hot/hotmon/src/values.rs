//! H20: strings and patches are what they say, however they are held, copied or sent.
use crate::api::any_patch;
use crate::generate;
use crate::harness::*;
use crate::rng::Rng;
use hotmeal::{AttrPair, InsertContent, LocalName, Patch, PropChange, PropKey, QualName, Stem, StrTendril};
use hotmeal_server::LiveReloadEvent;
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
enum Do {
    Push(String),
    PushTendril(String),
    Owned,
    Copy,
    Send,
}
#[derive(Clone, Debug)]
struct Story {
    start: String,
    how: usize,
    steps: Vec<Do>,
}
impl Case for Story {
    fn show(&self) -> String {
        format!("{self:?}\n")
    }
    fn shrinks(&self) -> Vec<Self> {
        (0..self.steps.len())
            .map(|k| {
                let mut c = self.clone();
                c.steps.remove(k);
                c
            })
            .collect()
    }
}
/// Lengths around the places where short strings stop being held in place.
fn string(r: &mut Rng) -> String {
    let n = *r.pick(&[0, 0, 1, 2, 5, 7, 8, 9, 12, 15, 16, 22, 23, 24, 25, 26, 31, 32, 33, 64, 100, 255, 256, 1000]);
    let n = if r.chance(1, 2500) { 70_000 } else { n };
    let mut s = String::new();
    match r.below(4) {
        0 => return generate::text(r),
        1 => (0..n).for_each(|_| s.push(*r.pick(&['a', 'b', ' ']))),
        _ => {
            while s.len() < n {
                s.push(*r.pick(&['a', 'é', '\0', '\u{7f}', '\u{feff}', '\u{10ffff}', '<', '&', '"', '\\', '\n', '\r', '日', '\u{301}']));
            }
        }
    }
    s
}
fn story(r: &mut Rng) -> Story {
    let start = string(r);
    let steps = (0..r.below(7))
        .map(|_| match r.below(7) {
            0..=2 => Do::Push(string(r)),
            3 => Do::PushTendril(string(r)),
            4 => Do::Owned,
            5 => Do::Copy,
            _ => Do::Send,
        })
        .collect();
    Story { start, how: r.below(7), steps }
}
fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Everything a string can be asked, against a plain string.
fn same(s: &Stem, want: &str, acc: &mut Acc) -> Result<(), String> {
    let no = |what: &str| Err(format!("{what} disagrees for {want:?} held as {}", if matches!(s, Stem::Borrowed(_)) { "borrowed" } else { "owned" }));
    if s.as_str() != want || &**s != want || <Stem as AsRef<str>>::as_ref(s) != want || <Stem as Borrow<str>>::borrow(s) != want {
        return no(&format!("the content ({:?})", s.as_str()));
    }
    if s.len() != want.len() || s.is_empty() != want.is_empty() {
        return no("the length");
    }
    if s.to_string() != want {
        return no("Display");
    }
    if format!("{s:?}") != format!("{want:?}") {
        return no("Debug");
    }
    if *s != *want || *s != want {
        return no("comparison with a string");
    }
    // the same content held in every other way
    let t = StrTendril::from(want);
    let others = [Stem::from(want), Stem::from(want.to_string()), Stem::from(&t), Stem::from(t.clone()), Stem::from(compact(want)), s.clone(), s.clone().into_owned()];
    for o in &others {
        if o != s || s != o || hash_of(o) != hash_of(s) || o.as_str() != want {
            return no("equality or hash");
        }
    }
    if hash_of(s) != hash_of(want) {
        return no("the hash, which has to be the string's,");
    }
    let set: HashSet<Stem> = others.iter().cloned().collect();
    if set.len() != 1 || !set.contains(want) || !set.contains(s) {
        return no("being looked up");
    }
    for near in [format!("{want}a"), format!("{want} "), want.to_uppercase() + "x"] {
        let n = Stem::from(near.as_str());
        if n == *s || set.contains(near.as_str()) || *s == *near.as_str() {
            return no("inequality");
        }
    }
    let ch: Vec<char> = want.chars().collect();
    if !ch.is_empty() {
        let mut short = want.to_string();
        short.pop();
        if *s == Stem::from(short) {
            return no("inequality");
        }
        // parts of the very same bytes
        let all = s.as_str();
        for (at, c) in all.char_indices().filter(|(at, _)| *at < 3 || at % 5 == 0 || all.len() - at < 6) {
            let (head, tail, mid) = (Stem::from(&all[..at]), Stem::from(&all[at + c.len_utf8()..]), Stem::from(&all[at..at + c.len_utf8()]));
            if head == *s || *s == head || tail == *s || *s == tail || *s == *head || set.contains(&*tail) || (mid == *s) != (ch.len() == 1) {
                return no("inequality with a part of it");
            }
            acc.add("strings compared with parts of themselves", 1);
        }
        // the same length, one character off at any place
        for at in [0, ch.len() / 4, ch.len() / 2, ch.len() * 3 / 4, ch.len() - 1, want.len().wrapping_mul(7919) % ch.len()] {
            let near: String = ch.iter().enumerate().map(|(k, &c)| if k != at { c } else if c == 'Q' { 'R' } else { 'Q' }).collect();
            let owned = Stem::from(near.clone());
            if *s == *near || owned == *s || *s == owned || Stem::from(near.as_str()) == *s || set.contains(near.as_str()) {
                return no("inequality");
            }
        }
    }
    acc.add(if matches!(s, Stem::Borrowed(_)) { "borrowed strings examined" } else { "owned strings examined" }, 1);
    Ok(())
}
/// An owned `CompactString` without naming the crate.
fn compact(s: &str) -> Stem<'static> {
    Stem::from(s).into_owned()
}
fn tell(c: &Story, acc: &mut Acc) -> Vec<Bad> {
    let mut want = c.start.clone();
    let t = StrTendril::from(c.start.as_str());
    let sub = StrTendril::from(format!("xx{}yy", c.start));
    let sub = sub.subtendril(2, c.start.len() as u32);
    let source = c.start.clone();
    let mut s: Stem = match c.how {
        0 => Stem::from(source.as_str()),
        1 => Stem::from(source.clone()),
        2 => Stem::from(&t),
        3 => Stem::from(t.clone()),
        4 => Stem::from(&sub),
        5 => {
            let mut s = if source.len() % 2 == 0 { Stem::new() } else { Stem::default() };
            s.push_str(&source);
            s
        }
        _ => compact(&source),
    };
    if let Err(m) = same(&s, &want, acc) {
        return bad("string", m);
    }
    for (k, d) in c.steps.iter().enumerate() {
        let before = s.clone();
        let was = want.clone();
        match d {
            Do::Push(x) => {
                s.push_str(x);
                want.push_str(x);
            }
            Do::PushTendril(x) => {
                s.push_tendril(&StrTendril::from(x.as_str()));
                want.push_str(x);
            }
            Do::Owned => s = s.into_owned(),
            Do::Copy => s = s.clone(),
            Do::Send => {
                let v = vec![s.clone().into_owned()];
                let bytes = match facet_postcard::to_vec(&v) {
                    Ok(b) => b,
                    Err(e) => return bad("encode", format!("{e:?}")),
                };
                let back: Vec<Stem<'static>> = match facet_postcard::from_slice(&bytes) {
                    Ok(b) => b,
                    Err(e) => return bad("decode", format!("{e:?}")),
                };
                s = back.into_iter().next().unwrap_or_default();
            }
        }
        if let Err(m) = same(&s, &want, acc) {
            return bad("string", format!("after step {k} ({d:?}): {m}"));
        }
        if before.as_str() != was {
            return bad("copy", format!("step {k} ({d:?}) changed a copy made before it"));
        }
        acc.add("steps", 1);
    }
    acc.seen(&c.show());
    vec![]
}

// ---- patches

#[derive(Clone)]
struct List(Vec<Patch<'static>>, u64);
impl Case for List {
    fn show(&self) -> String {
        format!("{:?}\n{}\n", self.0, self.0.iter().map(full).collect::<Vec<_>>().join("\n"))
    }
    fn shrinks(&self) -> Vec<Self> {
        (0..self.0.len())
            .map(|k| {
                let mut c = self.clone();
                c.0.remove(k);
                c
            })
            .collect()
    }
}
fn name(q: &QualName) -> String {
    format!("{:?}:{:?}:{:?}", q.prefix.as_ref().map(|p| p.to_string()), q.ns.to_string(), q.local.to_string())
}
fn insert(c: &InsertContent) -> String {
    match c {
        InsertContent::Text(t) => format!("text {:?}", t.as_str()),
        InsertContent::Comment(t) => format!("comment {:?}", t.as_str()),
        InsertContent::Element { tag, attrs, children } => format!("<{:?} {}>[{}]", tag.to_string(), attr_list(attrs), children.iter().map(insert).collect::<Vec<_>>().join(",")),
    }
}
fn attr_list(a: &[AttrPair]) -> String {
    a.iter().map(|a| format!("{}={:?}", name(&a.name), a.value.as_str())).collect::<Vec<_>>().join(" ")
}
/// Everything a patch says, spelled out (its Debug form leaves things out).
fn full(p: &Patch) -> String {
    match p {
        Patch::InsertElement { at, tag, attrs, children, detach_to_slot } => {
            format!("element {:?} {:?} {} [{}] {detach_to_slot:?}", at.0.0.as_slice(), tag.to_string(), attr_list(attrs), children.iter().map(insert).collect::<Vec<_>>().join(","))
        }
        Patch::InsertText { at, text, detach_to_slot } => format!("text {:?} {:?} {detach_to_slot:?}", at.0.0.as_slice(), text.as_str()),
        Patch::InsertComment { at, text, detach_to_slot } => format!("comment {:?} {:?} {detach_to_slot:?}", at.0.0.as_slice(), text.as_str()),
        Patch::Remove { node } => format!("remove {:?}", node.0.0.as_slice()),
        Patch::SetText { path, text } => format!("set {:?} {:?}", path.0.as_slice(), text.as_str()),
        Patch::SetAttribute { path, name: n, value } => format!("attr {:?} {} {:?}", path.0.as_slice(), name(n), value.as_str()),
        Patch::RemoveAttribute { path, name: n } => format!("unattr {:?} {}", path.0.as_slice(), name(n)),
        Patch::Move { from, to, detach_to_slot } => format!("move {:?} {:?} {detach_to_slot:?}", from.0.0.as_slice(), to.0.0.as_slice()),
        Patch::UpdateProps { path, changes } => format!(
            "props {:?} {}",
            path.0.as_slice(),
            changes
                .iter()
                .map(|c| format!(
                    "{}={:?}",
                    match &c.name {
                        PropKey::Text => "text".into(),
                        PropKey::Attr(q) => name(q),
                    },
                    c.value.as_ref().map(|v| v.as_str())
                ))
                .collect::<Vec<_>>()
                .join(" ")
        ),
        Patch::OpaqueChanged { path, content } => format!("opaque {:?} {:?}", path.0.as_slice(), content.as_str()),
    }
}
fn any_name(r: &mut Rng) -> QualName {
    let prefix = *r.pick(&["", "", "", "xlink", "xml", "a"]);
    QualName::new(
        if prefix.is_empty() { None } else { Some(html5ever::Prefix::from(prefix)) },
        html5ever::Namespace::from(*r.pick(&["", "", "http://www.w3.org/1999/xlink", "http://www.w3.org/XML/1998/namespace", "urn:odd é"])),
        LocalName::from(string(r)),
    )
}
/// Every string in the patch replaced by an arbitrary one.
fn odd(r: &mut Rng, p: &mut Patch<'static>) {
    fn pairs(r: &mut Rng, a: &mut [AttrPair<'static>]) {
        for a in a {
            a.name = any_name(r);
            a.value = Stem::from(string(r));
        }
    }
    fn deep(r: &mut Rng, c: &mut [InsertContent<'static>]) {
        for c in c {
            match c {
                InsertContent::Text(t) | InsertContent::Comment(t) => *t = Stem::from(string(r)),
                InsertContent::Element { tag, attrs, children } => {
                    *tag = LocalName::from(string(r));
                    pairs(r, attrs);
                    deep(r, children);
                }
            }
        }
    }
    let far = r.chance(1, 4);
    let long = |x: &mut hotmeal::NodePath| {
        if far {
            x.0.extend([u32::MAX, 127, 128, 16383, 16384, 1 << 28, 5, 0, 0, 1, 2, 3, 4, 5, 6, 7]);
        }
    };
    match p {
        Patch::InsertElement { at, tag, attrs, children, detach_to_slot } => {
            long(&mut at.0);
            *tag = LocalName::from(string(r));
            pairs(r, attrs);
            deep(r, children);
            if far {
                *detach_to_slot = Some(u32::MAX);
            }
        }
        Patch::InsertText { at, text, .. } | Patch::InsertComment { at, text, .. } => {
            long(&mut at.0);
            *text = Stem::from(string(r));
        }
        Patch::Remove { node } => long(&mut node.0),
        Patch::SetText { path, text } => {
            long(path);
            *text = Stem::from(string(r));
        }
        Patch::SetAttribute { path, name, value } => {
            long(path);
            *name = any_name(r);
            *value = Stem::from(string(r));
        }
        Patch::RemoveAttribute { path, name } => {
            long(path);
            *name = any_name(r);
        }
        Patch::Move { from, to, .. } => {
            long(&mut from.0);
            long(&mut to.0);
        }
        Patch::UpdateProps { path, changes } => {
            long(path);
            changes.push(PropChange { name: PropKey::Attr(any_name(r)), value: if r.chance(1, 2) { Some(Stem::from(string(r))) } else { None } });
            if r.chance(1, 3) {
                changes.push(PropChange { name: PropKey::Text, value: Some(Stem::from(string(r))) });
            }
        }
        Patch::OpaqueChanged { path, content } => {
            long(path);
            *content = Stem::from(string(r));
        }
    }
}
fn sent(c: &List, acc: &mut Acc) -> Vec<Bad> {
    let want: Vec<String> = c.0.iter().map(full).collect();
    // held as strings borrowed from elsewhere, then turned into owned ones
    let owned: Vec<Patch<'static>> = c.0.iter().map(|p| p.clone().into_owned()).collect();
    let spell = |p: &[Patch]| p.iter().map(full).collect::<Vec<_>>();
    if spell(&owned) != want || owned != c.0 {
        return bad("into-owned", "into_owned changed the patches");
    }
    let bytes = match facet_postcard::to_vec(&c.0) {
        Ok(b) => b,
        Err(e) => return bad("encode", format!("{e:?}")),
    };
    let json = match facet_json::to_string(&c.0) {
        Ok(b) => b,
        Err(e) => return bad("encode-json", format!("{e:?}")),
    };
    let a: Vec<Patch<'static>> = match facet_postcard::from_slice(&bytes) {
        Ok(p) => p,
        Err(e) => return bad("decode", format!("{e:?}")),
    };
    let b: Vec<Patch<'static>> = match facet_json::from_str(&json) {
        Ok(p) => p,
        Err(e) => return bad("decode-json", format!("{e:?}")),
    };
    for (how, p) in [("postcard", &a), ("JSON", &b)] {
        if spell(p) != want || *p != c.0 {
            return bad("wire", format!("the patches came back from {how} as {:?}", spell(p)));
        }
    }
    // equality tells patches apart
    for (i, x) in c.0.iter().enumerate() {
        for (j, y) in c.0.iter().enumerate() {
            if (x == y) != (want[i] == want[j]) {
                return bad("equality", format!("patches {i} and {j}: equal {}", x == y));
            }
        }
    }
    // names can be keys
    let mut keys: HashMap<PropKey, usize> = HashMap::new();
    for p in &c.0 {
        if let Patch::UpdateProps { changes, .. } = p {
            for ch in changes {
                *keys.entry(ch.name.clone()).or_default() += 1;
                let shown = ch.name.to_string();
                let says = match &ch.name {
                    PropKey::Text => "_text".to_string(),
                    PropKey::Attr(q) => match &q.prefix {
                        Some(p) => format!("{p}:{}", q.local),
                        None => q.local.to_string(),
                    },
                };
                if shown != says {
                    return bad("display", format!("{:?} is shown as {shown:?}", ch.name));
                }
                if !keys.contains_key(&ch.name) {
                    return bad("key", "a key just put in is not found");
                }
            }
        }
        if let Patch::SetText { path, .. } = p
            && path.to_string() != path.0.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
        {
            return bad("display", format!("{:?} is shown as {path}", path.0));
        }
    }
    // and the whole list travels in an event
    let mut r = Rng::new(c.1);
    let route = string(&mut r);
    let any: Vec<u8> = (0..*r.pick(&[0usize, 1, 1, 2, 3, 127, 128, 129, 300, 40_000])).map(|_| *r.pick(&[0u8, 1, 2, 127, 128, 255])).collect();
    for e in [
        LiveReloadEvent::Reload,
        LiveReloadEvent::HeadChanged { route: route.clone() },
        LiveReloadEvent::HeadChanged { route: String::new() },
        LiveReloadEvent::Patches { route: route.clone(), patches_blob: bytes.clone() },
        LiveReloadEvent::Patches { route: route.clone(), patches_blob: vec![] },
        LiveReloadEvent::Patches { route: String::new(), patches_blob: any },
    ] {
        let shown = format!("{e:?}");
        match LiveReloadEvent::from_postcard(&e.to_postcard()) {
            Ok(x) if format!("{x:?}") == shown => {}
            x => return bad("event", format!("{shown} came back as {x:?}")),
        }
    }
    acc.add("patches", c.0.len() as u64);
    acc.add("bytes on the wire", bytes.len() as u64);
    if !c.0.is_empty() {
        acc.seen(&json);
        acc.sample(|| json.chars().take(200).collect());
    }
    vec![]
}
pub fn h20(cx: &Ctx) -> i32 {
    cx.cases("strings", cx.scale(400_000, 12_000_000), |i| Some(story(&mut Rng::stream(cx.seed, 2001, i))), tell);
    cx.cases(
        "patch lists",
        cx.scale(200_000, 8_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 2002, i);
            let n = r.below(7);
            let mut v: Vec<Patch<'static>> = (0..n).map(|_| any_patch(&mut r, 4)).collect();
            if r.chance(1, 2) {
                for p in &mut v {
                    odd(&mut r, p);
                }
            }
            if n > 0 && r.chance(1, 3) {
                let p = r.pick(&v).clone();
                v.push(p);
            }
            Some(List(v, r.next()))
        },
        sent,
    );
    cx.finish(
        "a distinct history of one string, or a distinct list of arbitrary patches that was copied, encoded both ways and decoded",
        &[("borrowed strings examined", 20_000), ("owned strings examined", 200_000), ("patches", 100_000)],
    )
}
