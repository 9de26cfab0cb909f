//! H06 the DOM manipulation API, H07 patches that do not come from a diff of this document.
use crate::generate;
use crate::harness::*;
use crate::refdom;
use crate::rng::Rng;
use crate::snap;
use crate::tree::*;
use hotmeal::{AttrPair, Document, InsertContent, LocalName, NodeId, NodePath, NodeRef, Patch, PropChange, PropKey, QualName, Stem, StrTendril, parse};
use std::collections::HashMap;

// ------------------------------------------------------------------ the model

#[derive(Clone, Debug)]
enum K {
    Elem(Ns, String, Vec<Attr>),
    Text(String),
    Comment(String),
}
#[derive(Clone, Debug)]
struct N {
    k: K,
    parent: Option<usize>,
    children: Vec<usize>,
}
#[derive(Clone, Default)]
struct Forest(Vec<N>);
impl Forest {
    fn add(&mut self, k: K) -> usize {
        self.0.push(N { k, parent: None, children: vec![] });
        self.0.len() - 1
    }
    fn load(&mut self, n: &Node) -> usize {
        match n {
            Node::Text(t) => self.add(K::Text(t.clone())),
            Node::Comment(t) => self.add(K::Comment(t.clone())),
            Node::Doctype(..) => self.add(K::Comment(String::new())),
            Node::Elem(e) => {
                let x = self.add(K::Elem(e.ns, e.tag.clone(), e.attrs.clone()));
                for c in &e.children {
                    let c = self.load(c);
                    self.append(x, c);
                }
                x
            }
        }
    }
    fn detach(&mut self, n: usize) {
        if let Some(p) = self.0[n].parent.take() {
            self.0[p].children.retain(|c| *c != n);
        }
    }
    fn insert(&mut self, p: usize, at: usize, n: usize) {
        self.0[n].parent = Some(p);
        self.0[p].children.insert(at, n);
    }
    fn append(&mut self, p: usize, n: usize) {
        let at = self.0[p].children.len();
        self.insert(p, at, n);
    }
    fn index(&self, n: usize) -> Option<usize> {
        let p = self.0[n].parent?;
        self.0[p].children.iter().position(|c| *c == n)
    }
    fn within(&self, mut n: usize, anc: usize) -> bool {
        loop {
            if n == anc {
                return true;
            }
            match self.0[n].parent {
                Some(p) => n = p,
                None => return false,
            }
        }
    }
    fn node(&self, n: usize) -> Node {
        match &self.0[n].k {
            K::Text(t) => Node::Text(t.clone()),
            K::Comment(t) => Node::Comment(t.clone()),
            K::Elem(ns, tag, attrs) => {
                Node::Elem(Elem { ns: *ns, tag: tag.clone(), attrs: attrs.clone(), children: self.0[n].children.iter().map(|c| self.node(*c)).collect() })
            }
        }
    }
}
pub fn q(a: &Attr) -> QualName {
    QualName::new(
        if a.prefix.is_empty() { None } else { Some(html5ever::Prefix::from(a.prefix.as_str())) },
        html5ever::Namespace::from(a.ns.as_str()),
        LocalName::from(a.local.as_str()),
    )
}
const XLINK: &str = "http://www.w3.org/1999/xlink";

// ------------------------------------------------------------------ H06

#[derive(Clone, Debug)]
enum Op {
    Elem(String),
    Text(String),
    Comment(String),
    Append(usize, usize),
    Before(usize, usize),
    After(usize, usize),
    Remove(usize),
    Set(usize, Attr),
    Unset(usize, Attr),
    SetText(usize, String),
}
#[derive(Clone)]
struct Prog {
    start: Option<String>,
    ops: Vec<Op>,
}
impl Case for Prog {
    fn show(&self) -> String {
        format!("start {:?}\n{}\n", self.start, self.ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("\n"))
    }
    fn shrinks(&self) -> Vec<Self> {
        let mut v = vec![];
        if self.start.is_some() {
            v.push(Prog { start: None, ..self.clone() });
        }
        let n = self.ops.len();
        for w in [n / 2, n / 4, n / 8, 1] {
            if w == 0 {
                continue;
            }
            for i in (0..n).step_by(w) {
                let mut c = self.clone();
                c.ops.drain(i..(i + w).min(n));
                v.push(c);
            }
        }
        v
    }
}
fn any_attr(r: &mut Rng) -> Attr {
    match r.below(8) {
        0 => Attr { prefix: "xlink".into(), ns: XLINK.into(), local: "href".into(), value: generate::word(r) },
        1 => Attr { prefix: String::new(), ns: XLINK.into(), local: "href".into(), value: generate::word(r) },
        2 => Attr::new("href", &generate::text(r)),
        3 => Attr::new("data-hotmeal-opaque", r.pick(&["", "false", "k"])),
        4 if r.chance(1, 3) => Attr::new("encoding", r.pick(&["text/html", "Text/HTML", "application/xhtml+xml", "text/plain"])),
        _ => Attr::new(r.pick(&["class", "id", "title", "Class"]), &generate::text(r)),
    }
}
fn prog(r: &mut Rng, i: u64) -> Prog {
    let start = match i % 3 {
        0 => None,
        _ => {
            let k = r.range(1, 15);
            let st = *r.pick(&[generate::PLAIN, generate::RICH, generate::DULL]);
            Some(generate::page(&generate::body(r, st, k), 0))
        }
    };
    let n = r.range(1, 60);
    let span = r.range(4, 40);
    let mut ops: Vec<Op> = (0..n)
        .map(|_| {
            let (a, b) = (r.below(span), r.below(span));
            match r.below(14) {
                0 | 1 => Op::Elem(r.pick(&["div", "p", "br", "script", "custom-el", "svg", "body", "head", "html", "HEAD"]).to_string()),
                2 => Op::Text(generate::text(r)),
                3 => Op::Comment(generate::word(r)),
                4 | 5 => Op::Append(a, b),
                6 | 7 => Op::Before(a, b),
                8 => Op::After(a, b),
                9 => Op::Remove(a),
                10 | 11 => Op::Set(a, any_attr(r)),
                12 => Op::Unset(a, any_attr(r)),
                _ => Op::SetText(a, generate::text(r)),
            }
        })
        .collect();
    if i % 48 == 7 {
        // one element with many attributes, set, changed and taken away in any order
        let (a, many) = (r.below(span), *r.pick(&[6, 10, 20, 40, 300]));
        for _ in 0..many * 2 {
            let k = r.below(many);
            let at = Attr::new(&format!("a{k}"), &generate::word(r));
            ops.push(if r.chance(1, 5) { Op::Unset(a, at) } else { Op::Set(a, at) });
        }
    }
    if i % 480 == 10 {
        // one element with many children
        let (a, first, many) = (r.below(span), ops.len(), *r.pick(&[20, 70, 300]));
        (0..many).for_each(|k| ops.push(if k % 2 == 0 { Op::Elem("i".into()) } else { Op::Text(k.to_string()) }));
        (0..many * 2).for_each(|k| {
            let (x, y) = (r.below(first + many), r.below(first + many));
            ops.push(match k % 5 {
                0 => Op::Before(x, y),
                1 => Op::Remove(x),
                _ => Op::Append(a, y),
            })
        });
    }
    Prog { start, ops }
}
fn load_ids(d: &Document, n: NodeId, m: usize, f: &Forest, ids: &mut Vec<NodeId>) {
    ids[m] = n;
    for (c, mc) in d.children(n).zip(f.0[m].children.clone()) {
        load_ids(d, c, mc, f, ids);
    }
}
fn run_prog(p: &Prog, acc: &mut Acc) -> Vec<Bad> {
    let t = StrTendril::from(p.start.clone().unwrap_or_default().as_str());
    let mut d: Document = if p.start.is_some() { parse(&t) } else { Document::new() };
    let mut f = Forest::default();
    let root = if p.start.is_some() {
        let Some(e) = snap::elem(&d, d.root) else { return vec![] };
        f.load(&Node::Elem(e))
    } else {
        let h = f.add(K::Elem(Ns::Html, "html".into(), vec![]));
        for t in ["head", "body"] {
            let c = f.add(K::Elem(Ns::Html, t.into(), vec![]));
            f.append(h, c);
        }
        h
    };
    let mut ids = vec![d.root; f.0.len()];
    load_ids(&d, d.root, root, &f, &mut ids);
    for (step, op) in p.ops.iter().enumerate() {
        let n = f.0.len();
        let skip = |acc: &mut Acc| acc.add("operations outside the API's domain, skipped", 1);
        match op {
            Op::Elem(t) => {
                ids.push(d.create_element(t.as_str()));
                f.add(K::Elem(Ns::Html, t.clone(), vec![]));
            }
            Op::Text(t) => {
                ids.push(d.create_text(t.clone()));
                f.add(K::Text(t.clone()));
            }
            Op::Comment(t) => {
                ids.push(d.create_comment(t.clone()));
                f.add(K::Comment(t.clone()));
            }
            Op::Append(a, b) => {
                let (a, b) = (a % n, b % n);
                // only elements take children, and nothing goes beneath itself
                if !matches!(f.0[a].k, K::Elem(..)) || f.within(a, b) || b == root {
                    skip(acc);
                    continue;
                }
                d.append_child(ids[a], ids[b]);
                f.detach(b);
                f.append(a, b);
                acc.add("appends", 1);
            }
            Op::Before(a, b) | Op::After(a, b) => {
                let (a, b) = (a % n, b % n);
                if f.0[a].parent.is_none() || a == b || f.within(a, b) || b == root {
                    skip(acc);
                    continue;
                }
                let before = matches!(op, Op::Before(..));
                if before { d.insert_before(ids[a], ids[b]) } else { d.insert_after(ids[a], ids[b]) }
                if f.0[b].parent.is_some() && f.0[b].parent == f.0[a].parent {
                    acc.add("moves among siblings", 1);
                }
                f.detach(b);
                let p = f.0[a].parent.unwrap();
                let at = f.index(a).unwrap() + usize::from(!before);
                f.insert(p, at, b);
                acc.add("sibling insertions", 1);
            }
            Op::Remove(a) => {
                let a = a % n;
                if a == root {
                    skip(acc);
                    continue;
                }
                d.remove(ids[a]);
                f.detach(a);
                acc.add("removals", 1);
            }
            Op::Set(a, at) => {
                let a = a % n;
                d.set_attr(ids[a], q(at), at.value.clone());
                if let K::Elem(_, _, attrs) = &mut f.0[a].k {
                    match attrs.iter_mut().find(|x| (&x.prefix, &x.ns, &x.local) == (&at.prefix, &at.ns, &at.local)) {
                        Some(x) => {
                            x.value = at.value.clone();
                            acc.add("attribute updates", 1);
                        }
                        None => {
                            attrs.push(at.clone());
                            acc.add("attribute additions", 1);
                        }
                    }
                }
            }
            Op::Unset(a, at) => {
                let a = a % n;
                d.remove_attr(ids[a], &q(at));
                if let K::Elem(_, _, attrs) = &mut f.0[a].k {
                    let l = attrs.len();
                    attrs.retain(|x| (&x.prefix, &x.ns, &x.local) != (&at.prefix, &at.ns, &at.local));
                    if attrs.len() < l {
                        acc.add("attribute removals", 1);
                    }
                }
            }
            Op::SetText(a, t) => {
                let a = a % n;
                d.set_text(ids[a], t.clone());
                if let K::Text(x) = &mut f.0[a].k {
                    *x = t.clone();
                    acc.add("text updates", 1);
                }
            }
        }
        // every node, attached or not, against the model
        for m in 0..f.0.len() {
            let id = ids[m];
            let ms = |x: Option<usize>| x.map(|x| ids[x]);
            let ch = &f.0[m].children;
            let i = f.index(m);
            let sib = |k: isize| -> Option<usize> {
                let p = f.0[m].parent?;
                let j = i? as isize + k;
                if j < 0 { None } else { f.0[p].children.get(j as usize).copied() }
            };
            let checks = [
                ("parent", d.parent(id), ms(f.0[m].parent)),
                ("first child", d.first_child(id), ms(ch.first().copied())),
                ("last child", d.last_child(id), ms(ch.last().copied())),
                ("next sibling", d.next_sibling(id), ms(sib(1))),
                ("previous sibling", d.prev_sibling(id), ms(sib(-1))),
            ];
            for (what, got, want) in checks {
                // what is around the root element is the parser's business
                if m == root && !what.ends_with("child") {
                    continue;
                }
                if got != want {
                    return bad("link", format!("after step {step} ({op:?}): {what} of node {m} is {got:?}, expected {want:?}"));
                }
            }
            if d.child_count(id) != ch.len() || d.children(id).collect::<Vec<_>>() != ch.iter().map(|c| ids[*c]).collect::<Vec<_>>() {
                return bad("children", format!("after step {step} ({op:?}): children of node {m} differ"));
            }
            acc.add("node states compared", 1);
        }
        let got = snap::elem(&d, d.root);
        if got.map(Node::Elem) != Some(f.node(root)) {
            return bad("tree", format!("after step {step} ({op:?}): the document differs from the model"));
        }
    }
    for m in 0..f.0.len() {
        if snap::node(&d, ids[m]) != Some(f.node(m)) {
            return bad("node", format!("node {m} differs from the model at the end"));
        }
    }
    for (id, tag) in [(d.head(), "head"), (d.body(), "body")] {
        let want = f.0[root].children.iter().find(|c| matches!(&f.0[**c].k, K::Elem(_, t, _) if t == tag)).map(|c| ids[*c]);
        if id != want {
            return bad("accessor", format!("{tag}() is {id:?}, expected {want:?}"));
        }
    }
    acc.seen(&p.show());
    vec![]
}
pub fn h06(cx: &Ctx) -> i32 {
    cx.cases(
        "call histories",
        cx.scale(150_000, 2_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 601, i);
            Some(prog(&mut r, i))
        },
        run_prog,
    );
    cx.finish(
        "a distinct call history compared with the model after every call",
        &[
            ("appends", 20_000),
            ("sibling insertions", 20_000),
            ("moves among siblings", 1_000),
            ("removals", 10_000),
            ("attribute updates", 1_000),
            ("attribute additions", 10_000),
            ("attribute removals", 500),
            ("text updates", 2_000),
        ],
    )
}

// ------------------------------------------------------------------ H07

#[derive(Clone)]
pub struct Hostile {
    pub doc: String,
    pub patches: Vec<Patch<'static>>,
    pub how: &'static str,
}
impl Case for Hostile {
    fn show(&self) -> String {
        format!("patches {}\ndocument {:?}\n{}\n", self.how, self.doc, self.patches.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join("\n"))
    }
    fn shrinks(&self) -> Vec<Self> {
        let mut v = vec![];
        for i in 0..self.patches.len() {
            let mut c = self.clone();
            c.patches.remove(i);
            v.push(c);
        }
        for d in (crate::generate::Docs { docs: vec![self.doc.clone()], opt: 0, how: "", min: 1 }).shrinks() {
            v.push(Hostile { doc: d.docs[0].clone(), ..self.clone() });
        }
        v
    }
}
pub fn path(r: &mut Rng, slots: u32) -> NodePath {
    let mut p = vec![if r.chance(3, 4) { 0 } else { r.below(slots as usize + 1) as u32 }];
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 6]);
    for _ in 0..n {
        p.push(*r.pick(&[0, 0, 0, 1, 1, 2, 3, 7, 20]));
    }
    if r.chance(1, 60) {
        p.clear();
    }
    NodePath(p.into_iter().collect())
}
pub fn content(r: &mut Rng, depth: usize) -> InsertContent<'static> {
    match r.below(if depth > 3 { 2 } else { 5 }) {
        0 => InsertContent::Text(Stem::from(generate::text(r))),
        1 => InsertContent::Comment(Stem::from(generate::word(r))),
        _ => {
            let n = r.below(3);
            InsertContent::Element {
                tag: LocalName::from(*r.pick(&["div", "p", "svg", "b", "foreignObject", "math", "mi", "mglyph", "malignmark", "annotation-xml", "desc"])),
                attrs: pairs(r),
                children: (0..n).map(|_| content(r, depth + 1)).collect(),
            }
        }
    }
}
fn pairs(r: &mut Rng) -> Vec<AttrPair<'static>> {
    let mut v: Vec<Attr> = vec![];
    for _ in 0..r.below(3) {
        let a = any_attr(r);
        if !v.iter().any(|b| (&b.ns, &b.local, &b.prefix) == (&a.ns, &a.local, &a.prefix)) {
            v.push(a);
        }
    }
    v.iter().map(|a| AttrPair { name: q(a), value: Stem::from(a.value.clone()) }).collect()
}
pub fn any_patch(r: &mut Rng, slots: u32) -> Patch<'static> {
    let slot = |r: &mut Rng| if r.chance(1, 2) { Some(r.range(0, slots as usize + 1) as u32) } else { None };
    match r.below(12) {
        0 | 1 => {
            let n = r.below(3);
            Patch::InsertElement {
                at: NodeRef(path(r, slots)),
                tag: LocalName::from(*r.pick(&["div", "p", "svg", "title", "math", "body", "mi", "malignmark", "mglyph", "annotation-xml"])),
                attrs: pairs(r),
                children: (0..n).map(|_| content(r, 0)).collect(),
                detach_to_slot: slot(r),
            }
        }
        2 => Patch::InsertText { at: NodeRef(path(r, slots)), text: Stem::from(generate::text(r)), detach_to_slot: slot(r) },
        3 => Patch::InsertComment { at: NodeRef(path(r, slots)), text: Stem::from(generate::word(r)), detach_to_slot: slot(r) },
        4 | 5 => Patch::Remove { node: NodeRef(path(r, slots)) },
        6 => Patch::SetText { path: path(r, slots), text: Stem::from(generate::text(r)) },
        7 => {
            let a = any_attr(r);
            Patch::SetAttribute { path: path(r, slots), name: q(&a), value: Stem::from(a.value) }
        }
        8 => Patch::RemoveAttribute { path: path(r, slots), name: q(&any_attr(r)) },
        9 | 10 => Patch::Move { from: NodeRef(path(r, slots)), to: NodeRef(path(r, slots)), detach_to_slot: slot(r) },
        _ => {
            if r.chance(1, 4) {
                Patch::OpaqueChanged { path: path(r, slots), content: Stem::from(r.pick(&["", "text", "<b>x</b>y<!--z-->", "<p>a</p><p>b</p>"]).to_string()) }
            } else if r.chance(1, 3) {
                Patch::UpdateProps { path: path(r, slots), changes: vec![PropChange { name: PropKey::Text, value: if r.chance(1, 4) { None } else { Some(Stem::from(generate::text(r))) } }] }
            } else {
                let changes = pairs(r).into_iter().map(|p| PropChange { name: PropKey::Attr(p.name), value: if r.chance(1, 2) { None } else { Some(p.value) } }).collect();
                Patch::UpdateProps { path: path(r, slots), changes }
            }
        }
    }
}
fn bend(r: &mut Rng, p: &mut Patch<'static>) {
    let (how, slot) = (r.below(4), r.below(4) as u32);
    let mut twist = |x: &mut NodePath| {
        let n = x.0.len();
        match r.below(5) {
            0 if n > 0 => {
                let i = r.below(n);
                x.0[i] = x.0[i].wrapping_add(1);
            }
            1 if n > 0 => {
                let i = r.below(n);
                x.0[i] = x.0[i].saturating_sub(1);
            }
            2 => x.0.push(r.below(3) as u32),
            3 => {
                x.0.pop();
            }
            _ if n > 1 => {
                x.0.remove(1);
            }
            _ => {}
        }
    };
    match p {
        Patch::InsertElement { at, .. } | Patch::InsertText { at, .. } | Patch::InsertComment { at, .. } => twist(&mut at.0),
        Patch::Remove { node } => twist(&mut node.0),
        Patch::SetText { path, .. } | Patch::SetAttribute { path, .. } | Patch::RemoveAttribute { path, .. } | Patch::UpdateProps { path, .. } | Patch::OpaqueChanged { path, .. } => twist(path),
        Patch::Move { from, to, detach_to_slot } => match how {
            0 => twist(&mut from.0),
            1 => twist(&mut to.0),
            2 => std::mem::swap(from, to),
            _ => *detach_to_slot = if detach_to_slot.is_some() { None } else { Some(slot) },
        },
    }
}

/// Reference meaning of a patch; None means it does not fit the document.
struct Ref {
    f: Forest,
    slots: HashMap<u32, usize>,
}
impl Ref {
    fn find(&self, p: &[u32]) -> Option<usize> {
        let mut cur = *self.slots.get(p.first()?)?;
        for i in &p[1..] {
            cur = *self.f.0[cur].children.get(*i as usize)?;
        }
        Some(cur)
    }
    /// Only elements have children.
    fn place(&self, p: &[u32]) -> Option<(usize, usize)> {
        if p.len() < 2 {
            return None;
        }
        let n = self.find(&p[..p.len() - 1])?;
        matches!(self.f.0[n].k, K::Elem(..)).then_some((n, p[p.len() - 1] as usize))
    }
    fn put(&mut self, p: &[u32], n: usize, slot: Option<u32>) -> Option<()> {
        let (parent, at) = self.place(p)?;
        if self.f.within(parent, n) {
            return None;
        }
        if let Some(s) = slot
            && let Some(x) = self.f.0[parent].children.get(at).copied()
        {
            self.f.detach(x);
            self.slots.insert(s, x);
        }
        while self.f.0[parent].children.len() < at {
            let e = self.f.add(K::Text(String::new()));
            self.f.append(parent, e);
        }
        self.f.insert(parent, at, n);
        Some(())
    }
    fn make(&mut self, c: &InsertContent, parent: usize) -> usize {
        match c {
            InsertContent::Text(t) => self.f.add(K::Text(t.to_string())),
            InsertContent::Comment(t) => self.f.add(K::Comment(t.to_string())),
            InsertContent::Element { tag, attrs, children } => self.elem(tag, attrs, children, parent),
        }
    }
    fn elem(&mut self, tag: &str, attrs: &[AttrPair], children: &[InsertContent], parent: usize) -> usize {
        let (pns, ptag, penc) = match &self.f.0[parent].k {
            K::Elem(ns, t, a) => (*ns, t.clone(), a.iter().find(|a| a.local == "encoding").map(|a| a.value.to_ascii_lowercase())),
            _ => (Ns::Html, String::new(), None),
        };
        // where foreign content hands over to HTML again
        let html = match pns {
            Ns::Html => true,
            Ns::Svg => ["foreignObject", "desc", "title"].contains(&ptag.as_str()),
            Ns::Math => match ptag.as_str() {
                "mi" | "mo" | "mn" | "ms" | "mtext" => tag != "mglyph" && tag != "malignmark",
                "annotation-xml" => tag == "svg" || penc.is_some_and(|e| e == "text/html" || e == "application/xhtml+xml"),
                _ => false,
            },
        };
        let ns = if !html {
            pns
        } else if tag == "svg" {
            Ns::Svg
        } else if tag == "math" {
            Ns::Math
        } else {
            Ns::Html
        };
        let n = self.f.add(K::Elem(ns, tag.to_string(), attrs.iter().map(|a| snap::attr(&a.name, &a.value)).collect()));
        for c in children {
            let c = self.make(c, n);
            self.f.append(n, c);
        }
        n
    }
    fn apply(&mut self, p: &Patch) -> Option<()> {
        match p {
            Patch::InsertElement { at, tag, attrs, children, detach_to_slot } => {
                let (parent, _) = self.place(&at.0.0)?;
                let n = self.elem(tag, attrs, children, parent);
                self.put(&at.0.0, n, *detach_to_slot)
            }
            Patch::InsertText { at, text, detach_to_slot } => {
                self.place(&at.0.0)?;
                let n = self.f.add(K::Text(text.to_string()));
                self.put(&at.0.0, n, *detach_to_slot)
            }
            Patch::InsertComment { at, text, detach_to_slot } => {
                self.place(&at.0.0)?;
                let n = self.f.add(K::Comment(text.to_string()));
                self.put(&at.0.0, n, *detach_to_slot)
            }
            Patch::Remove { node } => {
                let n = self.find(&node.0.0)?;
                self.hole(n);
                Some(())
            }
            Patch::SetText { path, text } => {
                let n = self.find(&path.0)?;
                match &mut self.f.0[n].k {
                    K::Text(t) | K::Comment(t) => {
                        *t = text.to_string();
                        Some(())
                    }
                    _ => None,
                }
            }
            Patch::SetAttribute { path, name, value } => {
                let n = self.find(&path.0)?;
                let K::Elem(_, _, a) = &mut self.f.0[n].k else { return None };
                let want = snap::attr(name, value);
                match a.iter_mut().find(|x| (&x.prefix, &x.ns, &x.local) == (&want.prefix, &want.ns, &want.local)) {
                    Some(x) => x.value = want.value,
                    None => a.push(want),
                }
                Some(())
            }
            Patch::RemoveAttribute { path, name } => {
                let n = self.find(&path.0)?;
                let K::Elem(_, _, a) = &mut self.f.0[n].k else { return None };
                let want = snap::attr(name, "");
                a.retain(|x| (&x.prefix, &x.ns, &x.local) != (&want.prefix, &want.ns, &want.local));
                Some(())
            }
            Patch::UpdateProps { path, changes } => {
                let n = self.find(&path.0)?;
                let text = changes.iter().find(|c| matches!(c.name, PropKey::Text)).and_then(|c| c.value.as_ref());
                match &mut self.f.0[n].k {
                    K::Text(t) | K::Comment(t) => {
                        if let Some(x) = text {
                            *t = x.to_string();
                        }
                    }
                    K::Elem(_, _, a) => {
                        let old = std::mem::take(a);
                        for c in changes {
                            if let PropKey::Attr(name) = &c.name {
                                let mut w = snap::attr(name, "");
                                w.value = match &c.value {
                                    Some(v) => v.to_string(),
                                    None => old.iter().find(|x| (&x.prefix, &x.ns, &x.local) == (&w.prefix, &w.ns, &w.local)).map(|x| x.value.clone()).unwrap_or_default(),
                                };
                                a.push(w);
                            }
                        }
                    }
                }
                Some(())
            }
            Patch::Move { from, to, detach_to_slot } => {
                let n = self.find(&from.0.0)?;
                if from.0.0.len() > 1 { self.hole(n) } else { self.f.detach(n) }
                self.put(&to.0.0, n, *detach_to_slot)
            }
            Patch::OpaqueChanged { path, content } => {
                let n = self.find(&path.0)?;
                if !matches!(self.f.0[n].k, K::Elem(..)) {
                    return None;
                }
                for c in self.f.0[n].children.clone() {
                    self.f.detach(c);
                }
                let K::Elem(ns, tag, _) = &self.f.0[n].k else { unreachable!() };
                let ns = ns.url();
                for x in refdom::parse_inner(content, ns, &tag.clone()) {
                    let c = self.f.load(&x);
                    self.f.append(n, c);
                }
                Some(())
            }
        }
    }
    /// Takes a node out, leaving an empty text in its place.
    fn hole(&mut self, n: usize) {
        if let (Some(p), Some(i)) = (self.f.0[n].parent, self.f.index(n)) {
            self.f.detach(n);
            let e = self.f.add(K::Text(String::new()));
            self.f.insert(p, i, e);
        }
    }
}

fn hostile(c: &Hostile, acc: &mut Acc) -> Vec<Bad> {
    let t = StrTendril::from(c.doc.as_str());
    let mut d = parse(&t);
    let mut slots = d.init_patch_slots();
    let Some(e) = snap::elem(&d, d.root) else { return vec![] };
    let mut r = Ref { f: Forest::default(), slots: HashMap::new() };
    let root = r.f.load(&Node::Elem(e));
    let bi = d.children(d.root).position(|c| Some(c) == d.body()).unwrap();
    r.slots.insert(0, r.f.0[root].children[bi]);
    let mut all = parse(&t);
    let mut fits = true;
    for (i, p) in c.patches.iter().enumerate() {
        let got = d.apply_patch_with_slots(p.clone(), &mut slots);
        let want = r.apply(p);
        if let Err(m) = snap::well_formed(&d) {
            return bad("malformed", format!("after patch {i} ({p:?}): {m}"));
        }
        let mut stack = vec![d.root];
        while let Some(n) = stack.pop() {
            let kids: Vec<_> = d.children(n).collect();
            if !kids.is_empty() && !matches!(d.get(n).kind, hotmeal::NodeKind::Element(_) | hotmeal::NodeKind::Document) {
                return bad("leaf-with-children", format!("after patch {i} ({p:?}): a text or comment has children"));
            }
            stack.extend(kids);
        }
        let html = d.to_html();
        if html.is_empty() {
            return bad("empty", "nothing left to serialize");
        }
        match (got, want) {
            (Ok(()), Some(())) => {
                acc.add("patches applied", 1);
                let have = snap::elem(&d, d.root).map(Node::Elem);
                let w = r.f.node(root);
                if have.as_ref() != Some(&w) {
                    let m = diff_msg(have.as_ref().unwrap().elem().unwrap(), w.elem().unwrap(), "");
                    return bad("meaning", format!("after patch {i} ({p:?}): {}", m.unwrap_or_default()));
                }
            }
            (Err(_), None) => {
                acc.add("patches refused", 1);
                fits = false;
                break;
            }
            (Ok(()), None) => return bad("accepted", format!("patch {i} ({p:?}) does not fit the document but was accepted")),
            (Err(e), Some(())) => return bad("refused", format!("patch {i} ({p:?}) fits the document but was refused: {e:?}")),
        }
    }
    // the same list through the batch entry point
    match (all.apply_patches(c.patches.clone()), fits) {
        (Ok(()), true) | (Err(_), false) => {}
        (x, _) => return bad("batch", format!("apply_patches says {x:?}, applying one by one says otherwise")),
    }
    if let Err(m) = snap::well_formed(&all) {
        return bad("malformed", format!("after apply_patches: {m}"));
    }
    if fits && !c.patches.is_empty() && snap::elem(&all, all.root) != snap::elem(&d, d.root) {
        return bad("batch", "apply_patches and applying one by one give different documents");
    }
    if c.patches.len() > 1 {
        acc.seen(&c.show());
    }
    vec![]
}
pub fn hostile_list(r: &mut Rng, corpus: &(Vec<String>, Vec<(String, String)>), i: u64) -> Option<Hostile> {
    let st = *r.pick(&[generate::PLAIN, generate::RICH, generate::DULL]);
    match i % 3 {
        0 => {
            let k = r.range(0, 12);
            let b = generate::body(r, st, k);
            let n = r.range(1, 12);
            let slots = r.range(0, 3) as u32;
            let patches = (0..n).map(|_| any_patch(r, slots)).collect();
            Some(Hostile { doc: generate::page(&b, 0), patches, how: "at random" })
        }
        _ => {
            let c = generate::chain(r, 3, corpus, i / 3);
            let (a, b) = (StrTendril::from(c.docs[0].as_str()), StrTendril::from(c.docs[1].as_str()));
            let mut p: Vec<Patch<'static>> = hotmeal::diff_html(&a, &b).ok()?.into_iter().map(|p| p.into_owned()).collect();
            if i % 3 == 1 {
                // meant for another document
                return Some(Hostile { doc: c.docs[2].clone(), patches: p, how: "computed for another document" });
            }
            for _ in 0..r.range(1, 3) {
                if p.is_empty() {
                    break;
                }
                let k = r.below(p.len());
                match r.below(5) {
                    0 => {
                        p.remove(k);
                    }
                    1 => {
                        let x = p[k].clone();
                        p.insert(r.below(p.len()), x);
                    }
                    2 => {
                        let j = r.below(p.len());
                        p.swap(k, j);
                    }
                    3 => p.insert(k, any_patch(r, 2)),
                    _ => bend(r, &mut p[k]),
                }
            }
            Some(Hostile { doc: c.docs[0].clone(), patches: p, how: "computed for this document, then damaged" })
        }
    }
}
pub fn h07(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "patch lists",
        cx.scale(200_000, 6_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 701, i);
            hostile_list(&mut r, &corpus, i)
        },
        hostile,
    );
    cx.finish(
        "a distinct list of two or more patches, judged one by one against the reference meaning",
        &[("patches applied", 50_000), ("patches refused", 10_000)],
    )
}
