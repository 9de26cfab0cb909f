//! H15: one small edit to a page of distinguishable parts gives just the patches of that edit, and
//! everything else on the page stays the very same node.
use crate::generate;
use crate::harness::*;
use crate::rng::Rng;
use crate::snap;
use crate::tree::*;
use hotmeal::{Document, NodeId, NodeKind, Patch, StrTendril, diff, parse};

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Text,
    Comment,
    Attrs,
    Append,
    Insert,
    Delete,
    Swap,
    Nothing,
    /// A text, and the attributes of an element around it.
    TextAround,
}
#[derive(Clone)]
struct Edit {
    old: Elem,
    new: Elem,
    form: usize,
    what: What,
    /// Preorder number of the node the edit is about: the changed, removed or inserted node, or the
    /// parent of two swapped ones.
    at: usize,
    /// For a swap: the two children. For a text and attributes: the element's preorder number.
    xy: (usize, usize),
}
impl Case for Edit {
    fn show(&self) -> String {
        format!("edit {:?} at node {} {:?}\nold {:?}\nnew {:?}", self.what, self.at, self.xy, generate::page(&self.old, self.form), generate::page(&self.new, self.form))
    }
    fn shrinks(&self) -> Vec<Self> {
        vec![]
    }
}

struct Mk {
    next: usize,
}
impl Mk {
    fn text(&mut self, r: &mut Rng) -> String {
        self.next += 1;
        match r.below(6) {
            0 => format!("{}", self.next),
            1 => format!("{} < & {}", generate::word(r), self.next),
            2 => format!("{} é {}\n", self.next, generate::word(r)),
            3 => (0..r.range(3, 12)).map(|_| generate::word(r)).collect::<Vec<_>>().join(" ") + &self.next.to_string(),
            _ => format!("{} {}", generate::word(r), self.next),
        }
    }
    /// An element whose every part holds some text of its own.
    fn elem(&mut self, r: &mut Rng, budget: &mut i64, depth: usize) -> Elem {
        *budget -= 1;
        let mut e = Elem::new(r.pick(&["div", "section", "article", "p", "p", "ul", "h2", "aside", "blockquote", "svg", "dl", "details", "table", "main", "custom-el", "pre"]));
        if e.tag == "svg" {
            e.ns = Ns::Svg;
        }
        self.fill(r, &mut e, budget, depth);
        e
    }
    fn attrs(&mut self, r: &mut Rng, e: &mut Elem) {
        generate::attrs(r, e);
        if r.chance(1, 6) {
            self.next += 1;
            let v = format!("k{}", self.next);
            if e.attr("id").is_none() {
                e.attrs.push(Attr::new("id", &v));
            }
        }
        if e.ns == Ns::Svg {
            e.attrs.clear();
            if r.chance(1, 2) {
                e.attrs.push(Attr { prefix: "xlink".into(), ns: "http://www.w3.org/1999/xlink".into(), local: "href".into(), value: generate::word(r) });
            }
        }
    }
    fn fill(&mut self, r: &mut Rng, e: &mut Elem, budget: &mut i64, depth: usize) {
        self.attrs(r, e);
        let n = if depth > 7 || *budget <= 0 { 0 } else { r.below(5) };
        let child = |me: &mut Self, r: &mut Rng, tag: &str, ns: Ns, budget: &mut i64| {
            let mut c = Elem::new(tag);
            c.ns = ns;
            *budget -= 1;
            me.fill(r, &mut c, budget, depth + 1);
            Node::Elem(c)
        };
        let tag = e.tag.clone();
        match tag.as_str() {
            "ul" => (0..n.max(1)).for_each(|_| e.children.push(child(self, r, "li", Ns::Html, budget))),
            "dl" => (0..n.max(1)).for_each(|k| e.children.push(child(self, r, if k % 2 == 0 { "dt" } else { "dd" }, Ns::Html, budget))),
            "table" => e.children.push(child(self, r, "tbody", Ns::Html, budget)),
            "tbody" => (0..n.max(1)).for_each(|_| e.children.push(child(self, r, "tr", Ns::Html, budget))),
            "tr" => (0..n.max(1)).for_each(|_| e.children.push(child(self, r, "td", Ns::Html, budget))),
            "svg" | "g" => {
                for _ in 0..n {
                    let t = *r.pick(&["g", "text", "a"]);
                    e.children.push(child(self, r, t, Ns::Svg, budget));
                }
            }
            "p" | "h2" | "dt" | "pre" => {
                for _ in 0..n.min(3) {
                    let t = *r.pick(&["b", "i", "span", "code", "em"]);
                    if !e.children.is_empty() && r.chance(1, 2) {
                        let t = self.text(r);
                        e.children.push(Node::Text(t));
                    }
                    e.children.push(child(self, r, t, Ns::Html, budget));
                }
            }
            "b" | "i" | "span" | "code" | "em" | "text" | "a" => {}
            _ => {
                for _ in 0..n {
                    match r.below(8) {
                        0 if !e.children.last().is_some_and(Node::is_text) => {
                            let t = self.text(r);
                            e.children.push(Node::Text(t));
                        }
                        1 => {
                            let t = self.text(r).replace('>', "");
                            e.children.push(Node::Comment(t));
                        }
                        _ => {
                            let c = self.elem(r, budget, depth + 1);
                            e.children.push(Node::Elem(c));
                        }
                    }
                }
            }
        }
        if e.children.is_empty() {
            let t = self.text(r);
            e.children.push(Node::Text(t));
        }
    }
}

/// Whether the children are told apart by content of their own and not by their place.
fn robust(e: &Elem) -> bool {
    e.children.iter().all(|c| c.elem().is_some_and(|e| !e.children.is_empty()))
}
fn nth<'a>(e: &'a mut Elem, k: usize) -> &'a mut Elem {
    // preorder over all nodes; the caller knows that number k is an element
    if k == 0 {
        return e;
    }
    let mut at = 1;
    for c in &mut e.children {
        let n = c.size();
        if k < at + n {
            let Node::Elem(c) = c else { unreachable!() };
            return nth(c, k - at);
        }
        at += n;
    }
    unreachable!()
}
/// Preorder numbers of all elements.
fn elems(e: &Elem, at: usize, out: &mut Vec<usize>) {
    out.push(at);
    let mut k = at + 1;
    for c in &e.children {
        if let Node::Elem(c) = c {
            elems(c, k, out);
        }
        k += c.size();
    }
}
fn similarity(a: &Elem, b: &Elem) -> f64 {
    if a.attrs.is_empty() && b.attrs.is_empty() {
        return 1.0;
    }
    let common = a.attrs.iter().filter(|x| b.attrs.iter().any(|y| (&x.ns, &x.local, &x.prefix) == (&y.ns, &y.local, &y.prefix))).count();
    2.0 * common as f64 / (a.attrs.len() + b.attrs.len()) as f64
}
fn make(seed: u64, i: u64) -> Option<Edit> {
    let mut r = Rng::stream(seed, 1501, i);
    let r = &mut r;
    let mut m = Mk { next: r.below(1000) };
    let mut old = Elem::new("body");
    let mut budget = *r.pick(&[3i64, 8, 15, 30, 80]);
    if i % 100 == 3 {
        // a long list of sections
        let n = r.range(30, 120);
        for _ in 0..n {
            let mut b = 2;
            let c = m.elem(r, &mut b, 5);
            old.children.push(Node::Elem(c));
        }
    } else {
        m.attrs(r, &mut old);
        while budget > 0 {
            let c = m.elem(r, &mut budget, 1);
            old.children.push(Node::Elem(c));
        }
    }
    let mut all = vec![];
    elems(&old, 0, &mut all);
    if i % 20 == 7 {
        return text_around(r, &mut m, old, &all);
    }
    let at = if i % 100 == 3 && r.chance(2, 3) { 0 } else { *r.pick(&all) };
    let mut new = old.clone();
    let e = nth(&mut new, at);
    let n = e.children.len();
    let child_at = |e: &Elem, k: usize| at + 1 + e.children[..k].iter().map(Node::size).sum::<usize>();
    // what may be put beside the children without a parser moving it elsewhere
    let same_kind = |m: &mut Mk, r: &mut Rng, e: &Elem| -> Option<Elem> {
        let mut c = match e.children.iter().find_map(|c| c.elem()) {
            Some(x) => {
                let mut c = Elem::new(&x.tag);
                c.ns = x.ns;
                c
            }
            None if matches!(e.tag.as_str(), "div" | "section" | "article" | "main" | "aside" | "body" | "li" | "td") => Elem::new("div"),
            None => return None,
        };
        let mut b = r.range(0, 4) as i64;
        m.fill(r, &mut c, &mut b, 4);
        Some(c)
    };
    let (what, num, mut xy) = match r.below(20) {
        0..=3 => {
            let ks: Vec<usize> = (0..n).filter(|&k| e.children[k].is_text()).collect();
            if ks.is_empty() {
                return None;
            }
            let k = *r.pick(&ks);
            let num = child_at(e, k);
            let Node::Text(t) = &mut e.children[k] else { unreachable!() };
            let nt = if r.chance(1, 2) { m.text(r) } else { generate::perturb(r, t) };
            if nt.is_empty() || nt == *t {
                return None;
            }
            *t = nt;
            (What::Text, num, (0, 0))
        }
        4 => {
            let ks: Vec<usize> = (0..n).filter(|&k| matches!(e.children[k], Node::Comment(_))).collect();
            if ks.is_empty() {
                return None;
            }
            let k = *r.pick(&ks);
            let num = child_at(e, k);
            e.children[k] = Node::Comment(m.text(r).replace('>', ""));
            (What::Comment, num, (0, 0))
        }
        5..=8 => {
            let before = e.clone();
            match r.below(4) {
                0 => e.attrs.push(Attr::new("data-new", &generate::text(r))),
                1 if !e.attrs.is_empty() => {
                    let k = r.below(e.attrs.len());
                    e.attrs.remove(k);
                }
                2 if e.attrs.len() > 1 => r.shuffle(&mut e.attrs),
                _ if !e.attrs.is_empty() => {
                    let k = r.below(e.attrs.len());
                    e.attrs[k].value = if r.chance(1, 2) { generate::text(r) } else { generate::perturb(r, &e.attrs[k].value.clone()) };
                }
                _ => return None,
            }
            if e.attrs == before.attrs || similarity(&before, e) < 0.5 {
                return None;
            }
            (What::Attrs, at, (0, 0))
        }
        9..=11 => {
            let num = child_at(e, n);
            let c = if r.chance(1, 3) && !e.children.last().is_some_and(Node::is_text) && !matches!(e.tag.as_str(), "ul" | "dl" | "table" | "tbody" | "tr" | "svg" | "g") {
                Node::Text(m.text(r))
            } else {
                Node::Elem(same_kind(&mut m, r, e)?)
            };
            e.children.push(c);
            (What::Append, num, (0, 0))
        }
        12..=14 => {
            if !robust(e) || n == 0 {
                return None;
            }
            let k = r.below(n + 1);
            let num = child_at(e, k);
            let c = same_kind(&mut m, r, e)?;
            e.children.insert(k, Node::Elem(c));
            (What::Insert, num, (0, 0))
        }
        15..=17 => {
            if n < 2 {
                return None;
            }
            let k = if r.chance(1, 3) { n - 1 } else { r.below(n) };
            if k + 1 != n && !robust(e) {
                return None;
            }
            let num = child_at(e, k);
            e.children.remove(k);
            (What::Delete, num, (0, 0))
        }
        18 => {
            let k = (r.below(n.max(1)), r.below(n.max(1)));
            if !robust(e) || k.0 == k.1 {
                return None;
            }
            e.children.swap(k.0, k.1);
            (What::Swap, at, k)
        }
        _ => (What::Nothing, at, (0, 0)),
    };
    if xy.0 > xy.1 {
        xy = (xy.1, xy.0);
    }
    Some(Edit { old, new, form: *r.pick(&[0, 1, 2, 4, 6]), what, at: num, xy })
}
/// One text changes and so do the attributes of one of the elements around it.
fn text_around(r: &mut Rng, m: &mut Mk, old: Elem, all: &[usize]) -> Option<Edit> {
    let at = *r.pick(all);
    let mut new = old.clone();
    let e = nth(&mut new, at);
    let ks: Vec<usize> = (0..e.children.len()).filter(|&k| e.children[k].is_text()).collect();
    if ks.is_empty() {
        return None;
    }
    let k = *r.pick(&ks);
    let num = at + 1 + e.children[..k].iter().map(Node::size).sum::<usize>();
    let Node::Text(t) = &mut e.children[k] else { unreachable!() };
    let nt = if r.chance(1, 2) { m.text(r) } else { generate::perturb(r, t) };
    if nt.is_empty() || nt == *t {
        return None;
    }
    *t = nt;
    // the elements around: those whose subtree the text lies in
    let around: Vec<usize> = all.iter().copied().filter(|&x| x <= at && num < x + size_of(&mut new, x)).collect();
    let x = *r.pick(&around);
    let e = nth(&mut new, x);
    let before = e.clone();
    if !e.attrs.is_empty() {
        for _ in 0..r.range(1, 3) {
            let k = r.below(e.attrs.len());
            e.attrs[k].value = if r.chance(1, 2) { generate::text(r) } else { generate::perturb(r, &e.attrs[k].value.clone()) };
        }
    }
    if r.chance(1, 4) {
        e.attrs.push(Attr::new("data-new", &generate::text(r)));
    }
    if e.attrs == before.attrs || similarity(&before, e) < 0.5 {
        return None;
    }
    Some(Edit { old, new, form: *r.pick(&[0, 1, 2, 4, 6]), what: What::TextAround, at: num, xy: (x, 0) })
}
fn size_of(e: &mut Elem, k: usize) -> usize {
    nth(e, k).children.iter().map(Node::size).sum::<usize>() + 1
}
/// Node identities under the body, in document order.
fn ids(d: &Document) -> Vec<NodeId> {
    fn go(d: &Document, n: NodeId, out: &mut Vec<NodeId>) {
        out.push(n);
        for c in d.children(n) {
            go(d, c, out);
        }
    }
    let mut v = vec![];
    if let Some(b) = d.body() {
        go(d, b, &mut v);
    }
    v
}
fn path_of(d: &Document, ids: &[NodeId], k: usize) -> Vec<u32> {
    let mut p = vec![];
    let mut n = ids[k];
    while n != ids[0] {
        let par = d.parent(n).unwrap();
        p.push(d.children(par).position(|c| c == n).unwrap() as u32);
        n = par;
    }
    p.push(0);
    p.reverse();
    p
}
fn subtree(d: &Document, n: NodeId) -> usize {
    1 + d.children(n).map(|c| subtree(d, c)).sum::<usize>()
}
fn inserted(c: &[hotmeal::InsertContent]) -> usize {
    c.iter()
        .map(|x| match x {
            hotmeal::InsertContent::Element { children, .. } => 1 + inserted(children),
            _ => 1,
        })
        .sum()
}
fn check(c: &Edit, acc: &mut Acc) -> Vec<Bad> {
    let (a, b) = (generate::page(&c.old, c.form), generate::page(&c.new, c.form));
    let (a, b) = (StrTendril::from(a.as_str()), StrTendril::from(b.as_str()));
    let (old, new) = (parse(&a), parse(&b));
    // the edit is only single if the parser agrees that it is
    if snap::body(&old).as_ref() != Some(&c.old) || snap::body(&new).as_ref() != Some(&c.new) {
        acc.add("edits a parser reads differently", 1);
        return vec![];
    }
    let patches = match diff(&old, &new) {
        Ok(p) => p,
        Err(e) => return bad("diff-error", format!("diff failed: {e:?}")),
    };
    let shown = format!("{patches:?}");
    let (oi, ni) = (ids(&old), ids(&new));
    let fail = |m: &str| bad("excess", format!("one edit ({:?} at {:?}): {m}; patches {}", c.what, path_of(if c.what == What::Delete { &old } else { &new }, if c.what == What::Delete { &oi } else { &ni }, c.at), shown.chars().take(1500).collect::<String>()));
    acc.add(
        match c.what {
            What::Text => "text changes",
            What::Comment => "comment changes",
            What::Attrs => "attribute changes",
            What::Append => "appended subtrees",
            What::Insert => "inserted subtrees",
            What::Delete => "removed subtrees",
            What::Swap => "swapped siblings",
            What::Nothing => "unchanged pages",
            What::TextAround => "texts changed together with attributes around them",
        },
        1,
    );
    let at = |p: &hotmeal::NodePath| p.0.to_vec();
    // what the patches may be
    let place = path_of(if c.what == What::Delete { &old } else { &new }, if c.what == What::Delete { &oi } else { &ni }, c.at);
    let mut moves = 0;
    match c.what {
        What::Nothing => {
            if !patches.is_empty() {
                return fail("patches for an unchanged page");
            }
        }
        What::Text | What::Comment => match &patches[..] {
            [Patch::SetText { path, .. }] if at(path) == place => {}
            _ => return fail("more than one new text for the changed one"),
        },
        What::TextAround => {
            let around = path_of(&new, &ni, c.xy.0);
            let (mut texts, mut attrs) = (0, 0);
            for p in &patches {
                match p {
                    Patch::SetText { path, .. } if at(path) == place => texts += 1,
                    Patch::UpdateProps { path, .. } | Patch::SetAttribute { path, .. } | Patch::RemoveAttribute { path, .. } if at(path) == around => attrs += 1,
                    _ => return fail("something else than the new text and the new attributes"),
                }
            }
            if (texts, attrs) != (1, 1) {
                return fail("not exactly one new text and one update");
            }
        }
        What::Attrs => match &patches[..] {
            [Patch::UpdateProps { path, .. }] | [Patch::SetAttribute { path, .. }] | [Patch::RemoveAttribute { path, .. }] if at(path) == place => {}
            _ => return fail("more than one update for the changed attributes"),
        },
        What::Append | What::Insert => {
            let mut n = 0;
            for p in &patches {
                let (q, k) = match p {
                    Patch::InsertElement { at: q, children, .. } => (at(&q.0), 1 + inserted(children)),
                    Patch::InsertText { at: q, .. } | Patch::InsertComment { at: q, .. } => (at(&q.0), 1),
                    Patch::Move { .. } if c.what == What::Insert => {
                        moves += 1;
                        continue;
                    }
                    _ => return fail("something else than an insertion"),
                };
                if !q.starts_with(&place) {
                    return fail("an insertion elsewhere");
                }
                n += k;
            }
            if n != subtree(&new, ni[c.at]) {
                return fail("not exactly the new nodes are inserted");
            }
        }
        What::Delete => {
            let mut n = 0;
            for p in &patches {
                match p {
                    Patch::Remove { .. } => n += 1,
                    Patch::Move { .. } => moves += 1,
                    _ => return fail("something else than a removal"),
                }
            }
            if n == 0 || n > subtree(&old, oi[c.at]) {
                return fail("not exactly the old nodes are removed");
            }
        }
        What::Swap => {
            for p in &patches {
                match p {
                    Patch::Move { .. } => moves += 1,
                    _ => return fail("something else than a move"),
                }
            }
        }
    }
    acc.add("moves among siblings", moves);
    acc.add("patches", patches.len() as u64);
    acc.max("moves for one edit", moves);
    // who is who afterwards
    let mut want: Vec<Option<NodeId>> = oi.iter().copied().map(Some).collect();
    match c.what {
        What::Append | What::Insert => {
            let n = subtree(&new, ni[c.at]);
            want.splice(c.at..c.at, (0..n).map(|_| None));
        }
        What::Delete => {
            want.drain(c.at..c.at + subtree(&old, oi[c.at]));
        }
        What::Swap => {
            let kids: Vec<NodeId> = old.children(oi[c.at]).collect();
            let mut order = kids.clone();
            order.swap(c.xy.0, c.xy.1);
            let mut mid = vec![];
            fn go(d: &Document, n: NodeId, out: &mut Vec<Option<NodeId>>) {
                out.push(Some(n));
                for c in d.children(n) {
                    go(d, c, out);
                }
            }
            for k in order {
                go(&old, k, &mut mid);
            }
            want.splice(c.at + 1..c.at + 1 + mid.len(), mid);
        }
        _ => {}
    }
    let mut got = old.clone();
    if let Err(e) = got.apply_patches(patches) {
        return bad("apply-error", format!("apply_patches failed: {e:?}; patches {shown}"));
    }
    // what is removed or moved away leaves an empty text behind
    if snap::body(&got).map(|e| drop_empty_text(&e)).as_ref() != Some(&c.new) {
        return bad("differs", format!("the patched page is not the new page; patches {shown}"));
    }
    let mut have = ids(&got);
    have.retain(|&n| !matches!(&got.get(n).kind, NodeKind::Text(t) if t.is_empty()));
    if have.len() != want.len() {
        return fail("the page has another number of nodes than the new one");
    }
    for (k, (h, w)) in have.iter().zip(&want).enumerate() {
        match w {
            Some(w) if h != w => return fail(&format!("node {k} ({:?}) is not the node that was there before", label(&got, *h))),
            None if oi.contains(h) => return fail(&format!("node {k} is an old node in the place of a new one")),
            _ => {}
        }
    }
    acc.add("nodes whose identity was checked", have.len() as u64);
    acc.seen(&format!("{}\u{0}{}", a.as_ref() as &str, b.as_ref() as &str));
    acc.sample(|| format!("{:?}: {shown}", c.what));
    vec![]
}
fn label(d: &Document, n: NodeId) -> String {
    match &d.get(n).kind {
        NodeKind::Element(e) => e.tag.to_string(),
        NodeKind::Text(t) => format!("text {:?}", t.as_ref() as &str),
        NodeKind::Comment(t) => format!("comment {:?}", t.as_ref() as &str),
        NodeKind::Document => "document".into(),
    }
}
pub fn h15(cx: &Ctx) -> i32 {
    cx.cases("single edits", cx.scale(300_000, 8_000_000), |i| make(cx.seed, i), check);
    cx.finish(
        "a distinct pair of pages that differ by one edit; the patches must be that edit's and every other node must be the same one afterwards",
        &[
            ("text changes", 2_000),
            ("comment changes", 100),
            ("attribute changes", 2_000),
            ("appended subtrees", 1_000),
            ("inserted subtrees", 1_000),
            ("removed subtrees", 1_000),
            ("swapped siblings", 200),
            ("unchanged pages", 500),
            ("texts changed together with attributes around them", 500),
            ("nodes whose identity was checked", 100_000),
        ],
    )
}
