//! H19: documents built through the API, also ones no parser would produce, are diffed, sent and
//! patched like parsed ones.
use crate::checks::norm;
use crate::generate;
use crate::harness::*;
use crate::ledger;
use crate::rng::Rng;
use crate::snap;
use crate::tree::*;
use hotmeal::{Document, LocalName, Namespace, NodeId, Patch, QualName, StrTendril, diff, parse};

#[derive(Clone)]
struct Pages {
    /// Successive bodies.
    v: Vec<Elem>,
    /// The first version is parsed from its serialization instead of built.
    parsed: bool,
    seed: u64,
}
impl Case for Pages {
    fn show(&self) -> String {
        let mut o = format!("parsed first: {}, seed {}\n", self.parsed, self.seed);
        for (k, e) in self.v.iter().enumerate() {
            o.push_str(&format!("body {k}: {}\n", generate::outer(e)));
            if o.len() < 3000 {
                o.push_str(&format!("  {e:?}\n"));
            }
        }
        o
    }
    fn shrinks(&self) -> Vec<Self> {
        let mut out = vec![];
        if self.v.len() > 2 {
            for k in 0..self.v.len() {
                let mut c = self.clone();
                c.v.remove(k);
                out.push(c);
            }
        }
        fn less(e: &Elem, out: &mut Vec<Elem>) {
            for k in 0..e.children.len() {
                let mut c = e.clone();
                c.children.remove(k);
                out.push(c);
                if let Node::Elem(x) = &e.children[k] {
                    let mut c = e.clone();
                    c.children.splice(k..=k, x.children.iter().cloned());
                    out.push(c);
                    let mut v = vec![];
                    less(x, &mut v);
                    for y in v {
                        let mut c = e.clone();
                        c.children[k] = Node::Elem(y);
                        out.push(c);
                    }
                }
            }
            for k in 0..e.attrs.len() {
                let mut c = e.clone();
                c.attrs.remove(k);
                out.push(c);
            }
        }
        for k in 0..self.v.len() {
            let mut v = vec![];
            less(&self.v[k], &mut v);
            for e in v.into_iter().take(300) {
                let mut c = self.clone();
                c.v[k] = e;
                fix_ns(&mut c.v[k]);
                out.push(c);
            }
        }
        out
    }
}
const TAGS: &[&str] = &[
    "div", "p", "p", "span", "ul", "li", "table", "tbody", "tr", "td", "b", "a", "form", "form", "h1", "select", "option", "button", "br", "img", "pre", "textarea", "title", "script", "style",
    "template", "body", "html", "head", "caption", "my-el", "DIV", "x:y", "input", "section", "noscript", "iframe", "nobr", "dd", "rt",
];
const TEXTS: &[&str] = &[
    "", " ", "a", "a", "b", "\n", "\r\n", "\0", "<b>", "</p>", "&amp;", "&", "-->", "\u{feff}", "\u{10ffff}", "é", "]]>", "text of some length, longer than what fits inline", "\u{a0}",
];
fn text(r: &mut Rng) -> String {
    match r.below(3) {
        0 => generate::text(r),
        _ => r.pick(TEXTS).to_string(),
    }
}
fn attrs(r: &mut Rng, e: &mut Elem) {
    generate::attrs(r, e);
    if r.chance(1, 8) {
        let a = match r.below(5) {
            0 => Attr { prefix: "xlink".into(), ns: "http://www.w3.org/1999/xlink".into(), local: "href".into(), value: text(r) },
            1 => Attr { prefix: "xml".into(), ns: "http://www.w3.org/XML/1998/namespace".into(), local: "lang".into(), value: text(r) },
            2 => Attr::new("href", &text(r)),
            3 => Attr::new("ID", &text(r)),
            _ => Attr::new("a b\"<", &text(r)),
        };
        if !e.attrs.iter().any(|b| b.local == a.local && b.ns == a.ns) {
            e.attrs.push(a);
        }
    }
}
/// The namespace a patch gives an element there (the parser's rules).
fn ns_in(parent: &Elem, tag: &str) -> Ns {
    let html = match parent.ns {
        Ns::Html => true,
        Ns::Svg => matches!(parent.tag.as_str(), "foreignObject" | "desc" | "title"),
        Ns::Math if parent.tag == "annotation-xml" => {
            let html = |v: &str| v.eq_ignore_ascii_case("text/html") || v.eq_ignore_ascii_case("application/xhtml+xml");
            tag == "svg" || parent.attrs.iter().any(|a| a.local == "encoding" && html(&a.value))
        }
        Ns::Math => matches!(parent.tag.as_str(), "mi" | "mo" | "mn" | "ms" | "mtext") && !matches!(tag, "mglyph" | "malignmark"),
    };
    match tag {
        _ if !html => parent.ns,
        "svg" => Ns::Svg,
        "math" => Ns::Math,
        _ => Ns::Html,
    }
}
fn fix_ns(e: &mut Elem) {
    let me = Elem { children: vec![], ..e.clone() };
    for c in &mut e.children {
        if let Node::Elem(c) = c {
            c.ns = ns_in(&me, &c.tag);
            fix_ns(c);
        }
    }
}
fn some(r: &mut Rng, budget: &mut i64, depth: usize) -> Node {
    *budget -= 1;
    match r.below(10) {
        0..=2 => Node::Text(text(r)),
        3 => Node::Comment(text(r)),
        _ => {
            let mut e = Elem::new(match r.below(12) {
                0 => *r.pick(&["svg", "g", "path", "foreignObject", "desc", "math", "mi", "mtext", "mglyph"]),
                _ => *r.pick(TAGS),
            });
            attrs(r, &mut e);
            if depth < 12 {
                for _ in 0..*r.pick(&[0, 1, 1, 2, 3, 5]) {
                    if *budget > 0 {
                        let c = some(r, budget, depth + 1);
                        e.children.push(c);
                    }
                }
            }
            Node::Elem(e)
        }
    }
}
/// An opaque element holds what inner HTML can carry.
fn opaque(r: &mut Rng) -> Node {
    let mut e = Elem::new("div");
    e.attrs.push(Attr::new("data-hotmeal-opaque", ""));
    let mut p = Elem::new("p");
    p.children.push(Node::Text(format!("{} {}", generate::word(r), r.below(3))));
    e.children.push(Node::Elem(p));
    Node::Elem(e)
}
fn edit(r: &mut Rng, b: &mut Elem) {
    if r.chance(1, 3) {
        let st = *r.pick(&[generate::PLAIN, generate::WILD, generate::DULL]);
        generate::edit(r, b, st);
        return;
    }
    let spare = {
        let e = generate::any_elem(r, b);
        if e.children.is_empty() { None } else { Some(r.pick(&e.children).clone()) }
    };
    let e = generate::any_elem(r, b);
    let n = e.children.len();
    let mut budget = r.range(1, 8) as i64;
    match r.below(10) {
        0 | 1 => {
            let c = some(r, &mut budget, 3);
            e.children.insert(r.below(n + 1), c);
        }
        2 if n > 0 => {
            e.children.remove(r.below(n));
        }
        3 if n > 1 => {
            let (i, j) = (r.below(n), r.below(n));
            e.children.swap(i, j);
        }
        4 => {
            if let Some(c) = spare {
                e.children.insert(r.below(n + 1), c);
            }
        }
        5 => {
            for c in &mut e.children {
                if let Node::Text(t) | Node::Comment(t) = c
                    && r.chance(1, 2)
                {
                    *t = text(r);
                }
            }
        }
        6 => {
            let t = text(r);
            e.children.insert(r.below(n + 1), Node::Text(t));
        }
        7 => e.tag = if e.tag == "body" { "body".into() } else { r.pick(TAGS).to_string() },
        8 => attrs(r, e),
        _ => {
            let c = opaque(r);
            e.children.insert(r.below(n + 1), c);
        }
    }
}
fn any_opaque_odd(e: &Elem) -> bool {
    e.any(&mut |e| e.opaque() && crate::refdom::parse_inner(&generate::inner(e), e.ns.url(), &e.tag) != e.children)
}
fn make(seed: u64, i: u64) -> Option<Pages> {
    let mut r = Rng::stream(seed, 1901, i);
    let mut b = Elem::new("body");
    let size = *r.pick(&[0, 2, 5, 10, 20, 40]);
    let mut budget = size as i64;
    while budget > 0 {
        let c = if r.chance(1, 15) { opaque(&mut r) } else { some(&mut r, &mut budget, 1) };
        b.children.push(c);
        budget -= 1;
    }
    if r.chance(1, 4) {
        attrs(&mut r, &mut b);
    }
    fix_ns(&mut b);
    let mut v = vec![b];
    for _ in 0..r.range(1, 4) {
        let mut b = v.last().unwrap().clone();
        if r.chance(1, 12) {
            b = Elem::new("body");
        }
        for _ in 0..r.range(0, 5) {
            edit(&mut r, &mut b);
        }
        b.tag = "body".into();
        fix_ns(&mut b);
        v.push(b);
    }
    if v.iter().any(any_opaque_odd) {
        return None;
    }
    Some(Pages { v, parsed: r.chance(1, 4), seed: r.next() })
}
fn qual(a: &Attr) -> QualName {
    QualName::new(
        if a.prefix.is_empty() { None } else { Some(html5ever::Prefix::from(a.prefix.as_str())) },
        html5ever::Namespace::from(a.ns.as_str()),
        LocalName::from(a.local.as_str()),
    )
}
/// Builds the document by calls, in one of several orders.
fn build(b: &Elem, r: &mut Rng) -> Document<'static> {
    let mut d: Document<'static> = Document::new();
    let body = d.body().unwrap();
    fn put(d: &mut Document<'static>, n: &Node, r: &mut Rng) -> NodeId {
        match n {
            Node::Text(t) if r.chance(1, 3) => {
                let n = d.create_text("not yet");
                d.set_text(n, t.clone());
                n
            }
            Node::Text(t) => d.create_text(t.clone()),
            Node::Comment(t) => d.create_comment(t.clone()),
            Node::Doctype(..) => d.create_comment(""),
            Node::Elem(e) => {
                let n = d.create_element(e.tag.as_str());
                d.get_mut(n).ns = match e.ns {
                    Ns::Html => Namespace::Html,
                    Ns::Svg => Namespace::Svg,
                    Ns::Math => Namespace::MathMl,
                };
                fill(d, n, e, r);
                n
            }
        }
    }
    fn fill(d: &mut Document<'static>, n: NodeId, e: &Elem, r: &mut Rng) {
        if r.chance(1, 8) {
            let x = d.create_element("unused");
            d.append_child(n, x);
            d.remove(x);
        }
        for a in &e.attrs {
            d.set_attr(n, qual(a), a.value.clone());
        }
        if r.chance(1, 3) {
            // back to front
            let mut next = None;
            for c in e.children.iter().rev() {
                let c = put(d, c, r);
                match next {
                    Some(x) => d.insert_before(x, c),
                    None => d.append_child(n, c),
                }
                next = Some(c);
            }
        } else {
            let mut last = None;
            for c in &e.children {
                let c = put(d, c, r);
                match last {
                    Some(x) if r.chance(1, 3) => d.insert_after(x, c),
                    _ => d.append_child(n, c),
                }
                last = Some(c);
            }
        }
    }
    fill(&mut d, body, b, r);
    d
}
fn check(c: &Pages, acc: &mut Acc) -> Vec<Bad> {
    let mut r = Rng::new(c.seed);
    let html = generate::page(&c.v[0], 0);
    let t = StrTendril::from(html.as_str());
    let mut docs: Vec<Document> = vec![];
    for (k, e) in c.v.iter().enumerate() {
        let d = if k == 0 && c.parsed { parse(&t) } else { build(e, &mut r) };
        if !(k == 0 && c.parsed) && snap::body(&d).as_ref() != Some(e) {
            return bad("build", format!("the built document is not the one asked for: {:?}", snap::body(&d)));
        }
        docs.push(d);
    }
    let self_diff = c.seed % 3 == 0;
    let mut cur = docs[0].clone();
    for k in 1..docs.len() {
        let new = &docs[k];
        let patches = match if self_diff { diff(&cur, new) } else { diff(&docs[k - 1], new) } {
            Ok(p) => p,
            Err(e) => return bad("diff-error", format!("step {k}: diff failed: {e:?}")),
        };
        let shown: String = format!("{patches:?}").chars().take(2000).collect();
        let owned: Vec<Patch<'static>> = patches.iter().map(|p| p.clone().into_owned()).collect();
        let bytes = match facet_postcard::to_vec(&owned) {
            Ok(b) => b,
            Err(e) => return bad("encode", format!("step {k}: encoding failed: {e:?}; {shown}")),
        };
        let got: Vec<Patch<'static>> = match facet_postcard::from_slice(&bytes) {
            Ok(p) => p,
            Err(e) => return bad("decode", format!("step {k}: decoding failed: {e:?}; {shown}")),
        };
        if got != patches {
            return bad("postcard", format!("step {k}: the patches came back as {got:?}; {shown}"));
        }
        if let Err(e) = cur.apply_patches(got) {
            return bad("apply-error", format!("step {k}: {e:?}; patches {shown}"));
        }
        if let Err(m) = snap::well_formed(&cur) {
            return bad("malformed", format!("step {k}: {m}; patches {shown}"));
        }
        let (have, want) = (norm(&snap::body(&cur).unwrap()), norm(&snap::body(new).unwrap()));
        if let Some(m) = diff_msg(&have, &want, "") {
            return bad("differs", format!("step {k}: {m}; patches {shown}"));
        }
        match diff(new, &build(&c.v[k], &mut r)) {
            Ok(p) if p.is_empty() => {}
            p => return bad("not-equal", format!("step {k}: the same document built again gives {p:?}")),
        }
        acc.add("steps", 1);
        acc.add("patches", patches.len() as u64);
    }
    acc.add(if self_diff { "histories diffed against the patched document" } else { "histories diffed against the previous version" }, 1);
    for e in &c.v {
        let odd = generate::page(e, 0);
        let back = StrTendril::from(odd.as_str());
        if snap::body(&parse(&back)).as_ref() != Some(e) {
            acc.add("documents no parser would produce", 1);
        }
    }
    acc.seen(&c.show());
    acc.sample(|| c.show().chars().take(300).collect());
    let blank = |e: &Elem| e.any(&mut |e| e.children.iter().any(|c| matches!(c, Node::Text(t) if t.is_empty())));
    if !c.parsed && !blank(&c.v[0]) && !blank(&c.v[1]) {
        acc.add("patch lists entered in the ledger", 1);
        return ledger::enter(&docs[0], &docs[1], "", &mut Acc::default());
    }
    vec![]
}
pub fn h19(cx: &Ctx) -> i32 {
    cx.cases("histories of built documents", cx.scale(60_000, 2_500_000), |i| make(cx.seed, i), check);
    cx.finish(
        "a distinct history of documents built by API calls, diffed, encoded, decoded, patched and compared",
        &[("steps", 60_000), ("documents no parser would produce", 40_000), ("histories diffed against the patched document", 5_000), ("patch lists entered in the ledger", 5_000)],
    )
}
