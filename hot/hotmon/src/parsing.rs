//! H04 parsing, H05 serialization.
use crate::checks::same_body;
use crate::generate::{self, Docs};
use crate::harness::*;
use crate::refdom;
use crate::rng::Rng;
use crate::snap;
use crate::tree::*;
use hotmeal::{Document, StrTendril, diff, parse};

/// What the HTML parser is handed for an input, by the documented rules of `parse`.
pub fn wrapped(s: &str) -> (String, bool) {
    let t = s.trim_start_matches(|c: char| c.is_ascii_whitespace());
    if t.get(..9).is_some_and(|h| h.eq_ignore_ascii_case("<!doctype")) {
        return (s.to_string(), true);
    }
    let l = s.to_ascii_lowercase();
    if l.contains("<html") || l.contains("<body") {
        (format!("<!DOCTYPE html>{s}"), false)
    } else {
        (format!("<!DOCTYPE html><html><body>{s}</body></html>"), false)
    }
}
fn count(e: &Elem, acc: &mut Acc) {
    acc.add("elements compared", 1);
    match e.ns {
        Ns::Svg => acc.add("SVG elements compared", 1),
        Ns::Math => acc.add("MathML elements compared", 1),
        Ns::Html => {}
    }
    acc.add("attributes compared", e.attrs.len() as u64);
    for c in &e.children {
        match c {
            Node::Elem(e) => count(e, acc),
            Node::Text(_) => acc.add("texts compared", 1),
            Node::Comment(_) => acc.add("comments compared", 1),
            _ => {}
        }
    }
}
fn parsed(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    for d in &c.docs {
        let t = StrTendril::from(d.as_str());
        let got = parse(&t);
        if let Err(m) = snap::well_formed(&got) {
            return bad("malformed", m);
        }
        let (src, own) = wrapped(d);
        let want = refdom::parse_full(&src);
        let Some(w) = want.html() else { return bad("oracle", "reference has no root") };
        let Some(g) = snap::elem(&got, got.root) else {
            return bad("root", format!("the root of the document is not an element: {:?}", got.get(got.root).kind));
        };
        if let Some(m) = diff_msg(&g, w, "") {
            return bad("differs", m);
        }
        let dt = if own { want.doctype.as_ref().map(|x| x.0.clone()) } else { None };
        if got.doctype.as_ref().map(|s| s.to_string()) != dt {
            return bad("doctype", format!("doctype is {:?}, the source says {dt:?}", got.doctype));
        }
        // head and body accessors name the right children of the root
        let pick = |tag: &str| w.children.iter().position(|c| c.elem().is_some_and(|e| e.tag == tag));
        for (id, tag) in [(got.head(), "head"), (got.body(), "body")] {
            let at = id.map(|id| got.children(got.root).position(|c| c == id).unwrap_or(usize::MAX));
            if at != pick(tag) {
                return bad("accessor", format!("{tag}() names child {at:?} of the root, it is child {:?}", pick(tag)));
            }
        }
        count(w, acc);
        acc.seen(d);
        // fragment parsing
        let got = hotmeal::parse_body_fragment(&t);
        if let Err(m) = snap::well_formed(&got) {
            return bad("malformed", m);
        }
        let want = refdom::parse_frag(d, "http://www.w3.org/1999/xhtml", "body", true);
        let mut w = Elem::new("html");
        w.children = want;
        let Some(mut g) = snap::elem(&got, got.root) else {
            return bad("root", "the root of the fragment is not an element");
        };
        // an <html> tag in the source may lend its attributes to the root; only the contents count
        g.attrs.clear();
        if let Some(m) = diff_msg(&g, &w, "") {
            return bad("fragment", format!("as a body fragment: {m}"));
        }
        acc.add("fragments compared", 1);
    }
    vec![]
}
pub fn h04(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "documents",
        cx.scale(200_000, 4_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 401, i);
            if i % 400 == 0 && !corpus.0.is_empty() {
                let p = corpus.0[(i / 400) as usize % corpus.0.len()].clone();
                return Some(Docs { docs: vec![p], opt: 0, how: "whole real page", min: 1 });
            }
            if i % 3 == 0 {
                let k = r.range(0, 60);
                return Some(Docs { docs: vec![generate::soup(&mut r, k)], opt: 0, how: "tag soup", min: 1 });
            }
            let mut c = generate::chain(&mut r, 2, &corpus, i);
            c.min = 1;
            Some(c)
        },
        parsed,
    );
    cx.finish(
        "a distinct source parsed and compared node by node with the reference tree",
        &[
            ("elements compared", 200_000),
            ("SVG elements compared", 500),
            ("MathML elements compared", 500),
            ("comments compared", 2_000),
            ("attributes compared", 20_000),
            ("fragments compared", 40_000),
        ],
    )
}

// ------------------------------------------------------------------ H05

/// Checks every serializer of `d` against the reference serialization of the same tree: both texts
/// must mean the same document to a parser.
fn serialized(d: &Document, acc: &mut Acc) -> Option<Bad> {
    let root = snap::elem(d, d.root)?;
    if root.any(&mut |e| e.tag == "plaintext") {
        // nothing can be said about what follows an element that swallows its own end tag
        acc.add("documents left out for a <plaintext>", 1);
        return None;
    }
    let reference = generate::outer(&root);
    let dt = d.doctype.as_ref().map(|t| format!("<!DOCTYPE {}>", t.as_ref() as &str)).unwrap_or_default();
    for (what, got, want) in [
        ("to_html", d.to_html(), format!("{dt}{reference}")),
        ("to_html_without_doctype", d.to_html_without_doctype(), reference.clone()),
    ] {
        let (x, y) = (refdom::parse_full(&got), refdom::parse_full(&want));
        if x.doctype != y.doctype {
            return Some(Bad { sig: "doctype".into(), msg: format!("{what} gives doctype {:?}, not {:?}", x.doctype, y.doctype) });
        }
        if let (Some(a), Some(b)) = (x.html(), y.html())
            && let Some(m) = diff_msg(a, b, "")
        {
            return Some(Bad { sig: "differs".into(), msg: format!("{what} does not mean the tree it was made from: {m}\n got {got:?}\n reference {want:?}") });
        }
        if y.html() == Some(&root) {
            acc.add("documents that survive a round trip exactly", 1);
        }
    }
    let h = "http://www.w3.org/1999/xhtml";
    if let Some(b) = d.body() {
        let e = snap::elem(d, b)?;
        let want = refdom::parse_frag(&generate::inner(&e), h, "body", true);
        for (what, got) in [("to_body_html", d.to_body_html()), ("serialize_inner_html(body)", d.serialize_inner_html(b))] {
            let x = refdom::parse_frag(&got, h, "body", true);
            if x != want {
                return Some(Bad { sig: "body".into(), msg: format!("{what} does not mean the body's contents: {got:?}, reference {:?}", generate::inner(&e)) });
            }
        }
        acc.add("body serializations compared", 1);
        // one inner element
        let mut stack = vec![b];
        let mut k = 0;
        while let Some(n) = stack.pop() {
            stack.extend(d.children(n));
            k += 1;
            if k % 7 == 0
                && let Some(e) = snap::elem(d, n)
                && e.ns == Ns::Html
            {
                let got = d.serialize_inner_html(n);
                let (x, y) = (refdom::parse_frag(&got, h, &e.tag, true), refdom::parse_frag(&generate::inner(&e), h, &e.tag, true));
                if x != y {
                    return Some(Bad { sig: "inner".into(), msg: format!("serialize_inner_html(<{}>) gives {got:?}, reference {:?}", e.tag, generate::inner(&e)) });
                }
                acc.add("inner serializations compared", 1);
            }
        }
    } else if !d.to_body_html().is_empty() {
        return Some(Bad { sig: "body".into(), msg: "to_body_html of a document without body is not empty".into() });
    }
    None
}
fn ser_case(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    let ts: Vec<StrTendril> = c.docs.iter().map(|d| StrTendril::from(d.as_str())).collect();
    let docs: Vec<Document> = ts.iter().map(parse).collect();
    for (d, src) in docs.iter().zip(&c.docs) {
        if let Some(b) = serialized(d, acc) {
            return vec![b];
        }
        acc.seen(src);
    }
    // a document that was patched, and one that was built by hand
    if docs.len() > 1
        && let Ok(p) = diff(&docs[0], &docs[1])
    {
        let mut got = docs[0].clone();
        if got.apply_patches(p).is_ok() {
            if same_body(&got, &docs[1], acc).is_ok() {
                acc.add("patched documents serialized", 1);
            }
            if let Some(b) = serialized(&got, acc) {
                return vec![b];
            }
        }
    }
    let mut r = Rng::new(c.opt);
    let mut d = Document::new();
    if r.chance(1, 2) {
        d.doctype = Some("html".into());
    }
    let body = d.body().unwrap();
    let mut open = vec![body];
    for _ in 0..r.range(1, 20) {
        let p = *r.pick(&open);
        let n = match r.below(4) {
            0 => d.create_text(generate::text(&mut r)),
            1 => d.create_comment(format!(" {} ", generate::word(&mut r))),
            _ => {
                let e = d.create_element(*r.pick(&["div", "span", "section", "b", "ul", "textarea", "style", "xmp", "pre", "br", "custom-el"]));
                for _ in 0..r.below(3) {
                    let a = generate::attr(&mut r);
                    if !a.local.contains(['<', '\'', '"']) {
                        let q = hotmeal::QualName::new(None, html5ever::Namespace::from(""), html5ever::LocalName::from(a.local.as_str()));
                        d.set_attr(e, q, a.value);
                    }
                }
                e
            }
        };
        d.append_child(p, n);
        if let hotmeal::NodeKind::Element(e) = &d.get(n).kind
            && !matches!(&*e.tag, "br" | "textarea" | "style" | "xmp")
        {
            open.push(n);
        }
    }
    if let Some(b) = serialized(&d, acc) {
        return vec![Bad { sig: b.sig, msg: format!("on a document built through the API: {}", b.msg) }];
    }
    acc.add("documents built through the API", 1);
    vec![]
}
pub fn h05(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "documents",
        cx.scale(50_000, 1_800_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 501, i);
            if i % 400 == 0 && !corpus.0.is_empty() {
                let p = corpus.0[(i / 400) as usize % corpus.0.len()].clone();
                return Some(Docs { docs: vec![p], opt: r.next(), how: "whole real page", min: 1 });
            }
            let mut c = generate::chain(&mut r, 2, &corpus, i);
            c.min = 1;
            c.opt = r.next();
            Some(c)
        },
        ser_case,
    );
    cx.finish(
        "a distinct source parsed and every serialization of it parsed back",
        &[
            ("documents that survive a round trip exactly", 10_000),
            ("body serializations compared", 20_000),
            ("inner serializations compared", 10_000),
            ("patched documents serialized", 5_000),
            ("documents built through the API", 10_000),
        ],
    )
}
