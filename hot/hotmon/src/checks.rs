use crate::generate::{self, Docs};
use crate::harness::*;
use crate::rng::Rng;
use crate::snap;
use crate::tree::*;
use hotmeal::{Document, Patch, StrTendril, diff, parse};

/// Blanks the inside of opaque elements: patches do not owe us anything there.
pub fn blank_opaque(e: &Elem) -> Elem {
    map_elems(e, &|e| {
        if e.opaque() {
            e.children.clear();
        }
    })
}
pub fn norm(e: &Elem) -> Elem {
    drop_empty_text(&blank_opaque(e))
}

fn kinds(p: &[Patch], acc: &mut Acc) {
    for x in p {
        acc.add(
            match x {
                Patch::InsertElement { .. } => "InsertElement patches",
                Patch::InsertText { .. } => "InsertText patches",
                Patch::InsertComment { .. } => "InsertComment patches",
                Patch::Remove { .. } => "Remove patches",
                Patch::SetText { .. } => "SetText patches",
                Patch::SetAttribute { .. } => "SetAttribute patches",
                Patch::RemoveAttribute { .. } => "RemoveAttribute patches",
                Patch::Move { .. } => "Move patches",
                Patch::UpdateProps { .. } => "UpdateProps patches",
                Patch::OpaqueChanged { .. } => "OpaqueChanged patches",
            },
            1,
        );
        if let Patch::Move { detach_to_slot: Some(_), .. } | Patch::InsertElement { detach_to_slot: Some(_), .. } | Patch::InsertText { detach_to_slot: Some(_), .. } = x {
            acc.add("patches that park a displaced node", 1);
        }
        if paths(x).iter().any(|p| p.first().is_some_and(|s| *s > 0)) {
            acc.add("paths that go through a parked node", 1);
        }
    }
}


/// Every kind of patch must have been seen for a run to count.
const PATCH_FLOORS: &[(&str, u64)] = &[
    ("InsertElement patches", 1000),
    ("InsertText patches", 1000),
    ("InsertComment patches", 100),
    ("Remove patches", 1000),
    ("SetText patches", 1000),
    ("Move patches", 1000),
    ("UpdateProps patches", 1000),
    ("OpaqueChanged patches", 50),
    ("patches that park a displaced node", 500),
    ("paths that go through a parked node", 20),
];

fn paths(p: &Patch) -> Vec<Vec<u32>> {
    match p {
        Patch::InsertElement { at, .. } | Patch::InsertText { at, .. } | Patch::InsertComment { at, .. } => vec![at.0.0.to_vec()],
        Patch::Remove { node } => vec![node.0.0.to_vec()],
        Patch::SetText { path, .. }
        | Patch::SetAttribute { path, .. }
        | Patch::RemoveAttribute { path, .. }
        | Patch::UpdateProps { path, .. }
        | Patch::OpaqueChanged { path, .. } => vec![path.0.to_vec()],
        Patch::Move { from, to, .. } => vec![from.0.0.to_vec(), to.0.0.to_vec()],
    }
}

/// Compares a patched document with the document it should have become.
pub fn same_body(got: &Document, new: &Document, acc: &mut Acc) -> Result<(), String> {
    let want = snap::body(new).map(|e| norm(&e));
    let have = snap::body(got).map(|e| norm(&e));
    match (have, want) {
        (Some(h), Some(w)) => match diff_msg(&h, &w, "") {
            Some(m) => Err(m),
            None => Ok(()),
        },
        (None, None) => {
            acc.add("pairs without any body", 1);
            Ok(())
        }
        (Some(h), None) => {
            acc.add("pairs where only the old side has a body", 1);
            if !h.children.is_empty() {
                Err("old body content left although the new document has no body".into())
            } else if !h.attrs.is_empty() {
                Err("old body attributes left although the new document has no body".into())
            } else {
                Ok(())
            }
        }
        (None, Some(w)) => {
            if w.children.is_empty() && w.attrs.is_empty() { Ok(()) } else { Err("no body although the new document has one".into()) }
        }
    }
}

fn converge(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    if c.docs.len() < 2 {
        return vec![];
    }
    let (a, b) = (StrTendril::from(c.docs[0].as_str()), StrTendril::from(c.docs[1].as_str()));
    let old = parse(&a);
    let new = parse(&b);
    let patches = match diff(&old, &new) {
        Ok(p) => p,
        Err(e) => return bad("diff-error", format!("diff failed: {e:?}")),
    };
    kinds(&patches, acc);
    acc.max("patches for one pair", patches.len() as u64);
    let mut got: Document = old.clone();
    let shown = format!("{patches:?}");
    if let Err(e) = got.apply_patches(patches) {
        return bad("apply-error", format!("apply_patches failed: {e:?}; patches {shown}"));
    }
    if let Err(m) = snap::well_formed(&got) {
        return bad("malformed", m);
    }
    acc.seen(&format!("{}\u{0}{}", c.docs[0], c.docs[1]));
    if let Err(m) = same_body(&got, &new, acc) {
        return bad("differs", format!("{m}; patches {shown}"));
    }
    vec![]
}

/// Large and lopsided pairs: wide lists, deep chains, whole real pages.
pub fn big(r: &mut Rng, corpus: &(Vec<String>, Vec<(String, String)>), i: u64) -> Docs {
    let mut docs = vec![];
    let how;
    match i % 5 {
        0 if !corpus.0.is_empty() => {
            how = "whole real page, damaged";
            let p = &corpus.0[(i / 5) as usize % corpus.0.len()];
            docs.push(p.clone());
            let mut s = p.clone();
            for _ in 0..r.range(1, 8) {
                s = generate::damage(r, &s);
            }
            docs.push(s);
        }
        1 => {
            how = "wide list, rearranged";
            let n = r.range(50, 400);
            let mut v: Vec<String> = (0..n).map(|k| if r.chance(1, 3) { "<li>same</li>".into() } else { format!("<li id={k}>item {k}</li>") }).collect();
            docs.push(format!("<html><body><ul>{}</ul></body></html>", v.concat()));
            for _ in 0..r.range(1, 6) {
                let (x, y) = (r.below(v.len()), r.below(v.len()));
                match r.below(5) {
                    0 => v.swap(x, y),
                    1 => {
                        let e = v.remove(x);
                        v.insert(y.min(v.len()), e);
                    }
                    2 => {
                        v.remove(x);
                    }
                    3 => v.insert(y, "<li><b>fresh</b></li>".into()),
                    _ => v.rotate_left(x),
                }
            }
            docs.push(format!("<html><body><ul>{}</ul></body></html>", v.concat()));
        }
        2 => {
            how = "deep chain, edited";
            let d = r.range(20, 120);
            let cut = r.below(d);
            let mk = |d: usize, cut: usize, mid: &str| {
                let mut s = String::from("<html><body>");
                for k in 0..d {
                    if k == cut {
                        s.push_str(mid);
                    }
                    s.push_str(if k % 3 == 0 { "<div class=a>" } else { "<section>" });
                }
                s.push_str("leaf");
                for k in (0..d).rev() {
                    s.push_str(if k % 3 == 0 { "</div>" } else { "</section>" });
                }
                s + "</body></html>"
            };
            docs.push(mk(d, cut, ""));
            let mid = *r.pick(&["<p>x</p>", "text", "<!--c-->", "<div>"]);
            docs.push(mk(r.range(d - 3, d + 3), cut, mid));
        }
        4 => {
            how = "wide body beside no body";
            let n = r.range(250, 700);
            let parts = ["<p>p</p>", "<i></i>", "text", "<!--c-->", "<b>t</b>"];
            let body: String = (0..n).map(|k| if r.chance(1, 4) { format!("<u id={k}></u>") } else { r.pick(&parts).to_string() }).collect();
            docs.push(generate::page(&Elem::new("body"), generate::FORMS));
            docs.insert(r.below(2), format!("<!DOCTYPE html><html><head></head><body class=w>{body}</body></html>"));
        }
        _ => {
            how = "big page, edited";
            let st = *r.pick(&[generate::PLAIN, generate::RICH, generate::OPAQUE, generate::DULL]);
            let size = r.range(150, 500);
            let mut b = generate::body(r, st, size);
            docs.push(generate::page(&b, 0));
            for _ in 0..r.range(1, 25) {
                generate::edit(r, &mut b, st);
            }
            docs.push(generate::page(&b, 0));
        }
    }
    docs.iter_mut().for_each(generate::tame);
    Docs { docs, opt: 0, how, min: 2 }
}

/// What no patch can express (known_findings.txt): the parser leaves HTML elements where a patch
/// inserting that tag makes a MathML one. Everything else about these pages is judged as usual.
const UNSAYABLE: &[(&str, &str)] = &[("<math><mtext><table><malignmark>", "html-malignmark-in-mtext"), ("<math><mi><table><mglyph>", "html-mglyph-in-mi")];

pub fn h01(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "pairs of documents",
        cx.scale(60_000, 6_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 101, i);
            Some(generate::chain(&mut r, 2, &corpus, i))
        },
        converge,
    );
    cx.cases(
        "large pairs",
        cx.scale(300, 12_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 102, i);
            Some(big(&mut r, &corpus, i))
        },
        converge,
    );
    cx.cases(
        "pages no patch can express",
        UNSAYABLE.len() as u64,
        |i| Some(Docs { docs: vec!["<body></body>".into(), UNSAYABLE[i as usize].0.into()], opt: 0, how: "a page no patch can express", min: 2 }),
        |c: &Docs, acc| {
            let mut v = converge(c, acc);
            if let Some((_, sig)) = UNSAYABLE.iter().find(|(page, _)| c.docs[0] == "<body></body>" && c.docs[1] == *page) {
                for b in v.iter_mut().filter(|b| b.sig == "differs") {
                    b.sig = sig.to_string();
                }
            }
            v
        },
    );
    let mut f = PATCH_FLOORS.to_vec();
    f.extend([("large pairs", 100), ("pairs where only the old side has a body", 1)]);
    cx.finish("a distinct pair of documents diffed, patched and compared", &f)
}

// ------------------------------------------------------------------ H02: histories

/// Whether the body is opaque and inner HTML cannot carry its contents (misnested forms and the
/// like): a client that got them that way has something else, and nothing more can be asked of it
/// once the body is no longer opaque.
pub fn lost_in_opaque_body(d: &Document) -> bool {
    d.body().and_then(|b| snap::elem(d, b)).is_some_and(|e| e.opaque() && crate::refdom::parse_inner(&generate::inner(&e), e.ns.url(), &e.tag) != e.children)
}
/// One document is kept current through a history of versions, the way a client does it: each
/// diff is computed between fresh parses of two versions and arrives as bytes.
fn history(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    let ts: Vec<StrTendril> = c.docs.iter().map(|d| StrTendril::from(d.as_str())).collect();
    let docs: Vec<Document> = ts.iter().map(parse).collect();
    let self_diff = c.opt % 4 == 0;
    let mut cur = docs[0].clone();
    let mut max = 0;
    for k in 1..docs.len() {
        let patches: Vec<Patch<'static>> = {
            let p = match if self_diff { diff(&cur, &docs[k]) } else { diff(&docs[k - 1], &docs[k]) } {
                Ok(p) => p,
                Err(e) => return bad("diff-error", format!("step {k}: diff failed: {e:?}")),
            };
            p.into_iter().map(|p| p.into_owned()).collect()
        };
        kinds(&patches, acc);
        let shown = format!("{patches:?}");
        if let Err(e) = cur.apply_patches(patches) {
            return bad("apply-error", format!("step {k}: apply_patches failed: {e:?}; patches {shown}"));
        }
        if let Err(m) = snap::well_formed(&cur) {
            return bad("malformed", format!("step {k}: {m}"));
        }
        if let Err(m) = same_body(&cur, &docs[k], acc) {
            return bad("differs", format!("step {k}: {m}; patches {shown}"));
        }
        max = k;
        acc.add("steps", 1);
        if lost_in_opaque_body(&docs[k]) {
            acc.add("histories cut short at an opaque body that inner HTML cannot carry", 1);
            break;
        }
    }
    acc.add(if self_diff { "histories diffed against the patched document" } else { "histories diffed against the previous version" }, 1);
    acc.max("steps in one history", max as u64);
    acc.seen(&c.docs.concat());
    vec![]
}
pub fn h02(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "histories",
        cx.scale(40_000, 900_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 201, i);
            let n = *r.pick(&[3, 4, 6, 10, 25]);
            let mut c = generate::chain(&mut r, n, &corpus, i);
            if r.chance(1, 3) {
                // go back to earlier versions
                for _ in 0..r.range(1, 4) {
                    let d = r.pick(&c.docs).clone();
                    c.docs.push(d);
                }
            }
            c.opt = r.next();
            Some(c)
        },
        history,
    );
    let mut f = PATCH_FLOORS.to_vec();
    f.retain(|x| !x.0.starts_with("paths"));
    f.extend([("steps", 20_000), ("histories diffed against the patched document", 1000)]);
    cx.finish("a distinct history of documents", &f)
}

// ------------------------------------------------------------------ H03: wire form

fn wire(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    let (a, b) = (StrTendril::from(c.docs[0].as_str()), StrTendril::from(c.docs[1].as_str()));
    let old = parse(&a);
    let new = parse(&b);
    let Ok(patches) = diff(&old, &new) else { return vec![] };
    kinds(&patches, acc);
    let owned: Vec<Patch<'static>> = patches.iter().map(|p| p.clone().into_owned()).collect();
    if owned != patches {
        return bad("into-owned", format!("into_owned changed the patches: {patches:?} became {owned:?}"));
    }
    let bytes = match facet_postcard::to_vec(&owned) {
        Ok(b) => b,
        Err(e) => return bad("encode", format!("encoding failed: {e:?}")),
    };
    let json = match facet_json::to_string(&owned) {
        Ok(b) => b,
        Err(e) => return bad("encode-json", format!("encoding failed: {e:?}")),
    };
    let from_bytes: Vec<Patch<'static>> = match facet_postcard::from_slice(&bytes) {
        Ok(p) => p,
        Err(e) => return bad("decode", format!("decoding failed: {e:?}; patches {owned:?}")),
    };
    let from_json: Vec<Patch<'static>> = match facet_json::from_str(&json) {
        Ok(p) => p,
        Err(e) => return bad("decode-json", format!("decoding failed: {e:?}; {json}")),
    };
    if from_bytes != patches {
        return bad("postcard", format!("patches {patches:?} came back as {from_bytes:?}"));
    }
    if from_json != patches {
        return bad("json", format!("patches {patches:?} came back as {from_json:?}"));
    }
    acc.add("bytes on the wire", bytes.len() as u64);
    if bytes.len() > 1 {
        acc.seen(&json);
    }
    for (how, p) in [("the borrowed patches", patches), ("the decoded patches", from_bytes), ("the JSON patches", from_json)] {
        let mut got = old.clone();
        if let Err(e) = got.apply_patches(p) {
            return bad("apply-error", format!("{how}: {e:?}"));
        }
        if let Err(m) = same_body(&got, &new, acc) {
            return bad("differs", format!("{how}: {m}"));
        }
    }
    vec![]
}
pub fn h03(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "pairs of documents",
        cx.scale(150_000, 2_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 301, i);
            Some(generate::chain(&mut r, 2, &corpus, i))
        },
        wire,
    );
    let mut f = PATCH_FLOORS.to_vec();
    f.retain(|x| !x.0.starts_with("paths"));
    cx.finish("a distinct non-empty patch list, encoded both ways, decoded, compared and applied", &f)
}

// ------------------------------------------------------------------ H08: reflexivity, determinism

/// The same document, built node by node in another order with owned strings.
pub fn rebuild(d: &Document, r: &mut Rng) -> Document<'static> {
    use hotmeal::{ElementData, NodeData, NodeId, NodeKind, Stem};
    let mut out: Document<'static> = Document::new();
    let mut order = vec![];
    let mut stack = vec![d.root];
    while let Some(n) = stack.pop() {
        order.push(n);
        stack.extend(d.children(n));
    }
    match r.below(3) {
        0 => order.reverse(),
        1 => r.shuffle(&mut order),
        _ => {}
    }
    let mut map = std::collections::HashMap::new();
    for n in &order {
        if r.chance(1, 5) {
            let dead = out.create_text("unused");
            out.remove(dead);
        }
        let x = d.get(*n);
        let kind = match &x.kind {
            NodeKind::Text(t) => NodeKind::Text(Stem::from(t.to_string())),
            NodeKind::Comment(t) => NodeKind::Comment(Stem::from(t.to_string())),
            NodeKind::Document => NodeKind::Document,
            NodeKind::Element(e) => NodeKind::Element(ElementData {
                tag: e.tag.clone(),
                attrs: e.attrs.iter().map(|(k, v)| (k.clone(), Stem::from(v.to_string()))).collect(),
            }),
        };
        map.insert(*n, out.arena.new_node(NodeData { kind, ns: x.ns }));
    }
    fn link(d: &Document, n: NodeId, map: &std::collections::HashMap<NodeId, NodeId>, out: &mut Document<'static>) {
        for c in d.children(n) {
            out.append_child(map[&n], map[&c]);
            link(d, c, map, out);
        }
    }
    link(d, d.root, &map, &mut out);
    out.root = map[&d.root];
    out.doctype = d.doctype.clone().map(|s| s.into_owned());
    out
}
fn stable(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    let mut r = Rng::new(c.opt);
    let (a, b) = (StrTendril::from(c.docs[0].as_str()), StrTendril::from(c.docs[1].as_str()));
    let (old, new) = (parse(&a), parse(&b));
    let again = parse(&a);
    let ra = rebuild(&old, &mut r);
    let rb = rebuild(&new, &mut r);
    for (how, x, y) in [("with itself", &old, &old), ("with a second parse of the same source", &old, &again), ("with a rebuilt copy", &old, &ra), ("rebuilt copy with the parse", &rb, &new)] {
        match diff(x, y) {
            Ok(p) if p.is_empty() => acc.add("equal documents diffed", 1),
            Ok(p) => return bad("not-empty", format!("diffing a document {how} gives {p:?}")),
            Err(e) => return bad("diff-error", format!("diffing a document {how} fails: {e:?}")),
        }
    }
    let Ok(first) = diff(&old, &new) else { return bad("diff-error", "diff failed") };
    kinds(&first, acc);
    for (how, got) in [
        ("a second time", diff(&old, &new)),
        ("on a rebuilt old document", diff(&ra, &new)),
        ("on a rebuilt new document", diff(&old, &rb)),
        ("through diff_html", hotmeal::diff_html(&a, &b)),
    ] {
        match got {
            Ok(p) if p == first => acc.add("repeated diffs that agreed", 1),
            Ok(p) => return bad("unstable", format!("diffing {how} gives {p:?} instead of {first:?}")),
            Err(e) => return bad("diff-error", format!("diffing {how} fails: {e:?}")),
        }
    }
    if !first.is_empty() {
        acc.seen(&format!("{first:?}"));
    }
    vec![]
}
pub fn h08(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "pairs of documents",
        cx.scale(80_000, 1_500_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 801, i);
            let mut c = generate::chain(&mut r, 2, &corpus, i);
            c.opt = r.next();
            Some(c)
        },
        stable,
    );
    cx.finish("a distinct non-empty patch list that came out the same in every way of computing it", &[("equal documents diffed", 40_000), ("repeated diffs that agreed", 40_000)])
}

// ------------------------------------------------------------------ H09: opaque elements

fn opaque_at(d: &Document, n: hotmeal::NodeId) -> bool {
    snap_attrs(d, n).iter().any(|a| a == "data-hotmeal-opaque")
}
fn snap_attrs(d: &Document, n: hotmeal::NodeId) -> Vec<String> {
    match &d.get(n).kind {
        hotmeal::NodeKind::Element(e) => e.attrs.iter().map(|(k, _)| k.local.to_string()).collect(),
        _ => vec![],
    }
}
/// Pairs the opaque elements of two documents of equal outer shape (first opaque one on each path).
fn pair_opaque(got: &Document, g: hotmeal::NodeId, new: &Document, n: hotmeal::NodeId, top: bool, out: &mut Vec<(hotmeal::NodeId, hotmeal::NodeId)>) {
    if !top && opaque_at(new, n) {
        out.push((g, n));
        return;
    }
    let blank = |d: &Document, c: &hotmeal::NodeId| !matches!(&d.get(*c).kind, hotmeal::NodeKind::Text(t) if t.is_empty());
    let gs: Vec<_> = got.children(g).filter(|c| blank(got, c)).collect();
    let ns: Vec<_> = new.children(n).filter(|c| blank(new, c)).collect();
    for (g, n) in gs.into_iter().zip(ns) {
        pair_opaque(got, g, new, n, false, out);
    }
}
fn kids_of(d: &Document, n: hotmeal::NodeId) -> Vec<Node> {
    snap::elem(d, n).map(|e| e.children).unwrap_or_default()
}
/// The body itself is opaque on one side or on both: its contents arrive whole or piece by piece.
fn opaque_body(old: &Document, new: &Document, acc: &mut Acc) -> Vec<Bad> {
    let Ok(patches) = diff(old, new) else { return bad("diff-error", "diff failed") };
    let shown = format!("{patches:?}");
    let (ob, nb) = (old.body().unwrap(), new.body().unwrap());
    let (was, is) = (opaque_at(old, ob), opaque_at(new, nb));
    let told = patches.iter().filter(|p| matches!(p, Patch::OpaqueChanged { path, .. } if path.0.as_slice() == [0])).count();
    acc.add(
        match (was, is) {
            (true, true) => "bodies that stay opaque",
            (false, true) => "bodies that become opaque",
            _ => "bodies that cease to be opaque",
        },
        1,
    );
    if was && is {
        let changed = kids_of(old, ob) != kids_of(new, nb);
        if told != changed as usize {
            return bad("body-announce", format!("{told} OpaqueChanged for an opaque body whose contents {}; patches {shown}", if changed { "changed" } else { "stayed" }));
        }
        if let Some(p) = patches.iter().find(|p| !matches!(p, Patch::OpaqueChanged { .. } | Patch::UpdateProps { .. } | Patch::SetAttribute { .. } | Patch::RemoveAttribute { .. }) || paths(p).iter().any(|x| x.len() > 1)) {
            return bad("inside-opaque", format!("{p:?} acts inside an opaque body; patches {shown}"));
        }
    } else if is {
        let all = patches.iter().filter(|p| matches!(p, Patch::OpaqueChanged { .. })).count();
        if told != 1 || all != 1 {
            return bad("body-announce", format!("{told} OpaqueChanged for a body that became opaque and {} beneath it; patches {shown}", all - told));
        }
        if let Some(p) = patches.iter().find(|p| matches!(p, Patch::InsertElement { .. } | Patch::InsertText { .. } | Patch::InsertComment { .. } | Patch::Move { .. } | Patch::SetText { .. })) {
            return bad("inside-opaque", format!("{p:?} acts inside a body that became opaque; patches {shown}"));
        }
    } else if told > 0 {
        return bad("stray", format!("OpaqueChanged for a body that is not opaque any more; patches {shown}"));
    }
    let mut got = old.clone();
    if let Err(e) = got.apply_patches(patches) {
        return bad("apply-error", format!("apply_patches: {e:?}; patches {shown}"));
    }
    let e = snap::elem(new, nb).unwrap();
    if crate::refdom::parse_inner(&generate::inner(&e), e.ns.url(), &e.tag) != e.children {
        return vec![];
    }
    let have = kids_of(&got, got.body().unwrap());
    if is && have != e.children {
        return bad("native", format!("after apply_patches the opaque body holds {have:?}, expected {:?}; patches {shown}", e.children));
    }
    vec![]
}
fn opaque(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    use hotmeal::NodeId;
    let (a, b) = (StrTendril::from(c.docs[0].as_str()), StrTendril::from(c.docs[1].as_str()));
    let (old, new) = (parse(&a), parse(&b));
    let (Some(_), Some(nb)) = (old.body(), new.body()) else { return vec![] };
    if snap::body(&new).is_some_and(|e| e.any(&mut |e| e.tag == "plaintext")) {
        // inner HTML cannot carry an element that swallows its own end tag
        return vec![];
    }
    if opaque_at(&old, old.body().unwrap()) || opaque_at(&new, nb) {
        return opaque_body(&old, &new, acc);
    }
    let Ok(patches) = diff(&old, &new) else { return bad("diff-error", "diff failed") };
    let shown = format!("{patches:?}");
    let all = patches.clone();
    let mut got = old.clone();
    let mut slots = got.init_patch_slots();
    let mut told: Vec<(NodeId, String)> = vec![];
    kinds(&patches, acc);
    for p in patches {
        // where does this patch act, in the document as it is now?
        let resolve = |path: &[u32], got: &Document| -> Option<Vec<NodeId>> {
            let mut cur = *slots.get(path.first()?)?;
            let mut out = vec![cur];
            // what is parked in a slot may have come out of an opaque element only if a patch put it there
            for i in &path[1..] {
                cur = got.children(cur).nth(*i as usize)?;
                out.push(cur);
            }
            Some(out)
        };
        let check = |path: &[u32], got: &Document, what: &str| -> Option<Vec<Bad>> {
            let chain = resolve(path, got)?;
            let n = chain.len();
            if chain[..n - 1].iter().any(|x| opaque_at(got, *x)) {
                return Some(bad("inside-opaque", format!("{what} at {path:?} acts inside an opaque element; patches {shown}")));
            }
            None
        };
        let hit = match &p {
            Patch::InsertElement { at, .. } | Patch::InsertText { at, .. } | Patch::InsertComment { at, .. } => {
                let pt = &at.0.0;
                match resolve(&pt[..pt.len() - 1], &got) {
                    Some(ch) if ch.iter().any(|x| opaque_at(&got, *x)) => Some(bad("inside-opaque", format!("an insertion at {pt:?} acts inside an opaque element; patches {shown}"))),
                    _ => None,
                }
            }
            Patch::Remove { node } => check(&node.0.0, &got, "a removal"),
            Patch::SetText { path, .. } => check(&path.0, &got, "a text change"),
            Patch::SetAttribute { path, .. } | Patch::RemoveAttribute { path, .. } | Patch::UpdateProps { path, .. } => check(&path.0, &got, "an attribute change"),
            Patch::Move { from, to, .. } => check(&from.0.0, &got, "a move").or_else(|| {
                let pt = &to.0.0;
                match resolve(&pt[..pt.len() - 1], &got) {
                    Some(ch) if ch.iter().any(|x| opaque_at(&got, *x)) => Some(bad("inside-opaque", format!("a move to {pt:?} acts inside an opaque element; patches {shown}"))),
                    _ => None,
                }
            }),
            Patch::OpaqueChanged { path, content } => {
                let Some(chain) = resolve(&path.0, &got) else {
                    return bad("path", format!("OpaqueChanged names {:?}, which does not exist; patches {shown}", path.0));
                };
                let n = *chain.last().unwrap();
                if !opaque_at(&got, n) {
                    return bad("path", format!("OpaqueChanged names {:?}, which is not an opaque element; patches {shown}", path.0));
                }
                told.push((n, content.to_string()));
                // the contents belong to someone else: leave them alone, like the browser client
                acc.add("patches that announce opaque changes", 1);
                continue;
            }
        };
        if let Some(v) = hit {
            return v;
        }
        if let Err(e) = got.apply_patch_with_slots(p, &mut slots) {
            return bad("apply-error", format!("{e:?}; patches {shown}"));
        }
    }
    if let Err(m) = same_body(&got, &new, acc) {
        return bad("differs", format!("{m}; patches {shown}"));
    }
    let mut pairs = vec![];
    pair_opaque(&got, got.body().unwrap(), &new, nb, true, &mut pairs);
    let existed: std::collections::HashSet<NodeId> = {
        let mut s = std::collections::HashSet::new();
        let mut st = vec![old.root];
        while let Some(n) = st.pop() {
            s.insert(n);
            st.extend(old.children(n));
        }
        s
    };
    let mut left = told.clone();
    for (g, n) in pairs {
        let mine: Vec<usize> = left.iter().enumerate().filter(|(_, t)| t.0 == g).map(|(i, _)| i).collect();
        let want = kids_of(&new, n);
        if existed.contains(&g) && opaque_at(&old, g) {
            let had = kids_of(&old, g);
            let have = kids_of(&got, g);
            if have != had {
                return bad("touched", format!("patches changed the inside of a kept opaque element; patches {shown}"));
            }
            let changed = had != want;
            acc.add(if changed { "kept opaque elements with new contents" } else { "kept opaque elements with the same contents" }, 1);
            if changed && mine.is_empty() {
                return bad("silent", format!("an opaque element's contents changed without an OpaqueChanged; patches {shown}"));
            }
            if !changed && !mine.is_empty() {
                return bad("needless", format!("OpaqueChanged although the contents are the same; patches {shown}"));
            }
            if mine.len() > 1 {
                return bad("repeated", format!("more than one OpaqueChanged for one element; patches {shown}"));
            }
            if let Some(k) = mine.first() {
                let text = &left[*k].1;
                let e = snap::elem(&new, n).unwrap();
                let reference = generate::inner(&e);
                let (x, y) = (crate::refdom::parse_inner(text, e.ns.url(), &e.tag), crate::refdom::parse_inner(&reference, e.ns.url(), &e.tag));
                if x != y {
                    return bad("content", format!("OpaqueChanged carries {text:?}, the new contents are {reference:?}"));
                }
                left.remove(*k);
            }
        } else {
            // came with an insertion: its contents must be there
            acc.add("opaque elements that arrived whole", 1);
            if kids_of(&got, g) != want {
                return bad("inserted", format!("an inserted opaque element lacks its contents; patches {shown}"));
            }
            left.retain(|t| t.0 != g);
        }
    }
    // The native applier also brings the contents up to date, as far as inner HTML can carry them.
    let mut whole = old.clone();
    if let Err(e) = whole.apply_patches(all) {
        return bad("apply-error", format!("apply_patches: {e:?}; patches {shown}"));
    }
    let mut pairs = vec![];
    pair_opaque(&whole, whole.body().unwrap(), &new, nb, true, &mut pairs);
    for (g, n) in pairs {
        let e = snap::elem(&new, n).unwrap();
        if crate::refdom::parse_inner(&generate::inner(&e), e.ns.url(), &e.tag) == e.children {
            acc.add("opaque contents checked after native application", 1);
            let have = kids_of(&whole, g);
            if have != e.children {
                return bad("native", format!("after apply_patches the opaque <{}> holds {have:?}, expected {:?}; patches {shown}", e.tag, e.children));
            }
        }
    }
    if let Some(t) = left.first() {
        return bad("stray", format!("OpaqueChanged for an element that is not a surviving opaque one ({:?}); patches {shown}", t.1));
    }
    acc.seen(&format!("{}\u{0}{}", c.docs[0], c.docs[1]));
    vec![]
}
pub fn h09(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "pairs of documents with opaque elements",
        cx.scale(150_000, 3_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 901, i);
            if i % 5 == 0 {
                let mut c = generate::chain(&mut r, 2, &corpus, i);
                // mark something in real or soup documents as opaque
                for t in ["<div", "<p", "<ul", "<table", "<span", "<svg", "<select", "<script", "<style", "<textarea", "<tr", "<template"] {
                    if r.chance(1, 2) {
                        for d in c.docs.iter_mut() {
                            *d = d.replacen(&format!("{t}>"), &format!("{t} data-hotmeal-opaque>"), 1 + r.below(2));
                        }
                    }
                }
                return Some(c);
            }
            let size = r.range(2, 30);
            let mut b = generate::body(&mut r, generate::OPAQUE, size);
            let toggle = i % 7 == 0;
            if toggle && r.chance(1, 2) {
                generate::turn_opaque(&mut b);
            }
            let mut docs = vec![generate::page(&b, 0)];
            for _ in 0..r.range(if toggle { 0 } else { 1 }, 5) {
                generate::edit(&mut r, &mut b, generate::OPAQUE);
            }
            if toggle && r.chance(1, 2) {
                generate::turn_opaque(&mut b);
            }
            docs.push(generate::page(&b, 0));
            Some(Docs { docs, opt: 0, how: "page with opaque parts, edited", min: 2 })
        },
        opaque,
    );
    cx.finish(
        "a distinct pair of documents with every patch located and every opaque element accounted for",
        &[
            ("kept opaque elements with new contents", 1000),
            ("kept opaque elements with the same contents", 5000),
            ("opaque elements that arrived whole", 1000),
            ("patches that announce opaque changes", 1000),
            ("opaque contents checked after native application", 5000),
            ("bodies that stay opaque", 100),
            ("bodies that become opaque", 100),
            ("bodies that cease to be opaque", 100),
        ],
    )
}
