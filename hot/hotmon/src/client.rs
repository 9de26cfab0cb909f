//! H12: the browser client, on a DOM that runs here.
use crate::api::Hostile;
use crate::checks::{lost_in_opaque_body, norm};
use crate::generate::{self, Docs};
use crate::harness::*;
use crate::refdom;
use crate::rng::Rng;
use crate::snap;
use crate::tree::*;
use hotmeal::{AttrPair, Document, InsertContent, LocalName, NodeKind, NodePath, NodeRef, Patch, PropChange, PropKey, Stem, StrTendril, diff, parse};
use hotmeal_wasm as client;
use std::cell::RefCell;
use std::collections::HashMap;
use wasm_bindgen::dom::{self, AttrData, Kind};
use wasm_bindgen::{EventData, JsValue};

// ---- between the DOM and plain trees

fn to_dom(n: &Node) -> Option<dom::Node> {
    Some(match n {
        Node::Text(t) => dom::Node::text(t),
        Node::Comment(t) => dom::Node::comment(t),
        Node::Doctype(..) => return None,
        Node::Elem(e) => elem_to_dom(e),
    })
}
fn elem_to_dom(e: &Elem) -> dom::Node {
    let x = dom::Node::element(e.ns.url(), &e.tag);
    for a in &e.attrs {
        x.push_attr(AttrData { ns: a.ns.clone(), prefix: a.prefix.clone(), local: a.local.clone(), value: a.value.clone() });
    }
    let inside = x.0.content.borrow().clone().unwrap_or(x.clone());
    for c in &e.children {
        inside.append(&to_dom(c).unwrap()).unwrap_or_else(|_| panic!("building the page"));
    }
    x
}
/// A template's contents are read as its children, after any children proper, which it should not
/// have.
fn inside(n: &dom::Node) -> Vec<dom::Node> {
    let mut v = n.kids();
    if let Some(c) = &*n.0.content.borrow() {
        v.extend(c.kids());
    }
    v
}
pub fn from_dom(n: &dom::Node) -> Node {
    match &n.0.kind {
        Kind::Text => Node::Text(n.text_content().unwrap_or_default()),
        Kind::Comment => Node::Comment(n.text_content().unwrap_or_default()),
        Kind::Element { ns, .. } => Node::Elem(Elem {
            ns: match ns.as_str() {
                dom::SVG => Ns::Svg,
                dom::MATH => Ns::Math,
                _ => Ns::Html,
            },
            tag: if [dom::HTML, dom::SVG, dom::MATH].contains(&ns.as_str()) { n.qualified() } else { format!("{{{ns}}}{}", n.qualified()) },
            attrs: n.0.attrs.borrow().iter().map(|a| a.data.borrow().clone()).map(|a| Attr { prefix: a.prefix, ns: a.ns, local: a.local, value: a.value }).collect(),
            children: {
                let mut v: Vec<Node> = inside(n).iter().map(from_dom).collect();
                if n.0.content.borrow().is_some() && !n.kids().is_empty() {
                    v.insert(0, Node::Comment("a template with children outside of its contents".into()));
                }
                v
            },
        }),
        _ => panic!("a fragment or document inside the page"),
    }
}
pub fn inner_parser(ns: &str, tag: &str, html: &str) -> Vec<dom::Node> {
    refdom::parse_inner(html, ns, tag).iter().filter_map(to_dom).collect()
}
pub fn inner_serializer(n: &dom::Node) -> String {
    match from_dom(n) {
        Node::Elem(e) => generate::inner(&e),
        _ => String::new(),
    }
}
fn ids(n: &dom::Node, out: &mut Vec<u64>) {
    for c in inside(n) {
        out.push(c.0.id);
        ids(&c, out);
    }
}
fn opaque(n: &dom::Node) -> bool {
    n.is_element() && n.attr_by_name("data-hotmeal-opaque").is_some()
}
fn opaques(n: &dom::Node, out: &mut Vec<dom::Node>) {
    if opaque(n) {
        out.push(n.clone());
        return;
    }
    for c in inside(n) {
        opaques(&c, out);
    }
}

// ---- events, as the page sees them

struct Heard {
    target: dom::Node,
    was_opaque: bool,
    key: Option<String>,
    kind: String,
    bubbles: bool,
    content: Option<String>,
    said_key: Option<String>,
    element: Option<dom::Node>,
}
thread_local! {
    static HEARD: RefCell<Vec<Heard>> = const { RefCell::new(vec![]) };
}
fn hear(n: &dom::Node, e: &EventData) {
    let d = &e.detail;
    let el = d.get("element");
    HEARD.with_borrow_mut(|h| {
        h.push(Heard {
            target: n.clone(),
            was_opaque: opaque(n),
            key: n.attr_by_name("data-hotmeal-opaque").map(|a| a.data.borrow().value.clone()),
            kind: e.kind.clone(),
            bubbles: e.bubbles,
            content: d.get("content").as_string(),
            said_key: d.get("key").as_string(),
            element: matches!(el.0, wasm_bindgen::Val::Node(_)).then(|| el.node().clone()),
        })
    });
}
#[cfg(feature = "live")]
pub fn forget_heard() {
    HEARD.take();
}
pub fn hear_and_obey(n: &dom::Node, e: &EventData) {
    hear(n, e);
    if let Some(c) = e.detail.get("content").as_string() {
        n.set_inner_html(&c);
    }
}

// ---- the page

pub struct Page {
    doc: dom::Node,
    pub root: dom::Node,
    /// everything but the inside of the root, by identity, and as it looked
    frame: Vec<(u64, Vec<u64>, Vec<String>)>,
}
fn frame(n: &dom::Node, root: &dom::Node, out: &mut Vec<(u64, Vec<u64>, Vec<String>)>) {
    let kids = if n == root { vec![] } else { inside(n) };
    let mut own: Vec<String> = vec![];
    if n != root {
        own.extend(n.0.attrs.borrow().iter().map(|a| format!("{:?}", a.data.borrow())));
        own.push(n.0.text.borrow().clone());
    }
    out.push((n.0.id, kids.iter().map(|c| c.0.id).collect(), own));
    for c in kids {
        frame(&c, root, out);
    }
}
impl Page {
    pub fn new(src: &str, mount: bool) -> Option<Page> {
        let d = refdom::parse_full(&crate::parsing::wrapped(src).0);
        let body = d.body()?;
        let doc = dom::Node::new(Kind::Document);
        let root;
        if mount {
            let mut m = Elem::new("div");
            m.attrs.push(Attr::new("id", "mount"));
            m.children = body.children.clone();
            let mut b = Elem::new("body");
            b.attrs.push(Attr::new("class", "shell"));
            b.children = vec![Node::Text("before".into()), Node::Elem(Elem::new("nav")), Node::Elem(m), Node::Comment("after".into()), Node::Elem(Elem::new("footer"))];
            let mut h = Elem::new("html");
            h.children = vec![Node::Elem(Elem::new("head")), Node::Elem(b)];
            doc.append(&elem_to_dom(&h)).ok()?;
            root = doc.find(&mut |n| n.matches("#mount").unwrap_or(false))?;
        } else {
            for c in &d.children {
                if let Some(x) = to_dom(c) {
                    doc.append(&x).ok()?;
                }
            }
            root = doc.find(&mut |n| n.is_html("body"))?;
        }
        dom::set_document(Some(doc.clone()));
        let mut f = vec![];
        frame(&doc, &root, &mut f);
        Some(Page { doc, root, frame: f })
    }
    pub fn rest_untouched(&self) -> bool {
        let mut f = vec![];
        frame(&self.doc, &self.root, &mut f);
        f == self.frame
    }
}

const ENTRIES: [&str; 9] = [
    "applied with apply_patches",
    "applied with apply_patches_json",
    "applied with apply_patches_postcard",
    "applied one by one with apply_patches_with_slots",
    "applied with apply_patches_on body",
    "applied with apply_patches_on #mount",
    "applied with apply_patches_postcard_on #mount",
    "applied one by one with apply_patches_with_slots_on #mount",
    "computed by the client's own diff_html, applied with apply_patches_json",
];
fn said(e: JsValue) -> String {
    format!("the client failed: {e:?}")
}
fn apply(entry: usize, p: &[Patch<'static>]) -> Result<usize, String> {
    let bytes = || facet_postcard::to_vec(&p.to_vec()).map_err(|e| format!("encoding failed: {e:?}"));
    match entry {
        0 => client::apply_patches(p).map_err(said),
        1 | 8 => client::apply_patches_json(&facet_json::to_string(&p.to_vec()).map_err(|e| format!("encoding failed: {e:?}"))?).map_err(said),
        2 => client::apply_patches_postcard(&bytes()?).map_err(said),
        3 => {
            let mut s = client::Slots::new();
            let mut n = 0;
            for x in p {
                n += client::apply_patches_with_slots(std::slice::from_ref(x), &mut s).map_err(said)?;
            }
            Ok(n)
        }
        4 => client::apply_patches_on(p, "body").map_err(said),
        5 => client::apply_patches_on(p, "#mount").map_err(said),
        6 => client::apply_patches_postcard_on(&bytes()?, "#mount").map_err(said),
        _ => {
            let mut s = client::Slots::new();
            let mut n = 0;
            for x in p {
                n += client::apply_patches_with_slots_on(std::slice::from_ref(x), &mut s, "#mount").map_err(said)?;
            }
            Ok(n)
        }
    }
}
/// One patch at a time, with the page and hotmeal's own document compared after each.
fn in_step(entry: usize, p: &[Patch<'static>], page: &Page, src: &StrTendril, acc: &mut Acc) -> Result<usize, String> {
    let mut own = parse(src);
    let mut parked = own.init_patch_slots();
    let mut s = client::Slots::default();
    let mut n = 0;
    for (i, x) in p.iter().enumerate() {
        let one = std::slice::from_ref(x);
        n += if entry == 3 { client::apply_patches_with_slots(one, &mut s) } else { client::apply_patches_with_slots_on(one, &mut s, "#mount") }.map_err(said)?;
        own.apply_patch_with_slots(x.clone(), &mut parked).map_err(|e| format!("hotmeal's own document refuses patch {i}: {e:?}"))?;
        let (Node::Elem(mut have), Some(mut want)) = (from_dom(&page.root), snap::body(&own)) else { continue };
        for e in [&mut have, &mut want] {
            e.tag = "root".into();
            e.attrs.clear();
        }
        if let Some(m) = diff_msg(&norm(&have), &norm(&want), "") {
            return Err(format!("after patch {i} the page is not what hotmeal's own document is: {m}"));
        }
        acc.add("pages compared between patches", 1);
    }
    Ok(n)
}
pub fn body_of(d: &Document) -> Elem {
    snap::body(d).unwrap_or_else(|| Elem::new("body"))
}

fn browse(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    dom::set_html(inner_parser, inner_serializer);
    let ts: Vec<StrTendril> = c.docs.iter().map(|d| StrTendril::from(d.as_str())).collect();
    let docs: Vec<Document> = ts.iter().map(parse).collect();
    let bare = docs.iter().all(|d| d.body().is_none() || body_of(d).attrs.is_empty());
    let mut entry = (c.opt >> 8) as usize % ENTRIES.len();
    if (5..8).contains(&entry) && !bare {
        entry -= 5;
    }
    let mount = (5..8).contains(&entry);
    let strict = c.opt & 1 == 0;
    dom::set_strict_names(strict);
    let opaque_body = docs.iter().any(|d| body_of(d).opaque());
    let obey = opaque_body || c.opt & 2 == 0;
    let Some(page) = Page::new(&c.docs[0], mount) else {
        acc.add("pages without a body", 1);
        return vec![];
    };
    dom::set_listener(Some(if obey { hear_and_obey } else { hear }));
    acc.add(ENTRIES[entry], 1);
    acc.add(if strict { "browsers with XML names" } else { "browsers with relaxed names" }, 1);
    let mut worked = false;
    for k in 1..docs.len() {
        let patches: Vec<Patch<'static>> = if entry == 8 {
            match client::diff_html(&c.docs[k - 1], &c.docs[k]) {
                Ok(j) => match facet_json::from_str(&j) {
                    Ok(p) => p,
                    Err(e) => return bad("own-json", format!("step {k}: the client's own patches do not decode: {e:?}")),
                },
                Err(e) => return bad("own-diff", format!("step {k}: diff_html: {}", said(e))),
            }
        } else {
            match diff(&docs[k - 1], &docs[k]) {
                Ok(p) => p.into_iter().map(|p| p.into_owned()).collect(),
                Err(e) => return bad("diff-error", format!("step {k}: diff failed: {e:?}")),
            }
        };
        let shown = format!("{patches:?}");
        let mut before = vec![];
        opaques(&page.root, &mut before);
        let before: HashMap<u64, (dom::Node, Vec<u64>, Node)> = before
            .into_iter()
            .map(|n| {
                let mut v = vec![];
                ids(&n, &mut v);
                (n.0.id, (n.clone(), v, from_dom(&n)))
            })
            .collect();
        HEARD.take();
        let applied = if obey && (entry == 3 || entry == 7) && docs[k - 1].body().is_some() && !opaque_body {
            in_step(entry, &patches, &page, &ts[k - 1], acc)
        } else {
            apply(entry, &patches)
        };
        match applied {
            Ok(n) if n == patches.len() => {}
            Ok(n) => return bad("count", format!("step {k}: {n} patches reported, {} given", patches.len())),
            Err(e) => return bad("apply-error", format!("step {k}: {} {}: {e}; patches {shown}", ENTRIES[entry], if strict { "(XML names)" } else { "(relaxed names)" })),
        }
        let heard = HEARD.take();
        // ---- the page
        let Node::Elem(mut have) = from_dom(&page.root) else { unreachable!() };
        let mut want = body_of(&docs[k]);
        if mount {
            want.tag = "div".into();
            want.attrs = vec![Attr::new("id", "mount")];
        }
        have = norm(&have);
        want = norm(&want);
        if let Some(m) = diff_msg(&have, &want, "") {
            return bad("differs", format!("step {k}, {}: {m}; patches {shown}", ENTRIES[entry]));
        }
        if !page.rest_untouched() {
            return bad("rest-of-page", format!("step {k}, {}: something outside the root changed; patches {shown}", ENTRIES[entry]));
        }
        // ---- opaque elements
        let announced: Vec<&str> = patches
            .iter()
            .filter_map(|p| match p {
                Patch::OpaqueChanged { content, .. } => Some(content.as_ref()),
                _ => None,
            })
            .collect();
        if heard.len() != announced.len() {
            return bad("events", format!("step {k}: {} events for {} OpaqueChanged patches", heard.len(), announced.len()));
        }
        for (h, content) in heard.iter().zip(&announced) {
            let wrong = if h.kind != "hotmeal:opaque-changed" {
                "its type"
            } else if !h.bubbles {
                "it does not bubble"
            } else if h.content.as_deref() != Some(content) {
                "its content"
            } else if h.element.as_ref() != Some(&h.target) {
                "its element"
            } else if !h.was_opaque && !opaque_body {
                "its target, which is not opaque,"
            } else if h.said_key != h.key {
                "its key"
            } else {
                ""
            };
            if !wrong.is_empty() {
                return bad("event", format!("step {k}: {wrong} is wrong in the event for content {content:?}; patches {shown}"));
            }
            acc.add("opaque-changed events", 1);
        }
        if !obey {
            for (n, was, looked) in before.values() {
                if !opaque(n) {
                    continue;
                }
                let mut v = vec![];
                ids(n, &mut v);
                let (a, b) = (from_dom(n), looked);
                if v != *was || a.elem().map(|e| &e.children) != b.elem().map(|e| &e.children) {
                    return bad("opaque-touched", format!("step {k}: the inside of an opaque element was changed; patches {shown}"));
                }
                acc.add("opaque elements seen untouched", 1);
            }
        }
        for p in &patches {
            if let Patch::InsertElement { .. } = p {
                acc.add("InsertElement patches", 1);
            }
            if let Patch::Move { .. } = p {
                acc.add("Move patches", 1);
            }
            if let Patch::UpdateProps { .. } = p {
                acc.add("UpdateProps patches", 1);
            }
        }
        worked |= !patches.is_empty();
        acc.add("steps", 1);
        if want.any(&mut |e| e.ns != Ns::Html) {
            acc.add("steps to pages with foreign content", 1);
        }
        if want.any(&mut |e| e.tag == "template" && e.ns == Ns::Html && !e.children.is_empty()) {
            acc.add("steps to pages with templates", 1);
        }
        if docs[k].body().is_none() || lost_in_opaque_body(&docs[k]) {
            break;
        }
    }
    if worked {
        acc.seen(&format!("{entry} {}", c.docs.concat()));
    }
    dom::set_document(None);
    vec![]
}

/// The page after the client applied the patches of every step, as text.
pub fn show_and_patch(c: &Docs) -> String {
    dom::set_html(inner_parser, inner_serializer);
    dom::set_strict_names(c.opt & 1 == 0);
    dom::set_listener(Some(hear_and_obey));
    let Some(page) = Page::new(&c.docs[0], false) else { return String::new() };
    let mut out = String::new();
    for k in 1..c.docs.len() {
        let (a, b) = (StrTendril::from(c.docs[k - 1].as_str()), StrTendril::from(c.docs[k].as_str()));
        let Ok(p) = hotmeal::diff_html(&a, &b) else { break };
        let p: Vec<Patch<'static>> = p.into_iter().map(|p| p.into_owned()).collect();
        out += &format!("{:?}", apply((c.opt >> 8) as usize % 5, &p));
        let Node::Elem(e) = from_dom(&page.root) else { unreachable!() };
        out += &generate::outer(&e);
    }
    HEARD.take();
    dom::set_document(None);
    out
}

/// Patches that do not fit: refused or applied somehow, but the client must survive and must not
/// touch anything outside the body.
fn survive(c: &Hostile, acc: &mut Acc) -> Vec<Bad> {
    dom::set_html(inner_parser, inner_serializer);
    dom::set_listener(Some(hear_and_obey));
    for strict in [true, false] {
        dom::set_strict_names(strict);
        let Some(page) = Page::new(&c.doc, true) else { return vec![] };
        // the mount point itself may be removed or replaced: that is its parent's business
        let head = page.doc.find(&mut |n| n.is_html("head"));
        match client::apply_patches_on(&c.patches, "#mount") {
            Ok(_) => acc.add("lists applied", 1),
            Err(_) => acc.add("lists refused", 1),
        }
        HEARD.take();
        let still = page.doc.find(&mut |n| n.is_html("head"));
        if head != still {
            return bad("rest-of-page", "the head is gone".to_string());
        }
        let nav = page.doc.find(&mut |n| n.is_html("nav"));
        let footer = page.doc.find(&mut |n| n.is_html("footer") && n.parent().is_some_and(|p| p.is_html("body")));
        if nav.is_none() || footer.is_none() {
            return bad("rest-of-page", "siblings of the mount point are gone".to_string());
        }
        if page.root.parent().is_some() && !page.rest_untouched() {
            return bad("rest-of-page", "something outside the mount point changed".to_string());
        }
        dom::set_document(None);
    }
    acc.seen(&c.show());
    vec![]
}

// ---- patches made up one by one to fit the page as it is: the client does what hotmeal's own
// document does, nested content and all

/// Whether the patch fits the document and takes nothing away without keeping it: for anything else
/// the client is free to differ.
fn fits(d: &Document, slots: &HashMap<u32, hotmeal::NodeId>, p: &Patch) -> bool {
    let walk = |q: &[u32]| -> Option<hotmeal::NodeId> {
        let mut n = *slots.get(q.first()?)?;
        for k in &q[1..] {
            n = d.children(n).nth(*k as usize)?;
        }
        Some(n)
    };
    let elem = |n: hotmeal::NodeId| matches!(d.get(n).kind, NodeKind::Element(_));
    let lands = |q: &[u32], keep: &Option<u32>| {
        let Some((at, home)) = q.split_last() else { return false };
        walk(home).is_some_and(|h| elem(h) && (*at as usize >= d.children(h).count() || keep.is_some_and(|s| s > 0)))
    };
    match p {
        Patch::InsertElement { at, detach_to_slot, .. } | Patch::InsertText { at, detach_to_slot, .. } | Patch::InsertComment { at, detach_to_slot, .. } => lands(&at.0.0, detach_to_slot),
        Patch::Remove { node } => (node.0.0.len() > 1 || node.0.0.first().is_some_and(|s| *s > 0)) && walk(&node.0.0).is_some(),
        Patch::SetText { path, .. } => walk(&path.0).is_some_and(|n| !elem(n)),
        Patch::SetAttribute { path, .. } | Patch::RemoveAttribute { path, .. } => walk(&path.0).is_some_and(elem),
        Patch::UpdateProps { path, changes } => walk(&path.0).is_some_and(|n| match &d.get(n).kind {
            NodeKind::Element(e) => changes.iter().all(|c| match &c.name {
                PropKey::Attr(q) => c.value.is_some() || e.attrs.iter().any(|(k, _)| k == q),
                PropKey::Text => false,
            }),
            _ => changes.iter().all(|c| matches!(c.name, PropKey::Text) && c.value.is_some()),
        }),
        Patch::Move { from, to, detach_to_slot } => {
            let (f, t) = (&from.0.0[..], &to.0.0[..]);
            (f.len() > 1 || f.first().is_some_and(|s| *s > 0)) && walk(f).is_some() && !t.starts_with(f) && lands(t, detach_to_slot)
        }
        Patch::OpaqueChanged { .. } => false,
    }
}
/// A slot is used up when what it holds is moved away or removed.
fn spend(p: &Patch, slots: &mut HashMap<u32, hotmeal::NodeId>) {
    if let Patch::Move { from, .. } | Patch::Remove { node: from } = p
        && from.0.0.len() == 1
    {
        slots.remove(&from.0.0[0]);
    }
}
fn nested(r: &mut Rng, depth: usize) -> InsertContent<'static> {
    match r.below(if depth > 3 { 2 } else { 5 }) {
        0 => InsertContent::Text(Stem::from(generate::text(r))),
        1 => InsertContent::Comment(Stem::from(r.pick(&["", " ", " c ", "c\n", "\tx", "--", "é"]).to_string())),
        _ => InsertContent::Element { tag: LocalName::from(*r.pick(NESTED)), attrs: some_attrs(r), children: (0..r.below(4)).map(|_| nested(r, depth + 1)).collect() },
    }
}
const NESTED: &[&str] = &["div", "p", "b", "template", "template", "svg", "math", "mi", "desc", "title", "mglyph", "annotation-xml", "td", "script", "my-el"];
fn some_attrs(r: &mut Rng) -> Vec<AttrPair<'static>> {
    let mut v: Vec<Attr> = vec![];
    for _ in 0..r.below(4) {
        let a = match r.below(8) {
            0 => Attr::new("encoding", r.pick(&["text/html", "application/xhtml+xml", "x"])),
            _ => Attr::new(r.pick(&["id", "class", "title", "data-x", "href"]), &generate::text(r)),
        };
        if !v.iter().any(|b| b.qname() == a.qname()) {
            v.push(a);
        }
    }
    v.iter().map(|a| AttrPair { name: crate::api::q(a), value: Stem::from(a.value.clone()) }).collect()
}
fn made(r: &mut Rng, corpus: &(Vec<String>, Vec<(String, String)>), i: u64) -> Option<Hostile> {
    let doc = generate::chain(r, 1, corpus, i).docs.swap_remove(0);
    let t = StrTendril::from(doc.as_str());
    let mut d = parse(&t);
    d.body()?;
    let mut slots = d.init_patch_slots();
    let mut patches = vec![];
    // slots may be numbered from anywhere
    let mut fresh = *r.pick(&[1, 1, 1, 33, 65, 260]);
    let words = |r: &mut Rng| if r.chance(1, 8) { String::new() } else { generate::text(r) };
    for _ in 0..r.range(1, 14) {
        // somewhere that is there
        let somewhere = |r: &mut Rng, d: &Document, slots: &HashMap<u32, hotmeal::NodeId>| {
            let mut keys: Vec<u32> = slots.keys().copied().collect();
            keys.sort();
            let s = if r.chance(2, 3) { 0 } else { *r.pick(&keys) };
            let (mut p, mut n) = (vec![s], slots[&s]);
            while r.chance(3, 4) && d.children(n).count() > 0 {
                let k = r.below(d.children(n).count());
                p.push(k as u32);
                n = d.children(n).nth(k).unwrap();
            }
            (p, n)
        };
        let (p, n) = somewhere(r, &d, &slots);
        let count = d.children(n).count();
        let (at, keep) = if r.chance(1, 2) || count == 0 { (count + *r.pick(&[0, 0, 0, 1, 3]), None) } else { (r.below(count), Some(fresh)) };
        let keep = if keep.is_none() && r.chance(1, 8) { Some(fresh) } else { keep };
        let keep = keep.map(|s| if r.chance(1, 5) { r.range(1, s as usize + 1) as u32 } else { s });
        let path = |v: &[u32]| NodePath(v.iter().copied().collect());
        let mut q = p.clone();
        q.push(at as u32);
        let here = NodeRef(path(&q));
        let x = match r.below(11) {
            0..=2 => Patch::InsertElement { at: here, tag: LocalName::from(*r.pick(NESTED)), attrs: some_attrs(r), children: (0..r.below(4)).map(|_| nested(r, 0)).collect(), detach_to_slot: keep },
            3 => Patch::InsertText { at: here, text: Stem::from(words(r)), detach_to_slot: keep },
            4 => Patch::InsertComment { at: here, text: Stem::from(generate::word(r)), detach_to_slot: keep },
            5 => Patch::Remove { node: NodeRef(path(&p)) },
            6 => Patch::SetText { path: path(&p), text: Stem::from(words(r)) },
            7 => {
                let a = some_attrs(r).pop()?;
                Patch::SetAttribute { path: path(&p), name: a.name, value: a.value }
            }
            8 => match &d.get(n).kind {
                NodeKind::Element(e) if !e.attrs.is_empty() => {
                    let name = r.pick(&e.attrs).0.clone();
                    Patch::RemoveAttribute { path: path(&p), name }
                }
                _ => continue,
            },
            9 => match &d.get(n).kind {
                NodeKind::Element(e) => {
                    let mut c: Vec<PropChange<'static>> = some_attrs(r).into_iter().map(|a| PropChange { name: PropKey::Attr(a.name), value: Some(a.value) }).collect();
                    for (k, _) in e.attrs.iter() {
                        let k = PropKey::Attr(k.clone());
                        if r.chance(2, 3) && !c.iter().any(|x| x.name.to_string() == k.to_string()) {
                            c.insert(r.below(c.len() + 1), PropChange { name: k, value: None });
                        }
                    }
                    Patch::UpdateProps { path: path(&p), changes: c }
                }
                _ => Patch::UpdateProps { path: path(&p), changes: vec![PropChange { name: PropKey::Text, value: Some(Stem::from(words(r))) }] },
            },
            _ => {
                let (f, _) = somewhere(r, &d, &slots);
                Patch::Move { from: NodeRef(path(&f)), to: here, detach_to_slot: keep }
            }
        };
        if !fits(&d, &slots, &x) || d.apply_patch_with_slots(x.clone(), &mut slots).is_err() {
            continue;
        }
        fresh += 1;
        spend(&x, &mut slots);
        patches.push(x);
    }
    Some(Hostile { doc, patches, how: "made to fit" })
}
fn fitting(c: &Hostile, acc: &mut Acc) -> Vec<Bad> {
    dom::set_html(inner_parser, inner_serializer);
    dom::set_listener(None);
    for strict in [true, false] {
        dom::set_strict_names(strict);
        let t = StrTendril::from(c.doc.as_str());
        let mut d = parse(&t);
        if d.body().is_none() {
            return vec![];
        }
        let mut slots = d.init_patch_slots();
        let Some(page) = Page::new(&c.doc, false) else { return vec![] };
        let mut s = client::Slots::new();
        for (i, p) in c.patches.iter().enumerate() {
            if !fits(&d, &slots, p) || d.apply_patch_with_slots(p.clone(), &mut slots).is_err() {
                return vec![];
            }
            spend(p, &mut slots);
            match client::apply_patches_with_slots(std::slice::from_ref(p), &mut s) {
                Ok(1) => {}
                x => return bad("made-apply", format!("patch {i} ({p:?}) gives {x:?}")),
            }
            let (Node::Elem(have), Some(want)) = (from_dom(&page.root), snap::body(&d)) else { unreachable!() };
            if let Some(m) = diff_msg(&drop_empty_text(&have), &drop_empty_text(&want), "") {
                return bad("made-differs", format!("after patch {i} ({p:?}) the page is not what hotmeal's own document is: {m}"));
            }
            if let Patch::InsertElement { children, .. } = p
                && !children.is_empty()
            {
                acc.add("elements inserted with content", 1);
            }
            acc.add("patches made to fit", 1);
        }
        if !page.rest_untouched() {
            return bad("rest-of-page", "something outside the body changed".to_string());
        }
        dom::set_document(None);
    }
    acc.seen(&c.show());
    vec![]
}

pub fn h12(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "histories",
        cx.scale(90_000, 2_500_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 1201, i);
            let n = *r.pick(&[2, 2, 2, 3, 5, 8]);
            let mut c = generate::chain(&mut r, n, &corpus, i);
            c.opt = r.next();
            Some(c)
        },
        browse,
    );
    cx.cases(
        "patch lists that may not fit",
        cx.scale(45_000, 1_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 1202, i);
            crate::api::hostile_list(&mut r, &corpus, i)
        },
        survive,
    );
    cx.cases(
        "patches made to fit",
        cx.scale(60_000, 3_000_000),
        |i| made(&mut Rng::stream(cx.seed, 1203, i), &corpus, i),
        fitting,
    );
    let mut f: Vec<(&str, u64)> = ENTRIES.iter().map(|e| (*e, 300)).collect();
    f.extend([
        ("steps", 30_000),
        ("InsertElement patches", 5_000),
        ("Move patches", 3_000),
        ("UpdateProps patches", 5_000),
        ("opaque-changed events", 500),
        ("opaque elements seen untouched", 1_000),
        ("steps to pages with foreign content", 300),
        ("steps to pages with templates", 100),
        ("browsers with XML names", 1_000),
        ("browsers with relaxed names", 1_000),
        ("patches made to fit", 100_000),
        ("elements inserted with content", 10_000),
        ("lists applied", 500),
        ("lists refused", 500),
    ]);
    cx.finish("a distinct history of documents, applied by the client through one of its entry points", &f)
}
