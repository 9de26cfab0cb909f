//! H24: what is shown of pages, patches and refusals is what they are.
use crate::api::{Hostile, any_patch, hostile_list};
use crate::client::Page;
use crate::generate::{self, Docs};
use crate::harness::*;
use crate::refdom;
use crate::rng::Rng;
use crate::snap;
use crate::tree::*;
use hotmeal::{DiffError, Document, NodeId, NodeKind, Patch, StrTendril, diff, parse};
use hotmeal_wasm as client;
use std::collections::HashMap;
use wasm_bindgen::dom::{self, Kind};
use wasm_bindgen::{JsCast, JsValue, Val};

// ---- dumps of documents

fn dumped(n: &Node, depth: usize, o: &mut String) {
    let pad = "  ".repeat(depth);
    match n {
        Node::Text(t) => *o += &format!("{pad}TEXT: {t:?}\n"),
        Node::Comment(t) => *o += &format!("{pad}COMMENT: {t:?}\n"),
        Node::Doctype(..) => {}
        Node::Elem(e) => {
            let tag = e.tag.to_ascii_lowercase();
            *o += &format!("{pad}<{tag}");
            let mut v: Vec<&Attr> = e.attrs.iter().collect();
            v.sort_by(|a, b| a.local.cmp(&b.local));
            for a in v {
                *o += &format!(" {}={:?}", a.local, a.value);
            }
            *o += ">\n";
            for c in &e.children {
                dumped(c, depth + 1, o);
            }
            *o += &format!("{pad}</{tag}>\n");
        }
    }
}
fn first_difference(got: &str, want: &str) -> Option<String> {
    if got == want {
        return None;
    }
    let (mut g, mut w) = (got.lines(), want.lines());
    for k in 1.. {
        let (a, b) = (g.next(), w.next());
        if a != b || a.is_none() {
            return Some(format!("line {k} is {a:?}, expected {b:?}"));
        }
    }
    None
}
fn all_nodes(d: &Document) -> Vec<NodeId> {
    let mut v = vec![d.root];
    let mut k = 0;
    while k < v.len() {
        v.extend(d.children(v[k]));
        k += 1;
    }
    v
}
fn dumps_of(d: &Document, pick: u64, acc: &mut Acc) -> Vec<Bad> {
    match (d.dump_body(), snap::body(d)) {
        (None, None) => acc.add("documents without a body", 1),
        (Some(g), Some(b)) => {
            let mut w = String::new();
            dumped(&Node::Elem(b), 0, &mut w);
            if let Some(m) = first_difference(&g, &w) {
                return bad("dump-body", m);
            }
        }
        (g, b) => return bad("dump-body", format!("dump_body says {g:?}; body: {}", b.is_some())),
    }
    let all = all_nodes(d);
    let few: Vec<NodeId> = [d.root, all[pick as usize % all.len()], all[(pick >> 20) as usize % all.len()], all[(pick >> 40) as usize % all.len()]].into();
    for n in few {
        if matches!(d.get(n).kind, NodeKind::Document) {
            continue;
        }
        let mut w = String::new();
        dumped(&snap::node(d, n).unwrap(), 0, &mut w);
        let g = d.dump_subtree(n);
        if let Some(m) = first_difference(&g, &w) {
            return bad("dump-subtree", m);
        }
        acc.add("subtrees shown", 1);
        acc.add("lines read", w.lines().count() as u64);
    }
    vec![]
}

// ---- patches

fn begin(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}
fn told(p: &Patch) -> String {
    let slot = |s: &Option<u32>| s.map(|s| format!(" →slot{s}")).unwrap_or_default();
    match p {
        Patch::InsertElement { at, tag, attrs, children, detach_to_slot } => {
            let many = |n: usize, what: &str| if n == 0 { String::new() } else { format!(" ({n} {what})") };
            format!("Insert <{tag}> @{:?}{}{}{}", at.0.0.to_vec(), many(attrs.len(), "attrs"), many(children.len(), "children"), slot(detach_to_slot))
        }
        Patch::InsertText { at, text, detach_to_slot } => format!("Insert text {:?} @{:?}{}", begin(text.as_ref(), 20), at.0.0.to_vec(), slot(detach_to_slot)),
        Patch::InsertComment { at, text, detach_to_slot } => format!("Insert comment {:?} @{:?}{}", begin(text.as_ref(), 20), at.0.0.to_vec(), slot(detach_to_slot)),
        Patch::Remove { node } => format!("Remove @{:?}", node.0.0.to_vec()),
        Patch::SetText { path, text } => format!("SetText {:?} @{:?}", begin(text.as_ref(), 20), path.0.to_vec()),
        Patch::SetAttribute { path, name, value } => format!("SetAttr {}={:?} @{:?}", name.local, value.as_ref() as &str, path.0.to_vec()),
        Patch::RemoveAttribute { path, name } => format!("RemoveAttr {} @{:?}", name.local, path.0.to_vec()),
        Patch::Move { from, to, detach_to_slot } => format!("Move {:?} → {:?}{}", from.0.0.to_vec(), to.0.0.to_vec(), slot(detach_to_slot)),
        Patch::UpdateProps { path, changes } => format!("UpdateProps @{:?} ({} changes)", path.0.to_vec(), changes.len()),
        Patch::OpaqueChanged { path, content } => format!("OpaqueChanged @{:?} {:?}", path.0.to_vec(), begin(content.as_ref(), 40)),
    }
}
fn patches_shown(p: &[Patch], acc: &mut Acc) -> Vec<Bad> {
    for x in p {
        let (got, want) = (format!("{x:?}"), told(x));
        if got != want {
            return bad("patch", format!("shown as {got:?}, expected {want:?}"));
        }
        acc.add("patches shown", 1);
    }
    vec![]
}

fn documents(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    let ts: Vec<StrTendril> = c.docs.iter().map(|d| StrTendril::from(d.as_str())).collect();
    let docs: Vec<Document> = ts.iter().map(parse).collect();
    for d in &docs {
        let v = dumps_of(d, c.opt, acc);
        if !v.is_empty() {
            return v;
        }
    }
    if docs.len() > 1
        && let Ok(p) = diff(&docs[0], &docs[1])
    {
        let v = patches_shown(&p, acc);
        if !v.is_empty() {
            return v;
        }
        let mut d = docs[0].clone();
        if d.apply_patches(p).is_ok() {
            let v = dumps_of(&d, c.opt >> 7, acc);
            if !v.is_empty() {
                return v;
            }
        }
    }
    acc.seen(&c.docs.concat());
    vec![]
}

// ---- refusals

fn paths(p: &Patch) -> Vec<Vec<u32>> {
    match p {
        Patch::InsertElement { at, .. } | Patch::InsertText { at, .. } | Patch::InsertComment { at, .. } => vec![at.0.0.to_vec()],
        Patch::Remove { node } => vec![node.0.0.to_vec()],
        Patch::Move { from, to, .. } => vec![from.0.0.to_vec(), to.0.0.to_vec()],
        Patch::SetText { path, .. } | Patch::SetAttribute { path, .. } | Patch::RemoveAttribute { path, .. } | Patch::UpdateProps { path, .. } | Patch::OpaqueChanged { path, .. } => {
            vec![path.0.to_vec()]
        }
    }
}
fn walk(d: &Document, slots: &HashMap<u32, NodeId>, p: &[u32]) -> Result<NodeId, Option<u32>> {
    let mut n = *slots.get(p.first().ok_or(None)?).ok_or(None)?;
    for k in &p[1..] {
        n = d.children(n).nth(*k as usize).ok_or(Some(*k))?;
    }
    Ok(n)
}
/// Is the reason given for refusing a patch a true one? (Which of several reasons is given is open.)
fn true_reason(d: &Document, slots: &HashMap<u32, NodeId>, p: &Patch, e: &DiffError) -> Result<&'static str, String> {
    let ps = paths(p);
    let elem = |n: NodeId| matches!(d.get(n).kind, NodeKind::Element(_));
    let said = e.to_string();
    let number = |n: &str| said.split(|c: char| !c.is_ascii_digit()).any(|w| w == n);
    let inserts = matches!(p, Patch::InsertElement { .. } | Patch::InsertText { .. } | Patch::InsertComment { .. } | Patch::Move { .. });
    let to = ps.last().unwrap();
    let home = to.split_last().and_then(|(_, h)| walk(d, slots, h).ok());
    let (ok, what) = match e {
        DiffError::SlotNotFound { slot } => {
            (ps.iter().any(|q| q.first() == Some(slot)) && !slots.contains_key(slot) && number(&slot.to_string()), "refusals for want of a slot")
        }
        DiffError::PathOutOfBounds { index } => {
            let i = *index as u32;
            let there = ps.iter().any(|q| walk(d, slots, q) == Err(Some(i)));
            // the second path of a move is followed after the first has been taken out
            let moved = matches!(p, Patch::Move { .. }) && to.get(1..).is_some_and(|t| t.contains(&i));
            ((there || moved) && number(&index.to_string()), "refusals for a path that leads nowhere")
        }
        DiffError::EmptyPath => (ps.iter().any(|q| q.len() < 2), "refusals for a path too short"),
        DiffError::NotATextNode => (matches!(p, Patch::SetText { .. }) && walk(d, slots, to).is_ok_and(elem), "refusals to set the text of an element"),
        DiffError::NotAnElement => {
            let n = if inserts { home } else { walk(d, slots, to).ok() };
            // what is moved leaves a text behind while its target is looked up
            let gap = matches!(p, Patch::Move { .. }) && (n.is_none() || to.starts_with(&ps[0]));
            (n.is_some_and(|n| !elem(n)) || gap, "refusals to treat a text or comment as an element")
        }
        DiffError::MoveIntoSelf => {
            let from = walk(d, slots, &ps[0]).ok();
            let mut up = home;
            let mut within = false;
            while let Some(n) = up {
                within |= Some(n) == from;
                up = d.parent(n);
            }
            (matches!(p, Patch::Move { .. }) && (within || home.is_none()), "refusals to move a node into itself")
        }
        other => return Err(format!("{other:?} is no reason to refuse {p:?}")),
    };
    if ok && !said.is_empty() { Ok(what) } else { Err(format!("{p:?} is refused with {e:?} ({said:?}), which is not so")) }
}
fn refusals(c: &Hostile, acc: &mut Acc) -> Vec<Bad> {
    let t = StrTendril::from(c.doc.as_str());
    let mut d = parse(&t);
    if d.body().is_none() {
        return vec![];
    }
    let v = patches_shown(&c.patches, acc);
    if !v.is_empty() {
        return v;
    }
    let mut slots = d.init_patch_slots();
    for p in &c.patches {
        let (before, places) = (d.clone(), slots.clone());
        if let Err(e) = d.apply_patch_with_slots(p.clone(), &mut slots) {
            match true_reason(&before, &places, p, &e) {
                Ok(w) => acc.add(w, 1),
                Err(m) => return bad("reason", m),
            }
            break;
        }
    }
    // the client says which patch of the list it could not apply, and why
    dom::set_html(crate::client::inner_parser, crate::client::inner_serializer);
    dom::set_listener(None);
    dom::set_strict_names(false);
    let said = |e: JsValue| e.as_string().unwrap_or_else(|| format!("{e:?}"));
    if Page::new(&c.doc, false).is_none() {
        return vec![];
    }
    let whole = client::apply_patches(&c.patches).map_err(said);
    Page::new(&c.doc, false);
    let mut s = client::Slots::new();
    let mut single = Ok(c.patches.len());
    for (i, p) in c.patches.iter().enumerate() {
        if let Err(e) = client::apply_patches_with_slots(std::slice::from_ref(p), &mut s) {
            let m = said(e);
            if dom::document().is_some_and(|d| d.find(&mut |n| n.is_html("body")).is_none()) {
                acc.add("lists that took the body away", 1);
                return vec![];
            }
            let Some(why) = m.strip_prefix("patch 0: ") else { return bad("client-reason", format!("a list of one patch fails with {m:?}")) };
            single = Err(format!("patch {i}: {why}"));
            break;
        }
    }
    if whole != single {
        return bad("client-reason", format!("the list gives {whole:?}, its patches one by one {single:?}"));
    }
    acc.add(if whole.is_ok() { "lists a client applied" } else { "lists a client refused" }, 1);
    acc.seen(&c.show());
    vec![]
}

// ---- what the client shows

fn escaped(t: &str) -> String {
    format!("{:?}", t.replace('\n', "\\n").replace(' ', "·"))
}
fn dumped_live(n: &dom::Node, depth: usize, o: &mut String) {
    let pad = "  ".repeat(depth);
    match &n.0.kind {
        Kind::Element { .. } => *o += &format!("{pad}Element({})\n", n.name()),
        Kind::Text => *o += &format!("{pad}Text({})\n", escaped(&n.text_content().unwrap_or_default())),
        _ => *o += &format!("{pad}Node(type={})\n", n.node_type()),
    }
    for c in n.kids() {
        dumped_live(&c, depth + 1, o);
    }
}
fn dumped_parsed(n: &Node, depth: usize, o: &mut String) {
    let pad = "  ".repeat(depth);
    match n {
        Node::Elem(e) => {
            *o += &format!("{pad}Element({})\n", e.tag.to_uppercase());
            for c in &e.children {
                dumped_parsed(c, depth + 1, o);
            }
        }
        Node::Text(t) => *o += &format!("{pad}Text({})\n", escaped(t)),
        Node::Comment(t) => *o += &format!("{pad}Comment({t:?})\n"),
        Node::Doctype(..) => {}
    }
}
fn client_shows(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    dom::set_html(crate::client::inner_parser, crate::client::inner_serializer);
    dom::set_listener(None);
    let Some(page) = Page::new(&c.docs[0], false) else {
        return vec![];
    };
    let check = |acc: &mut Acc| -> Option<Vec<Bad>> {
        let mut w = String::new();
        dumped_live(&page.root, 0, &mut w);
        match client::dump_browser_dom() {
            Ok(g) => {
                if let Some(m) = first_difference(&g, &w) {
                    return Some(bad("dump-browser", m));
                }
            }
            Err(e) => return Some(bad("dump-browser", format!("{e:?}"))),
        }
        acc.add("live pages shown", 1);
        match client::get_body_inner_html() {
            Ok(h) if h == crate::client::inner_serializer(&page.root) => None,
            x => Some(bad("get-body", format!("{x:?}"))),
        }
    };
    if let Some(v) = check(acc) {
        return v;
    }
    let html = &c.docs[1];
    if let Err(e) = client::set_body_inner_html(html) {
        return bad("set-body", format!("{e:?}"));
    }
    let want = refdom::parse_inner(html, dom::HTML, "body");
    let Node::Elem(have) = crate::client::from_dom(&page.root) else { return bad("set-body", "no body left") };
    if have.children != want {
        return bad("set-body", format!("set_body_inner_html made {:?}, expected {want:?}", have.children));
    }
    if !page.rest_untouched() {
        return bad("set-body", "set_body_inner_html changed the page around the body");
    }
    if let Some(v) = check(acc) {
        return v;
    }
    let full = format!("<html><body>{html}</body></html>");
    let r = refdom::parse_full(&crate::parsing::wrapped(&full).0);
    match (client::dump_rust_parsed(html), r.body()) {
        (Ok(g), Some(b)) => {
            let mut w = String::new();
            dumped_parsed(&Node::Elem(b.clone()), 0, &mut w);
            if let Some(m) = first_difference(&g, &w) {
                return bad("dump-parsed", m);
            }
            acc.add("parsed pages shown", 1);
        }
        (Err(_), None) => acc.add("parsed pages without a body", 1),
        (g, b) => return bad("dump-parsed", format!("{g:?}, body: {}", b.is_some())),
    }
    acc.seen(&c.docs.concat());
    vec![]
}

// ---- where a client keeps what is detached

#[derive(Clone, Debug)]
struct Keeping(Vec<(u8, u32)>);
impl Case for Keeping {
    fn show(&self) -> String {
        format!("{:?}\n", self.0)
    }
    fn shrinks(&self) -> Vec<Self> {
        (0..self.0.len())
            .map(|k| {
                let mut c = self.clone();
                c.0.remove(k);
                c
            })
            .collect()
    }
}
fn kept(c: &Keeping, acc: &mut Acc) -> Vec<Bad> {
    let mut s = client::Slots::default();
    let mut m: HashMap<u32, u64> = HashMap::new();
    let id = |n: &web_sys::Node| match &AsRef::<JsValue>::as_ref(n).0 {
        Val::Node(n) => n.0.id,
        _ => 0,
    };
    for (i, (op, k)) in c.0.iter().enumerate() {
        match op {
            0 => {
                let n = dom::Node::text("x");
                m.insert(*k, n.0.id);
                s.store(*k, web_sys::Node::unchecked_from_js(JsValue(Val::Node(n))));
            }
            1 => {
                let (g, w) = (s.take(*k).as_ref().map(id), m.remove(k));
                if g != w {
                    return bad("slots", format!("step {i}: take({k}) gives {g:?}, expected {w:?}"));
                }
            }
            _ => {
                let (g, w) = (s.get(*k).map(id), m.get(k).copied());
                if g != w {
                    return bad("slots", format!("step {i}: get({k}) gives {g:?}, expected {w:?}"));
                }
            }
        }
        acc.add("slot operations", 1);
    }
    for k in 0..1200 {
        if s.get(k).map(id) != m.get(&k).copied() {
            return bad("slots", format!("at the end, slot {k} holds {:?}, expected {:?}", s.get(k).map(id), m.get(&k)));
        }
    }
    acc.seen(&c.show());
    vec![]
}

pub fn h24(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "documents and the patches between them",
        cx.scale(60_000, 4_000_000),
        |i| Some(generate::chain(&mut Rng::stream(cx.seed, 2401, i), 2, &corpus, i)),
        documents,
    );
    cx.cases(
        "patch lists of any origin",
        cx.scale(100_000, 5_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 2402, i);
            let mut c = hostile_list(&mut r, &corpus, i)?;
            if r.chance(1, 4) {
                c.patches.push(any_patch(&mut r, 3));
            }
            Some(c)
        },
        refusals,
    );
    cx.cases(
        "pages in a browser",
        cx.scale(40_000, 3_000_000),
        |i| Some(generate::chain(&mut Rng::stream(cx.seed, 2403, i), 2, &corpus, i)),
        client_shows,
    );
    cx.cases(
        "nodes kept aside",
        cx.scale(2_000, 100_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 2404, i);
            let top = *r.pick(&[1, 3, 8, 1200]);
            Some(Keeping((0..r.range(1, 40)).map(|_| (r.below(3) as u8, r.below(top) as u32)).collect()))
        },
        kept,
    );
    cx.finish(
        "a distinct pair of documents, list of patches, page or history of slots whose every display was compared with what it shows",
        &[
            ("lines read", 500_000),
            ("patches shown", 200_000),
            ("refusals for want of a slot", 500),
            ("refusals for a path that leads nowhere", 5_000),
            ("refusals for a path too short", 200),
            ("refusals to set the text of an element", 200),
            ("refusals to treat a text or comment as an element", 1_000),
            ("refusals to move a node into itself", 50),
            ("lists a client applied", 10_000),
            ("lists a client refused", 5_000),
            ("live pages shown", 30_000),
            ("parsed pages shown", 20_000),
            ("slot operations", 20_000),
        ],
    )
}
