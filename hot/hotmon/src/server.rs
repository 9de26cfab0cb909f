//! H10 head injection, H11 the live-reload server.
use crate::checks::same_body;
use crate::generate::{self, Docs};
use crate::harness::*;
use crate::refdom;
use crate::rng::Rng;
use crate::tree::*;
use hotmeal::{Document, Patch, StrTendril, parse};
use hotmeal_server::{LiveReloadEvent, LiveReloadServer, inject_into_head};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ H10

const PROBE: &str = "<meta name=\"hm-probe\">";

fn is_probe(n: &Node) -> bool {
    n.elem().is_some_and(|e| e.tag == "meta" && e.attr("name") == Some("hm-probe"))
}
fn head_of(d: &refdom::RefDoc) -> Option<&Elem> {
    d.html()?.children.iter().filter_map(|c| c.elem()).find(|e| e.tag == "head" && e.ns == Ns::Html)
}
/// Where a parser really sees the head's start tag: the occurrence of `<head` that, given an extra
/// attribute, shows it on the head element of the tree.
fn real_head(s: &str) -> Option<usize> {
    let l = s.to_ascii_lowercase();
    let mut from = 0;
    while let Some(i) = l[from..].find("<head") {
        let at = from + i;
        from = at + 5;
        if !matches!(l.as_bytes().get(at + 5), Some(b' ' | b'\t' | b'\n' | b'\x0c' | b'\r' | b'/' | b'>')) {
            continue;
        }
        let marked = format!("{} hm-mark=1 {}", &s[..at + 5], &s[at + 5..]);
        let d = refdom::parse_full(&marked);
        if head_of(&d).is_some_and(|h| h.attr("hm-mark").is_some()) {
            return Some(at);
        }
    }
    None
}
fn inject(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    for s in &c.docs {
        if s.contains("hm-") {
            continue;
        }
        // what is injected may already be there: in front, or from an earlier injection
        let s = match c.opt % 4 {
            1 => &inject_into_head(s, OTHER),
            _ => s,
        };
        let got = inject_into_head(s, PROBE);
        // nothing else may change: taking the probe out again gives the source
        let Some(at) = got.find(PROBE) else {
            return bad("lost", "the injected content is missing");
        };
        if got.matches(PROBE).count() != 1 || format!("{}{}", &got[..at], &got[at + PROBE.len()..]) != *s {
            return bad("altered", "more than the injection changed");
        }
        let plain = refdom::parse_full(s);
        match real_head(s) {
            Some(_) => {
                let d = refdom::parse_full(&got);
                let ok = head_of(&d).is_some_and(|h| h.children.first().is_some_and(is_probe));
                if !ok {
                    return bad("misplaced", format!("the document has a <head>, but what was injected is not the first thing in it: {got:?}"));
                }
                let mut h = d.html().unwrap().clone();
                for c in h.children.iter_mut() {
                    if let Node::Elem(e) = c
                        && e.tag == "head"
                    {
                        e.children.remove(0);
                        // text before and after the probe comes together again
                        break;
                    }
                }
                if Some(&h) != plain.html() {
                    return bad("disturbed", format!("injecting changed the rest of the document: {}", plain.html().and_then(|p| diff_msg(&h, p, "")).unwrap_or_default()));
                }
                acc.add("injections into a head", 1);
                if s.to_ascii_lowercase().matches("<head").count() > 1 {
                    acc.add("injections among decoys", 1);
                }
            }
            None => {
                if at != 0 {
                    return bad("no-head", format!("the document has no <head> tag, but the injection is not in front: {got:?}"));
                }
                acc.add("injections in front", 1);
                if s.to_ascii_lowercase().contains("<head") {
                    acc.add("decoys without a head", 1);
                }
            }
        }
        // any content, also one the page already holds just there: the page gains exactly that
        for content in [OTHER, "", "x", "<head>", "</head>"] {
            let before = if c.opt % 2 == 0 { inject_into_head(s, content) } else { s.clone() };
            let p = inject_into_head(&before, PROBE).find(PROBE).unwrap();
            let after = inject_into_head(&before, content);
            if after != format!("{}{content}{}", &before[..p], &before[p..]) {
                return bad("content", format!("injecting {content:?} into {before:?} gives {after:?}"));
            }
            acc.add("injections of other content", 1);
        }
        acc.seen(s);
    }
    vec![]
}
/// What a live-reload server injects.
const OTHER: &str = "<script type=\"module\">import(\"/x\")</script>";
fn headed(r: &mut Rng) -> String {
    let mut s = String::new();
    let decoy = |r: &mut Rng| r.pick(&["<head>", "<header>", "<head", "<head ", "<heading>", "<HEAD>", "x"]).to_string();
    for _ in 0..r.below(3) {
        s.push_str(r.pick(&["", " ", "\n", "<?xml version=\"1.0\"?>", "</p>", "<!x>", "\u{feff}"]));
        if r.chance(1, 3) {
            s.push_str(&format!("<!-- {} -->", decoy(r)));
        }
    }
    s.push_str(r.pick(&["", "<!DOCTYPE html>", "<!doctype html>\n", "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://x\">"]));
    if r.chance(1, 3) {
        s.push_str(&format!("<!--{}-->", decoy(r)));
    }
    if r.chance(3, 4) {
        s.push_str(r.pick(&["<html", "<HTML", "<html\n", "<html\x0clang='>'", "<html/"]));
        match r.below(5) {
            0 => s.push_str(&format!(" data-x=\"{}\"", decoy(r))),
            1 => s.push_str(&format!(" data-x='{}'", decoy(r))),
            2 => s.push_str(" lang=en"),
            3 => s.push_str(" data-x=\">\" class"),
            _ => {}
        }
        s.push('>');
    }
    if r.chance(1, 3) {
        s.push_str(r.pick(&["\n", "  ", "<!-- <head> -->", "<!-->", "<!--->", "<!-- a --!>", "<!--a-->b-->", "</x>", "<!-- > <head> -->"]));
    }
    if r.chance(3, 4) {
        s.push_str(r.pick(&["<head", "<head", "<HEAD", "<Head"]));
        s.push_str(r.pick(&["", "", " ", "\n", "\x0c", "\t", "\r", "\x0cclass=a", "\tx='>'", " lang=en", " data-y=\"a>b\"", " data-y='>'", " x=a>", " href=/y=\"a>b\"", " x=/>", "/", " /", " data-y = \"<head>\"", " a\"b", " ='>'"]));
        s.push('>');
        if r.chance(1, 2) {
            s.push_str(r.pick(&["<title>t</title>", "\n<meta charset=utf-8>", "<script>'<head>'</script>", "<style>a{}</style>", "<!--c-->", "text"]));
        }
        if r.chance(2, 3) {
            s.push_str("</head>");
        }
    }
    let st = *r.pick(&[generate::PLAIN, generate::RICH]);
    let k = r.range(0, 6);
    let b = generate::body(r, st, k);
    s.push_str(&if r.chance(1, 2) { generate::outer(&b) } else { generate::inner(&b) });
    if r.chance(1, 4) {
        s.push_str(&format!("<header>{}</header>", decoy(r)));
    }
    if r.chance(1, 6) {
        s = generate::damage(r, &s);
    }
    s
}
pub fn h10(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "documents",
        cx.scale(300_000, 4_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 1001, i);
            if i % 500 == 0 && !corpus.0.is_empty() {
                return Some(Docs { docs: vec![corpus.0[(i / 500) as usize % corpus.0.len()].clone()], opt: 0, how: "whole real page", min: 1 });
            }
            let d = match i % 6 {
                0 => {
                    let k = r.range(0, 20);
                    generate::soup(&mut r, k)
                }
                1 => generate::chain(&mut r, 2, &corpus, i / 6).docs[0].clone(),
                _ => headed(&mut r),
            };
            Some(Docs { docs: vec![d], opt: r.next(), how: "page with and without a head", min: 1 })
        },
        inject,
    );
    cx.finish(
        "a distinct document injected into and parsed back",
        &[("injections into a head", 5_000), ("injections in front", 5_000), ("injections among decoys", 500), ("decoys without a head", 500), ("injections of other content", 20_000)],
    )
}

// ------------------------------------------------------------------ H11

#[derive(Clone, Debug)]
enum Op {
    Serve(usize, usize),
    Head(usize, usize),
    Diff(usize, usize),
    DiffHead(usize, usize, usize),
    Forget(usize),
    Clear,
    List,
}
#[derive(Clone)]
struct Hist {
    pages: Vec<String>,
    heads: Vec<String>,
    ops: Vec<Op>,
}
impl Case for Hist {
    fn show(&self) -> String {
        let mut s = String::new();
        for (i, p) in self.pages.iter().enumerate() {
            s.push_str(&format!("page {i}: {p:?}\n"));
        }
        for (i, p) in self.heads.iter().enumerate() {
            s.push_str(&format!("head {i}: {p:?}\n"));
        }
        s.push_str("operations (route, page, head):\n");
        for o in &self.ops {
            s.push_str(&format!("  {o:?}\n"));
        }
        s
    }
    fn shrinks(&self) -> Vec<Self> {
        let mut v = vec![];
        let n = self.ops.len();
        for w in [n / 2, n / 4, 1] {
            for i in (0..n).step_by(w.max(1)) {
                let mut c = self.clone();
                c.ops.drain(i..(i + w.max(1)).min(n));
                v.push(c);
            }
        }
        let d = Docs { docs: self.pages.clone(), opt: 0, how: "", min: self.pages.len() };
        for s in d.shrinks() {
            v.push(Hist { pages: s.docs, ..self.clone() });
        }
        v
    }
}
fn rt(i: usize) -> String {
    if i >= 14 {
        // many pages, some with long names
        return if i % 7 == 0 { format!("/{}/{i}", "long/".repeat(i)) } else { format!("/page/{i}") };
    }
    ["/", "/a", "/a/", "/b/c", "", "/A", "/é", "/a/index.html", "/a?x=1", "/a#f", " /a", "a", "//", "/e\u{301}"][i % 14].to_string()
}
/// What a browser showing one route holds.
struct Client<'a> {
    doc: Document<'a>,
}
fn hist(c: &Hist, acc: &mut Acc) -> Vec<Bad> {
    let ts: Vec<StrTendril> = c.pages.iter().map(|d| StrTendril::from(d.as_str())).collect();
    let parsed: Vec<Document> = ts.iter().map(parse).collect();
    let lost: Vec<bool> = parsed.iter().map(crate::checks::lost_in_opaque_body).collect();
    let mut s = LiveReloadServer::new();
    // the specification's state
    let mut html: BTreeMap<String, usize> = BTreeMap::new();
    let mut head: BTreeMap<String, usize> = BTreeMap::new();
    let mut client: BTreeMap<String, Client> = BTreeMap::new();
    let page_eq = |a: usize, b: usize| c.pages[a] == c.pages[b];
    for (step, op) in c.ops.iter().enumerate() {
        let at = format!("step {step} ({op:?})");
        match op {
            Op::Serve(r, p) => {
                let (r, p) = (rt(*r), p % c.pages.len());
                let got = s.cache_html(&r, &c.pages[p]);
                let want = html.insert(r.clone(), p).map(|o| c.pages[o].clone());
                if got != want {
                    return bad("cache", format!("{at}: cache_html returned {got:?}, expected {want:?}"));
                }
                client.insert(r, Client { doc: parsed[p].clone() });
                acc.add("pages served", 1);
            }
            Op::Head(r, h) => {
                let (r, h) = (rt(*r), h % c.heads.len());
                let got = s.cache_head_injections(&r, &c.heads[h]);
                let want = match head.insert(r, h) {
                    Some(o) => c.heads[o] != c.heads[h],
                    None => !c.heads[h].is_empty(),
                };
                if got != want {
                    return bad("head", format!("{at}: cache_head_injections says changed={got}, expected {want}"));
                }
            }
            Op::Diff(r, p) | Op::DiffHead(r, p, _) => {
                let (r, p) = (rt(*r), p % c.pages.len());
                let mut head_changed = false;
                let got = if let Op::DiffHead(_, _, h) = op {
                    let h = h % c.heads.len();
                    head_changed = match head.insert(r.clone(), h) {
                        Some(o) => c.heads[o] != c.heads[h],
                        None => !c.heads[h].is_empty(),
                    };
                    s.diff_route_with_head(&r, &c.pages[p], &c.heads[h])
                } else {
                    s.diff_route(&r, &c.pages[p])
                };
                // the event survives its trip as bytes
                let got = match got {
                    None => None,
                    Some(e) => {
                        let b = e.to_postcard();
                        match LiveReloadEvent::from_postcard(&b) {
                            Ok(x) if format!("{x:?}") == format!("{e:?}") => Some(x),
                            x => return bad("event-bytes", format!("{at}: event {e:?} came back as {x:?}")),
                        }
                    }
                };
                let before = html.insert(r.clone(), p);
                match (&got, head_changed, before) {
                    (Some(LiveReloadEvent::HeadChanged { route }), true, _) => {
                        if *route != r {
                            return bad("route", format!("{at}: event for route {route:?}"));
                        }
                        client.insert(r, Client { doc: parsed[p].clone() });
                        acc.add("HeadChanged events", 1);
                    }
                    (x, true, _) => return bad("head", format!("{at}: head injections changed, event is {x:?}")),
                    (Some(LiveReloadEvent::HeadChanged { .. }), false, _) => return bad("head", format!("{at}: HeadChanged although the head is the same")),
                    (Some(LiveReloadEvent::Reload), _, None) => {
                        client.insert(r, Client { doc: parsed[p].clone() });
                        acc.add("Reload events", 1);
                    }
                    (x, _, None) => return bad("reload", format!("{at}: nothing was cached for the route, event is {x:?}")),
                    (Some(LiveReloadEvent::Reload), _, Some(_)) => return bad("reload", format!("{at}: Reload although both versions are known")),
                    (None, _, Some(o)) => {
                        if !page_eq(o, p) {
                            acc.add("changed sources without visible change", 1);
                        }
                        acc.add("no event", 1);
                    }
                    (Some(LiveReloadEvent::Patches { route, patches_blob }), _, Some(o)) => {
                        if *route != r {
                            return bad("route", format!("{at}: event for route {route:?}"));
                        }
                        if page_eq(o, p) {
                            return bad("needless", format!("{at}: patches although the page is the same"));
                        }
                        let patches: Vec<Patch<'static>> = match facet_postcard::from_slice(patches_blob) {
                            Ok(x) => x,
                            Err(e) => return bad("patch-bytes", format!("{at}: patches do not decode: {e:?}")),
                        };
                        if patches.is_empty() {
                            return bad("needless", format!("{at}: an event without patches"));
                        }
                        acc.add("Patches events", 1);
                        acc.max("bytes of patches in one event", patches_blob.len() as u64);
                        let shown = format!("{patches:?}");
                        let cl = client.get_mut(&r).unwrap();
                        if let Err(e) = cl.doc.apply_patches(patches) {
                            return bad("apply", format!("{at}: the client cannot apply the patches: {e:?}; {shown}"));
                        }
                        // no patches for what a parser cannot tell apart
                        if crate::snap::body(&parsed[o]) == crate::snap::body(&parsed[p]) {
                            return bad("needless", format!("{at}: patches although the bodies are equal: {shown}"));
                        }
                    }
                }
            }
            Op::Forget(r) => {
                let r = rt(*r);
                let got = s.remove_route(&r);
                let (a, b) = (html.remove(&r).is_some(), head.remove(&r).is_some());
                if got != (a || b) {
                    return bad("remove", format!("{at}: remove_route says {got}"));
                }
                acc.add("routes removed", 1);
            }
            Op::Clear => {
                s.clear();
                html.clear();
                head.clear();
            }
            Op::List => {}
        }
        let touched = match op {
            Op::Serve(r, _) | Op::Diff(r, _) | Op::DiffHead(r, _, _) => Some(rt(*r)),
            _ => None,
        };
        let got: BTreeSet<String> = s.cached_routes().into_iter().collect();
        if got != html.keys().cloned().collect() || s.cached_routes().len() != got.len() {
            return bad("routes", format!("{at}: cached routes are {got:?}, expected {:?}", html.keys()));
        }
        // every client of a cached route shows the page the server last sent it
        acc.max("routes cached at once", html.len() as u64);
        for (r, p) in &html {
            // with many routes, the one just touched and a few others
            if html.len() > 20 && touched.as_ref() != Some(r) && (r.len() + step) % 37 != 0 && step + 1 != c.ops.len() {
                continue;
            }
            if lost[*p] {
                acc.add("histories cut short at an opaque body that inner HTML cannot carry", 1);
                return vec![];
            }
            if let Err(m) = same_body(&client[r].doc, &parsed[*p], acc) {
                return bad("stale", format!("{at}: the client of route {r:?} does not show page {p}: {m}"));
            }
            acc.add("client states compared", 1);
        }
    }
    acc.seen(&c.show());
    vec![]
}
pub fn h11(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "server histories",
        cx.scale(25_000, 550_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 1101, i);
            let n = r.range(2, 5);
            let mut pages = generate::chain(&mut r, n, &corpus, i).docs;
            if r.chance(1, 3) {
                // the same page, written differently
                let p = r.pick(&pages).clone();
                pages.push(format!("{p}\n"));
                pages.push(p.replace("<p>", "<P>").replace("=\"", " = \""));
                pages.push(generate::perturb(&mut r, &p));
            }
            let mut heads = vec![String::new(), "<link rel=x>".into(), "<link rel=y>".into(), "<link rel=x>".into(), " ".into()];
            for _ in 0..2 {
                let h = r.pick(&heads).clone();
                heads.push(generate::perturb(&mut r, &h));
            }
            if i % 150 == 9 {
                // updates of many kilobytes
                for p in &mut pages {
                    let at = p.rfind("</body").unwrap_or(p.len());
                    let n = r.range(20, 60);
                    let more: String = (0..n).map(|_| format!("<p>{}</p>", generate::long_text(&mut r))).collect();
                    p.insert_str(at, &more);
                }
                let h = "<meta name=x>".repeat(r.range(100, 2000));
                heads.push(h.clone() + "<b>");
                heads.push(h);
            }
            let many = i % 100 == 11;
            let (routes, off) = if many { (r.range(20, 400), 14) } else { (r.range(1, 5), r.below(14)) };
            let k = if many { routes * 3 } else if i % 150 == 9 { r.range(3, 8) } else { r.range(3, 40) };
            if many {
                pages.iter_mut().for_each(|p| {
                    if p.len() > 300 {
                        *p = format!("<p>page {}", p.len());
                    }
                });
            }
            let mut ops = vec![];
            for _ in 0..k {
                let (a, p, h) = (if many { off + r.below(routes) } else { (off + r.below(routes)) % 14 }, r.below(pages.len()), r.below(heads.len()));
                ops.push(match r.below(20) {
                    0..=2 => Op::Serve(a, p),
                    3 => Op::Head(a, h),
                    4..=13 => Op::Diff(a, p),
                    14..=16 => Op::DiffHead(a, p, h),
                    17 => Op::Forget(a),
                    18 if r.chance(1, if many { 200 } else { 4 }) => Op::Clear,
                    _ => Op::List,
                });
            }
            Some(Hist { pages, heads, ops })
        },
        hist,
    );
    cx.finish(
        "a distinct history of server calls, every event applied by a client of its route",
        &[
            ("Patches events", 20_000),
            ("Reload events", 2_000),
            ("HeadChanged events", 2_000),
            ("no event", 2_000),
            ("changed sources without visible change", 50),
            ("pages served", 10_000),
            ("routes removed", 1_000),
            ("client states compared", 100_000),
        ],
    )
}
