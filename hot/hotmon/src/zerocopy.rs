//! H21: text the parser does not change is not copied.
use crate::harness::*;
use crate::rng::Rng;
use hotmeal::{Document, InsertContent, NodeId, NodeKind, Patch, Stem, StrTendril, diff_html, parse, parse_body_fragment};

/// A page: a tag with children, or a text with a number of its own.
#[derive(Clone, Debug)]
enum N {
    E(&'static str, Vec<N>),
    T(String),
}
#[derive(Clone, Debug)]
struct Case_ {
    pages: [Vec<N>; 2],
    /// 0 whole page, 1 body only opened, 2 nothing closed, 3 doctype and content, 4 fragment
    form: u32,
}
impl Case for Case_ {
    fn show(&self) -> String {
        format!("form {}\nfirst  {}\nsecond {}\n", self.form, html(&self.pages[0], self.form), html(&self.pages[1], self.form))
    }
    fn shrinks(&self) -> Vec<Self> {
        let mut out = vec![];
        for p in 0..2 {
            for k in 0..self.pages[p].len() {
                let mut c = self.clone();
                let n = c.pages[p].remove(k);
                out.push(c.clone());
                if let N::E(_, ch) = n {
                    for (j, x) in ch.into_iter().enumerate() {
                        c.pages[p].insert(k + j, x);
                    }
                    out.push(c);
                }
            }
        }
        out
    }
}
const TAGS: &[&str] = &["div", "section", "span", "b", "i", "ul", "article", "em", "main", "code", "blockquote", "figure", "x-y", "td", "li"];
/// Elements that hold one text and nothing else.
const RAW: &[&str] = &["style", "script", "textarea", "xmp", "pre"];
fn write(n: &[N], o: &mut String, close: bool) {
    for (k, c) in n.iter().enumerate() {
        match c {
            N::T(t) => o.push_str(t),
            N::E(t, ch) => {
                let last = !close && k + 1 == n.len();
                let (open, end) = match *t {
                    "td" => ("<table><tbody><tr><td>".to_string(), "</td></tr></tbody></table>".to_string()),
                    "li" => ("<ul id=list><li class=\"a b\">".to_string(), "</li></ul>".to_string()),
                    _ => (format!("<{t}>"), format!("</{t}>")),
                };
                o.push_str(&open);
                write(ch, o, !last);
                if !last {
                    o.push_str(&end);
                }
            }
        }
    }
}
fn html(n: &[N], form: u32) -> String {
    let mut o = String::new();
    match form {
        0 => o.push_str("<!DOCTYPE html><html><head><title>A title that is long</title></head><body>"),
        1 => o.push_str("<!doctype html>\n<html><body class=\"x\">"),
        2 => o.push_str(" <!DOCTYPE HTML PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\"><body>"),
        3 => o.push_str("<!DOCTYPE html>"),
        _ => {}
    }
    write(n, &mut o, form != 2 && form != 4);
    if form == 0 {
        o.push_str("</body></html>");
    }
    o
}
fn text(r: &mut Rng, at: &mut u32) -> String {
    *at += 1;
    let n = *r.pick(&[0usize, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 60, 64, 100, 127, 128, 255, 256, 500, 1000, 4000, 4096, 20000]);
    let mut t = format!("text{:05}", at);
    while t.len() < 9 + n {
        t.push(*r.pick(&['a', 'b', 'Z', '0', '-', '.', ';', '"', '\'', '=', '>', '/', '!', '#', 'é', '漢', '😀', '\u{301}', '\u{200b}']));
    }
    t
}
fn some(r: &mut Rng, at: &mut u32, depth: u32) -> Vec<N> {
    let mut v = vec![];
    for _ in 0..r.range(if depth == 0 { 1 } else { 0 }, 4) {
        if r.chance(1, 2) || depth > 4 {
            if !matches!(v.last(), Some(N::T(_))) {
                v.push(N::T(text(r, at)));
            }
        } else if r.chance(1, 6) {
            v.push(N::E(r.pick(RAW), vec![N::T(text(r, at))]));
        } else {
            v.push(N::E(r.pick(TAGS), some(r, at, depth + 1)));
        }
    }
    v
}
/// Words put between spaces: only where no insertion mode splits a text at its spaces.
fn spaced(v: &mut [N], r: &mut Rng) {
    for n in v {
        match n {
            N::T(t) => {
                for _ in 0..r.below(4) {
                    t.push_str(" and more words");
                }
                if r.chance(1, 4) {
                    t.push(' ');
                }
            }
            N::E(_, c) => spaced(c, r),
        }
    }
}
fn change(v: &mut Vec<N>, r: &mut Rng, at: &mut u32) {
    if !v.is_empty() && r.chance(2, 3) {
        let k = r.below(v.len());
        if let N::E(t, c) = &mut v[k]
            && !RAW.contains(t)
        {
            return change(c, r, at);
        }
    }
    let k = r.below(v.len() + 1);
    match r.below(4) {
        0 if k < v.len() => {
            v.remove(k);
        }
        1 => v.insert(k, N::E(r.pick(TAGS), some(r, at, 3))),
        2 if k < v.len() && matches!(v[k], N::T(_)) => v[k] = N::T(text(r, at)),
        _ => v.insert(k, N::T(text(r, at))),
    }
    // no two texts side by side: they would be one text, put together from two
    v.dedup_by(|b, a| matches!((a, b), (N::T(_), N::T(_))));
}
fn make(seed: u64, i: u64) -> Case_ {
    let mut r = Rng::new(seed ^ 0x2e50 ^ i.wrapping_mul(0x9e3779b97f4a7c15));
    let form = r.below(5) as u32;
    let mut at = 0;
    let mut a = some(&mut r, &mut at, 0);
    if form < 3 && r.chance(1, 2) {
        spaced(&mut a, &mut r);
    }
    let mut b = a.clone();
    for _ in 0..r.range(1, 5) {
        change(&mut b, &mut r, &mut at);
    }
    Case_ { pages: [a, b], form }
}
fn texts<'a>(v: &'a [N], o: &mut Vec<&'a str>) {
    for n in v {
        match n {
            N::T(t) => o.push(t),
            N::E(_, c) => texts(c, o),
        }
    }
}
/// The string must be the very bytes of one of the inputs.
fn inside(s: &Stem, inputs: &[&StrTendril]) -> bool {
    let Stem::Borrowed(b) = s else { return false };
    let p = b.as_ptr() as usize;
    inputs.iter().any(|t| {
        let q = t.as_ptr() as usize;
        q <= p && p + b.len() <= q + t.len()
    })
}
fn walk<'d, 'a>(d: &'d Document<'a>, n: NodeId, o: &mut Vec<&'d Stem<'a>>) {
    if let NodeKind::Text(t) = &d.get(n).kind {
        o.push(t);
    }
    for c in d.children(n) {
        walk(d, c, o);
    }
}
fn content<'p, 'a>(c: &'p InsertContent<'a>, o: &mut Vec<&'p Stem<'a>>) {
    match c {
        InsertContent::Text(t) => o.push(t),
        InsertContent::Comment(_) => {}
        InsertContent::Element { children, .. } => children.iter().for_each(|c| content(c, o)),
    }
}
fn in_patches<'p, 'a>(ps: &'p [Patch<'a>], o: &mut Vec<&'p Stem<'a>>) {
    for p in ps {
        match p {
            Patch::InsertElement { children, .. } => children.iter().for_each(|c| content(c, o)),
            Patch::InsertText { text, .. } | Patch::SetText { text, .. } => o.push(text),
            Patch::UpdateProps { changes, .. } => {
                for c in changes {
                    if let (hotmeal::PropKey::Text, Some(v)) = (&c.name, &c.value) {
                        o.push(v);
                    }
                }
            }
            _ => {}
        }
    }
}
fn look(what: &str, got: &[&Stem], pages: &[&[N]], inputs: &[&StrTendril], acc: &mut Acc, name: &'static str) -> Option<Vec<Bad>> {
    let mut want = vec![];
    pages.iter().for_each(|p| texts(p, &mut want));
    for g in got {
        if want.contains(&g.as_str()) {
            if !inside(g, inputs) {
                return Some(bad("copied", format!("{what}: the text {:?} stands in the input as it is, but was copied", g.as_str().chars().take(60).collect::<String>())));
            }
            acc.add(name, 1);
            acc.max("longest text looked at", g.as_str().len() as u64);
        }
    }
    None
}
fn check(c: &Case_, acc: &mut Acc) -> Vec<Bad> {
    let (sa, sb) = (html(&c.pages[0], c.form), html(&c.pages[1], c.form));
    let (ta, tb) = (StrTendril::from(sa.as_str()), StrTendril::from(sb.as_str()));
    let mut docs = vec![];
    for (k, t) in [&ta, &tb].into_iter().enumerate() {
        let d = if c.form == 4 { parse_body_fragment(t) } else { parse(t) };
        let mut got = vec![];
        walk(&d, d.root, &mut got);
        let mut want = vec![];
        texts(&c.pages[k], &mut want);
        for w in &want {
            if !got.iter().any(|g| g.as_str() == *w) {
                return bad("lost", format!("the text {w:?} is not in the document"));
            }
        }
        if let Some(b) = look("parsed", &got, &[&c.pages[k]], &[t], acc, "texts of parsed documents found in the input") {
            return b;
        }
        if want.last().is_some_and(|w| t.ends_with(*w)) {
            acc.add("inputs ending with the text looked at", 1);
        }
        if want.first().is_some_and(|w| t.starts_with(*w)) {
            acc.add("inputs beginning with the text looked at", 1);
        }
        docs.push(d);
    }
    acc.seen(&sa);
    if c.form == 4 {
        return vec![];
    }
    let ps = match diff_html(&ta, &tb) {
        Ok(p) => p,
        Err(e) => return bad("diff-error", format!("{e:?}")),
    };
    let mut got = vec![];
    in_patches(&ps, &mut got);
    if let Some(b) = look("patches", &got, &[&c.pages[1]], &[&ta, &tb], acc, "texts of patches found in the input") {
        return b;
    }
    let mut d = docs.swap_remove(0);
    let n = ps.len();
    if let Err(e) = d.apply_patches(ps) {
        return bad("apply-error", format!("{e:?}"));
    }
    let mut got = vec![];
    walk(&d, d.root, &mut got);
    if let Some(b) = look("patched", &got, &[&c.pages[0], &c.pages[1]], &[&ta, &tb], acc, "texts of patched documents found in an input") {
        return b;
    }
    acc.add("patches", n as u64);
    acc.sample(|| c.show());
    vec![]
}
pub fn h21(cx: &Ctx) -> i32 {
    cx.cases("pages with texts of all lengths", cx.scale(200_000, 6_000_000), |i| Some(make(cx.seed, i)), check);
    cx.finish(
        "a distinct input parsed, with the place every text's bytes lie at",
        &[
            ("texts of parsed documents found in the input", 200_000),
            ("texts of patches found in the input", 20_000),
            ("texts of patched documents found in an input", 100_000),
            ("inputs ending with the text looked at", 5_000),
            ("inputs beginning with the text looked at", 2_000),
        ],
    )
}
