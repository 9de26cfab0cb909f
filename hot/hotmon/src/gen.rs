//! Workloads: HTML documents, edits, tag soup.
use crate::harness::Case;
use crate::rng::Rng;
use crate::tree::*;

#[derive(Clone)]
pub struct Docs {
    pub docs: Vec<String>,
    pub opt: u64,
    pub how: &'static str,
    /// The check needs at least this many documents.
    pub min: usize,
}
impl Case for Docs {
    fn show(&self) -> String {
        let mut o = format!("workload {} opt {}\n", self.how, self.opt);
        for (i, d) in self.docs.iter().enumerate() {
            o.push_str(&format!("document {i}: {d:?}\n"));
        }
        o
    }
    fn shrinks(&self) -> Vec<Docs> {
        let mut out = vec![];
        if self.docs.len() > self.min {
            for i in 0..self.docs.len() {
                let mut c = self.clone();
                c.docs.remove(i);
                out.push(c);
            }
        }
        for common in [true, false] {
            for i in 0..self.docs.len() {
                if common && i > 0 {
                    break;
                }
                let ch: Vec<(usize, char)> = self.docs[i].char_indices().collect();
                let n = ch.len();
                let at = |k: usize| if k >= n { self.docs[i].len() } else { ch[k].0 };
                let mut step = (n / 2).max(1);
                let mut budget = 500;
                while n > 0 && budget > 0 {
                    let mut p = 0;
                    while p < n && budget > 0 {
                        let cut = &self.docs[i][at(p)..at(p + step)];
                        let mut c = self.clone();
                        let mut ok = true;
                        if common {
                            for d in c.docs.iter_mut() {
                                match d.find(cut) {
                                    Some(q) => d.replace_range(q..q + cut.len(), ""),
                                    None => ok = false,
                                }
                            }
                        } else {
                            c.docs[i].replace_range(at(p)..at(p + step), "");
                        }
                        if ok {
                            out.push(c);
                        }
                        budget -= 1;
                        p += step;
                    }
                    if step == 1 {
                        break;
                    }
                    step = step.div_ceil(2);
                }
            }
        }
        out
    }
}

const WORDS: &[&str] = &[
    "alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lorem", "ipsum", "dolor",
    "sit", "amet", "one", "two", "three", "four", "five",
];
const ODD_TEXT: &[&str] = &[
    "a < b", "x > y", "R&D", "&amp;", "&lt;b&gt;", "\"quoted\"", "it's", "\u{a0}", "é漢字😀", "e\u{301}", "\u{202e}rtl",
    "  spaces  ", "\n\n", "\t", "</p>", "<script>", "-->", "]]>", "&", "&#", "&nbsp;", "&#x41;", "\u{feff}", "\u{200b}", "𝒳𝒴",
    " ", "\n", "&copy", "&notit;", "\u{7f}", "\u{85}",
];
const ATTRS: &[&str] = &["class", "id", "href", "title", "data-a", "data-b", "style", "lang", "role", "hidden", "alt", "name", "value", "data-id", "onclick"];
const ODD_ATTRS: &[&str] = &["@click", ":x", "a.b", "xlink:href", "xml:lang", "xmlns", "viewBox", "_", "data-é", "x<y", "q'q", "1a"];
const BLOCK: &[&str] = &["div", "section", "article", "main", "header", "footer", "nav", "aside", "blockquote", "figure", "details", "fieldset", "form"];
const INLINE: &[&str] = &["span", "b", "i", "em", "strong", "code", "small", "u", "s", "mark", "sub", "q", "a", "label", "button", "nobr", "font"];
const VOID: &[&str] = &["br", "hr", "img", "input", "wbr", "embed", "link", "meta"];

/// Every other HTML element name a page may hold, current and obsolete.
const ANY_TAG: &[&str] = &[
    "abbr", "acronym", "applet", "area", "audio", "base", "basefont", "bdi", "bdo", "bgsound", "big", "blink", "canvas", "center", "cite", "col",
    "colgroup", "content", "data", "datalist", "del", "dfn", "dir", "element", "fencedframe", "figcaption", "frame", "h4", "h5", "h6", "hgroup",
    "ins", "isindex", "kbd", "keygen", "layer", "legend", "listing", "map", "marquee", "menuitem", "meter", "multicol", "nextid", "noframes",
    "noindex", "optgroup", "output", "param", "picture", "portal", "progress", "rb", "rbc", "rtc", "samp", "search", "selectedcontent", "shadow",
    "slot", "source", "spacer", "strike", "summary", "tfoot", "time", "track", "tt", "var", "x-y", "my-element", "image", "h7", "svgx", "brr",
];
/// A string that is almost the given one.
pub fn perturb(r: &mut Rng, s: &str) -> String {
    let ch: Vec<char> = s.chars().collect();
    let at = if ch.is_empty() { 0 } else { r.below(ch.len()) };
    let flip = |c: char| if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() };
    let mut o = ch.clone();
    match r.below(12) {
        0 if !ch.is_empty() => o[at] = flip(ch[at]),
        1 => o = ch.iter().map(|&c| flip(c)).collect(),
        2 => o.insert(0, ' '),
        3 => o.push(' '),
        4 => o.push('\n'),
        5 if !ch.is_empty() => {
            o.pop();
        }
        6 if !ch.is_empty() => {
            o.remove(at);
        }
        7 => o.insert(at, *r.pick(&['e', 'x', ' ', '\u{301}', '\u{200b}', '0'])),
        8 if ch.len() > 1 => o.swap(at, (at + 1) % ch.len()),
        9 => o.extend(ch.iter()),
        10 => return s.split_whitespace().collect::<Vec<_>>().join(" "),
        11 => return s.split(' ').rev().collect::<Vec<_>>().join(" "),
        _ => o.push(*r.pick(&['.', 'a', '\u{a0}'])),
    }
    o.into_iter().collect()
}
pub fn word(r: &mut Rng) -> String {
    r.pick(WORDS).to_string()
}
/// A text of some hundred to some thousand bytes with something odd at some place of it.
pub fn long_text(r: &mut Rng) -> String {
    let n = *r.pick(&[50usize, 90, 110, 180, 400, 900]);
    let at = r.below(n);
    (0..n).map(|k| if k == at { r.pick(ODD_TEXT).to_string() } else { word(r) }).collect::<Vec<_>>().join(" ")
}
pub fn text(r: &mut Rng) -> String {
    if r.chance(1, 250) {
        return long_text(r);
    }
    match r.below(10) {
        0 => r.pick(ODD_TEXT).to_string(),
        1 => format!("{} {} {}", word(r), r.pick(ODD_TEXT), word(r)),
        2 => format!("\n  {}\n", word(r)),
        3 => {
            let n = r.range(10, 40);
            (0..n).map(|_| word(r)).collect::<Vec<_>>().join(" ")
        }
        _ => {
            let n = r.range(1, 4);
            (0..n).map(|_| word(r)).collect::<Vec<_>>().join(" ")
        }
    }
}
pub fn attr(r: &mut Rng) -> Attr {
    let n = if r.chance(1, 12) { *r.pick(ODD_ATTRS) } else { *r.pick(ATTRS) };
    let v = match r.below(8) {
        0 => String::new(),
        1 => r.pick(ODD_TEXT).to_string(),
        2 => format!("{} {}", word(r), word(r)),
        _ => word(r),
    };
    Attr::new(n, &v)
}
pub fn attrs(r: &mut Rng, e: &mut Elem) {
    let n = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 5]);
    for _ in 0..n {
        let a = attr(r);
        if !e.attrs.iter().any(|b| b.local.eq_ignore_ascii_case(&a.local)) {
            e.attrs.push(a);
        }
    }
}

#[derive(Clone, Copy)]
pub struct Style {
    pub opaque: bool,
    pub foreign: bool,
    pub raw: bool,
    pub comments: bool,
    /// few distinct words and tags: many identical subtrees
    pub dull: bool,
    pub wild: bool,
}
pub const PLAIN: Style = Style { opaque: false, foreign: false, raw: false, comments: true, dull: false, wild: false };
pub const RICH: Style = Style { opaque: false, foreign: true, raw: true, comments: true, dull: false, wild: false };
pub const OPAQUE: Style = Style { opaque: true, foreign: false, raw: false, comments: true, dull: false, wild: false };
pub const DULL: Style = Style { opaque: false, foreign: false, raw: false, comments: false, dull: true, wild: false };
pub const WILD: Style = Style { opaque: false, foreign: true, raw: true, comments: true, dull: false, wild: true };

pub fn block(r: &mut Rng, st: Style, budget: &mut i64, depth: usize) -> Node {
    *budget -= 1;
    if st.dull {
        return match r.below(4) {
            0 | 1 if depth < 8 && *budget > 0 => {
                let mut e = Elem::new(r.pick(&["div", "ul", "p"]));
                if r.chance(1, 4) {
                    e.attrs.push(Attr::new("class", r.pick(&["x", "y"])));
                }
                let n = r.below(4);
                for _ in 0..n {
                    let c = if e.tag == "p" { Node::Text(r.pick(&["a", "b"]).to_string()) } else { block(r, st, budget, depth + 1) };
                    push(&mut e, c);
                }
                Node::Elem(e)
            }
            2 => Node::Elem(Elem::new(r.pick(&["br", "hr", "span"]))),
            _ => Node::Text(r.pick(&["a", "b"]).to_string()),
        };
    }
    let mut e = match r.below(if st.wild { 16 } else { 14 }) {
        0 | 1 => Elem::new(r.pick(&["p", "p", "h1", "h2", "h3", "pre", "address"])),
        2 => Elem::new(r.pick(&["ul", "ol", "dl", "menu"])),
        3 => Elem::new("table"),
        4 if st.raw => Elem::new(r.pick(&["script", "style", "noscript", "textarea", "iframe", "xmp", "title", "template", "noembed"])),
        5 if st.foreign => {
            let mut e = Elem::new(r.pick(&["svg", "svg", "math"]));
            e.ns = if e.tag == "svg" { Ns::Svg } else { Ns::Math };
            e
        }
        6 if st.comments => return Node::Comment(match r.below(6) {
            0 => String::new(),
            1 => " a - b ".into(),
            2 => "<p>x</p>".into(),
            _ => format!(" {} ", word(r)),
        }),
        7 if r.chance(1, 2) => Elem::new(r.pick(VOID)),
        7 => {
            let mut e = Elem::new(r.pick(ANY_TAG));
            attrs(r, &mut e);
            if r.chance(1, 2) {
                e.children.push(Node::Text(text(r)));
            }
            return Node::Elem(e);
        }
        8 | 9 => return Node::Text(text(r)),
        10 => return inline(r, st, budget, depth),
        11 => Elem::new(r.pick(&["select", "video", "object", "button", "dialog", "custom-el", "ruby", "figure"])),
        14 | 15 => Elem::new(r.pick(&["p", "a", "table", "td", "tr", "li", "form", "b", "nobr", "select", "option", "button", "h1", "dd", "body", "html", "caption", "svg", "template", "frameset", "head", "plaintext", "image", "rp", "optgroup"])),
        _ => Elem::new(r.pick(BLOCK)),
    };
    attrs(r, &mut e);
    if st.opaque && e.ns == Ns::Html && !VOID.contains(&e.tag.as_str()) && r.chance(1, 4) {
        let key = match r.below(7) {
            6 => r.pick(&["false", "0", "no", " ", "null", "true"]).to_string(),
            0 | 1 => String::new(),
            2 => {
                let k = word(r);
                perturb(r, &k)
            }
            _ => word(r),
        };
        e.attrs.push(Attr::new("data-hotmeal-opaque", &key));
    }
    fill(r, st, &mut e, budget, depth);
    Node::Elem(e)
}
fn kids(r: &mut Rng, budget: &i64, depth: usize) -> usize {
    if *budget <= 0 || depth > 12 { 0 } else { *r.pick(&[0, 1, 1, 2, 2, 3, 4, 6]) }
}
fn push(e: &mut Elem, c: Node) {
    // the parser never makes adjacent text nodes
    if let (Some(Node::Text(a)), Node::Text(b)) = (e.children.last_mut(), &c) {
        a.push_str(b);
    } else {
        e.children.push(c);
    }
}
fn fill(r: &mut Rng, st: Style, e: &mut Elem, budget: &mut i64, depth: usize) {
    let n = kids(r, budget, depth);
    if e.ns != Ns::Html {
        for _ in 0..n.max(1) {
            *budget -= 1;
            let mut c = Elem::new(if e.ns == Ns::Svg { r.pick(&["g", "path", "circle", "text", "foreignObject", "linearGradient", "title", "desc", "use", "defs"]) } else { r.pick(&["mi", "mo", "mn", "mrow", "mtext", "annotation-xml", "annotation-xml"]) });
            c.ns = e.ns;
            if r.chance(1, 3) {
                c.attrs.push(match r.below(4) {
                    0 => Attr { prefix: "xlink".into(), ns: "http://www.w3.org/1999/xlink".into(), local: "href".into(), value: "#a".into() },
                    1 => Attr::new("viewBox", "0 0 1 1"),
                    _ => Attr::new("d", &word(r)),
                });
            }
            match c.tag.as_str() {
                "g" | "defs" | "mrow" if depth < 6 && *budget > 0 => fill(r, st, &mut c, budget, depth + 1),
                "foreignObject" if *budget > 0 => {
                    let b = block(r, st, budget, depth + 2);
                    push(&mut c, b);
                }
                "desc" | "title" if *budget > 0 && r.chance(1, 3) => {
                    let b = inline(r, st, budget, depth + 2);
                    push(&mut c, b);
                }
                "mi" | "mo" | "mn" | "mtext" if r.chance(1, 4) => {
                    let mut g = Elem::new(r.pick(&["mglyph", "malignmark", "malignmark", "b"]));
                    g.ns = if g.tag == "b" { Ns::Html } else { e.ns };
                    if r.chance(1, 2) {
                        g.attrs.push(Attr::new("alt", &word(r)));
                    }
                    push(&mut c, Node::Elem(g));
                }
                // whether it holds HTML depends on its encoding
                "annotation-xml" if *budget > 0 => {
                    let (enc, html) = *r.pick(&[
                        (Some("text/html"), true),
                        (Some("Text/HTML"), true),
                        (Some("application/xhtml+xml"), true),
                        (Some("application/XHTML+xml"), true),
                        (Some("text/plain"), false),
                        (Some("MathML-Content"), false),
                        (None, false),
                    ]);
                    if let Some(v) = enc {
                        let i = r.below(c.attrs.len() + 1);
                        c.attrs.insert(i, Attr::new("encoding", v));
                    }
                    if html {
                        let b = block(r, st, budget, depth + 2);
                        push(&mut c, b);
                    } else if r.chance(1, 3) {
                        let mut g = Elem::new("svg");
                        g.ns = Ns::Svg;
                        push(&mut c, Node::Elem(g));
                    } else if depth < 6 {
                        fill(r, st, &mut c, budget, depth + 1);
                    }
                }
                "text" | "title" | "desc" | "mi" | "mo" | "mn" | "mtext" => c.children.push(Node::Text(word(r))),
                _ => {}
            }
            push(e, Node::Elem(c));
        }
        return;
    }
    match e.tag.as_str() {
        t if VOID.contains(&t) => {}
        "script" | "style" | "xmp" | "iframe" | "noembed" | "noscript" => {
            if n > 0 {
                e.children.push(Node::Text(match r.below(4) {
                    0 => "if (a < b && c > d) {}".into(),
                    1 => "<b>x</b>".into(),
                    2 => "&amp; &lt;".into(),
                    _ => word(r),
                }));
            }
        }
        "textarea" | "title" => {
            if n > 0 {
                let t = text(r);
                e.children.push(Node::Text(if r.chance(1, 5) { format!("\n{t}") } else { t }));
            }
        }
        "ul" | "ol" | "menu" => {
            for _ in 0..n {
                let mut li = Elem::new("li");
                attrs(r, &mut li);
                fill(r, st, &mut li, budget, depth + 1);
                if r.chance(1, 4) {
                    push(e, Node::Text("\n".into()));
                }
                push(e, Node::Elem(li));
            }
        }
        "dl" => {
            for i in 0..n {
                let mut d = Elem::new(if i % 2 == 0 { "dt" } else { "dd" });
                fill(r, st, &mut d, budget, depth + 1);
                push(e, Node::Elem(d));
            }
        }
        "select" => {
            for _ in 0..n {
                let mut o = Elem::new("option");
                attrs(r, &mut o);
                o.children.push(Node::Text(word(r)));
                push(e, Node::Elem(o));
            }
        }
        "ruby" => {
            for _ in 0..n {
                push(e, Node::Text(word(r)));
                let mut t = Elem::new("rt");
                t.children.push(Node::Text(word(r)));
                push(e, Node::Elem(t));
            }
        }
        "table" => {
            if r.chance(1, 4) {
                let mut c = Elem::new("caption");
                c.children.push(Node::Text(word(r)));
                push(e, Node::Elem(c));
            }
            let mut tb = Elem::new(r.pick(&["tbody", "thead", "tbody"]));
            for _ in 0..n {
                let mut tr = Elem::new("tr");
                attrs(r, &mut tr);
                for _ in 0..r.below(4) {
                    let mut td = Elem::new(r.pick(&["td", "td", "th"]));
                    fill(r, st, &mut td, budget, depth + 2);
                    push(&mut tr, Node::Elem(td));
                }
                push(&mut tb, Node::Elem(tr));
            }
            push(e, Node::Elem(tb));
        }
        "p" | "h1" | "h2" | "h3" | "pre" | "address" | "dt" | "button" => {
            for _ in 0..n {
                let c = inline(r, st, budget, depth + 1);
                push(e, c);
            }
            if e.tag == "pre" && r.chance(1, 4)
                && let Some(Node::Text(t)) = e.children.first_mut()
            {
                t.insert(0, '\n');
            }
        }
        _ => {
            for _ in 0..n {
                let c = block(r, st, budget, depth + 1);
                push(e, c);
            }
        }
    }
}
pub fn inline(r: &mut Rng, st: Style, budget: &mut i64, depth: usize) -> Node {
    *budget -= 1;
    if r.chance(1, 2) || depth > 12 || *budget <= 0 {
        return Node::Text(text(r));
    }
    if r.chance(1, 10) {
        return Node::Elem(Elem::new(r.pick(&["br", "img", "wbr", "input"])));
    }
    let mut e = Elem::new(r.pick(INLINE));
    attrs(r, &mut e);
    for _ in 0..kids(r, budget, depth).min(3) {
        let c = inline(r, st, budget, depth + 1);
        push(&mut e, c);
    }
    Node::Elem(e)
}
/// A `<body>` with about `size` nodes.
pub fn body(r: &mut Rng, st: Style, size: usize) -> Elem {
    let mut b = Elem::new("body");
    if r.chance(1, 5) && !st.dull {
        attrs(r, &mut b);
    }
    let mut budget = size as i64;
    while budget > 0 {
        let c = block(r, st, &mut budget, 1);
        push(&mut b, c);
    }
    b
}

// ---------------------------------------------------------------------------------- edits

fn count_elems(e: &Elem) -> usize {
    1 + e.children.iter().map(|c| c.elem().map_or(0, count_elems)).sum::<usize>()
}
fn nth_elem<'a>(e: &'a mut Elem, k: &mut usize) -> Option<&'a mut Elem> {
    if *k == 0 {
        return Some(e);
    }
    *k -= 1;
    for c in &mut e.children {
        if let Node::Elem(c) = c {
            let n = count_elems(c);
            if *k < n {
                return nth_elem(c, k);
            }
            *k -= n;
        }
    }
    None
}
pub fn any_elem<'a>(r: &mut Rng, e: &'a mut Elem) -> &'a mut Elem {
    let n = count_elems(e);
    let mut k = r.below(n);
    nth_elem(e, &mut k).unwrap()
}
/// Applies one random edit somewhere in the tree.
/// Changes what some annotation-xml holds, and with that the namespace of what is inside.
fn recode(r: &mut Rng, e: &mut Elem) -> bool {
    if e.tag == "annotation-xml" && r.chance(2, 3) {
        e.attrs.retain(|a| a.local != "encoding");
        if r.chance(3, 4) {
            e.attrs.push(Attr::new("encoding", r.pick(&["text/html", "TEXT/html", "application/xhtml+xml", "text/plain"])));
        }
        return true;
    }
    e.children.iter_mut().any(|c| match c {
        Node::Elem(c) => recode(r, c),
        _ => false,
    })
}
pub fn edit(r: &mut Rng, b: &mut Elem, st: Style) {
    let spare = {
        let e = any_elem(r, b);
        if e.children.is_empty() { None } else { Some(r.pick(&e.children).clone()) }
    };
    if st.foreign && r.chance(1, 8) && recode(r, b) {
        return;
    }
    let e = any_elem(r, b);
    let n = e.children.len();
    let mut budget = r.range(1, 8) as i64;
    match r.below(17) {
        0 | 1 => {
            let c = block(r, st, &mut budget, 3);
            e.children.insert(r.below(n + 1), c);
        }
        2 if n > 0 => {
            e.children.remove(r.below(n));
        }
        3 if n > 1 => {
            let (i, j) = (r.below(n), r.below(n));
            e.children.swap(i, j);
        }
        4 if n > 1 => {
            let c = e.children.remove(r.below(n));
            e.children.insert(r.below(n), c);
        }
        5 if n > 0 => {
            let i = r.below(n);
            let c = e.children[i].clone();
            e.children.insert(i, c);
        }
        6 => {
            // move or copy a subtree from elsewhere
            if let Some(c) = spare {
                e.children.insert(r.below(n + 1), c);
            }
        }
        7 if n > 0 => {
            // wrap
            let i = r.below(n);
            let c = e.children.remove(i);
            let mut w = Elem::new(r.pick(BLOCK));
            attrs(r, &mut w);
            w.children.push(c);
            e.children.insert(i, Node::Elem(w));
        }
        8 if n > 0 => {
            // unwrap
            let i = r.below(n);
            if let Node::Elem(c) = e.children.remove(i) {
                for (k, x) in c.children.into_iter().enumerate() {
                    e.children.insert(i + k, x);
                }
            }
        }
        9 => {
            attrs(r, e);
        }
        10 if !e.attrs.is_empty() => {
            let i = r.below(e.attrs.len());
            match r.below(4) {
                0 => {
                    e.attrs.remove(i);
                }
                1 => e.attrs[i].value = text(r),
                2 => e.attrs[i].value = perturb(r, &e.attrs[i].value.clone()),
                _ => {
                    let a = attr(r);
                    if !e.attrs.iter().any(|b| b.local.eq_ignore_ascii_case(&a.local)) {
                        e.attrs[i] = a;
                    }
                }
            }
        }
        11 => r.shuffle(&mut e.attrs),
        12 if n > 0 => r.shuffle(&mut e.children),
        13 => {
            // change some text
            for c in &mut e.children {
                match c {
                    Node::Text(t) => *t = if r.chance(1, 2) { text(r) } else { perturb(r, t) },
                    Node::Comment(t) => *t = if r.chance(1, 2) { format!(" {} ", word(r)) } else { perturb(r, t).replace("--", "-").replace('>', "") },
                    _ => continue,
                }
                break;
            }
        }
        14 if e.tag != "body" && e.ns == Ns::Html && BLOCK.contains(&e.tag.as_str()) => e.tag = r.pick(BLOCK).to_string(),
        15 if n > 0 => {
            // whitespace between children comes or goes
            let i = r.below(n + 1);
            if i < n && e.children[i].is_text() {
                e.children.remove(i);
            } else {
                e.children.insert(i, Node::Text(r.pick(&["\n", " ", "\n    "]).to_string()));
            }
        }
        _ => {
            if n > 0 {
                e.children.clear();
            } else {
                let c = inline(r, st, &mut budget, 3);
                e.children.push(c);
            }
        }
    }
}

// ---------------------------------------------------------------------------------- serializer

fn esc(s: &str, attr: bool, o: &mut String) {
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '\u{a0}' => o.push_str("&nbsp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' if attr => o.push_str("&quot;"),
            c => o.push(c),
        }
    }
}
/// The DOM standard's serialization algorithm (template contents being children here).
pub fn ser(n: &Node, parent: Option<&Elem>, o: &mut String) {
    match n {
        Node::Doctype(n, _, _) => o.push_str(&format!("<!DOCTYPE {n}>")),
        Node::Comment(t) => o.push_str(&format!("<!--{t}-->")),
        Node::Text(t) => {
            let raw = parent.is_some_and(|p| {
                p.ns == Ns::Html && matches!(p.tag.as_str(), "style" | "script" | "xmp" | "iframe" | "noembed" | "noframes" | "plaintext" | "noscript")
            });
            if raw { o.push_str(t) } else { esc(t, false, o) }
        }
        Node::Elem(e) => {
            o.push('<');
            o.push_str(&e.tag);
            for a in &e.attrs {
                o.push(' ');
                o.push_str(&a.qname());
                o.push_str("=\"");
                esc(&a.value, true, o);
                o.push('"');
            }
            o.push('>');
            if e.ns == Ns::Html
                && matches!(
                    e.tag.as_str(),
                    "area" | "base" | "br" | "col" | "embed" | "hr" | "img" | "input" | "link" | "meta" | "source" | "track" | "wbr" | "param" | "keygen" | "frame" | "basefont" | "bgsound"
                )
            {
                return;
            }
            for c in &e.children {
                ser(c, Some(e), o);
            }
            o.push_str(&format!("</{}>", e.tag));
        }
    }
}
pub fn inner(e: &Elem) -> String {
    let mut o = String::new();
    for c in &e.children {
        ser(c, Some(e), &mut o);
    }
    o
}
pub fn outer(e: &Elem) -> String {
    let mut o = String::new();
    ser(&Node::Elem(e.clone()), None, &mut o);
    o
}
/// A whole page around a body, in one of several outward forms. `form` 0 is the canonical one.
pub fn page(b: &Elem, form: usize) -> String {
    match form {
        0 => format!("<!DOCTYPE html><html><head><title>t</title></head>{}</html>", outer(b)),
        1 => format!("<html>{}</html>", outer(b)),
        2 => outer(b),
        3 => inner(b),
        4 => format!("<!doctype html>\n<html lang=\"en\">\n<head>\n<meta charset=\"utf-8\">\n<title>x</title>\n</head>\n{}\n</html>\n", outer(b)),
        5 => format!("<!-- lead --><!DOCTYPE html><html>{}</html><!-- tail -->", outer(b)),
        6 => format!("<!DOCTYPE html><!-- lead --><html><head></head>{}</html>", outer(b)),
        7 => format!("  \n<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 3.2 Final//EN\"><head></head>{}", outer(b)),
        8 => format!("<!DOCTYPE html>{}", inner(b)),
        10 => "<!DOCTYPE html><html><head><title>f</title></head><frameset cols=\"1,2\"><frame src=a><frame src=b></frameset></html>".into(),
        _ => format!("<!-- only a comment first -->{}", inner(b)),
    }
}
pub const FORMS: usize = 10;

// ---------------------------------------------------------------------------------- tag soup

const TOKENS: &[&str] = &[
    "<p>", "</p>", "<b>", "</b>", "<i>", "</i>", "<a href=x>", "</a>", "<div>", "</div>", "<table>", "</table>", "<tr>", "<td>", "</td>",
    "</tr>", "<tbody>", "<select>", "</select>", "<option>", "<svg>", "</svg>", "<math>", "</math>", "<mi>", "<foreignObject>",
    "</foreignObject>", "<desc>", "<title>", "</title>", "<template>", "</template>", "<script>", "</script>", "<style>", "</style>",
    "<textarea>", "</textarea>", "<pre>", "\n", "</pre>", "<ul>", "<li>", "</li>", "</ul>", "<form>", "</form>", "<button>", "</button>",
    "<br>", "</br>", "<img>", "<image>", "<input type=hidden>", "<hr>", "<h1>", "</h1>", "<h2>", "<nobr>", "<font color=red>", "</font>",
    "<body class=z>", "</body>", "<html lang=q>", "</html>", "<head>", "</head>", "<frameset>", "<frame>", "<noframes>", "<noscript>",
    "</noscript>", "<iframe>", "</iframe>", "<xmp>", "</xmp>", "<plaintext>", "<!-- c -->", "<!-->", "<!--->", "<!--", "--!>", "-->",
    "<!DOCTYPE html>", "<!doctype>", "<!dOcTyPe Frame>", "<!DOCTYPE", "<!doctypex>", "<!x>", "<?pi?>", "<![CDATA[x]]>", "]]>", "text", " ", "x", "&amp;", "&lt;", "&", "&#0;", "&#x110000;",
    "&notin;", "&noti", "<", ">", "</", "</>", "<>", "\"", "'", "=", "<a b='c' b=d>", "<a\nb>", "<a/>", "<svg/>", "<path/>", "<g>", "</g>",
    "<caption>", "<col>", "<colgroup>", "<th>", "<thead>", "<tfoot>", "<dd>", "<dt>", "<ruby>", "<rt>", "<rp>", "<object>", "</object>",
    "<applet>", "<marquee>", "<center>", "<dir>", "<menu>", "<listing>", "<address>", "<span>", "</span>", "<em>", "</em>", "\0",
    "\u{a0}", "é", "😀", "\r\n", "\r", "\t", "\x0c", "<custom-x a=1>", "</custom-x>", "<p id=a class=\"b c\" data-hotmeal-opaque>",
    "<div data-hotmeal-opaque=k>", "<annotation-xml encoding=text/html>", "<math><annotation-xml class=k encoding=Text/HTML>",
    "<math><annotation-xml encoding=application/XHTML+xml id=z>", "<math><annotation-xml encoding=text/plain>", "</annotation-xml>", "<math><mtext>",
    "<math definitionurl=d>", "<svg viewbox=1 xlink:href=y xml:lang=z>", "<svg><title>", "<svg><desc>", "<svg><foreignobject>", "<mglyph>", "<malignmark>", "<search>", "<keygen>", "<optgroup>",
];
const DOCTYPES: &[&str] = &[
    "<!doctype html>", "<!DocType Frame>", "<!doCTYPE>", "\n<!DOCTYPEx>", "<!-- c --><!dOCTYPE y>", "<!DOCTYPE", "<!doctyp html>", "x<!DOCTYPE z>", "\u{c}<!DOCTYPE f>",
    "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01 Frameset//EN\"><p><table>", "<!-->\n<!doctype q>",
];
pub fn soup(r: &mut Rng, n: usize) -> String {
    // a narrow alphabet per document makes interesting repetitions likely
    let k = *r.pick(&[4, 8, 16, TOKENS.len()]);
    let sub: Vec<&str> = (0..k).map(|_| *r.pick(TOKENS)).collect();
    let first = if r.chance(1, 12) { *r.pick(DOCTYPES) } else { "" };
    first.chars().chain((0..n).flat_map(|_| r.pick(&sub).chars())).collect()
}
/// Byte-level damage at character boundaries.
pub fn damage(r: &mut Rng, s: &str) -> String {
    let ix: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
    let a = r.below(ix.len());
    let b = (a + r.range(0, 12)).min(ix.len() - 1);
    let (a, b) = (ix[a], ix[b]);
    let mut o = s.to_string();
    match r.below(5) {
        0 => o.replace_range(a..b, ""),
        4 => {
            let t: String = s[a..b].chars().map(|c| if r.chance(1, 2) { c } else if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            o.replace_range(a..b, &t)
        }
        1 => o.insert_str(a, r.pick(TOKENS)),
        2 => {
            let t = s[a..b].to_string();
            o.insert_str(ix[r.below(ix.len())], &t)
        }
        _ => o.replace_range(a..b, r.pick(TOKENS)),
    }
    o
}

// ---------------------------------------------------------------------------------- corpus

/// Real pages and cases that ship with the repository; absent ones simply do not take part.
pub fn corpus() -> (Vec<String>, Vec<(String, String)>) {
    let mut pages = vec![];
    let mut cases = vec![];
    let rd = |d: &str| -> Vec<std::path::PathBuf> {
        let mut v: Vec<_> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
        v.sort();
        v
    };
    for p in rd("/repo/hotmeal/tests/fixtures") {
        if p.extension().is_some_and(|e| e == "html")
            && let Ok(s) = std::fs::read_to_string(&p)
        {
            pages.push(s);
        }
    }
    for p in rd("/repo/hotmeal/tests/roundtrip-cases") {
        if let Ok(s) = std::fs::read_to_string(&p)
            && let Some((a, b)) = s.split_once("\n===\n")
        {
            cases.push((a.to_string(), b.to_string()));
        }
    }
    (pages, cases)
}
/// A contiguous part of a real page, small enough to be diffed many times.
pub fn excerpt(r: &mut Rng, page: &str, len: usize) -> String {
    let ix: Vec<usize> = page.char_indices().map(|(i, _)| i).chain([page.len()]).collect();
    let a = r.below(ix.len());
    let b = (a + len).min(ix.len() - 1);
    page[ix[a]..ix[b]].to_string()
}

/// Makes an element opaque, or no longer so.
pub fn turn_opaque(b: &mut Elem) {
    let n = b.attrs.len();
    b.attrs.retain(|a| a.local != "data-hotmeal-opaque");
    if b.attrs.len() == n {
        b.attrs.push(Attr::new("data-hotmeal-opaque", ["", "false", "k"][b.children.len() % 3]));
    }
}

/// A pair or chain of related documents.
pub fn chain(r: &mut Rng, n: usize, corpus: &(Vec<String>, Vec<(String, String)>), idx: u64) -> Docs {
    let how;
    let mut docs: Vec<String> = vec![];
    match idx % 12 {
        0 => {
            how = "tag soup, damaged";
            let k = r.range(2, 30);
            let mut s = soup(r, k);
            docs.push(s.clone());
            while docs.len() < n {
                for _ in 0..r.range(1, 3) {
                    s = damage(r, &s);
                }
                docs.push(s.clone());
            }
        }
        1 => {
            how = "unrelated tag soup";
            while docs.len() < n {
                let k = r.range(0, 25);
                docs.push(soup(r, k));
            }
        }
        2 if !corpus.0.is_empty() => {
            how = "excerpt of a real page, damaged";
            let p = r.pick(&corpus.0).clone();
            let l = r.range(50, 3000);
            let mut s = excerpt(r, &p, l);
            docs.push(s.clone());
            while docs.len() < n {
                for _ in 0..r.range(1, 4) {
                    s = damage(r, &s);
                }
                docs.push(s.clone());
            }
        }
        3 if !corpus.1.is_empty() => {
            how = "shipped case, then damaged";
            let (a, b) = r.pick(&corpus.1).clone();
            docs.push(a);
            docs.push(b.clone());
            let mut s = b;
            while docs.len() < n {
                s = damage(r, &s);
                docs.push(s.clone());
            }
        }
        4 => {
            how = "unrelated pages";
            while docs.len() < n {
                let (st, k, f) = (*r.pick(&[PLAIN, RICH, DULL]), r.range(0, 25), r.below(FORMS));
                docs.push(page(&body(r, st, k), f));
            }
        }
        5 | 6 => {
            how = "repetitive page, edited";
            let k = r.range(2, 30);
            let mut b = body(r, DULL, k);
            let f = r.below(5);
            docs.push(page(&b, f));
            while docs.len() < n {
                for _ in 0..r.range(1, 4) {
                    edit(r, &mut b, DULL);
                }
                docs.push(page(&b, f));
            }
        }
        7 => {
            how = "page with misnested content, edited";
            let k = r.range(2, 30);
            let mut b = body(r, WILD, k);
            let f = r.below(FORMS);
            docs.push(page(&b, f));
            while docs.len() < n {
                for _ in 0..r.range(1, 4) {
                    edit(r, &mut b, WILD);
                }
                docs.push(page(&b, f));
            }
        }
        8 | 9 => {
            how = "page with opaque parts, edited";
            let k = r.range(2, 25);
            let mut b = body(r, OPAQUE, k);
            // now and then the body itself is opaque, or becomes it, or ceases to be
            let body_too = r.chance(1, 4);
            let turn = |r: &mut Rng, b: &mut Elem| {
                if body_too && r.chance(1, 2) {
                    turn_opaque(b);
                }
            };
            turn(r, &mut b);
            let f = r.below(5);
            docs.push(page(&b, f));
            while docs.len() < n {
                for _ in 0..r.range(1, 3) {
                    edit(r, &mut b, OPAQUE);
                }
                turn(r, &mut b);
                docs.push(page(&b, f));
            }
        }
        _ => {
            how = "page, edited";
            let st = *r.pick(&[PLAIN, PLAIN, RICH]);
            let k = *r.pick(&[3, 8, 15, 30, 60]);
            let mut b = body(r, st, k);
            let f = r.below(FORMS);
            // now and then a page without any body comes first
            let first = if r.chance(1, 25) { FORMS } else { f };
            docs.push(page(&b, first));
            while docs.len() < n {
                for _ in 0..*r.pick(&[1, 1, 2, 4, 8]) {
                    edit(r, &mut b, st);
                }
                let f = if r.chance(1, 6) { r.below(FORMS + 1) } else { f };
                docs.push(page(&b, f));
            }
        }
    }
    if idx % 89 == 5 {
        swell(r, &mut docs);
    }
    docs.iter_mut().for_each(tame);
    Docs { docs, opt: r.next(), how, min: 2 }
}
const SIZES: &[usize] = &[15, 16, 17, 24, 31, 33, 63, 65, 127, 129, 255, 257, 300, 511, 520, 1023, 1025, 1100, 2050, 4090, 4100, 8200];
/// Puts something unusually large into every version of a page: the same up to where it ends, and
/// a little different from there on.
pub fn swell(r: &mut Rng, docs: &mut [String]) {
    let n = if r.chance(1, 15) { 66_000 } else { *r.pick(SIZES) };
    let kind = r.below(12);
    let (at, len, alike, seed) = (r.below(1000), r.below(3), r.chance(1, 2), r.next());
    for (k, d) in docs.iter_mut().enumerate() {
        let mut t = Rng::new(seed);
        let mut text = String::new();
        let dotted = t.chance(1, 2);
        while text.len() < n {
            text.push_str(t.pick(&["alpha ", "beta ", "gamma\n", "delta", "é ", "  ", "x", "ω"]));
            if dotted && t.chance(1, 40) {
                text.push_str(t.pick(&["&amp;", "&eacute;", "\0", "&nbsp;", "\r\n"]));
            }
        }
        // the end of the large thing, which may be there only in some versions
        let end = ["", "one", "two", "three"][if alike { 3 } else { 1 + k % 3 }];
        let few = n.min(320);
        let tag = ["p", "li", "svg"][len];
        let thing = match kind {
            0 | 1 => format!("{text}{end}"),
            2 => format!("<!--{}{end}-->", text.replace('-', "")),
            3 => format!("<{tag} title=\"{}{end}\">x</{tag}>", text.replace('"', "")),
            4 => {
                let mut v: Vec<String> = (0..few).map(|i| format!(" a{i}={}", i % 7)).collect();
                match k % 4 {
                    1 => v.swap(few / 2, few - 1),
                    2 => {
                        v.pop();
                    }
                    3 => v.push(" last".into()),
                    _ => {}
                }
                format!("<{tag}{} data-end=\"{end}\">y</{tag}>", v.concat())
            }
            5 | 6 => {
                let mut v: Vec<String> = (0..few).map(|i| if kind == 5 { format!("<i>{i}</i>") } else { ["<b></b>", "-", "<!--s-->"][i % 3].to_string() }).collect();
                match (k + len) % 4 {
                    1 => v.push(format!("<i>{end}</i>")),
                    2 => {
                        let x = v.pop().unwrap_or_default();
                        v.insert(few / 3, x);
                    }
                    3 => {
                        v.remove(few / 2);
                    }
                    _ => {}
                }
                if alike { v.concat() } else { format!("<{tag}>{}</{tag}>", v.concat()) }
            }
            7 => {
                let deep = few.min(if at < 300 { 310 } else { 110 }) + k % 2;
                format!("{}{end}{}", "<div>".repeat(deep), "</div>".repeat(deep))
            }
            8 => format!("<x-{0}>{end}</x-{0}>", "long".repeat(few / 4 + 1)),
            9 => format!("<p {}={end}>z</p>", "name".repeat(few / 4 + 1)),
            10 => format!("<table>{}{}</table>", "<tr><td>c</td></tr>".repeat(few / 4), format!("{end}<em>f</em>").repeat(few / 8 + 1)),
            _ => format!("<div data-hotmeal-opaque=big>{}{end}</div>", text),
        };
        // in front of everything, or between tags; at the same place in every version
        let places: Vec<usize> = d.match_indices('>').map(|(i, _)| i + 1).collect();
        let i = if places.is_empty() || at < 100 { 0 } else { places[at * places.len() / 1000] };
        d.insert_str(i, &thing);
    }
    // next to a page that has no body at all
    if docs.len() > 1 && r.chance(1, 6) {
        let k = r.below(docs.len());
        docs[k] = page(&Elem::new("body"), FORMS);
    }
}
/// Keeps clear of the one finding no patch can express (known_findings.txt): a table within MathML
/// text can leave an HTML mglyph or malignmark there.
pub fn tame(d: &mut String) {
    let l = d.to_ascii_lowercase();
    if l.contains("<table") && (l.contains("mglyph") || l.contains("malignmark")) {
        *d = l.replace("malignmark", "mprescripts").replace("mglyph", "mspace");
    }
}
