//! Specification-side DOM tree: a plain recursive value, sharing no code with the repository.

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ns {
    Html,
    Svg,
    Math,
}

impl Ns {
    pub fn url(self) -> &'static str {
        match self {
            Ns::Html => "http://www.w3.org/1999/xhtml",
            Ns::Svg => "http://www.w3.org/2000/svg",
            Ns::Math => "http://www.w3.org/1998/Math/MathML",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Attr {
    pub prefix: String,
    pub ns: String,
    pub local: String,
    pub value: String,
}
impl Attr {
    pub fn new(name: &str, value: &str) -> Attr {
        Attr { prefix: String::new(), ns: String::new(), local: name.into(), value: value.into() }
    }
    pub fn qname(&self) -> String {
        if self.prefix.is_empty() { self.local.clone() } else { format!("{}:{}", self.prefix, self.local) }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Elem(Elem),
    Text(String),
    Comment(String),
    Doctype(String, String, String),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Elem {
    pub ns: Ns,
    pub tag: String,
    pub attrs: Vec<Attr>,
    pub children: Vec<Node>,
}

impl Elem {
    pub fn new(tag: &str) -> Elem {
        Elem { ns: Ns::Html, tag: tag.into(), attrs: vec![], children: vec![] }
    }
    pub fn attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.local == name).map(|a| a.value.as_str())
    }
    pub fn opaque(&self) -> bool {
        self.attrs.iter().any(|a| a.local == "data-hotmeal-opaque")
    }
    pub fn size(&self) -> usize {
        1 + self.children.iter().map(Node::size).sum::<usize>()
    }
    pub fn any(&self, f: &mut dyn FnMut(&Elem) -> bool) -> bool {
        if f(self) {
            return true;
        }
        self.children.iter().any(|c| if let Node::Elem(e) = c { e.any(f) } else { false })
    }
}

impl Node {
    pub fn size(&self) -> usize {
        match self {
            Node::Elem(e) => e.size(),
            _ => 1,
        }
    }
    pub fn elem(&self) -> Option<&Elem> {
        if let Node::Elem(e) = self { Some(e) } else { None }
    }
    pub fn is_text(&self) -> bool {
        matches!(self, Node::Text(_))
    }
}

/// Drops empty text nodes (what patching leaves behind as placeholders).
pub fn drop_empty_text(e: &Elem) -> Elem {
    Elem {
        ns: e.ns,
        tag: e.tag.clone(),
        attrs: e.attrs.clone(),
        children: e
            .children
            .iter()
            .filter(|c| !matches!(c, Node::Text(t) if t.is_empty()))
            .map(|c| match c {
                Node::Elem(e) => Node::Elem(drop_empty_text(e)),
                o => o.clone(),
            })
            .collect(),
    }
}
/// Maps over elements top-down.
pub fn map_elems(e: &Elem, f: &dyn Fn(&mut Elem)) -> Elem {
    let mut n = e.clone();
    f(&mut n);
    n.children = n
        .children
        .iter()
        .map(|c| match c {
            Node::Elem(e) => Node::Elem(map_elems(e, f)),
            o => o.clone(),
        })
        .collect();
    n
}

/// html5lib-style dump; the comparison messages use it.
pub fn dump(n: &Node, ind: usize, out: &mut String) {
    let pre = format!("| {}", "  ".repeat(ind));
    match n {
        Node::Doctype(n, p, s) => {
            if p.is_empty() && s.is_empty() {
                out.push_str(&format!("{pre}<!DOCTYPE {n}>\n"))
            } else {
                out.push_str(&format!("{pre}<!DOCTYPE {n} \"{p}\" \"{s}\">\n"))
            }
        }
        Node::Text(t) => out.push_str(&format!("{pre}\"{t}\"\n")),
        Node::Comment(t) => out.push_str(&format!("{pre}<!-- {t} -->\n")),
        Node::Elem(e) => {
            let p = match e.ns {
                Ns::Html => "",
                Ns::Svg => "svg ",
                Ns::Math => "math ",
            };
            out.push_str(&format!("{pre}<{p}{}>\n", e.tag));
            let mut a: Vec<String> = e
                .attrs
                .iter()
                .map(|a| {
                    let n = match a.ns.as_str() {
                        "http://www.w3.org/1999/xlink" => format!("xlink {}", a.local),
                        "http://www.w3.org/XML/1998/namespace" => format!("xml {}", a.local),
                        "http://www.w3.org/2000/xmlns/" => format!("xmlns {}", a.local),
                        _ => a.local.clone(),
                    };
                    format!("{pre}  {n}=\"{}\"\n", a.value)
                })
                .collect();
            a.sort();
            a.iter().for_each(|l| out.push_str(l));
            for c in &e.children {
                dump(c, ind + 1, out);
            }
        }
    }
}

/// First difference between two elements, as a readable message.
pub fn diff_msg(got: &Elem, want: &Elem, path: &str) -> Option<String> {
    if got.tag != want.tag {
        return Some(format!("{path}: tag is <{}>, expected <{}>", got.tag, want.tag));
    }
    let here = format!("{path}/{}", got.tag);
    if got.ns != want.ns {
        return Some(format!("{here}: namespace is {:?}, expected {:?}", got.ns, want.ns));
    }
    if got.attrs != want.attrs {
        let s = |a: &[Attr]| a.iter().map(|a| format!("{}={:?}", a.qname(), a.value)).collect::<Vec<_>>().join(" ");
        return Some(format!("{here}: attributes are [{}], expected [{}]", s(&got.attrs), s(&want.attrs)));
    }
    for i in 0..got.children.len().max(want.children.len()) {
        match (got.children.get(i), want.children.get(i)) {
            (Some(Node::Elem(a)), Some(Node::Elem(b))) => {
                if let Some(m) = diff_msg(a, b, &format!("{here}[{i}]")) {
                    return Some(m);
                }
            }
            (a, b) if a == b => {}
            (a, b) => return Some(format!("{here}[{i}]: is {}, expected {}", brief(a), brief(b))),
        }
    }
    None
}
fn brief(n: Option<&Node>) -> String {
    match n {
        None => "nothing".into(),
        Some(Node::Elem(e)) => format!("<{}> with {} children", e.tag, e.children.len()),
        Some(Node::Text(t)) => format!("text {:?}", t.chars().take(60).collect::<String>()),
        Some(Node::Comment(t)) => format!("comment {:?}", t.chars().take(60).collect::<String>()),
        Some(Node::Doctype(n, _, _)) => format!("doctype {n}"),
    }
}
