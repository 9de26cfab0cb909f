//! Reference sink: builds the tree the HTML parser asks for, following the DOM standard, as plain
//! values. Template contents are kept as the template's own children.
use crate::tree::{Attr, Elem, Node, Ns};
use html5ever::interface::{ElementFlags, NodeOrText, QuirksMode, TreeSink};
use html5ever::{Attribute, LocalName, Namespace, QualName};
use std::borrow::Cow;
use std::cell::RefCell;
use tendril::{StrTendril, TendrilSink};

#[derive(Debug)]
enum K {
    Doc,
    Elem(QualName, Vec<Attr>, bool),
    Text(String),
    Comment(String),
    Doctype(String, String, String),
}
#[derive(Debug)]
struct N {
    parent: Option<usize>,
    children: Vec<usize>,
    k: K,
}
#[derive(Default)]
pub struct RefSink {
    n: RefCell<Vec<N>>,
    fragment: bool,
}
pub struct RefDoc {
    pub doctype: Option<(String, String, String)>,
    /// Children of the document node.
    pub children: Vec<Node>,
}
impl RefDoc {
    pub fn html(&self) -> Option<&Elem> {
        self.children.iter().find_map(|c| c.elem())
    }
    pub fn body(&self) -> Option<&Elem> {
        self.html()?.children.iter().filter_map(|c| c.elem()).find(|e| e.tag == "body" && e.ns == Ns::Html)
    }
}

impl RefSink {
    pub fn new(fragment: bool) -> Self {
        RefSink { n: RefCell::new(vec![N { parent: None, children: vec![], k: K::Doc }]), fragment }
    }
    fn add(&self, k: K) -> usize {
        let mut n = self.n.borrow_mut();
        n.push(N { parent: None, children: vec![], k });
        n.len() - 1
    }
    fn detach(&self, c: usize) {
        let mut n = self.n.borrow_mut();
        if let Some(p) = n[c].parent.take() {
            n[p].children.retain(|x| *x != c);
        }
    }
    fn insert(&self, p: usize, at: usize, c: usize) {
        let mut n = self.n.borrow_mut();
        n[c].parent = Some(p);
        n[p].children.insert(at, c);
    }
    fn text_at(&self, p: usize, at: usize, t: &str) {
        if t.is_empty() {
            return;
        }
        let mut n = self.n.borrow_mut();
        if at > 0 {
            let prev = n[p].children[at - 1];
            if let K::Text(s) = &mut n[prev].k {
                s.push_str(t);
                return;
            }
        }
        drop(n);
        let c = self.add(K::Text(t.into()));
        self.insert(p, at, c);
    }
    fn conv(n: &[N], i: usize) -> Node {
        match &n[i].k {
            K::Doc => unreachable!(),
            K::Text(t) => Node::Text(t.clone()),
            K::Comment(t) => Node::Comment(t.clone()),
            K::Doctype(a, b, c) => Node::Doctype(a.clone(), b.clone(), c.clone()),
            K::Elem(q, attrs, _) => Node::Elem(Elem {
                ns: match &*q.ns {
                    "http://www.w3.org/2000/svg" => Ns::Svg,
                    "http://www.w3.org/1998/Math/MathML" => Ns::Math,
                    _ => Ns::Html,
                },
                tag: q.local.to_string(),
                attrs: attrs.clone(),
                children: n[i].children.iter().map(|c| Self::conv(n, *c)).collect(),
            }),
        }
    }
}
fn attr(a: Attribute) -> Attr {
    Attr {
        prefix: a.name.prefix.as_ref().map(|p| p.to_string()).unwrap_or_default(),
        ns: a.name.ns.to_string(),
        local: a.name.local.to_string(),
        value: a.value.to_string(),
    }
}

impl TreeSink for RefSink {
    type Handle = usize;
    type Output = RefDoc;
    type ElemName<'a> = QualName;
    fn finish(self) -> RefDoc {
        let n = self.n.into_inner();
        let mut doctype = None;
        let mut ch = vec![];
        // In the fragment case the content hangs off the root <html> element.
        let top = if self.fragment { n[0].children.iter().copied().find(|c| matches!(n[*c].k, K::Elem(..))).unwrap_or(0) } else { 0 };
        for c in &n[top].children {
            let x = Self::conv(&n, *c);
            if let Node::Doctype(a, b, c) = &x {
                doctype = Some((a.clone(), b.clone(), c.clone()));
            }
            ch.push(x);
        }
        RefDoc { doctype, children: ch }
    }
    fn parse_error(&self, _: Cow<'static, str>) {}
    fn get_document(&self) -> usize {
        0
    }
    fn elem_name(&self, t: &usize) -> QualName {
        match &self.n.borrow()[*t].k {
            K::Elem(q, ..) => q.clone(),
            _ => QualName { prefix: None, ns: Namespace::from(""), local: LocalName::from("") },
        }
    }
    fn create_element(&self, name: QualName, attrs: Vec<Attribute>, f: ElementFlags) -> usize {
        self.add(K::Elem(name, attrs.into_iter().map(attr).collect(), f.mathml_annotation_xml_integration_point))
    }
    fn create_comment(&self, t: StrTendril) -> usize {
        self.add(K::Comment(t.to_string()))
    }
    fn create_pi(&self, _: StrTendril, _: StrTendril) -> usize {
        self.add(K::Comment(String::new()))
    }
    fn append(&self, p: &usize, c: NodeOrText<usize>) {
        let at = self.n.borrow()[*p].children.len();
        match c {
            NodeOrText::AppendNode(c) => {
                self.detach(c);
                let at = self.n.borrow()[*p].children.len();
                self.insert(*p, at, c)
            }
            NodeOrText::AppendText(t) => self.text_at(*p, at, &t),
        }
    }
    fn append_before_sibling(&self, s: &usize, c: NodeOrText<usize>) {
        if let NodeOrText::AppendNode(c) = &c {
            self.detach(*c);
        }
        let (p, at) = {
            let n = self.n.borrow();
            let p = n[*s].parent.expect("sibling has a parent");
            (p, n[p].children.iter().position(|x| x == s).unwrap())
        };
        match c {
            NodeOrText::AppendNode(c) => self.insert(p, at, c),
            NodeOrText::AppendText(t) => self.text_at(p, at, &t),
        }
    }
    fn append_based_on_parent_node(&self, e: &usize, prev: &usize, c: NodeOrText<usize>) {
        if self.n.borrow()[*e].parent.is_some() { self.append_before_sibling(e, c) } else { self.append(prev, c) }
    }
    fn append_doctype_to_document(&self, n: StrTendril, p: StrTendril, s: StrTendril) {
        let c = self.add(K::Doctype(n.to_string(), p.to_string(), s.to_string()));
        let at = self.n.borrow()[0].children.len();
        self.insert(0, at, c);
    }
    fn get_template_contents(&self, t: &usize) -> usize {
        *t
    }
    fn same_node(&self, a: &usize, b: &usize) -> bool {
        a == b
    }
    fn set_quirks_mode(&self, _: QuirksMode) {}
    fn add_attrs_if_missing(&self, t: &usize, attrs: Vec<Attribute>) {
        if let K::Elem(_, have, _) = &mut self.n.borrow_mut()[*t].k {
            for a in attrs.into_iter().map(attr) {
                if !have.iter().any(|h| h.ns == a.ns && h.local == a.local) {
                    have.push(a);
                }
            }
        }
    }
    fn remove_from_parent(&self, t: &usize) {
        self.detach(*t);
    }
    fn reparent_children(&self, n: &usize, to: &usize) {
        let ch = self.n.borrow()[*n].children.clone();
        for c in ch {
            self.detach(c);
            let at = self.n.borrow()[*to].children.len();
            self.insert(*to, at, c);
        }
    }
    fn is_mathml_annotation_xml_integration_point(&self, h: &usize) -> bool {
        matches!(self.n.borrow()[*h].k, K::Elem(_, _, true))
    }
}

pub fn parse_full(s: &str) -> RefDoc {
    html5ever::parse_document(RefSink::new(false), Default::default()).one(StrTendril::from(s))
}
pub fn parse_frag(s: &str, ctx_ns: &str, ctx: &str, scripting: bool) -> Vec<Node> {
    let name = QualName { prefix: None, ns: Namespace::from(ctx_ns), local: LocalName::from(ctx) };
    html5ever::parse_fragment(RefSink::new(true), Default::default(), name, vec![], scripting)
        .one(StrTendril::from(s))
        .children
}
/// The contents an element gets when its inner HTML is set to `s`.
pub fn parse_inner(s: &str, ctx_ns: &str, ctx: &str) -> Vec<Node> {
    let name = QualName { prefix: None, ns: Namespace::from(ctx_ns), local: LocalName::from(ctx) };
    let mut o = html5ever::ParseOpts::default();
    o.tokenizer.discard_bom = false;
    html5ever::parse_fragment(RefSink::new(true), o, name, vec![], true).one(StrTendril::from(s)).children
}
