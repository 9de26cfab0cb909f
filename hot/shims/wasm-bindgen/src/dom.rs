//! A small DOM with the parts of the standard that matter to a client that applies patches:
//! node identity, the insertion and replacement algorithms with their errors, namespaces,
//! name validation and case folding, template contents, live lists, inner HTML and events.
use crate::JsValue;
use std::cell::{Cell, RefCell};
use std::rc::{Rc, Weak};

pub const HTML: &str = "http://www.w3.org/1999/xhtml";
pub const SVG: &str = "http://www.w3.org/2000/svg";
pub const MATH: &str = "http://www.w3.org/1998/Math/MathML";

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AttrData {
    pub ns: String,
    pub prefix: String,
    pub local: String,
    pub value: String,
}
impl AttrData {
    pub fn name(&self) -> String {
        if self.prefix.is_empty() { self.local.clone() } else { format!("{}:{}", self.prefix, self.local) }
    }
}
pub type AttrRc = Rc<RefCell<AttrData>>;
#[derive(Clone)]
pub struct AttrNode {
    pub data: AttrRc,
    pub owner: Rc<RefCell<Option<Weak<Inner>>>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Element { ns: String, prefix: String, local: String },
    Text,
    Comment,
    Document,
    Fragment,
}
pub struct Inner {
    pub id: u64,
    pub kind: Kind,
    pub text: RefCell<String>,
    pub attrs: RefCell<Vec<AttrNode>>,
    pub parent: RefCell<Weak<Inner>>,
    pub children: RefCell<Vec<Node>>,
    /// a template's contents
    pub content: RefCell<Option<Node>>,
    /// of a template's contents: the template
    pub host: RefCell<Weak<Inner>>,
}
#[derive(Clone)]
pub struct Node(pub Rc<Inner>);
impl PartialEq for Node {
    fn eq(&self, o: &Node) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
}

thread_local! {
    static NEXT: Cell<u64> = const { Cell::new(1) };
    static DOCUMENT: RefCell<Option<Node>> = const { RefCell::new(None) };
    static STRICT: Cell<bool> = const { Cell::new(true) };
    pub static EVENTS: RefCell<Vec<(Node, Rc<crate::EventData>)>> = const { RefCell::new(vec![]) };
    static LISTENER: Cell<Option<fn(&Node, &crate::EventData)>> = const { Cell::new(None) };
    pub static LOGS: Cell<u64> = const { Cell::new(0) };
    pub static KEEP_LOGS: Cell<bool> = const { Cell::new(false) };
    pub static LOG_LINES: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    /// How often the page was told to reload.
    pub static RELOADS: Cell<u64> = const { Cell::new(0) };
    /// Path, query and fragment of the page's address; empty: there is none.
    pub static LOCATION: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static PARSER: Cell<Option<fn(&str, &str, &str) -> Vec<Node>>> = const { Cell::new(None) };
    static SERIALIZER: Cell<Option<fn(&Node) -> String>> = const { Cell::new(None) };
}
/// Whether names are judged by the XML productions, as browsers did until 2025, or only by what
/// a parser could produce, as they do since.
pub fn set_strict_names(on: bool) {
    STRICT.set(on);
}
/// The HTML parser (context namespace, context name, source) and serializer of inner HTML.
pub fn set_html(parser: fn(&str, &str, &str) -> Vec<Node>, serializer: fn(&Node) -> String) {
    PARSER.set(Some(parser));
    SERIALIZER.set(Some(serializer));
}
/// What the page does when an event is dispatched.
pub fn set_listener(f: Option<fn(&Node, &crate::EventData)>) {
    LISTENER.set(f);
}
pub fn dispatch(n: &Node, e: Rc<crate::EventData>) {
    EVENTS.with_borrow_mut(|v| v.push((n.clone(), e.clone())));
    if let Some(f) = LISTENER.get() {
        f(n, &e);
    }
}
pub fn set_document(d: Option<Node>) {
    EVENTS.take();
    DOCUMENT.replace(d);
}
pub fn document() -> Option<Node> {
    DOCUMENT.with_borrow(|d| d.clone())
}

fn xml_start(c: char) -> bool {
    matches!(c, ':' | 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}'
        | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
fn xml_name(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(xml_start)
        && c.all(|c| xml_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}'))
}
fn valid_attr_name(s: &str) -> bool {
    if STRICT.get() { xml_name(s) } else { !s.is_empty() && !s.contains(['\t', '\n', '\x0c', '\r', ' ', '\0', '/', '=', '>']) }
}
fn valid_element_name(s: &str) -> bool {
    if STRICT.get() {
        return xml_name(s);
    }
    match s.chars().next() {
        Some(c) if c.is_ascii_alphabetic() => !s.contains(['\t', '\n', '\x0c', '\r', ' ', '\0', '/', '>']),
        Some(c) if c == ':' || c == '_' || c as u32 >= 0x80 => s.chars().skip(1).all(|c| c.is_ascii_alphanumeric() || matches!(c, '-' | '.' | ':' | '_') || c as u32 >= 0x80),
        _ => false,
    }
}
fn invalid(what: &str, name: &str) -> JsValue {
    JsValue::exception("InvalidCharacterError", format!("{what}: '{name}' is not a valid name"))
}
/// "validate and extract"
fn extract(ns: Option<&str>, q: &str, element: bool) -> Result<(String, String, String), JsValue> {
    let ns = ns.unwrap_or("");
    let (prefix, local) = match q.split_once(':') {
        Some((p, l)) => (p, l),
        None => ("", q),
    };
    let bad = if STRICT.get() {
        !xml_name(q) || local.contains(':') || (q.contains(':') && (prefix.is_empty() || !xml_name(local)))
    } else {
        (q.contains(':') && (prefix.is_empty() || prefix.contains(['\t', '\n', '\x0c', '\r', ' ', '\0', '/', '>'])))
            || if element { !valid_element_name(local) } else { !valid_attr_name(local) }
    };
    if bad {
        return Err(invalid("qualified name", q));
    }
    let xml = "http://www.w3.org/XML/1998/namespace";
    let xmlns = "http://www.w3.org/2000/xmlns/";
    if (!prefix.is_empty() && ns.is_empty()) || (prefix == "xml" && ns != xml) || ((q == "xmlns" || prefix == "xmlns") != (ns == xmlns)) {
        return Err(JsValue::exception("NamespaceError", format!("'{q}' does not go with namespace '{ns}'")));
    }
    Ok((ns.into(), prefix.into(), local.into()))
}

impl Node {
    pub fn new(kind: Kind) -> Node {
        let id = NEXT.get();
        NEXT.set(id + 1);
        let n = Node(Rc::new(Inner {
            id,
            kind,
            text: RefCell::default(),
            attrs: RefCell::default(),
            parent: RefCell::default(),
            children: RefCell::default(),
            content: RefCell::default(),
            host: RefCell::default(),
        }));
        if n.is_html("template") {
            let f = Node::new(Kind::Fragment);
            *f.0.host.borrow_mut() = Rc::downgrade(&n.0);
            *n.0.content.borrow_mut() = Some(f);
        }
        n
    }
    pub fn element(ns: &str, local: &str) -> Node {
        Node::new(Kind::Element { ns: ns.into(), prefix: String::new(), local: local.into() })
    }
    pub fn text(s: &str) -> Node {
        let n = Node::new(Kind::Text);
        *n.0.text.borrow_mut() = s.into();
        n
    }
    pub fn comment(s: &str) -> Node {
        let n = Node::new(Kind::Comment);
        *n.0.text.borrow_mut() = s.into();
        n
    }
    pub fn create_element(name: &str) -> Result<Node, JsValue> {
        if !valid_element_name(name) {
            return Err(invalid("createElement", name));
        }
        Ok(Node::element(HTML, &name.to_ascii_lowercase()))
    }
    pub fn create_element_ns(ns: Option<&str>, q: &str) -> Result<Node, JsValue> {
        let (ns, prefix, local) = extract(ns, q, true)?;
        Ok(Node::new(Kind::Element { ns, prefix, local }))
    }
    pub fn is_element(&self) -> bool {
        matches!(self.0.kind, Kind::Element { .. })
    }
    pub fn is_html(&self, tag: &str) -> bool {
        matches!(&self.0.kind, Kind::Element { ns, local, .. } if ns == HTML && local == tag)
    }
    pub fn is_html_element(&self) -> bool {
        matches!(&self.0.kind, Kind::Element { ns, .. } if ns == HTML)
    }
    pub fn ns(&self) -> String {
        match &self.0.kind {
            Kind::Element { ns, .. } => ns.clone(),
            _ => String::new(),
        }
    }
    pub fn local(&self) -> String {
        match &self.0.kind {
            Kind::Element { local, .. } => local.clone(),
            _ => String::new(),
        }
    }
    pub fn qualified(&self) -> String {
        match &self.0.kind {
            Kind::Element { prefix, local, .. } if !prefix.is_empty() => format!("{prefix}:{local}"),
            Kind::Element { local, .. } => local.clone(),
            _ => String::new(),
        }
    }
    pub fn name(&self) -> String {
        match &self.0.kind {
            Kind::Element { ns, .. } => {
                let q = self.qualified();
                if ns == HTML { q.to_ascii_uppercase() } else { q }
            }
            Kind::Text => "#text".into(),
            Kind::Comment => "#comment".into(),
            Kind::Document => "#document".into(),
            Kind::Fragment => "#document-fragment".into(),
        }
    }
    pub fn node_type(&self) -> u16 {
        match self.0.kind {
            Kind::Element { .. } => 1,
            Kind::Text => 3,
            Kind::Comment => 8,
            Kind::Document => 9,
            Kind::Fragment => 11,
        }
    }
    pub fn parent(&self) -> Option<Node> {
        self.0.parent.borrow().upgrade().map(Node)
    }
    pub fn kids(&self) -> Vec<Node> {
        self.0.children.borrow().clone()
    }
    pub fn index(&self) -> Option<usize> {
        self.parent()?.0.children.borrow().iter().position(|c| c == self)
    }
    pub fn sibling(&self, by: isize) -> Option<Node> {
        let p = self.parent()?;
        let i = self.index()?.checked_add_signed(by)?;
        let k = p.0.children.borrow();
        k.get(i).cloned()
    }
    /// Whether `self` is `n` or contains it, looking through template contents.
    fn holds(&self, n: &Node) -> bool {
        let mut cur = Some(n.clone());
        while let Some(c) = cur {
            if c == *self {
                return true;
            }
            cur = c.parent().or_else(|| c.0.host.borrow().upgrade().map(Node));
        }
        false
    }
    fn detach(&self) {
        if let Some(p) = self.parent() {
            p.0.children.borrow_mut().retain(|c| c != self);
            *self.0.parent.borrow_mut() = Weak::new();
        }
    }
    fn check(&self, node: &Node, child: Option<&Node>) -> Result<(), JsValue> {
        if !matches!(self.0.kind, Kind::Element { .. } | Kind::Fragment | Kind::Document) {
            return Err(JsValue::exception("HierarchyRequestError", "this node cannot have children"));
        }
        if node.holds(self) {
            return Err(JsValue::exception("HierarchyRequestError", "the new child contains the parent"));
        }
        if let Some(c) = child
            && c.parent().as_ref() != Some(self)
        {
            return Err(JsValue::exception("NotFoundError", "the reference node is not a child of this node"));
        }
        if matches!(node.0.kind, Kind::Document) {
            return Err(JsValue::exception("HierarchyRequestError", "a document cannot be inserted"));
        }
        if self.0.kind == Kind::Document && matches!(node.0.kind, Kind::Text | Kind::Fragment) {
            return Err(JsValue::exception("HierarchyRequestError", "not into a document"));
        }
        Ok(())
    }
    fn put(&self, node: &Node, before: Option<&Node>) {
        let list = if node.0.kind == Kind::Fragment { node.kids() } else { vec![node.clone()] };
        for n in &list {
            n.detach();
        }
        let at = before.and_then(|b| self.0.children.borrow().iter().position(|c| c == b)).unwrap_or(self.0.children.borrow().len());
        for n in &list {
            *n.0.parent.borrow_mut() = Rc::downgrade(&self.0);
        }
        self.0.children.borrow_mut().splice(at..at, list);
    }
    pub fn insert_before(&self, node: &Node, child: Option<&Node>) -> Result<(), JsValue> {
        self.check(node, child)?;
        let mut before = child.cloned();
        if before.as_ref() == Some(node) {
            before = node.sibling(1);
        }
        self.put(node, before.as_ref());
        Ok(())
    }
    pub fn append(&self, node: &Node) -> Result<(), JsValue> {
        self.insert_before(node, None)
    }
    pub fn replace_child(&self, node: &Node, child: &Node) -> Result<(), JsValue> {
        self.check(node, Some(child))?;
        let mut before = child.sibling(1);
        if before.as_ref() == Some(node) {
            before = node.sibling(1);
        }
        child.detach();
        self.put(node, before.as_ref());
        Ok(())
    }
    pub fn remove_child(&self, child: &Node) -> Result<(), JsValue> {
        if child.parent().as_ref() != Some(self) {
            return Err(JsValue::exception("NotFoundError", "not a child of this node"));
        }
        child.detach();
        Ok(())
    }
    pub fn remove(&self) {
        self.detach();
    }
    pub fn replace_children(&self, with: Vec<Node>) {
        for c in self.kids() {
            c.detach();
        }
        for n in with {
            self.put(&n, None);
        }
    }
    pub fn text_content(&self) -> Option<String> {
        match self.0.kind {
            Kind::Text | Kind::Comment => Some(self.0.text.borrow().clone()),
            Kind::Document => None,
            _ => {
                let mut s = String::new();
                for c in self.kids() {
                    if c.0.kind != Kind::Comment {
                        s.push_str(&c.text_content().unwrap_or_default());
                    }
                }
                Some(s)
            }
        }
    }
    pub fn set_text_content(&self, t: Option<&str>) {
        let t = t.unwrap_or("");
        match self.0.kind {
            Kind::Text | Kind::Comment => *self.0.text.borrow_mut() = t.into(),
            Kind::Document => {}
            _ => self.replace_children(if t.is_empty() { vec![] } else { vec![Node::text(t)] }),
        }
    }
    pub fn clone_node(&self, deep: bool) -> Node {
        let n = Node::new(self.0.kind.clone());
        *n.0.text.borrow_mut() = self.0.text.borrow().clone();
        for a in self.0.attrs.borrow().iter() {
            let d = a.data.borrow().clone();
            n.push_attr(d);
        }
        if deep {
            for c in self.kids() {
                n.put(&c.clone_node(true), None);
            }
            if let (Some(a), Some(b)) = (&*self.0.content.borrow(), &*n.0.content.borrow()) {
                for c in a.kids() {
                    b.put(&c.clone_node(true), None);
                }
            }
        }
        n
    }

    // ---- attributes

    pub fn push_attr(&self, d: AttrData) {
        let a = AttrNode { data: Rc::new(RefCell::new(d)), owner: Rc::new(RefCell::new(Some(Rc::downgrade(&self.0)))) };
        self.0.attrs.borrow_mut().push(a);
    }
    fn fold(&self, name: &str) -> String {
        if self.is_html_element() { name.to_ascii_lowercase() } else { name.into() }
    }
    pub fn attr_by_name(&self, name: &str) -> Option<AttrNode> {
        let name = self.fold(name);
        self.0.attrs.borrow().iter().find(|a| a.data.borrow().name() == name).cloned()
    }
    pub fn attr_by_ns(&self, ns: Option<&str>, local: &str) -> Option<AttrNode> {
        self.0.attrs.borrow().iter().find(|a| a.data.borrow().ns == ns.unwrap_or("") && a.data.borrow().local == local).cloned()
    }
    pub fn set_attribute(&self, name: &str, value: &str) -> Result<(), JsValue> {
        if !valid_attr_name(name) {
            return Err(invalid("setAttribute", name));
        }
        match self.attr_by_name(name) {
            Some(a) => a.data.borrow_mut().value = value.into(),
            None => {
                let local = self.fold(name);
                self.push_attr(AttrData { ns: String::new(), prefix: String::new(), local, value: value.into() });
            }
        }
        Ok(())
    }
    pub fn set_attribute_ns(&self, ns: Option<&str>, q: &str, value: &str) -> Result<(), JsValue> {
        let (ns, prefix, local) = extract(ns, q, false)?;
        match self.attr_by_ns(Some(&ns), &local) {
            Some(a) => a.data.borrow_mut().value = value.into(),
            None => self.push_attr(AttrData { ns, prefix, local, value: value.into() }),
        }
        Ok(())
    }
    pub fn drop_attr(&self, a: &AttrNode) -> bool {
        let mut v = self.0.attrs.borrow_mut();
        let n = v.len();
        v.retain(|x| !Rc::ptr_eq(&x.data, &a.data));
        if v.len() < n {
            *a.owner.borrow_mut() = None;
        }
        v.len() < n
    }
    pub fn set_attribute_node(&self, a: &AttrNode) -> Result<Option<AttrNode>, JsValue> {
        let owner = a.owner.borrow().as_ref().and_then(|w| w.upgrade());
        if let Some(o) = owner {
            if Rc::ptr_eq(&o, &self.0) {
                return Ok(Some(a.clone()));
            }
            return Err(JsValue::exception("InUseAttributeError", "the attribute belongs to another element"));
        }
        let (ns, local) = (a.data.borrow().ns.clone(), a.data.borrow().local.clone());
        *a.owner.borrow_mut() = Some(Rc::downgrade(&self.0));
        let mut v = self.0.attrs.borrow_mut();
        match v.iter_mut().find(|x| x.data.borrow().ns == ns && x.data.borrow().local == local) {
            Some(x) => {
                let old = std::mem::replace(x, a.clone());
                *old.owner.borrow_mut() = None;
                Ok(Some(old))
            }
            None => {
                v.push(a.clone());
                Ok(None)
            }
        }
    }

    // ---- inner HTML

    pub fn set_inner_html(&self, html: &str) {
        let nodes = PARSER.get().expect("no parser set")(&self.ns(), &self.local(), html);
        let content = self.0.content.borrow().clone();
        content.as_ref().unwrap_or(self).replace_children(nodes);
    }
    pub fn inner_html(&self) -> String {
        SERIALIZER.get().expect("no serializer set")(self)
    }
    /// Descendants in document order, template contents left out, as a selector sees them.
    pub fn find(&self, f: &mut dyn FnMut(&Node) -> bool) -> Option<Node> {
        for c in self.kids() {
            if f(&c) {
                return Some(c);
            }
            if let Some(x) = c.find(f) {
                return Some(x);
            }
        }
        None
    }
    pub fn matches(&self, sel: &str) -> Result<bool, JsValue> {
        if !self.is_element() {
            return Ok(false);
        }
        let attr = |n: &str| self.attr_by_name(n).map(|a| a.data.borrow().value.clone());
        let ident = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '-' || c == '_');
        if let Some(id) = sel.strip_prefix('#')
            && ident(id)
        {
            return Ok(attr("id").as_deref() == Some(id));
        }
        if let Some(c) = sel.strip_prefix('.')
            && ident(c)
        {
            return Ok(attr("class").is_some_and(|v| v.split_ascii_whitespace().any(|x| x == c)));
        }
        if ident(sel) {
            return Ok(self.local() == sel || (self.is_html_element() && self.local() == sel.to_ascii_lowercase()));
        }
        Err(JsValue::exception("SyntaxError", format!("'{sel}' is not a selector this DOM knows")))
    }
}
/// Descendants must not outlive a deep tree's stack when dropped.
impl Drop for Inner {
    fn drop(&mut self) {
        let mut pending: Vec<Node> = self.children.take();
        pending.extend(self.content.take());
        while let Some(n) = pending.pop() {
            if Rc::strong_count(&n.0) == 1 {
                pending.extend(n.0.children.take());
                pending.extend(n.0.content.take());
            }
        }
    }
}
