//! Stand-in for web-sys: the bindings, over the DOM in `wasm_bindgen::dom`.
use js_sys::Object;
use std::rc::Rc;
use wasm_bindgen::dom::{self, Kind};
use wasm_bindgen::{EventData, JsCast, JsValue, Val, js_class};

fn el(v: &Val) -> bool {
    matches!(v, Val::Node(n) if n.is_element())
}
fn kind(v: &Val, k: Kind) -> bool {
    matches!(v, Val::Node(n) if n.0.kind == k)
}
js_class!(EventTarget: Object, [Object], |v| matches!(v, Val::Node(_) | Val::Window));
js_class!(Node: EventTarget, [EventTarget, Object], |v| matches!(v, Val::Node(_)));
js_class!(Element: Node, [Node, EventTarget, Object], el);
js_class!(HtmlElement: Element, [Element, Node, EventTarget, Object], |v| matches!(v, Val::Node(n) if n.is_html_element()));
js_class!(HtmlTemplateElement: HtmlElement, [HtmlElement, Element, Node, EventTarget, Object], |v| matches!(v, Val::Node(n) if n.is_html("template")));
js_class!(CharacterData: Node, [Node, EventTarget, Object], |v| kind(v, Kind::Text) || kind(v, Kind::Comment));
js_class!(Text: CharacterData, [CharacterData, Node, EventTarget, Object], |v| kind(v, Kind::Text));
js_class!(Comment: CharacterData, [CharacterData, Node, EventTarget, Object], |v| kind(v, Kind::Comment));
js_class!(DocumentFragment: Node, [Node, EventTarget, Object], |v| kind(v, Kind::Fragment));
js_class!(Document: Node, [Node, EventTarget, Object], |v| kind(v, Kind::Document));
js_class!(NodeList: Object, [Object], |v| matches!(v, Val::Children(_)));
js_class!(NamedNodeMap: Object, [Object], |v| matches!(v, Val::Attrs(_)));
js_class!(Attr: Object, [Object], |v| matches!(v, Val::Attr(_)));
js_class!(Event: Object, [Object], |v| matches!(v, Val::Event(_)));
js_class!(CustomEvent: Event, [Event, Object], |v| matches!(v, Val::Event(_)));
js_class!(CustomEventInit: Object, [Object], |v| matches!(v, Val::Obj(_)));
js_class!(Window: EventTarget, [EventTarget, Object], |v| matches!(v, Val::Window));
js_class!(Location: Object, [Object], |v| matches!(v, Val::Location));

fn wrap<T: JsCast>(n: dom::Node) -> T {
    T::unchecked_from_js(JsValue(Val::Node(n)))
}
fn n<T: AsRef<JsValue>>(x: &T) -> &dom::Node {
    AsRef::<JsValue>::as_ref(x).node()
}

pub fn window() -> Option<Window> {
    dom::document().map(|_| Window::unchecked_from_js(JsValue(Val::Window)))
}
impl Window {
    pub fn document(&self) -> Option<Document> {
        dom::document().map(wrap)
    }
    pub fn location(&self) -> Location {
        Location::unchecked_from_js(JsValue(Val::Location))
    }
}
impl Location {
    pub fn reload(&self) -> Result<(), JsValue> {
        dom::RELOADS.set(dom::RELOADS.get() + 1);
        Ok(())
    }
    pub fn reload_with_forceget(&self, _: bool) -> Result<(), JsValue> {
        self.reload()
    }
    pub fn pathname(&self) -> Result<String, JsValue> {
        dom::LOCATION.with_borrow(|l| l.first().cloned()).ok_or_else(|| JsValue::from_str("no location"))
    }
    pub fn search(&self) -> Result<String, JsValue> {
        Ok(dom::LOCATION.with_borrow(|l| l.get(1).cloned()).unwrap_or_default())
    }
    pub fn hash(&self) -> Result<String, JsValue> {
        Ok(dom::LOCATION.with_borrow(|l| l.get(2).cloned()).unwrap_or_default())
    }
    pub fn origin(&self) -> Result<String, JsValue> {
        Ok("http://localhost:8080".into())
    }
    pub fn host(&self) -> Result<String, JsValue> {
        Ok("localhost:8080".into())
    }
    pub fn href(&self) -> Result<String, JsValue> {
        Ok(format!("{}{}{}{}", self.origin()?, self.pathname()?, self.search()?, self.hash()?))
    }
}
pub mod console {
    use super::*;
    pub fn log_1(v: &JsValue) {
        dom::LOGS.set(dom::LOGS.get() + 1);
        if dom::KEEP_LOGS.get() {
            dom::LOG_LINES.with_borrow_mut(|l| l.push(v.as_string().unwrap_or_else(|| format!("{v:?}"))));
        }
    }
    pub fn warn_1(v: &JsValue) {
        log_1(v)
    }
    pub fn error_1(v: &JsValue) {
        log_1(v)
    }
    pub fn debug_1(v: &JsValue) {
        log_1(v)
    }
}
impl EventTarget {
    pub fn dispatch_event(&self, e: &Event) -> Result<bool, JsValue> {
        if let Val::Event(d) = &AsRef::<JsValue>::as_ref(e).0 {
            dom::dispatch(n(self), d.clone());
        }
        Ok(true)
    }
}
impl CustomEventInit {
    #[allow(clippy::new_without_default)]
    pub fn new() -> CustomEventInit {
        CustomEventInit::unchecked_from_js(JsValue::object())
    }
    pub fn set_bubbles(&self, b: bool) {
        AsRef::<JsValue>::as_ref(self).set("bubbles", b.into());
    }
    pub fn set_cancelable(&self, b: bool) {
        AsRef::<JsValue>::as_ref(self).set("cancelable", b.into());
    }
    pub fn set_composed(&self, b: bool) {
        AsRef::<JsValue>::as_ref(self).set("composed", b.into());
    }
    pub fn set_detail(&self, d: &JsValue) {
        AsRef::<JsValue>::as_ref(self).set("detail", d.clone());
    }
}
impl CustomEvent {
    pub fn new(kind: &str) -> Result<CustomEvent, JsValue> {
        CustomEvent::new_with_event_init_dict(kind, &CustomEventInit::new())
    }
    pub fn new_with_event_init_dict(kind: &str, init: &CustomEventInit) -> Result<CustomEvent, JsValue> {
        let i: &JsValue = init.as_ref();
        let d = EventData { kind: kind.into(), bubbles: i.get("bubbles").as_bool().unwrap_or(false), detail: i.get("detail") };
        Ok(CustomEvent::unchecked_from_js(JsValue(Val::Event(Rc::new(d)))))
    }
    pub fn detail(&self) -> JsValue {
        match &AsRef::<JsValue>::as_ref(self).0 {
            Val::Event(d) => d.detail.clone(),
            _ => JsValue::NULL,
        }
    }
}
impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const ATTRIBUTE_NODE: u16 = 2;
    pub const TEXT_NODE: u16 = 3;
    pub const CDATA_SECTION_NODE: u16 = 4;
    pub const PROCESSING_INSTRUCTION_NODE: u16 = 7;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_TYPE_NODE: u16 = 10;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;
    pub fn node_type(&self) -> u16 {
        n(self).node_type()
    }
    pub fn node_name(&self) -> String {
        n(self).name()
    }
    pub fn node_value(&self) -> Option<String> {
        if matches!(n(self).0.kind, Kind::Text | Kind::Comment) { n(self).text_content() } else { None }
    }
    pub fn set_node_value(&self, v: Option<&str>) {
        if matches!(n(self).0.kind, Kind::Text | Kind::Comment) {
            n(self).set_text_content(v)
        }
    }
    pub fn text_content(&self) -> Option<String> {
        n(self).text_content()
    }
    pub fn set_text_content(&self, v: Option<&str>) {
        n(self).set_text_content(v)
    }
    pub fn parent_node(&self) -> Option<Node> {
        n(self).parent().map(wrap)
    }
    pub fn parent_element(&self) -> Option<Element> {
        n(self).parent().filter(|p| p.is_element()).map(wrap)
    }
    pub fn child_nodes(&self) -> NodeList {
        NodeList::unchecked_from_js(JsValue(Val::Children(n(self).clone())))
    }
    pub fn first_child(&self) -> Option<Node> {
        n(self).0.children.borrow().first().cloned().map(wrap)
    }
    pub fn last_child(&self) -> Option<Node> {
        n(self).0.children.borrow().last().cloned().map(wrap)
    }
    pub fn next_sibling(&self) -> Option<Node> {
        n(self).sibling(1).map(wrap)
    }
    pub fn previous_sibling(&self) -> Option<Node> {
        n(self).sibling(-1).map(wrap)
    }
    pub fn has_child_nodes(&self) -> bool {
        !n(self).0.children.borrow().is_empty()
    }
    pub fn append_child(&self, node: &Node) -> Result<Node, JsValue> {
        n(self).append(n(node))?;
        Ok(node.clone())
    }
    pub fn insert_before(&self, node: &Node, child: Option<&Node>) -> Result<Node, JsValue> {
        n(self).insert_before(n(node), child.map(n))?;
        Ok(node.clone())
    }
    pub fn replace_child(&self, node: &Node, child: &Node) -> Result<Node, JsValue> {
        n(self).replace_child(n(node), n(child))?;
        Ok(child.clone())
    }
    pub fn remove_child(&self, child: &Node) -> Result<Node, JsValue> {
        n(self).remove_child(n(child))?;
        Ok(child.clone())
    }
    pub fn is_connected(&self) -> bool {
        let mut c = n(self).clone();
        while let Some(p) = c.parent() {
            c = p;
        }
        c.0.kind == Kind::Document
    }
    pub fn normalize(&self) {
        fn go(x: &dom::Node) {
            for c in x.kids() {
                if c.0.kind != Kind::Text {
                    go(&c);
                    continue;
                }
                let prev = c.sibling(-1).filter(|p| p.0.kind == Kind::Text);
                let t = c.text_content().unwrap_or_default();
                match prev {
                    _ if t.is_empty() => c.remove(),
                    Some(p) => {
                        p.set_text_content(Some(&(p.text_content().unwrap_or_default() + &t)));
                        c.remove();
                    }
                    None => {}
                }
            }
        }
        go(n(self))
    }
    pub fn clone_node(&self) -> Result<Node, JsValue> {
        Ok(wrap(n(self).clone_node(false)))
    }
    pub fn clone_node_with_deep(&self, deep: bool) -> Result<Node, JsValue> {
        Ok(wrap(n(self).clone_node(deep)))
    }
    pub fn is_same_node(&self, o: Option<&Node>) -> bool {
        o.is_some_and(|o| n(self) == n(o))
    }
    pub fn contains(&self, o: Option<&Node>) -> bool {
        let mut c = o.map(|o| n(o).clone());
        while let Some(x) = c {
            if x == *n(self) {
                return true;
            }
            c = x.parent();
        }
        false
    }
    pub fn owner_document(&self) -> Option<Document> {
        dom::document().map(wrap)
    }
}
impl CharacterData {
    pub fn length(&self) -> u32 {
        self.data().encode_utf16().count() as u32
    }
    pub fn append_data(&self, v: &str) -> Result<(), JsValue> {
        self.set_data(&(self.data() + v));
        Ok(())
    }
    pub fn replace_with_with_node_1(&self, node: &Node) -> Result<(), JsValue> {
        match self.parent_node() {
            Some(p) => p.replace_child(node, self).map(|_| ()),
            None => Ok(()),
        }
    }
    pub fn remove(&self) {
        n(self).remove()
    }
    pub fn data(&self) -> String {
        n(self).text_content().unwrap_or_default()
    }
    pub fn set_data(&self, v: &str) {
        n(self).set_text_content(Some(v))
    }
}
impl Element {
    pub fn tag_name(&self) -> String {
        n(self).name()
    }
    pub fn local_name(&self) -> String {
        n(self).local()
    }
    pub fn namespace_uri(&self) -> Option<String> {
        Some(n(self).ns()).filter(|s| !s.is_empty())
    }
    pub fn attributes(&self) -> NamedNodeMap {
        NamedNodeMap::unchecked_from_js(JsValue(Val::Attrs(n(self).clone())))
    }
    pub fn get_attribute(&self, name: &str) -> Option<String> {
        n(self).attr_by_name(name).map(|a| a.data.borrow().value.clone())
    }
    pub fn get_attribute_ns(&self, ns: Option<&str>, local: &str) -> Option<String> {
        n(self).attr_by_ns(ns, local).map(|a| a.data.borrow().value.clone())
    }
    pub fn has_attribute(&self, name: &str) -> bool {
        n(self).attr_by_name(name).is_some()
    }
    pub fn set_attribute(&self, name: &str, value: &str) -> Result<(), JsValue> {
        n(self).set_attribute(name, value)
    }
    pub fn set_attribute_ns(&self, ns: Option<&str>, name: &str, value: &str) -> Result<(), JsValue> {
        n(self).set_attribute_ns(ns, name, value)
    }
    pub fn remove_attribute(&self, name: &str) -> Result<(), JsValue> {
        if let Some(a) = n(self).attr_by_name(name) {
            n(self).drop_attr(&a);
        }
        Ok(())
    }
    pub fn remove_attribute_ns(&self, ns: Option<&str>, local: &str) -> Result<(), JsValue> {
        if let Some(a) = n(self).attr_by_ns(ns, local) {
            n(self).drop_attr(&a);
        }
        Ok(())
    }
    pub fn get_attribute_node(&self, name: &str) -> Option<Attr> {
        n(self).attr_by_name(name).map(attr)
    }
    pub fn set_attribute_node(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        Ok(n(self).set_attribute_node(a.data())?.map(attr))
    }
    pub fn set_attribute_node_ns(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        self.set_attribute_node(a)
    }
    pub fn remove_attribute_node(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        if n(self).drop_attr(a.data()) { Ok(Some(a.clone())) } else { Err(JsValue::exception("NotFoundError", "no such attribute")) }
    }
    pub fn inner_html(&self) -> String {
        n(self).inner_html()
    }
    pub fn set_inner_html(&self, html: &str) {
        n(self).set_inner_html(html)
    }
    pub fn outer_html(&self) -> String {
        let f = dom::Node::new(Kind::Fragment);
        f.append(&n(self).clone_node(true)).expect("fragment takes an element");
        f.inner_html()
    }
    pub fn has_attributes(&self) -> bool {
        !n(self).0.attrs.borrow().is_empty()
    }
    pub fn has_attribute_ns(&self, ns: Option<&str>, local: &str) -> bool {
        n(self).attr_by_ns(ns, local).is_some()
    }
    pub fn get_attribute_node_ns(&self, ns: Option<&str>, local: &str) -> Option<Attr> {
        n(self).attr_by_ns(ns, local).map(attr)
    }
    pub fn prefix(&self) -> Option<String> {
        n(self).qualified().strip_suffix(&format!(":{}", n(self).local())).map(|s| s.to_string())
    }
    pub fn child_element_count(&self) -> u32 {
        n(self).kids().iter().filter(|c| c.is_element()).count() as u32
    }
    pub fn last_element_child(&self) -> Option<Element> {
        n(self).kids().into_iter().rev().find(|c| c.is_element()).map(wrap)
    }
    pub fn append_with_node_1(&self, node: &Node) -> Result<(), JsValue> {
        n(self).append(n(node))
    }
    pub fn replace_children_with_node_0(&self) {
        n(self).replace_children(vec![])
    }
    pub fn replace_with_with_node_1(&self, node: &Node) -> Result<(), JsValue> {
        match n(self).parent() {
            Some(p) => p.replace_child(n(node), n(self)),
            None => Ok(()),
        }
    }
    pub fn remove(&self) {
        n(self).remove()
    }
    pub fn id(&self) -> String {
        self.get_attribute("id").unwrap_or_default()
    }
    pub fn set_id(&self, v: &str) {
        let _ = self.set_attribute("id", v);
    }
    pub fn class_name(&self) -> String {
        self.get_attribute("class").unwrap_or_default()
    }
    pub fn set_class_name(&self, v: &str) {
        let _ = self.set_attribute("class", v);
    }
    pub fn toggle_attribute(&self, name: &str) -> Result<bool, JsValue> {
        if self.has_attribute(name) {
            self.remove_attribute(name).map(|_| false)
        } else {
            self.set_attribute(name, "").map(|_| true)
        }
    }
    pub fn next_element_sibling(&self) -> Option<Element> {
        let mut x = self.next_sibling();
        while let Some(y) = x {
            if n(&y).is_element() {
                return Some(wrap(n(&y).clone()));
            }
            x = y.next_sibling();
        }
        None
    }
    pub fn previous_element_sibling(&self) -> Option<Element> {
        let mut x = self.previous_sibling();
        while let Some(y) = x {
            if n(&y).is_element() {
                return Some(wrap(n(&y).clone()));
            }
            x = y.previous_sibling();
        }
        None
    }
    pub fn closest(&self, sel: &str) -> Result<Option<Element>, JsValue> {
        let mut x = Some(n(self).clone());
        while let Some(y) = x {
            if y.is_element() && y.matches(sel)? {
                return Ok(Some(wrap(y)));
            }
            x = y.parent();
        }
        Ok(None)
    }
    pub fn insert_adjacent_element(&self, place: &str, e: &Element) -> Result<Option<Element>, JsValue> {
        let put = |p: Option<Node>, before: Option<Node>| match p {
            Some(p) => p.insert_before(e, before.as_ref()).map(|_| Some(e.clone())),
            None => Ok(None),
        };
        match place.to_ascii_lowercase().as_str() {
            "beforebegin" => put(self.parent_node(), Some(Node::clone(self))),
            "afterbegin" => put(Some(Node::clone(self)), self.first_child()),
            "beforeend" => put(Some(Node::clone(self)), None),
            "afterend" => put(self.parent_node(), self.next_sibling()),
            _ => Err(JsValue::exception("SyntaxError", "bad position")),
        }
    }
    pub fn prepend_with_node_1(&self, node: &Node) -> Result<(), JsValue> {
        self.insert_before(node, self.first_child().as_ref()).map(|_| ())
    }
    pub fn before_with_node_1(&self, node: &Node) -> Result<(), JsValue> {
        match self.parent_node() {
            Some(p) => p.insert_before(node, Some(self)).map(|_| ()),
            None => Ok(()),
        }
    }
    pub fn after_with_node_1(&self, node: &Node) -> Result<(), JsValue> {
        match self.parent_node() {
            Some(p) => p.insert_before(node, self.next_sibling().as_ref()).map(|_| ()),
            None => Ok(()),
        }
    }
    pub fn first_element_child(&self) -> Option<Element> {
        n(self).kids().into_iter().find(|c| c.is_element()).map(wrap)
    }
    pub fn query_selector(&self, sel: &str) -> Result<Option<Element>, JsValue> {
        query(n(self), sel)
    }
    pub fn matches(&self, sel: &str) -> Result<bool, JsValue> {
        n(self).matches(sel)
    }
}
fn query(root: &dom::Node, sel: &str) -> Result<Option<Element>, JsValue> {
    dom::Node::element(dom::HTML, "x").matches(sel)?;
    Ok(root.find(&mut |x| x.matches(sel).unwrap_or(false)).map(wrap))
}
fn attr(a: dom::AttrNode) -> Attr {
    Attr::unchecked_from_js(JsValue(Val::Attr(a)))
}
impl Attr {
    /// A copy that belongs to no element.
    pub fn clone_node(&self) -> Result<Attr, JsValue> {
        let d = self.data().data.borrow().clone();
        Ok(attr(dom::AttrNode { data: Rc::new(std::cell::RefCell::new(d)), owner: Rc::default() }))
    }
    pub fn owner_element(&self) -> Option<Element> {
        let o = self.data().owner.borrow().as_ref().and_then(|w| w.upgrade());
        o.map(|o| wrap(dom::Node(o)))
    }
    fn data(&self) -> &dom::AttrNode {
        match &AsRef::<JsValue>::as_ref(self).0 {
            Val::Attr(a) => a,
            _ => panic!("TypeError: not an attribute"),
        }
    }
    pub fn name(&self) -> String {
        self.data().data.borrow().name()
    }
    pub fn local_name(&self) -> String {
        self.data().data.borrow().local.clone()
    }
    pub fn prefix(&self) -> Option<String> {
        Some(self.data().data.borrow().prefix.clone()).filter(|s| !s.is_empty())
    }
    pub fn namespace_uri(&self) -> Option<String> {
        Some(self.data().data.borrow().ns.clone()).filter(|s| !s.is_empty())
    }
    pub fn value(&self) -> String {
        self.data().data.borrow().value.clone()
    }
    pub fn set_value(&self, v: &str) {
        self.data().data.borrow_mut().value = v.into()
    }
}
impl NamedNodeMap {
    pub fn set_named_item(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        Ok(self.owner().set_attribute_node(a.data())?.map(attr))
    }
    pub fn set_named_item_ns(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        self.set_named_item(a)
    }
    pub fn remove_named_item(&self, name: &str) -> Result<Attr, JsValue> {
        match self.owner().attr_by_name(name) {
            Some(a) => {
                self.owner().drop_attr(&a);
                Ok(attr(a))
            }
            None => Err(JsValue::exception("NotFoundError", "no such attribute")),
        }
    }
    pub fn length(&self) -> u32 {
        self.owner().0.attrs.borrow().len() as u32
    }
    fn owner(&self) -> &dom::Node {
        match &AsRef::<JsValue>::as_ref(self).0 {
            Val::Attrs(n) => n,
            _ => panic!("TypeError: not an attribute map"),
        }
    }
    pub fn item(&self, i: u32) -> Option<Attr> {
        self.owner().0.attrs.borrow().get(i as usize).cloned().map(attr)
    }
    pub fn get_with_index(&self, i: u32) -> Option<Attr> {
        self.item(i)
    }
    pub fn get_named_item(&self, name: &str) -> Option<Attr> {
        self.owner().attr_by_name(name).map(attr)
    }
}
impl NodeList {
    fn owner(&self) -> &dom::Node {
        match &AsRef::<JsValue>::as_ref(self).0 {
            Val::Children(n) => n,
            _ => panic!("TypeError: not a node list"),
        }
    }
    pub fn length(&self) -> u32 {
        self.owner().0.children.borrow().len() as u32
    }
    pub fn item(&self, i: u32) -> Option<Node> {
        self.owner().0.children.borrow().get(i as usize).cloned().map(wrap)
    }
    pub fn get(&self, i: u32) -> Option<Node> {
        self.item(i)
    }
}
impl HtmlTemplateElement {
    pub fn content(&self) -> DocumentFragment {
        wrap(n(self).0.content.borrow().clone().expect("template has content"))
    }
}
impl Document {
    pub fn document_element(&self) -> Option<Element> {
        n(self).kids().into_iter().find(|c| c.is_element()).map(wrap)
    }
    fn part(&self, f: fn(&dom::Node) -> bool) -> Option<dom::Node> {
        let html = n(self).kids().into_iter().find(|c| c.is_html("html"))?;
        html.kids().into_iter().find(f)
    }
    pub fn body(&self) -> Option<HtmlElement> {
        self.part(|x| x.is_html("body") || x.is_html("frameset")).map(wrap)
    }
    pub fn head(&self) -> Option<HtmlElement> {
        self.part(|x| x.is_html("head")).map(wrap)
    }
    pub fn create_element(&self, name: &str) -> Result<Element, JsValue> {
        dom::Node::create_element(name).map(wrap)
    }
    pub fn create_element_ns(&self, ns: Option<&str>, name: &str) -> Result<Element, JsValue> {
        dom::Node::create_element_ns(ns, name).map(wrap)
    }
    pub fn create_text_node(&self, s: &str) -> Text {
        wrap(dom::Node::text(s))
    }
    pub fn create_comment(&self, s: &str) -> Comment {
        wrap(dom::Node::comment(s))
    }
    pub fn create_attribute(&self, name: &str) -> Result<Attr, JsValue> {
        let e = dom::Node::create_element("x")?;
        e.set_attribute(name, "")?;
        self.loose(&e)
    }
    pub fn create_attribute_ns(&self, ns: Option<&str>, name: &str) -> Result<Attr, JsValue> {
        let e = dom::Node::create_element("x")?;
        e.set_attribute_ns(ns, name, "")?;
        self.loose(&e)
    }
    fn loose(&self, e: &dom::Node) -> Result<Attr, JsValue> {
        let a = e.0.attrs.borrow()[0].clone();
        e.drop_attr(&a);
        Ok(attr(a))
    }
    pub fn import_node(&self, node: &Node) -> Result<Node, JsValue> {
        node.clone_node_with_deep(false)
    }
    pub fn import_node_with_deep(&self, node: &Node, deep: bool) -> Result<Node, JsValue> {
        node.clone_node_with_deep(deep)
    }
    pub fn create_document_fragment(&self) -> DocumentFragment {
        wrap(dom::Node::new(Kind::Fragment))
    }
    pub fn query_selector(&self, sel: &str) -> Result<Option<Element>, JsValue> {
        query(n(self), sel)
    }
    pub fn get_element_by_id(&self, id: &str) -> Option<Element> {
        n(self).find(&mut |x| x.attr_by_name("id").is_some_and(|a| a.data.borrow().value == id)).map(wrap)
    }
}
