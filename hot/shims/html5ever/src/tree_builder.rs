//! WHATWG tree construction, driving a `TreeSink` live: every question about a node is answered by the sink.
pub use crate::interface::{
    ElemName, ElementFlags, NextParserState, NodeOrText, NodeOrText::*, QuirksMode, QuirksMode::*, TreeSink,
};
use crate::tokenizer::{Doctype, State, Tag, TagKind, Token, Tokenizer, TokenizerOpts};
use crate::{Attribute, LocalName, Namespace, Prefix, QualName, ns};
use std::borrow::Cow;
use tendril::{StrTendril, TendrilSink};

#[derive(Clone, Copy, Debug)]
pub struct TreeBuilderOpts {
    pub exact_errors: bool,
    pub scripting_enabled: bool,
    pub iframe_srcdoc: bool,
    pub drop_doctype: bool,
    pub quirks_mode: QuirksMode,
}
impl Default for TreeBuilderOpts {
    fn default() -> Self {
        TreeBuilderOpts {
            exact_errors: false,
            scripting_enabled: true,
            iframe_srcdoc: false,
            drop_doctype: false,
            quirks_mode: QuirksMode::NoQuirks,
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct ParseOpts {
    pub tokenizer: TokenizerOpts,
    pub tree_builder: TreeBuilderOpts,
}

pub fn parse_document<S: TreeSink>(sink: S, opts: ParseOpts) -> Parser<S> {
    Parser { sink, opts, input: StrTendril::new(), fragment: None }
}
pub fn parse_fragment<S: TreeSink>(
    sink: S,
    opts: ParseOpts,
    context_name: QualName,
    context_attrs: Vec<Attribute>,
    context_element_allows_scripting: bool,
) -> Parser<S> {
    let flags = flags_for(&context_name, &context_attrs);
    let ctx = sink.create_element(context_name, context_attrs, flags);
    parse_fragment_for_element(sink, opts, ctx, context_element_allows_scripting, None)
}
pub fn parse_fragment_for_element<S: TreeSink>(
    sink: S,
    mut opts: ParseOpts,
    context_element: S::Handle,
    context_element_allows_scripting: bool,
    form_element: Option<S::Handle>,
) -> Parser<S> {
    opts.tree_builder.scripting_enabled = context_element_allows_scripting;
    Parser { sink, opts, input: StrTendril::new(), fragment: Some((context_element, form_element)) }
}

pub struct Parser<S: TreeSink> {
    sink: S,
    opts: ParseOpts,
    input: StrTendril,
    fragment: Option<(S::Handle, Option<S::Handle>)>,
}
impl<S: TreeSink> TendrilSink for Parser<S> {
    type Output = S::Output;
    fn process(&mut self, t: StrTendril) {
        if self.input.is_empty() {
            self.input = t;
        } else {
            self.input.push_tendril(&t);
        }
    }
    fn finish(self) -> S::Output {
        let Parser { sink, opts, mut input, fragment } = self;
        if opts.tokenizer.discard_bom && input.starts_with('\u{feff}') {
            input.pop_front(3);
        }
        let mut b = Builder {
            sink,
            scripting: opts.tree_builder.scripting_enabled,
            srcdoc: opts.tree_builder.iframe_srcdoc,
            drop_doctype: opts.tree_builder.drop_doctype,
            tok: Tokenizer::new(input),
            mode: Mode::Initial,
            orig: None,
            template_modes: Vec::new(),
            pending: Vec::new(),
            oe: Vec::new(),
            afe: Vec::new(),
            quirks: opts.tree_builder.quirks_mode,
            head: None,
            form: None,
            ctx: None,
            frameset_ok: true,
            ignore_lf: false,
            foster: false,
            stopped: false,
        };
        b.run(fragment);
        b.sink.finish()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Initial,
    BeforeHtml,
    BeforeHead,
    InHead,
    InHeadNoscript,
    AfterHead,
    InBody,
    Text,
    InTable,
    InTableText,
    InCaption,
    InColumnGroup,
    InTableBody,
    InRow,
    InCell,
    InTemplate,
    AfterBody,
    InFrameset,
    AfterFrameset,
    AfterAfterBody,
    AfterAfterFrameset,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ws {
    Unknown,
    Only,
    None,
}
#[derive(Clone, Debug)]
enum Tok {
    Doctype(Doctype),
    Tag(Tag),
    Comment(StrTendril),
    Chars(Ws, StrTendril),
    Null,
    Eof,
}
enum Res {
    Done,
    Again(Mode, Tok),
    Split(StrTendril),
}
use Res::*;

enum Fmt<H> {
    Marker,
    Elem(H, Tag),
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum N {
    Html,
    Svg,
    Math,
    Other,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Scope {
    Default,
    ListItem,
    Button,
    Table,
}

fn is_ws(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\x0c' | '\r' | ' ')
}
fn any_not_ws(s: &str) -> bool {
    s.chars().any(|c| !is_ws(c))
}
fn ns_kind(n: &Namespace) -> N {
    if *n == ns!(html) {
        N::Html
    } else if *n == ns!(svg) {
        N::Svg
    } else if *n == ns!(mathml) {
        N::Math
    } else {
        N::Other
    }
}
fn flags_for(name: &QualName, attrs: &[Attribute]) -> ElementFlags {
    let mut f = ElementFlags::default();
    match ns_kind(&name.ns) {
        N::Html if name.local == "template" => f.template = true,
        N::Math if name.local == "annotation-xml" => {
            f.mathml_annotation_xml_integration_point = attrs.iter().any(|a| {
                a.name.ns == ns!()
                    && a.name.local == "encoding"
                    && (a.value.eq_ignore_ascii_case("text/html")
                        || a.value.eq_ignore_ascii_case("application/xhtml+xml"))
            })
        }
        _ => {}
    }
    f
}
const SPECIAL: &[&str] = &[
    "address", "applet", "area", "article", "aside", "base", "basefont", "bgsound", "blockquote", "body", "br",
    "button", "caption", "center", "col", "colgroup", "dd", "details", "dir", "div", "dl", "dt", "embed", "fieldset",
    "figcaption", "figure", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head",
    "header", "hgroup", "hr", "html", "iframe", "img", "input", "keygen", "li", "link", "listing", "main", "marquee",
    "menu", "meta", "nav", "noembed", "noframes", "noscript", "object", "ol", "p", "param", "plaintext", "pre",
    "script", "search", "section", "select", "source", "style", "summary", "table", "tbody", "td", "template",
    "textarea", "tfoot", "th", "thead", "title", "tr", "track", "ul", "wbr", "xmp",
];
fn special(n: N, l: &str) -> bool {
    match n {
        N::Html => SPECIAL.binary_search(&l).is_ok(),
        N::Math => matches!(l, "mi" | "mo" | "mn" | "ms" | "mtext" | "annotation-xml"),
        N::Svg => matches!(l, "foreignObject" | "desc" | "title"),
        N::Other => false,
    }
}
fn scope_stop(s: Scope, n: N, l: &str) -> bool {
    match s {
        Scope::Table => n == N::Html && matches!(l, "html" | "table" | "template"),
        _ => match n {
            N::Html => {
                matches!(
                    l,
                    "applet"
                        | "caption"
                        | "html"
                        | "table"
                        | "td"
                        | "th"
                        | "marquee"
                        | "object"
                        | "template"
                        | "select"
                ) || (s == Scope::ListItem && matches!(l, "ol" | "ul"))
                    || (s == Scope::Button && l == "button")
            }
            n => special(n, l),
        },
    }
}
fn implied(l: &str) -> bool {
    matches!(l, "dd" | "dt" | "li" | "optgroup" | "option" | "p" | "rb" | "rp" | "rt" | "rtc")
}
fn heading(l: &str) -> bool {
    matches!(l, "h1" | "h2" | "h3" | "h4" | "h5" | "h6")
}
fn table_ctx(l: &str) -> bool {
    matches!(l, "table" | "tbody" | "tfoot" | "thead" | "tr")
}
fn mk(name: &'static str, kind: TagKind) -> Tag {
    Tag { kind, name: LocalName::from_static(name), self_closing: false, attrs: vec![] }
}
fn type_hidden(t: &Tag) -> bool {
    t.attrs.iter().any(|a| a.name.ns == ns!() && a.name.local == "type" && a.value.eq_ignore_ascii_case("hidden"))
}

enum Place<H> {
    Last(H),
    Foster { element: H, prev: H },
}

struct Builder<S: TreeSink> {
    sink: S,
    scripting: bool,
    srcdoc: bool,
    drop_doctype: bool,
    tok: Tokenizer,
    mode: Mode,
    orig: Option<Mode>,
    template_modes: Vec<Mode>,
    pending: Vec<(Ws, StrTendril)>,
    oe: Vec<S::Handle>,
    afe: Vec<Fmt<S::Handle>>,
    quirks: QuirksMode,
    head: Option<S::Handle>,
    form: Option<S::Handle>,
    ctx: Option<S::Handle>,
    frameset_ok: bool,
    ignore_lf: bool,
    foster: bool,
    stopped: bool,
}

impl<S: TreeSink> Builder<S> {
    // ---------------------------------------------------------------- driving
    fn run(&mut self, fragment: Option<(S::Handle, Option<S::Handle>)>) {
        if let Some((ctx, form)) = fragment {
            let root = self.sink.create_element(
                QualName::new(None, ns!(html), LocalName::from_static("html")),
                vec![],
                ElementFlags::default(),
            );
            let doc = self.sink.get_document();
            self.sink.append(&doc, AppendNode(root.clone()));
            self.oe.push(root);
            let (n, l) = self.name(&ctx);
            if n == N::Html {
                match l.as_str() {
                    "title" | "textarea" => self.raw(State::Rcdata, &l),
                    "style" | "xmp" | "iframe" | "noembed" | "noframes" => self.raw(State::Rawtext, &l),
                    "script" => self.raw(State::ScriptData, &l),
                    "noscript" if self.scripting => self.raw(State::Rawtext, &l),
                    "plaintext" => self.tok.state = State::Plaintext,
                    "template" => self.template_modes.push(Mode::InTemplate),
                    _ => {}
                }
            }
            self.form = form;
            if self.form.is_none() && n == N::Html && l == "form" {
                self.form = Some(ctx.clone());
            }
            self.ctx = Some(ctx);
            self.mode = self.reset_mode();
        }
        let mut steps: u64 = 0;
        while !self.stopped {
            steps += 1;
            self.sink.set_current_line(steps);
            self.tok.allow_cdata = !self.oe.is_empty() && self.name(&self.adjusted()).0 != N::Html;
            let t = match self.tok.next_token() {
                Token::Doctype(d) => Tok::Doctype(d),
                Token::Tag(t) => Tok::Tag(t),
                Token::Comment(c) => Tok::Comment(c),
                Token::Characters(c) => Tok::Chars(Ws::Unknown, c),
                Token::Null => Tok::Null,
                Token::Eof => Tok::Eof,
            };
            let t = if self.ignore_lf {
                self.ignore_lf = false;
                match t {
                    Tok::Chars(w, mut c) => {
                        if c.starts_with('\n') {
                            c.pop_front(1);
                        }
                        if c.is_empty() {
                            continue;
                        }
                        Tok::Chars(w, c)
                    }
                    t => t,
                }
            } else {
                t
            };
            let eof = matches!(t, Tok::Eof);
            self.process(t);
            if eof {
                break;
            }
        }
        while let Some(h) = self.oe.pop() {
            self.sink.pop(&h);
        }
    }
    fn raw(&mut self, st: State, last: &str) {
        self.tok.state = st;
        self.tok.set_last_start(last);
    }
    fn process(&mut self, t: Tok) {
        let mut work = vec![t];
        while let Some(t) = work.pop() {
            let res = if self.foreign(&t) {
                self.step_foreign(t)
            } else {
                let m = self.mode;
                self.step(m, t)
            };
            match res {
                Done => {}
                Again(m, t) => {
                    self.mode = m;
                    work.push(t);
                }
                Split(t) => {
                    let first = t.chars().next().is_some_and(is_ws);
                    let n = t.char_indices().find(|(_, c)| is_ws(*c) != first).map(|(i, _)| i).unwrap_or(t.len());
                    let head = t.subtendril(0, n as u32);
                    let tail = t.subtendril(n as u32, (t.len() - n) as u32);
                    if !tail.is_empty() {
                        work.push(Tok::Chars(Ws::Unknown, tail));
                    }
                    if !head.is_empty() {
                        work.push(Tok::Chars(if first { Ws::Only } else { Ws::None }, head));
                    }
                }
            }
        }
    }
    fn err(&mut self, m: &'static str) -> Res {
        self.sink.parse_error(Cow::Borrowed(m));
        Done
    }
    fn unexpected(&mut self, t: &Tok) -> Res {
        let _ = t;
        self.err("Unexpected token")
    }

    // ---------------------------------------------------------------- names and stack
    fn name(&self, h: &S::Handle) -> (N, LocalName) {
        let e = self.sink.elem_name(h);
        (ns_kind(e.ns()), e.local_name().clone())
    }
    fn html_named(&self, h: &S::Handle, l: &str) -> bool {
        let e = self.sink.elem_name(h);
        e.local_name() == l && *e.ns() == ns!(html)
    }
    fn html_in(&self, h: &S::Handle, f: impl Fn(&str) -> bool) -> bool {
        let e = self.sink.elem_name(h);
        *e.ns() == ns!(html) && f(e.local_name())
    }
    fn cur(&self) -> S::Handle {
        self.oe.last().expect("no current element").clone()
    }
    fn cur_named(&self, l: &str) -> bool {
        self.oe.last().is_some_and(|h| self.html_named(h, l))
    }
    fn cur_in(&self, f: impl Fn(&str) -> bool) -> bool {
        self.oe.last().is_some_and(|h| self.html_in(h, f))
    }
    fn adjusted(&self) -> S::Handle {
        if self.oe.len() == 1
            && let Some(c) = &self.ctx
        {
            return c.clone();
        }
        self.cur()
    }
    fn pop(&mut self) -> S::Handle {
        let h = self.oe.pop().expect("no current element");
        self.sink.pop(&h);
        h
    }
    fn same(&self, a: &S::Handle, b: &S::Handle) -> bool {
        self.sink.same_node(a, b)
    }
    fn oe_pos(&self, h: &S::Handle) -> Option<usize> {
        self.oe.iter().rposition(|x| self.same(x, h))
    }
    fn oe_remove(&mut self, h: &S::Handle) {
        if let Some(i) = self.oe_pos(h) {
            self.oe.remove(i);
            self.sink.pop(h);
        }
    }
    fn has(&self, l: &str) -> bool {
        self.oe.iter().any(|h| self.html_named(h, l))
    }
    fn in_scope_by(&self, s: Scope, f: impl Fn(N, &str, &S::Handle) -> bool) -> bool {
        for h in self.oe.iter().rev() {
            let (n, l) = self.name(h);
            if f(n, &l, h) {
                return true;
            }
            if scope_stop(s, n, &l) {
                return false;
            }
        }
        false
    }
    fn in_scope(&self, s: Scope, want: &str) -> bool {
        self.in_scope_by(s, |n, l, _| n == N::Html && l == want)
    }
    fn generate_implied(&mut self, except: &str) {
        while self.cur_in(|l| implied(l) && l != except) {
            self.pop();
        }
    }
    fn generate_implied_thoroughly(&mut self) {
        while self.cur_in(|l| {
            implied(l) || matches!(l, "caption" | "colgroup" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr")
        }) {
            self.pop();
        }
    }
    fn pop_until(&mut self, f: impl Fn(&str) -> bool) -> usize {
        let mut n = 0;
        while let Some(h) = self.oe.pop() {
            n += 1;
            self.sink.pop(&h);
            if self.html_in(&h, &f) {
                break;
            }
        }
        n
    }
    fn pop_until_named(&mut self, l: &str) -> usize {
        self.pop_until(|x| x == l)
    }
    fn pop_until_current(&mut self, f: impl Fn(&str) -> bool) {
        while !self.cur_in(&f) && !self.oe.is_empty() {
            self.pop();
        }
    }
    fn clear_to_table(&mut self) {
        self.pop_until_current(|l| matches!(l, "table" | "template" | "html"))
    }
    fn clear_to_body(&mut self) {
        self.pop_until_current(|l| matches!(l, "tbody" | "tfoot" | "thead" | "template" | "html"))
    }
    fn clear_to_row(&mut self) {
        self.pop_until_current(|l| matches!(l, "tr" | "template" | "html"))
    }
    fn close_p(&mut self) {
        self.generate_implied("p");
        if !self.cur_named("p") {
            self.err("p element is not the current node");
        }
        self.pop_until_named("p");
    }
    fn close_p_in_button(&mut self) {
        if self.in_scope(Scope::Button, "p") {
            self.close_p();
        }
    }
    fn body(&self) -> Option<S::Handle> {
        self.oe.get(1).filter(|h| self.html_named(h, "body")).cloned()
    }
    fn reset_mode(&self) -> Mode {
        for (i, h) in self.oe.iter().enumerate().rev() {
            let last = i == 0;
            let h = if last { self.ctx.as_ref().unwrap_or(h) } else { h };
            let (n, l) = self.name(h);
            if n == N::Html {
                match l.as_str() {
                    "td" | "th" if !last => return Mode::InCell,
                    "tr" => return Mode::InRow,
                    "tbody" | "thead" | "tfoot" => return Mode::InTableBody,
                    "caption" => return Mode::InCaption,
                    "colgroup" => return Mode::InColumnGroup,
                    "table" => return Mode::InTable,
                    "template" => return self.template_modes.last().copied().unwrap_or(Mode::InTemplate),
                    "head" if !last => return Mode::InHead,
                    "body" => return Mode::InBody,
                    "frameset" => return Mode::InFrameset,
                    "html" => return if self.head.is_none() { Mode::BeforeHead } else { Mode::AfterHead },
                    _ => {}
                }
            }
            if last {
                return Mode::InBody;
            }
        }
        Mode::InBody
    }

    // ---------------------------------------------------------------- insertion
    fn place(&self, over: Option<&S::Handle>) -> Place<S::Handle> {
        let target = over.cloned().unwrap_or_else(|| self.cur());
        if !(self.foster && self.html_in(&target, table_ctx)) {
            if self.html_named(&target, "template") {
                return Place::Last(self.sink.get_template_contents(&target));
            }
            return Place::Last(target);
        }
        for i in (0..self.oe.len()).rev() {
            let h = &self.oe[i];
            if self.html_named(h, "template") {
                return Place::Last(self.sink.get_template_contents(h));
            }
            if self.html_named(h, "table") {
                if i == 0 {
                    break;
                }
                return Place::Foster { element: h.clone(), prev: self.oe[i - 1].clone() };
            }
        }
        Place::Last(self.oe[0].clone())
    }
    fn insert_at(&self, p: Place<S::Handle>, c: NodeOrText<S::Handle>) {
        match p {
            Place::Last(h) => self.sink.append(&h, c),
            Place::Foster { element, prev } => self.sink.append_based_on_parent_node(&element, &prev, c),
        }
    }
    fn insert(&self, c: NodeOrText<S::Handle>) {
        self.insert_at(self.place(None), c)
    }
    fn text(&mut self, t: StrTendril) -> Res {
        if !t.is_empty() {
            self.insert(AppendText(t));
        }
        Done
    }
    fn comment(&mut self, t: StrTendril) -> Res {
        let c = self.sink.create_comment(t);
        self.insert(AppendNode(c));
        Done
    }
    fn comment_to_doc(&mut self, t: StrTendril) -> Res {
        let c = self.sink.create_comment(t);
        let d = self.sink.get_document();
        self.sink.append(&d, AppendNode(c));
        Done
    }
    fn comment_to_html(&mut self, t: StrTendril) -> Res {
        let c = self.sink.create_comment(t);
        let h = self.oe[0].clone();
        self.sink.append(&h, AppendNode(c));
        Done
    }
    fn create_root(&mut self, attrs: Vec<Attribute>) {
        let root = self.sink.create_element(
            QualName::new(None, ns!(html), LocalName::from_static("html")),
            attrs,
            ElementFlags::default(),
        );
        let d = self.sink.get_document();
        self.sink.append(&d, AppendNode(root.clone()));
        self.oe.push(root);
    }
    fn insert_elem(&mut self, push: bool, n: Namespace, name: LocalName, attrs: Vec<Attribute>) -> S::Handle {
        let q = QualName::new(None, n, name);
        let flags = flags_for(&q, &attrs);
        let html = q.ns == ns!(html);
        let listed = matches!(
            q.local.as_str(),
            "button" | "fieldset" | "input" | "object" | "output" | "select" | "textarea" | "img"
        );
        let has_form_attr = q.local != "img" && attrs.iter().any(|a| a.name.ns == ns!() && a.name.local == "form");
        let e = self.sink.create_element(q, attrs, flags);
        let place = self.place(None);
        if html
            && listed
            && !has_form_attr
            && let Some(f) = self.form.clone()
            && !self.has("template")
        {
            let (a, b) = match &place {
                Place::Last(p) => (p.clone(), None),
                Place::Foster { element, prev } => (element.clone(), Some(prev.clone())),
            };
            self.sink.associate_with_form(&e, &f, (&a, b.as_ref()));
        }
        self.insert_at(place, AppendNode(e.clone()));
        if push {
            self.oe.push(e.clone());
        }
        e
    }
    fn insert_tag(&mut self, t: Tag) -> S::Handle {
        self.insert_elem(true, ns!(html), t.name, t.attrs)
    }
    fn insert_void(&mut self, t: Tag) -> S::Handle {
        self.insert_elem(false, ns!(html), t.name, t.attrs)
    }
    fn insert_phantom(&mut self, l: &'static str) -> S::Handle {
        self.insert_elem(true, ns!(html), LocalName::from_static(l), vec![])
    }
    fn raw_text(&mut self, t: Tag, st: State) -> Res {
        let l = t.name.clone();
        self.insert_tag(t);
        self.raw(st, &l);
        self.orig = Some(self.mode);
        self.mode = Mode::Text;
        Done
    }

    // ---------------------------------------------------------------- active formatting elements
    fn afe_pos(&self, h: &S::Handle) -> Option<usize> {
        self.afe.iter().rposition(|f| matches!(f, Fmt::Elem(x, _) if self.same(x, h)))
    }
    fn clear_to_marker(&mut self) {
        while let Some(f) = self.afe.pop() {
            if matches!(f, Fmt::Marker) {
                break;
            }
        }
    }
    fn reconstruct(&mut self) {
        let open = |s: &Self, f: &Fmt<S::Handle>| match f {
            Fmt::Marker => true,
            Fmt::Elem(h, _) => s.oe.iter().any(|x| s.same(x, h)),
        };
        match self.afe.last() {
            None => return,
            Some(f) if open(self, f) => return,
            _ => {}
        }
        let mut i = self.afe.len() - 1;
        while i > 0 && !open(self, &self.afe[i - 1]) {
            i -= 1;
        }
        while i < self.afe.len() {
            let tag = match &self.afe[i] {
                Fmt::Elem(_, t) => t.clone(),
                Fmt::Marker => unreachable!(),
            };
            let e = self.insert_elem(true, ns!(html), tag.name.clone(), tag.attrs.clone());
            self.afe[i] = Fmt::Elem(e, tag);
            i += 1;
        }
    }
    fn insert_formatting(&mut self, t: Tag) {
        let sorted = |t: &Tag| {
            let mut a = t.attrs.clone();
            a.sort();
            a
        };
        let mine = sorted(&t);
        let mut first = None;
        let mut n = 0;
        for i in (0..self.afe.len()).rev() {
            match &self.afe[i] {
                Fmt::Marker => break,
                Fmt::Elem(_, o) => {
                    if o.name == t.name && sorted(o) == mine {
                        n += 1;
                        first = Some(i);
                    }
                }
            }
        }
        if n >= 3 {
            self.afe.remove(first.unwrap());
        }
        let e = self.insert_elem(true, ns!(html), t.name.clone(), t.attrs.clone());
        self.afe.push(Fmt::Elem(e, t));
    }
    fn any_other_end(&mut self, name: &LocalName) {
        for i in (0..self.oe.len()).rev() {
            let (n, l) = self.name(&self.oe[i]);
            if n == N::Html && l == *name {
                self.generate_implied(name);
                if i + 1 != self.oe.len() {
                    self.err("Unexpected open element");
                }
                while self.oe.len() > i {
                    self.pop();
                }
                return;
            }
            if special(n, &l) {
                self.err("Found special tag while closing generic tag");
                return;
            }
        }
    }
    fn adoption(&mut self, subject: &LocalName) {
        if self.cur_named(subject) && self.afe_pos(&self.cur()).is_none() {
            self.pop();
            return;
        }
        for _ in 0..8 {
            let mut found = None;
            for f in self.afe.iter().rev() {
                match f {
                    Fmt::Marker => break,
                    Fmt::Elem(h, t) => {
                        if t.name == *subject {
                            found = Some((h.clone(), t.clone()));
                            break;
                        }
                    }
                }
            }
            let Some((fe, fe_tag)) = found else {
                self.any_other_end(subject);
                return;
            };
            let Some(fi) = self.oe_pos(&fe) else {
                self.err("Formatting element not open");
                let p = self.afe_pos(&fe).unwrap();
                self.afe.remove(p);
                return;
            };
            if !self.in_scope_by(Scope::Default, |_, _, h| self.same(h, &fe)) {
                self.err("Formatting element not in scope");
                return;
            }
            if !self.same(&self.cur(), &fe) {
                self.err("Formatting element not current node");
            }
            let block = (fi..self.oe.len()).find(|i| {
                let (n, l) = self.name(&self.oe[*i]);
                special(n, &l)
            });
            let Some(bi) = block else {
                while self.oe.len() > fi {
                    self.pop();
                }
                let p = self.afe_pos(&fe).unwrap();
                self.afe.remove(p);
                return;
            };
            let block = self.oe[bi].clone();
            let ancestor = self.oe[fi - 1].clone();
            // position in the list of active formatting elements: after this element, or in place of `fe`
            let mut bookmark: Option<S::Handle> = None;
            let mut node_i = bi;
            let mut last = block.clone();
            let mut inner = 0;
            loop {
                inner += 1;
                node_i -= 1;
                let node = self.oe[node_i].clone();
                if self.same(&node, &fe) {
                    break;
                }
                if inner > 3
                    && let Some(p) = self.afe_pos(&node)
                {
                    self.afe.remove(p);
                }
                let Some(p) = self.afe_pos(&node) else {
                    self.oe.remove(node_i);
                    self.sink.pop(&node);
                    continue;
                };
                let tag = match &self.afe[p] {
                    Fmt::Elem(_, t) => t.clone(),
                    Fmt::Marker => unreachable!(),
                };
                let new = self.sink.create_element(
                    QualName::new(None, ns!(html), tag.name.clone()),
                    tag.attrs.clone(),
                    ElementFlags::default(),
                );
                self.oe[node_i] = new.clone();
                self.afe[p] = Fmt::Elem(new.clone(), tag);
                if self.same(&last, &block) {
                    bookmark = Some(new.clone());
                }
                self.sink.remove_from_parent(&last);
                self.sink.append(&new, AppendNode(last));
                last = new;
            }
            self.sink.remove_from_parent(&last);
            // foster parenting applies to a misnested table part whatever the flag says
            let saved = std::mem::replace(&mut self.foster, true);
            let place = self.place(Some(&ancestor));
            self.foster = saved;
            self.insert_at(place, AppendNode(last));

            let new = self.sink.create_element(
                QualName::new(None, ns!(html), fe_tag.name.clone()),
                fe_tag.attrs.clone(),
                ElementFlags::default(),
            );
            self.sink.reparent_children(&block, &new);
            self.sink.append(&block, AppendNode(new.clone()));

            let entry = Fmt::Elem(new.clone(), fe_tag);
            match bookmark {
                None => {
                    let p = self.afe_pos(&fe).unwrap();
                    self.afe[p] = entry;
                }
                Some(b) => {
                    let p = self.afe_pos(&b).unwrap() + 1;
                    self.afe.insert(p, entry);
                    let p = self.afe_pos(&fe).unwrap();
                    self.afe.remove(p);
                }
            }
            self.oe_remove(&fe);
            let bi = self.oe_pos(&block).unwrap();
            self.oe.insert(bi + 1, new);
        }
    }

    // ---------------------------------------------------------------- dispatch
    fn step(&mut self, m: Mode, t: Tok) -> Res {
        match m {
            Mode::Initial => self.initial(t),
            Mode::BeforeHtml => self.before_html(t),
            Mode::BeforeHead => self.before_head(t),
            Mode::InHead => self.in_head(t),
            Mode::InHeadNoscript => self.in_head_noscript(t),
            Mode::AfterHead => self.after_head(t),
            Mode::InBody => self.in_body(t),
            Mode::Text => self.in_text(t),
            Mode::InTable => self.in_table(t),
            Mode::InTableText => self.in_table_text(t),
            Mode::InCaption => self.in_caption(t),
            Mode::InColumnGroup => self.in_colgroup(t),
            Mode::InTableBody => self.in_table_body(t),
            Mode::InRow => self.in_row(t),
            Mode::InCell => self.in_cell(t),
            Mode::InTemplate => self.in_template(t),
            Mode::AfterBody => self.after_body(t),
            Mode::InFrameset => self.in_frameset(t),
            Mode::AfterFrameset => self.after_frameset(t),
            Mode::AfterAfterBody => self.after_after_body(t),
            Mode::AfterAfterFrameset => self.after_after_frameset(t),
        }
    }
    fn stop(&mut self) -> Res {
        self.stopped = true;
        Done
    }

    fn initial(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, _) => Done,
            Tok::Comment(c) => self.comment_to_doc(c),
            Tok::Doctype(d) => {
                let q = quirks_of(&d, self.srcdoc);
                if !self.drop_doctype {
                    self.sink.append_doctype_to_document(
                        d.name.unwrap_or_default(),
                        d.public_id.unwrap_or_default(),
                        d.system_id.unwrap_or_default(),
                    );
                }
                self.quirks = q;
                self.sink.set_quirks_mode(q);
                self.mode = Mode::BeforeHtml;
                Done
            }
            t => {
                if !self.srcdoc {
                    self.unexpected(&t);
                    self.quirks = QuirksMode::Quirks;
                    self.sink.set_quirks_mode(QuirksMode::Quirks);
                }
                Again(Mode::BeforeHtml, t)
            }
        }
    }
    fn before_html(&mut self, t: Tok) -> Res {
        match t {
            Tok::Doctype(_) => self.unexpected(&t),
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, _) => Done,
            Tok::Comment(c) => self.comment_to_doc(c),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag && tag.name == "html" => {
                self.create_root(tag.attrs);
                self.mode = Mode::BeforeHead;
                Done
            }
            Tok::Tag(ref tag)
                if tag.kind == TagKind::EndTag && !matches!(tag.name.as_str(), "head" | "body" | "html" | "br") =>
            {
                self.unexpected(&t)
            }
            t => {
                self.create_root(vec![]);
                Again(Mode::BeforeHead, t)
            }
        }
    }
    fn before_head(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, _) => Done,
            Tok::Comment(c) => self.comment(c),
            Tok::Doctype(_) => self.unexpected(&t),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag && tag.name == "html" => self.in_body(Tok::Tag(tag)),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag && tag.name == "head" => {
                self.head = Some(self.insert_tag(tag));
                self.mode = Mode::InHead;
                Done
            }
            Tok::Tag(ref tag)
                if tag.kind == TagKind::EndTag && !matches!(tag.name.as_str(), "head" | "body" | "html" | "br") =>
            {
                self.unexpected(&t)
            }
            t => {
                self.head = Some(self.insert_phantom("head"));
                Again(Mode::InHead, t)
            }
        }
    }
    fn in_head(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, c) => self.text(c),
            Tok::Comment(c) => self.comment(c),
            Tok::Doctype(_) => self.unexpected(&t),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => match tag.name.as_str() {
                "html" => self.in_body(Tok::Tag(tag)),
                "base" | "basefont" | "bgsound" | "link" | "meta" => {
                    self.insert_void(tag);
                    Done
                }
                "title" => self.raw_text(tag, State::Rcdata),
                "noframes" | "style" => self.raw_text(tag, State::Rawtext),
                "noscript" if self.scripting => self.raw_text(tag, State::Rawtext),
                "noscript" => {
                    self.insert_tag(tag);
                    self.mode = Mode::InHeadNoscript;
                    Done
                }
                "script" => self.raw_text(tag, State::ScriptData),
                "template" => {
                    self.afe.push(Fmt::Marker);
                    self.frameset_ok = false;
                    self.mode = Mode::InTemplate;
                    self.template_modes.push(Mode::InTemplate);
                    self.insert_tag(tag);
                    Done
                }
                "head" => self.err("Unexpected head"),
                _ => {
                    self.pop();
                    Again(Mode::AfterHead, Tok::Tag(tag))
                }
            },
            Tok::Tag(tag) => match tag.name.as_str() {
                "head" => {
                    self.pop();
                    self.mode = Mode::AfterHead;
                    Done
                }
                "body" | "html" | "br" => {
                    self.pop();
                    Again(Mode::AfterHead, Tok::Tag(tag))
                }
                "template" => {
                    if self.has("template") {
                        self.generate_implied_thoroughly();
                        if !self.cur_named("template") {
                            self.err("Unexpected open element");
                        }
                        self.pop_until_named("template");
                        self.clear_to_marker();
                        self.template_modes.pop();
                        self.mode = self.reset_mode();
                        Done
                    } else {
                        self.err("Unexpected template end tag")
                    }
                }
                _ => self.err("Unexpected end tag"),
            },
            t => {
                self.pop();
                Again(Mode::AfterHead, t)
            }
        }
    }
    fn in_head_noscript(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, _) | Tok::Comment(_) => self.in_head(t),
            Tok::Doctype(_) => self.unexpected(&t),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => match tag.name.as_str() {
                "html" => self.in_body(Tok::Tag(tag)),
                "basefont" | "bgsound" | "link" | "meta" | "noframes" | "style" => self.in_head(Tok::Tag(tag)),
                "head" | "noscript" => self.err("Unexpected start tag"),
                _ => {
                    self.err("Unexpected token");
                    self.pop();
                    Again(Mode::InHead, Tok::Tag(tag))
                }
            },
            Tok::Tag(tag) if tag.name == "noscript" => {
                self.pop();
                self.mode = Mode::InHead;
                Done
            }
            Tok::Tag(tag) if tag.name != "br" => self.err("Unexpected end tag"),
            t => {
                self.unexpected(&t);
                self.pop();
                Again(Mode::InHead, t)
            }
        }
    }
    fn after_head(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, c) => self.text(c),
            Tok::Comment(c) => self.comment(c),
            Tok::Doctype(_) => self.unexpected(&t),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => match tag.name.as_str() {
                "html" => self.in_body(Tok::Tag(tag)),
                "body" => {
                    self.insert_tag(tag);
                    self.frameset_ok = false;
                    self.mode = Mode::InBody;
                    Done
                }
                "frameset" => {
                    self.insert_tag(tag);
                    self.mode = Mode::InFrameset;
                    Done
                }
                "base" | "basefont" | "bgsound" | "link" | "meta" | "noframes" | "script" | "style" | "template"
                | "title" => {
                    self.err("Unexpected start tag after head");
                    let head = self.head.clone().expect("no head element");
                    self.oe.push(head.clone());
                    let r = self.in_head(Tok::Tag(tag));
                    if let Some(i) = self.oe_pos(&head) {
                        self.oe.remove(i);
                    }
                    r
                }
                "head" => self.err("Unexpected head"),
                _ => {
                    self.insert_phantom("body");
                    Again(Mode::InBody, Tok::Tag(tag))
                }
            },
            Tok::Tag(tag) => match tag.name.as_str() {
                "template" => self.in_head(Tok::Tag(tag)),
                "body" | "html" | "br" => {
                    self.insert_phantom("body");
                    Again(Mode::InBody, Tok::Tag(tag))
                }
                _ => self.err("Unexpected end tag"),
            },
            t => {
                self.insert_phantom("body");
                Again(Mode::InBody, t)
            }
        }
    }

    fn in_body(&mut self, t: Tok) -> Res {
        match t {
            Tok::Null => self.unexpected(&t),
            Tok::Chars(_, c) => {
                self.reconstruct();
                if any_not_ws(&c) {
                    self.frameset_ok = false;
                }
                self.text(c)
            }
            Tok::Comment(c) => self.comment(c),
            Tok::Doctype(_) => self.unexpected(&t),
            Tok::Eof => {
                if !self.template_modes.is_empty() {
                    self.in_template(Tok::Eof)
                } else {
                    self.stop()
                }
            }
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => self.body_start(tag),
            Tok::Tag(tag) => self.body_end(tag),
        }
    }
    fn body_start(&mut self, tag: Tag) -> Res {
        let name = tag.name.clone();
        match name.as_str() {
            "html" => {
                self.err("Unexpected html");
                if !self.has("template") {
                    let top = self.oe[0].clone();
                    self.sink.add_attrs_if_missing(&top, tag.attrs);
                }
                Done
            }
            "base" | "basefont" | "bgsound" | "link" | "meta" | "noframes" | "script" | "style" | "template"
            | "title" => self.in_head(Tok::Tag(tag)),
            "body" => {
                self.err("Unexpected body");
                if let Some(b) = self.body()
                    && self.oe.len() != 1
                    && !self.has("template")
                {
                    self.frameset_ok = false;
                    self.sink.add_attrs_if_missing(&b, tag.attrs);
                }
                Done
            }
            "frameset" => {
                self.err("Unexpected frameset");
                if !self.frameset_ok {
                    return Done;
                }
                let Some(b) = self.body() else { return Done };
                self.sink.remove_from_parent(&b);
                while self.oe.len() > 1 {
                    self.pop();
                }
                self.insert_tag(tag);
                self.mode = Mode::InFrameset;
                Done
            }
            "address" | "article" | "aside" | "blockquote" | "center" | "details" | "dialog" | "dir" | "div" | "dl"
            | "fieldset" | "figcaption" | "figure" | "footer" | "header" | "hgroup" | "main" | "menu" | "nav"
            | "ol" | "p" | "search" | "section" | "summary" | "ul" => {
                self.close_p_in_button();
                self.insert_tag(tag);
                Done
            }
            "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => {
                self.close_p_in_button();
                if self.cur_in(heading) {
                    self.err("nested heading tags");
                    self.pop();
                }
                self.insert_tag(tag);
                Done
            }
            "pre" | "listing" => {
                self.close_p_in_button();
                self.insert_tag(tag);
                self.ignore_lf = true;
                self.frameset_ok = false;
                Done
            }
            "form" => {
                let tpl = self.has("template");
                if self.form.is_some() && !tpl {
                    return self.err("nested forms");
                }
                self.close_p_in_button();
                let e = self.insert_tag(tag);
                if !tpl {
                    self.form = Some(e);
                }
                Done
            }
            "li" | "dd" | "dt" => {
                self.frameset_ok = false;
                let list = name == "li";
                let mut close = None;
                for h in self.oe.iter().rev() {
                    let (n, l) = self.name(h);
                    if n == N::Html && (if list { l == "li" } else { l == "dd" || l == "dt" }) {
                        close = Some(l);
                        break;
                    }
                    if special(n, &l) && !(n == N::Html && matches!(l.as_str(), "address" | "div" | "p")) {
                        break;
                    }
                }
                if let Some(c) = close {
                    self.generate_implied(&c);
                    if !self.cur_named(&c) {
                        self.err("Unexpected open element");
                    }
                    self.pop_until_named(&c);
                }
                self.close_p_in_button();
                self.insert_tag(tag);
                Done
            }
            "plaintext" => {
                self.close_p_in_button();
                self.insert_tag(tag);
                self.tok.state = State::Plaintext;
                Done
            }
            "button" => {
                if self.in_scope(Scope::Default, "button") {
                    self.err("nested buttons");
                    self.generate_implied("");
                    self.pop_until_named("button");
                }
                self.reconstruct();
                self.insert_tag(tag);
                self.frameset_ok = false;
                Done
            }
            "a" => {
                let mut open = None;
                for f in self.afe.iter().rev() {
                    match f {
                        Fmt::Marker => break,
                        Fmt::Elem(h, t) => {
                            if t.name == "a" {
                                open = Some(h.clone());
                                break;
                            }
                        }
                    }
                }
                if let Some(h) = open {
                    self.err("nested a");
                    self.adoption(&name);
                    if let Some(p) = self.afe_pos(&h) {
                        self.afe.remove(p);
                    }
                    self.oe_remove(&h);
                }
                self.reconstruct();
                self.insert_formatting(tag);
                Done
            }
            "b" | "big" | "code" | "em" | "font" | "i" | "s" | "small" | "strike" | "strong" | "tt" | "u" => {
                self.reconstruct();
                self.insert_formatting(tag);
                Done
            }
            "nobr" => {
                self.reconstruct();
                if self.in_scope(Scope::Default, "nobr") {
                    self.err("nested nobr");
                    self.adoption(&name);
                    self.reconstruct();
                }
                self.insert_formatting(tag);
                Done
            }
            "applet" | "marquee" | "object" => {
                self.reconstruct();
                self.insert_tag(tag);
                self.afe.push(Fmt::Marker);
                self.frameset_ok = false;
                Done
            }
            "table" => {
                if self.quirks != QuirksMode::Quirks {
                    self.close_p_in_button();
                }
                self.insert_tag(tag);
                self.frameset_ok = false;
                self.mode = Mode::InTable;
                Done
            }
            "area" | "br" | "embed" | "img" | "keygen" | "wbr" => {
                self.reconstruct();
                self.insert_void(tag);
                self.frameset_ok = false;
                Done
            }
            "input" => {
                if self.ctx.as_ref().is_some_and(|c| self.html_named(c, "select")) {
                    return self.err("input in select");
                }
                if self.in_scope(Scope::Default, "select") {
                    self.err("input in select");
                    self.pop_until_named("select");
                }
                self.reconstruct();
                let hidden = type_hidden(&tag);
                self.insert_void(tag);
                if !hidden {
                    self.frameset_ok = false;
                }
                Done
            }
            "param" | "source" | "track" => {
                self.insert_void(tag);
                Done
            }
            "hr" => {
                self.close_p_in_button();
                if self.in_scope(Scope::Default, "select") {
                    self.generate_implied("");
                }
                self.insert_void(tag);
                self.frameset_ok = false;
                Done
            }
            "image" => {
                self.err("image tag");
                let mut tag = tag;
                tag.name = LocalName::from_static("img");
                self.body_start(tag)
            }
            "textarea" => {
                self.ignore_lf = true;
                self.frameset_ok = false;
                self.raw_text(tag, State::Rcdata)
            }
            "xmp" => {
                self.close_p_in_button();
                self.reconstruct();
                self.frameset_ok = false;
                self.raw_text(tag, State::Rawtext)
            }
            "iframe" => {
                self.frameset_ok = false;
                self.raw_text(tag, State::Rawtext)
            }
            "noembed" => self.raw_text(tag, State::Rawtext),
            "noscript" if self.scripting => self.raw_text(tag, State::Rawtext),
            "select" => {
                if self.ctx.as_ref().is_some_and(|c| self.html_named(c, "select")) {
                    return self.err("nested select");
                }
                if self.in_scope(Scope::Default, "select") {
                    self.err("nested select");
                    self.pop_until_named("select");
                    return Done;
                }
                self.reconstruct();
                self.insert_tag(tag);
                self.frameset_ok = false;
                Done
            }
            "option" => {
                if self.in_scope(Scope::Default, "select") {
                    self.generate_implied("optgroup");
                } else if self.cur_named("option") {
                    self.pop();
                }
                self.reconstruct();
                self.insert_tag(tag);
                Done
            }
            "optgroup" => {
                if self.in_scope(Scope::Default, "select") {
                    self.generate_implied("");
                } else if self.cur_named("option") {
                    self.pop();
                }
                self.reconstruct();
                self.insert_tag(tag);
                Done
            }
            "rb" | "rtc" => {
                if self.in_scope(Scope::Default, "ruby") {
                    self.generate_implied("");
                }
                self.insert_tag(tag);
                Done
            }
            "rp" | "rt" => {
                if self.in_scope(Scope::Default, "ruby") {
                    self.generate_implied("rtc");
                }
                self.insert_tag(tag);
                Done
            }
            "math" => {
                self.reconstruct();
                self.enter_foreign(tag, ns!(mathml));
                Done
            }
            "svg" => {
                self.reconstruct();
                self.enter_foreign(tag, ns!(svg));
                Done
            }
            "caption" | "col" | "colgroup" | "frame" | "head" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                self.err("Unexpected start tag")
            }
            _ => {
                self.reconstruct();
                self.insert_tag(tag);
                Done
            }
        }
    }
    fn body_end(&mut self, tag: Tag) -> Res {
        let name = tag.name.clone();
        match name.as_str() {
            "template" => self.in_head(Tok::Tag(tag)),
            "body" => {
                if self.in_scope(Scope::Default, "body") {
                    self.mode = Mode::AfterBody;
                    Done
                } else {
                    self.err("</body> with no <body> in scope")
                }
            }
            "html" => {
                if self.in_scope(Scope::Default, "body") {
                    Again(Mode::AfterBody, Tok::Tag(tag))
                } else {
                    self.err("</html> with no <body> in scope")
                }
            }
            "address" | "article" | "aside" | "blockquote" | "button" | "center" | "details" | "dialog" | "dir"
            | "div" | "dl" | "fieldset" | "figcaption" | "figure" | "footer" | "header" | "hgroup" | "listing"
            | "main" | "menu" | "nav" | "ol" | "pre" | "search" | "section" | "select" | "summary" | "ul" => {
                if !self.in_scope(Scope::Default, &name) {
                    return self.err("Unexpected end tag");
                }
                self.generate_implied("");
                if !self.cur_named(&name) {
                    self.err("Unexpected open element");
                }
                self.pop_until_named(&name);
                Done
            }
            "form" => {
                if !self.has("template") {
                    let Some(node) = self.form.take() else {
                        return self.err("Null form element pointer on </form>");
                    };
                    if !self.in_scope_by(Scope::Default, |_, _, h| self.same(h, &node)) {
                        return self.err("Form element not in scope on </form>");
                    }
                    self.generate_implied("");
                    if !self.same(&self.cur(), &node) {
                        self.err("Bad open element on </form>");
                    }
                    self.oe_remove(&node);
                } else {
                    if !self.in_scope(Scope::Default, "form") {
                        return self.err("Form element not in scope on </form>");
                    }
                    self.generate_implied("");
                    if !self.cur_named("form") {
                        self.err("Bad open element on </form>");
                    }
                    self.pop_until_named("form");
                }
                Done
            }
            "p" => {
                if !self.in_scope(Scope::Button, "p") {
                    self.err("No <p> tag to close");
                    self.insert_phantom("p");
                }
                self.close_p();
                Done
            }
            "li" | "dd" | "dt" => {
                let s = if name == "li" { Scope::ListItem } else { Scope::Default };
                if !self.in_scope(s, &name) {
                    return self.err("No matching tag to close");
                }
                self.generate_implied(&name);
                if !self.cur_named(&name) {
                    self.err("Unexpected open element");
                }
                self.pop_until_named(&name);
                Done
            }
            "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => {
                if !self.in_scope_by(Scope::Default, |n, l, _| n == N::Html && heading(l)) {
                    return self.err("No heading tag to close");
                }
                self.generate_implied("");
                if !self.cur_named(&name) {
                    self.err("Closing wrong heading tag");
                }
                self.pop_until(heading);
                Done
            }
            "a" | "b" | "big" | "code" | "em" | "font" | "i" | "nobr" | "s" | "small" | "strike" | "strong" | "tt"
            | "u" => {
                self.adoption(&name);
                Done
            }
            "applet" | "marquee" | "object" => {
                if !self.in_scope(Scope::Default, &name) {
                    return self.err("Unexpected end tag");
                }
                self.generate_implied("");
                if !self.cur_named(&name) {
                    self.err("Unexpected open element");
                }
                self.pop_until_named(&name);
                self.clear_to_marker();
                Done
            }
            "br" => {
                self.err("</br>");
                self.body_start(mk("br", TagKind::StartTag))
            }
            _ => {
                self.any_other_end(&name);
                Done
            }
        }
    }
    fn in_text(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(_, c) => self.text(c),
            Tok::Eof => {
                self.err("EOF in text");
                if self.cur_named("script") {
                    let c = self.cur();
                    self.sink.mark_script_already_started(&c);
                }
                self.pop();
                Again(self.orig.take().unwrap(), Tok::Eof)
            }
            Tok::Tag(_) => {
                self.pop();
                self.mode = self.orig.take().unwrap();
                Done
            }
            _ => Done,
        }
    }

    // ---------------------------------------------------------------- tables
    fn foster_in_body(&mut self, t: Tok) -> Res {
        self.unexpected(&t);
        let saved = std::mem::replace(&mut self.foster, true);
        let r = self.in_body(t);
        self.foster = saved;
        r
    }
    fn in_table(&mut self, t: Tok) -> Res {
        match t {
            Tok::Null | Tok::Chars(..) => {
                if self.cur_in(|l| table_ctx(l) || l == "template") {
                    self.pending.clear();
                    self.orig = Some(self.mode);
                    Again(Mode::InTableText, t)
                } else {
                    self.foster_in_body(t)
                }
            }
            Tok::Comment(c) => self.comment(c),
            Tok::Doctype(_) => self.unexpected(&t),
            Tok::Eof => self.in_body(Tok::Eof),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => match tag.name.as_str() {
                "caption" => {
                    self.clear_to_table();
                    self.afe.push(Fmt::Marker);
                    self.insert_tag(tag);
                    self.mode = Mode::InCaption;
                    Done
                }
                "colgroup" => {
                    self.clear_to_table();
                    self.insert_tag(tag);
                    self.mode = Mode::InColumnGroup;
                    Done
                }
                "col" => {
                    self.clear_to_table();
                    self.insert_phantom("colgroup");
                    Again(Mode::InColumnGroup, Tok::Tag(tag))
                }
                "tbody" | "tfoot" | "thead" => {
                    self.clear_to_table();
                    self.insert_tag(tag);
                    self.mode = Mode::InTableBody;
                    Done
                }
                "td" | "th" | "tr" => {
                    self.clear_to_table();
                    self.insert_phantom("tbody");
                    Again(Mode::InTableBody, Tok::Tag(tag))
                }
                "table" => {
                    self.err("nested table");
                    if self.in_scope(Scope::Table, "table") {
                        self.pop_until_named("table");
                        Again(self.reset_mode(), Tok::Tag(tag))
                    } else {
                        Done
                    }
                }
                "style" | "script" | "template" => self.in_head(Tok::Tag(tag)),
                "input" if type_hidden(&tag) => {
                    self.err("hidden input in table");
                    self.insert_void(tag);
                    Done
                }
                "form" => {
                    self.err("form in table");
                    if !self.has("template") && self.form.is_none() {
                        let f = self.insert_void(tag);
                        self.form = Some(f);
                    }
                    Done
                }
                _ => self.foster_in_body(Tok::Tag(tag)),
            },
            Tok::Tag(tag) => match tag.name.as_str() {
                "table" => {
                    if self.in_scope(Scope::Table, "table") {
                        self.pop_until_named("table");
                        self.mode = self.reset_mode();
                        Done
                    } else {
                        self.err("Unexpected </table>")
                    }
                }
                "body" | "caption" | "col" | "colgroup" | "html" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                    self.err("Unexpected end tag")
                }
                "template" => self.in_head(Tok::Tag(tag)),
                _ => self.foster_in_body(Tok::Tag(tag)),
            },
        }
    }
    fn in_table_text(&mut self, t: Tok) -> Res {
        match t {
            Tok::Null => self.unexpected(&t),
            Tok::Chars(w, c) => {
                self.pending.push((w, c));
                Done
            }
            t => {
                let pending = std::mem::take(&mut self.pending);
                if pending.iter().any(|(_, c)| any_not_ws(c)) {
                    self.err("Non-space table text");
                    for (w, c) in pending {
                        let saved = std::mem::replace(&mut self.foster, true);
                        self.in_body(Tok::Chars(w, c));
                        self.foster = saved;
                    }
                } else {
                    for (_, c) in pending {
                        self.text(c);
                    }
                }
                Again(self.orig.take().unwrap(), t)
            }
        }
    }
    fn close_caption(&mut self) -> bool {
        if self.in_scope(Scope::Table, "caption") {
            self.generate_implied("");
            self.pop_until_named("caption");
            self.clear_to_marker();
            true
        } else {
            self.err("no caption in scope");
            false
        }
    }
    fn in_caption(&mut self, t: Tok) -> Res {
        match t {
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => match tag.name.as_str() {
                "caption" | "col" | "colgroup" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                    if self.close_caption() { Again(Mode::InTable, Tok::Tag(tag)) } else { Done }
                }
                _ => self.in_body(Tok::Tag(tag)),
            },
            Tok::Tag(tag) => match tag.name.as_str() {
                "caption" => {
                    if self.close_caption() {
                        self.mode = Mode::InTable;
                    }
                    Done
                }
                "table" => {
                    if self.close_caption() { Again(Mode::InTable, Tok::Tag(tag)) } else { Done }
                }
                "body" | "col" | "colgroup" | "html" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                    self.err("Unexpected end tag")
                }
                _ => self.in_body(Tok::Tag(tag)),
            },
            t => self.in_body(t),
        }
    }
    fn in_colgroup(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => return Split(c),
            Tok::Chars(Ws::Only, c) => return self.text(c),
            Tok::Comment(c) => return self.comment(c),
            Tok::Doctype(_) => return self.unexpected(&t),
            Tok::Eof => return self.in_body(Tok::Eof),
            Tok::Tag(ref tag) if tag.kind == TagKind::StartTag => match tag.name.as_str() {
                "html" => return self.in_body(t),
                "col" => {
                    let Tok::Tag(tag) = t else { unreachable!() };
                    self.insert_void(tag);
                    return Done;
                }
                "template" => return self.in_head(t),
                _ => {}
            },
            Tok::Tag(ref tag) => match tag.name.as_str() {
                "colgroup" => {
                    if self.cur_named("colgroup") {
                        self.pop();
                        self.mode = Mode::InTable;
                        return Done;
                    }
                    return self.unexpected(&t);
                }
                "col" => return self.unexpected(&t),
                "template" => return self.in_head(t),
                _ => {}
            },
            _ => {}
        }
        if self.cur_named("colgroup") {
            self.pop();
            Again(Mode::InTable, t)
        } else {
            self.unexpected(&t)
        }
    }
    fn in_table_body(&mut self, t: Tok) -> Res {
        match t {
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => match tag.name.as_str() {
                "tr" => {
                    self.clear_to_body();
                    self.insert_tag(tag);
                    self.mode = Mode::InRow;
                    Done
                }
                "td" | "th" => {
                    self.err("cell without a row");
                    self.clear_to_body();
                    self.insert_phantom("tr");
                    Again(Mode::InRow, Tok::Tag(tag))
                }
                "caption" | "col" | "colgroup" | "tbody" | "tfoot" | "thead" => self.leave_table_body(tag),
                _ => self.in_table(Tok::Tag(tag)),
            },
            Tok::Tag(tag) => match tag.name.as_str() {
                "tbody" | "tfoot" | "thead" => {
                    if self.in_scope(Scope::Table, &tag.name) {
                        self.clear_to_body();
                        self.pop();
                        self.mode = Mode::InTable;
                        Done
                    } else {
                        self.err("Unexpected end tag")
                    }
                }
                "table" => self.leave_table_body(tag),
                "body" | "caption" | "col" | "colgroup" | "html" | "td" | "th" | "tr" => self.err("Unexpected end tag"),
                _ => self.in_table(Tok::Tag(tag)),
            },
            t => self.in_table(t),
        }
    }
    fn leave_table_body(&mut self, tag: Tag) -> Res {
        if self
            .in_scope_by(Scope::Table, |n, l, _| n == N::Html && matches!(l, "tbody" | "tfoot" | "thead"))
        {
            self.clear_to_body();
            self.pop();
            Again(Mode::InTable, Tok::Tag(tag))
        } else {
            self.err("Unexpected tag in table body")
        }
    }
    fn in_row(&mut self, t: Tok) -> Res {
        match t {
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => match tag.name.as_str() {
                "td" | "th" => {
                    self.clear_to_row();
                    self.insert_tag(tag);
                    self.mode = Mode::InCell;
                    self.afe.push(Fmt::Marker);
                    Done
                }
                "caption" | "col" | "colgroup" | "tbody" | "tfoot" | "thead" | "tr" => self.leave_row(tag),
                _ => self.in_table(Tok::Tag(tag)),
            },
            Tok::Tag(tag) => match tag.name.as_str() {
                "tr" => {
                    if self.in_scope(Scope::Table, "tr") {
                        self.clear_to_row();
                        self.pop();
                        self.mode = Mode::InTableBody;
                        Done
                    } else {
                        self.err("Unexpected </tr>")
                    }
                }
                "table" => self.leave_row(tag),
                "tbody" | "tfoot" | "thead" => {
                    if self.in_scope(Scope::Table, &tag.name) {
                        self.leave_row(tag)
                    } else {
                        self.err("Unexpected end tag")
                    }
                }
                "body" | "caption" | "col" | "colgroup" | "html" | "td" | "th" => self.err("Unexpected end tag"),
                _ => self.in_table(Tok::Tag(tag)),
            },
            t => self.in_table(t),
        }
    }
    fn leave_row(&mut self, tag: Tag) -> Res {
        if self.in_scope(Scope::Table, "tr") {
            self.clear_to_row();
            self.pop();
            Again(Mode::InTableBody, Tok::Tag(tag))
        } else {
            self.err("Unexpected tag in row")
        }
    }
    fn close_cell(&mut self) {
        self.generate_implied("");
        if !self.cur_in(|l| l == "td" || l == "th") {
            self.err("expected to close <td> or <th> with cell");
        }
        self.pop_until(|l| l == "td" || l == "th");
        self.clear_to_marker();
    }
    fn in_cell(&mut self, t: Tok) -> Res {
        match t {
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => match tag.name.as_str() {
                "caption" | "col" | "colgroup" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                    if self.in_scope_by(Scope::Table, |n, l, _| n == N::Html && (l == "td" || l == "th")) {
                        self.close_cell();
                        Again(Mode::InRow, Tok::Tag(tag))
                    } else {
                        self.err("Unexpected start tag")
                    }
                }
                _ => self.in_body(Tok::Tag(tag)),
            },
            Tok::Tag(tag) => match tag.name.as_str() {
                "td" | "th" => {
                    if self.in_scope(Scope::Table, &tag.name) {
                        self.generate_implied("");
                        if !self.cur_named(&tag.name) {
                            self.err("Unexpected open element");
                        }
                        self.pop_until_named(&tag.name);
                        self.clear_to_marker();
                        self.mode = Mode::InRow;
                        Done
                    } else {
                        self.err("Unexpected end tag")
                    }
                }
                "body" | "caption" | "col" | "colgroup" | "html" => self.err("Unexpected end tag"),
                "table" | "tbody" | "tfoot" | "thead" | "tr" => {
                    if self.in_scope(Scope::Table, &tag.name) {
                        self.close_cell();
                        Again(Mode::InRow, Tok::Tag(tag))
                    } else {
                        self.err("Unexpected end tag")
                    }
                }
                _ => self.in_body(Tok::Tag(tag)),
            },
            t => self.in_body(t),
        }
    }

    // ---------------------------------------------------------------- templates, after body, framesets
    fn in_template(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(..) | Tok::Null | Tok::Comment(_) | Tok::Doctype(_) => self.in_body(t),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => {
                let m = match tag.name.as_str() {
                    "base" | "basefont" | "bgsound" | "link" | "meta" | "noframes" | "script" | "style"
                    | "template" | "title" => return self.in_head(Tok::Tag(tag)),
                    "caption" | "colgroup" | "tbody" | "tfoot" | "thead" => Mode::InTable,
                    "col" => Mode::InColumnGroup,
                    "tr" => Mode::InTableBody,
                    "td" | "th" => Mode::InRow,
                    _ => Mode::InBody,
                };
                self.template_modes.pop();
                self.template_modes.push(m);
                Again(m, Tok::Tag(tag))
            }
            Tok::Tag(tag) => {
                if tag.name == "template" {
                    self.in_head(Tok::Tag(tag))
                } else {
                    self.err("Unexpected end tag")
                }
            }
            Tok::Eof => {
                if !self.has("template") {
                    return self.stop();
                }
                self.err("EOF in template");
                self.pop_until_named("template");
                self.clear_to_marker();
                self.template_modes.pop();
                Again(self.reset_mode(), Tok::Eof)
            }
        }
    }
    fn after_body(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, _) => self.in_body(t),
            Tok::Comment(c) => self.comment_to_html(c),
            Tok::Doctype(_) => self.unexpected(&t),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag && tag.name == "html" => self.in_body(Tok::Tag(tag)),
            Tok::Tag(tag) if tag.kind == TagKind::EndTag && tag.name == "html" => {
                if self.ctx.is_some() {
                    self.err("Unexpected </html> in fragment")
                } else {
                    self.mode = Mode::AfterAfterBody;
                    Done
                }
            }
            Tok::Eof => self.stop(),
            t => {
                self.unexpected(&t);
                Again(Mode::InBody, t)
            }
        }
    }
    fn in_frameset(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, c) => self.text(c),
            Tok::Comment(c) => self.comment(c),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => match tag.name.as_str() {
                "html" => self.in_body(Tok::Tag(tag)),
                "frameset" => {
                    self.insert_tag(tag);
                    Done
                }
                "frame" => {
                    self.insert_void(tag);
                    Done
                }
                "noframes" => self.in_head(Tok::Tag(tag)),
                _ => self.err("Unexpected start tag"),
            },
            Tok::Tag(tag) if tag.name == "frameset" => {
                if self.oe.len() == 1 {
                    return self.err("Unexpected </frameset>");
                }
                self.pop();
                if self.ctx.is_none() && !self.cur_named("frameset") {
                    self.mode = Mode::AfterFrameset;
                }
                Done
            }
            Tok::Eof => self.stop(),
            t => self.unexpected(&t),
        }
    }
    fn after_frameset(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, c) => self.text(c),
            Tok::Comment(c) => self.comment(c),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag && tag.name == "html" => self.in_body(Tok::Tag(tag)),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag && tag.name == "noframes" => self.in_head(Tok::Tag(tag)),
            Tok::Tag(tag) if tag.kind == TagKind::EndTag && tag.name == "html" => {
                self.mode = Mode::AfterAfterFrameset;
                Done
            }
            Tok::Eof => self.stop(),
            t => self.unexpected(&t),
        }
    }
    fn after_after_body(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, _) => self.in_body(t),
            Tok::Comment(c) => self.comment_to_doc(c),
            Tok::Doctype(_) => self.unexpected(&t),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag && tag.name == "html" => self.in_body(Tok::Tag(tag)),
            Tok::Eof => self.stop(),
            t => {
                self.unexpected(&t);
                Again(Mode::InBody, t)
            }
        }
    }
    fn after_after_frameset(&mut self, t: Tok) -> Res {
        match t {
            Tok::Chars(Ws::Unknown, c) => Split(c),
            Tok::Chars(Ws::Only, _) => self.in_body(t),
            Tok::Comment(c) => self.comment_to_doc(c),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag && tag.name == "html" => self.in_body(Tok::Tag(tag)),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag && tag.name == "noframes" => self.in_head(Tok::Tag(tag)),
            Tok::Eof => self.stop(),
            t => self.unexpected(&t),
        }
    }

    // ---------------------------------------------------------------- foreign content
    fn mathml_text_ip(&self, n: N, l: &str) -> bool {
        n == N::Math && matches!(l, "mi" | "mo" | "mn" | "ms" | "mtext")
    }
    fn html_ip(&self, h: &S::Handle, n: N, l: &str) -> bool {
        match n {
            N::Svg => matches!(l, "foreignObject" | "desc" | "title"),
            N::Math => l == "annotation-xml" && self.sink.is_mathml_annotation_xml_integration_point(h),
            _ => false,
        }
    }
    fn foreign(&self, t: &Tok) -> bool {
        if matches!(t, Tok::Eof) || self.oe.is_empty() {
            return false;
        }
        let h = self.adjusted();
        let (n, l) = self.name(&h);
        if n == N::Html {
            return false;
        }
        let chars = matches!(t, Tok::Chars(..) | Tok::Null);
        let start = match t {
            Tok::Tag(t) if t.kind == TagKind::StartTag => Some(t.name.as_str()),
            _ => None,
        };
        if self.mathml_text_ip(n, &l) && (chars || start.is_some_and(|s| s != "mglyph" && s != "malignmark")) {
            return false;
        }
        if n == N::Math && l == "annotation-xml" && start == Some("svg") {
            return false;
        }
        if self.html_ip(&h, n, &l) && (chars || start.is_some()) {
            return false;
        }
        true
    }
    fn enter_foreign(&mut self, mut tag: Tag, n: Namespace) {
        match ns_kind(&n) {
            N::Math => adjust_math(&mut tag),
            N::Svg => adjust_svg(&mut tag),
            _ => {}
        }
        adjust_foreign(&mut tag);
        self.insert_elem(!tag.self_closing, n, tag.name, tag.attrs);
    }
    fn break_out(&mut self, tag: Tag) -> Res {
        self.err("Unexpected tag in foreign content");
        loop {
            let h = self.cur();
            let (n, l) = self.name(&h);
            if n == N::Html || self.mathml_text_ip(n, &l) || self.html_ip(&h, n, &l) {
                break;
            }
            self.pop();
        }
        let m = self.mode;
        self.step(m, Tok::Tag(tag))
    }
    fn step_foreign(&mut self, t: Tok) -> Res {
        match t {
            Tok::Null => {
                self.unexpected(&t);
                self.text(StrTendril::from("\u{fffd}"))
            }
            Tok::Chars(_, c) => {
                if any_not_ws(&c) {
                    self.frameset_ok = false;
                }
                self.text(c)
            }
            Tok::Comment(c) => self.comment(c),
            Tok::Tag(tag) if tag.kind == TagKind::StartTag => {
                let out = match tag.name.as_str() {
                    "b" | "big" | "blockquote" | "body" | "br" | "center" | "code" | "dd" | "div" | "dl" | "dt"
                    | "em" | "embed" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "head" | "hr" | "i" | "img"
                    | "li" | "listing" | "menu" | "meta" | "nobr" | "ol" | "p" | "pre" | "ruby" | "s" | "small"
                    | "span" | "strong" | "strike" | "sub" | "sup" | "table" | "tt" | "u" | "ul" | "var" => true,
                    "font" => tag
                        .attrs
                        .iter()
                        .any(|a| a.name.ns == ns!() && matches!(a.name.local.as_str(), "color" | "face" | "size")),
                    _ => false,
                };
                if out {
                    return self.break_out(tag);
                }
                let mut tag = tag;
                let n = {
                    let h = self.adjusted();
                    self.name(&h).0
                };
                let n = match n {
                    N::Svg => {
                        adjust_svg_name(&mut tag);
                        ns!(svg)
                    }
                    N::Math => ns!(mathml),
                    _ => ns!(html),
                };
                self.enter_foreign(tag, n);
                Done
            }
            Tok::Tag(tag) => {
                if matches!(tag.name.as_str(), "br" | "p") {
                    return self.break_out(tag);
                }
                let mut i = self.oe.len() - 1;
                let mut first = true;
                loop {
                    if i == 0 {
                        return Done;
                    }
                    let (n, l) = self.name(&self.oe[i]);
                    if !first && n == N::Html {
                        let m = self.mode;
                        return self.step(m, Tok::Tag(tag));
                    }
                    if l.eq_ignore_ascii_case(&tag.name) {
                        while self.oe.len() > i {
                            self.pop();
                        }
                        return Done;
                    }
                    if first {
                        self.err("Unexpected end tag in foreign content");
                        first = false;
                    }
                    i -= 1;
                }
            }
            t => self.unexpected(&t),
        }
    }
}

fn adjust_svg_name(t: &mut Tag) {
    const A: &[(&str, &str)] = &[
        ("altglyph", "altGlyph"),
        ("altglyphdef", "altGlyphDef"),
        ("altglyphitem", "altGlyphItem"),
        ("animatecolor", "animateColor"),
        ("animatemotion", "animateMotion"),
        ("animatetransform", "animateTransform"),
        ("clippath", "clipPath"),
        ("feblend", "feBlend"),
        ("fecolormatrix", "feColorMatrix"),
        ("fecomponenttransfer", "feComponentTransfer"),
        ("fecomposite", "feComposite"),
        ("feconvolvematrix", "feConvolveMatrix"),
        ("fediffuselighting", "feDiffuseLighting"),
        ("fedisplacementmap", "feDisplacementMap"),
        ("fedistantlight", "feDistantLight"),
        ("fedropshadow", "feDropShadow"),
        ("feflood", "feFlood"),
        ("fefunca", "feFuncA"),
        ("fefuncb", "feFuncB"),
        ("fefuncg", "feFuncG"),
        ("fefuncr", "feFuncR"),
        ("fegaussianblur", "feGaussianBlur"),
        ("feimage", "feImage"),
        ("femerge", "feMerge"),
        ("femergenode", "feMergeNode"),
        ("femorphology", "feMorphology"),
        ("feoffset", "feOffset"),
        ("fepointlight", "fePointLight"),
        ("fespecularlighting", "feSpecularLighting"),
        ("fespotlight", "feSpotLight"),
        ("fetile", "feTile"),
        ("feturbulence", "feTurbulence"),
        ("foreignobject", "foreignObject"),
        ("glyphref", "glyphRef"),
        ("lineargradient", "linearGradient"),
        ("radialgradient", "radialGradient"),
        ("textpath", "textPath"),
    ];
    if let Ok(i) = A.binary_search_by(|e| e.0.cmp(t.name.as_str())) {
        t.name = LocalName::from_static(A[i].1);
    }
}
fn adjust_svg(t: &mut Tag) {
    const A: &[(&str, &str)] = &[
        ("attributename", "attributeName"),
        ("attributetype", "attributeType"),
        ("basefrequency", "baseFrequency"),
        ("baseprofile", "baseProfile"),
        ("calcmode", "calcMode"),
        ("clippathunits", "clipPathUnits"),
        ("diffuseconstant", "diffuseConstant"),
        ("edgemode", "edgeMode"),
        ("filterunits", "filterUnits"),
        ("glyphref", "glyphRef"),
        ("gradienttransform", "gradientTransform"),
        ("gradientunits", "gradientUnits"),
        ("kernelmatrix", "kernelMatrix"),
        ("kernelunitlength", "kernelUnitLength"),
        ("keypoints", "keyPoints"),
        ("keysplines", "keySplines"),
        ("keytimes", "keyTimes"),
        ("lengthadjust", "lengthAdjust"),
        ("limitingconeangle", "limitingConeAngle"),
        ("markerheight", "markerHeight"),
        ("markerunits", "markerUnits"),
        ("markerwidth", "markerWidth"),
        ("maskcontentunits", "maskContentUnits"),
        ("maskunits", "maskUnits"),
        ("numoctaves", "numOctaves"),
        ("pathlength", "pathLength"),
        ("patterncontentunits", "patternContentUnits"),
        ("patterntransform", "patternTransform"),
        ("patternunits", "patternUnits"),
        ("pointsatx", "pointsAtX"),
        ("pointsaty", "pointsAtY"),
        ("pointsatz", "pointsAtZ"),
        ("preservealpha", "preserveAlpha"),
        ("preserveaspectratio", "preserveAspectRatio"),
        ("primitiveunits", "primitiveUnits"),
        ("refx", "refX"),
        ("refy", "refY"),
        ("repeatcount", "repeatCount"),
        ("repeatdur", "repeatDur"),
        ("requiredextensions", "requiredExtensions"),
        ("requiredfeatures", "requiredFeatures"),
        ("specularconstant", "specularConstant"),
        ("specularexponent", "specularExponent"),
        ("spreadmethod", "spreadMethod"),
        ("startoffset", "startOffset"),
        ("stddeviation", "stdDeviation"),
        ("stitchtiles", "stitchTiles"),
        ("surfacescale", "surfaceScale"),
        ("systemlanguage", "systemLanguage"),
        ("tablevalues", "tableValues"),
        ("targetx", "targetX"),
        ("targety", "targetY"),
        ("textlength", "textLength"),
        ("viewbox", "viewBox"),
        ("viewtarget", "viewTarget"),
        ("xchannelselector", "xChannelSelector"),
        ("ychannelselector", "yChannelSelector"),
        ("zoomandpan", "zoomAndPan"),
    ];
    for a in &mut t.attrs {
        if let Ok(i) = A.binary_search_by(|e| e.0.cmp(a.name.local.as_str())) {
            a.name.local = LocalName::from_static(A[i].1);
        }
    }
}
fn adjust_math(t: &mut Tag) {
    for a in &mut t.attrs {
        if a.name.local == "definitionurl" {
            a.name.local = LocalName::from_static("definitionURL");
        }
    }
}
fn adjust_foreign(t: &mut Tag) {
    for a in &mut t.attrs {
        let (p, n, l) = match a.name.local.as_str() {
            "xlink:actuate" => ("xlink", ns!(xlink), "actuate"),
            "xlink:arcrole" => ("xlink", ns!(xlink), "arcrole"),
            "xlink:href" => ("xlink", ns!(xlink), "href"),
            "xlink:role" => ("xlink", ns!(xlink), "role"),
            "xlink:show" => ("xlink", ns!(xlink), "show"),
            "xlink:title" => ("xlink", ns!(xlink), "title"),
            "xlink:type" => ("xlink", ns!(xlink), "type"),
            "xml:lang" => ("xml", ns!(xml), "lang"),
            "xml:space" => ("xml", ns!(xml), "space"),
            "xmlns" => ("", ns!(xmlns), "xmlns"),
            "xmlns:xlink" => ("xmlns", ns!(xmlns), "xlink"),
            _ => continue,
        };
        a.name = QualName::new(
            if p.is_empty() { None } else { Some(Prefix::from_static(p)) },
            n,
            LocalName::from_static(l),
        );
    }
}

fn quirks_of(d: &Doctype, srcdoc: bool) -> QuirksMode {
    const PREFIX: &[&str] = &[
        "+//silmaril//dtd html pro v0r11 19970101//",
        "-//advasoft ltd//dtd html 3.0 aswedit + extensions//",
        "-//as//dtd html 3.0 aswedit + extensions//",
        "-//ietf//dtd html 2.0 level 1//",
        "-//ietf//dtd html 2.0 level 2//",
        "-//ietf//dtd html 2.0 strict level 1//",
        "-//ietf//dtd html 2.0 strict level 2//",
        "-//ietf//dtd html 2.0 strict//",
        "-//ietf//dtd html 2.0//",
        "-//ietf//dtd html 2.1e//",
        "-//ietf//dtd html 3.0//",
        "-//ietf//dtd html 3.2 final//",
        "-//ietf//dtd html 3.2//",
        "-//ietf//dtd html 3//",
        "-//ietf//dtd html level 0//",
        "-//ietf//dtd html level 1//",
        "-//ietf//dtd html level 2//",
        "-//ietf//dtd html level 3//",
        "-//ietf//dtd html strict level 0//",
        "-//ietf//dtd html strict level 1//",
        "-//ietf//dtd html strict level 2//",
        "-//ietf//dtd html strict level 3//",
        "-//ietf//dtd html strict//",
        "-//ietf//dtd html//",
        "-//metrius//dtd metrius presentational//",
        "-//microsoft//dtd internet explorer 2.0 html strict//",
        "-//microsoft//dtd internet explorer 2.0 html//",
        "-//microsoft//dtd internet explorer 2.0 tables//",
        "-//microsoft//dtd internet explorer 3.0 html strict//",
        "-//microsoft//dtd internet explorer 3.0 html//",
        "-//microsoft//dtd internet explorer 3.0 tables//",
        "-//netscape comm. corp.//dtd html//",
        "-//netscape comm. corp.//dtd strict html//",
        "-//o'reilly and associates//dtd html 2.0//",
        "-//o'reilly and associates//dtd html extended 1.0//",
        "-//o'reilly and associates//dtd html extended relaxed 1.0//",
        "-//softquad software//dtd hotmetal pro 6.0::19990601::extensions to html 4.0//",
        "-//softquad//dtd hotmetal pro 4.0::19971010::extensions to html 4.0//",
        "-//spyglass//dtd html 2.0 extended//",
        "-//sq//dtd html 2.0 hotmetal + extensions//",
        "-//sun microsystems corp.//dtd hotjava html//",
        "-//sun microsystems corp.//dtd hotjava strict html//",
        "-//w3c//dtd html 3 1995-03-24//",
        "-//w3c//dtd html 3.2 draft//",
        "-//w3c//dtd html 3.2 final//",
        "-//w3c//dtd html 3.2//",
        "-//w3c//dtd html 3.2s draft//",
        "-//w3c//dtd html 4.0 frameset//",
        "-//w3c//dtd html 4.0 transitional//",
        "-//w3c//dtd html experimental 19960712//",
        "-//w3c//dtd html experimental 970421//",
        "-//w3c//dtd w3 html//",
        "-//w3o//dtd w3 html 3.0//",
        "-//webtechs//dtd mozilla html 2.0//",
        "-//webtechs//dtd mozilla html//",
    ];
    if d.force_quirks {
        return QuirksMode::Quirks;
    }
    if srcdoc {
        return QuirksMode::NoQuirks;
    }
    if d.name.as_ref().map(|n| &**n) != Some("html") {
        return QuirksMode::Quirks;
    }
    let lower = |s: &Option<StrTendril>| s.as_ref().map(|s| s.to_ascii_lowercase());
    let p = lower(&d.public_id);
    let s = lower(&d.system_id);
    if let Some(p) = &p {
        if matches!(p.as_str(), "-//w3o//dtd w3 html strict 3.0//en//" | "-/w3c/dtd html 4.0 transitional/en" | "html")
            || PREFIX.iter().any(|x| p.starts_with(x))
        {
            return QuirksMode::Quirks;
        }
    }
    if s.as_deref() == Some("http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd") {
        return QuirksMode::Quirks;
    }
    if let Some(p) = &p {
        let h401 = p.starts_with("-//w3c//dtd html 4.01 frameset//")
            || p.starts_with("-//w3c//dtd html 4.01 transitional//");
        if h401 {
            return if s.is_none() { QuirksMode::Quirks } else { QuirksMode::LimitedQuirks };
        }
        if p.starts_with("-//w3c//dtd xhtml 1.0 frameset//") || p.starts_with("-//w3c//dtd xhtml 1.0 transitional//") {
            return QuirksMode::LimitedQuirks;
        }
    }
    QuirksMode::NoQuirks
}
