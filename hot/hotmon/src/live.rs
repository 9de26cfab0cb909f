//! H22: the live-reload client, through connections that come and go.
//!
//! The client's own loop runs against a scripted network and server with a clock of its own. The
//! `World` below plays everything that is not the client and judges, at every call the client makes,
//! whether it may be made now.
use crate::checks::{lost_in_opaque_body, norm};
use crate::client::{self as page, Page};
use crate::generate;
use crate::harness::*;
use crate::rng::Rng;
use crate::tree::*;
use hotmeal::{Patch, StrTendril, parse};
use live_server::{LiveReloadEvent, LiveReloadServer};
use roam::world::{self, Answer, Next, Outcome, Outside};
use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use wasm_bindgen::JsValue;
use wasm_bindgen::dom;

use live_client as _;
unsafe extern "Rust" {
    #[link_name = "hotmeal_start_live_reload"]
    safe fn start_live_reload(ws_url: &str, mount_selector: &str) -> Result<(), JsValue>;
}

#[derive(Clone, Debug)]
enum Step {
    Wait(u32),
    /// The page changes to this version.
    Page(usize),
    Head(usize, u32),
    /// The server asks for a reload for a reason of its own.
    Reload,
    /// Patches that are no patches, or for another page.
    Garbage(u32),
}
#[derive(Clone, Debug)]
struct Session {
    connect: (u32, bool),
    accept: (u32, bool),
    /// Turns until the subscription is answered (none: never), and whether it is granted.
    subscribe: (Option<u32>, bool),
    /// Events may come before the answer.
    early: bool,
    steps: Vec<Step>,
    end_ok: bool,
    /// What happens while there is no connection afterwards.
    missed: Option<usize>,
}
#[derive(Clone)]
struct Story {
    pages: Vec<String>,
    /// 0 body, 1 #mount, 2 a selector nothing matches, 3 no selector at all
    mount: usize,
    url: String,
    location: Vec<String>,
    strict: bool,
    sessions: Vec<Session>,
    seed: u64,
}
impl Case for Story {
    fn show(&self) -> String {
        let mut s = format!("url {:?} location {:?} mount {:?} order {}\n", self.url, self.location, MOUNTS[self.mount], self.seed);
        for (i, p) in self.pages.iter().enumerate() {
            s.push_str(&format!("page {i}: {p:?}\n"));
        }
        for x in &self.sessions {
            s.push_str(&format!("{x:?}\n"));
        }
        s
    }
    fn shrinks(&self) -> Vec<Self> {
        let mut v = vec![];
        for i in 0..self.sessions.len() {
            let mut c = self.clone();
            c.sessions.remove(i);
            v.push(c);
            for j in 0..self.sessions[i].steps.len() {
                let mut c = self.clone();
                c.sessions[i].steps.remove(j);
                v.push(c);
            }
        }
        let d = generate::Docs { docs: self.pages.clone(), opt: 0, how: "", min: self.pages.len() };
        for s in d.shrinks() {
            v.push(Story { pages: s.docs, ..self.clone() });
        }
        v
    }
}
const MOUNTS: [&str; 4] = ["body", "#mount", "#nowhere", ">>"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Phase {
    /// Nothing is open; the client has waited, or has not started yet.
    Ready,
    Connecting,
    Connected,
    Open,
    /// The attempt failed or the connection ended.
    Lost,
}
enum Expect {
    Nothing,
    Reload,
    Patches,
    Error,
}
struct World {
    c: Story,
    /// The first thing the client did wrong.
    wrong: Option<(&'static str, String)>,
    phase: Phase,
    next_delay: u128,
    at: usize,
    steps: VecDeque<Step>,
    subscribed: bool,
    answered: bool,
    granted: bool,
    expect: Expect,
    shown_page: usize,
    page: Option<Page>,
    server: LiveReloadServer,
    version: usize,
    head: u32,
    reloads: u64,
    logs: usize,
    over: bool,
    log: Vec<String>,
    count: Rc<RefCell<Vec<&'static str>>>,
}
impl World {
    fn wrong(&mut self, sig: &'static str, m: impl Into<String>) {
        if self.wrong.is_none() {
            self.wrong = Some((sig, format!("{}; so far: {}", m.into(), self.log[self.log.len().saturating_sub(12)..].join(", "))));
        }
    }
    fn note(&mut self, s: String) {
        self.log.push(s);
    }
    fn count(&mut self, s: &'static str) {
        self.count.borrow_mut().push(s);
    }
    fn route(&self) -> String {
        self.c.location.first().cloned().unwrap_or_else(|| "/".into())
    }
    fn show(&mut self, p: usize) {
        self.page = Page::new(&self.c.pages[p], self.c.mount != 0);
        self.shown_page = p;
    }
    fn lost(&mut self, failed: bool) {
        self.phase = Phase::Lost;
        if !failed {
            self.next_delay = 100;
        }
    }
    fn event(&mut self, e: LiveReloadEvent, x: Expect) -> Next {
        self.note(format!("event {}", format!("{e:?}").chars().take(60).collect::<String>()));
        self.expect = match (x, self.c.mount) {
            // without a mount point patches can only fail
            (Expect::Patches, 2 | 3) => Expect::Error,
            (x, _) => x,
        };
        let b = e.to_postcard();
        let e = LiveReloadEvent::from_postcard(&b).expect("the event decodes");
        Next::Call("on_event", vec![Box::new(e)])
    }
}
impl Outside for World {
    fn connect(&mut self, url: &str) -> Answer {
        self.note(format!("connect at {}", world::now()));
        if self.phase != Phase::Ready {
            self.wrong("connect", format!("a connection is opened while the client is {:?}", self.phase));
        }
        if url != self.c.url {
            self.wrong("url", format!("it connects to {url:?}, not to {:?}", self.c.url));
        }
        self.phase = Phase::Connecting;
        if let Some(p) = self.at.checked_sub(1).and_then(|i| self.c.sessions[i].missed) {
            self.version = p;
            let route = self.route();
            self.server.cache_html(&route, &self.c.pages[p].clone());
        }
        let Some(s) = self.c.sessions.get(self.at).cloned() else {
            self.over = true;
            return Answer { turns: None, error: None };
        };
        self.at += 1;
        self.steps = s.steps.clone().into();
        (self.subscribed, self.answered, self.granted) = (false, false, false);
        if !s.connect.1 {
            self.lost(true);
            self.count("attempts that fail");
        }
        Answer { turns: Some(s.connect.0), error: (!s.connect.1).then(|| "refused".into()) }
    }
    fn accept(&mut self) -> Answer {
        self.note("handshake".into());
        if self.phase != Phase::Connecting {
            self.wrong("handshake", format!("a handshake while the client is {:?}", self.phase));
        }
        let s = self.c.sessions[self.at - 1].clone();
        self.phase = Phase::Connected;
        if !s.accept.1 {
            self.lost(true);
            self.count("handshakes that fail");
        }
        Answer { turns: Some(s.accept.0), error: (!s.accept.1).then(|| "no handshake".into()) }
    }
    fn call(&mut self, method: &'static str, args: Vec<Box<dyn Any>>) -> Answer {
        let route = args.first().and_then(|a| a.downcast_ref::<String>()).cloned().unwrap_or_default();
        self.note(format!("{method} {route:?}"));
        if !matches!(self.phase, Phase::Connected | Phase::Open) || method != "subscribe" || self.subscribed {
            self.wrong("subscribe", format!("{method} is called while the client is {:?}, subscribed: {}", self.phase, self.subscribed));
        }
        if route != self.route() {
            self.wrong("route", format!("it subscribes to {route:?} on a page at {:?}", self.c.location));
        }
        self.phase = Phase::Open;
        self.subscribed = true;
        self.count("subscriptions");
        let s = &self.c.sessions[self.at - 1];
        let (turns, granted) = s.subscribe;
        if self.version != self.shown_page {
            // what was missed meanwhile is made up for by a reload
            self.steps.push_front(Step::Reload);
        }
        Answer { turns, error: (!granted).then(|| "no such route".into()) }
    }
    fn answered(&mut self, ok: bool) {
        self.answered = true;
        self.granted = ok;
    }
    fn next(&mut self) -> Next {
        if self.wrong.is_some() {
            return Next::Wait;
        }
        let s = self.c.sessions[self.at - 1].clone();
        let refused = self.answered && !self.granted;
        if !refused && (!self.subscribed || !(self.answered || s.early || s.subscribe.0.is_none())) {
            return Next::Wait;
        }
        if refused {
            self.steps.clear();
        }
        let route = self.route();
        match self.steps.pop_front() {
            None if !self.answered && s.subscribe.0.is_some() => Next::Wait,
            None => {
                self.note("the connection ends".into());
                Next::End(if s.end_ok { Ok(()) } else { Err("broken".into()) })
            }
            Some(Step::Wait(n)) => {
                if n > 0 {
                    self.steps.push_front(Step::Wait(n - 1));
                }
                world::progress();
                Next::Wait
            }
            Some(Step::Reload) => self.event(LiveReloadEvent::Reload, Expect::Reload),
            Some(Step::Garbage(k)) => {
                let blob = match k % 4 {
                    0 => vec![0xff; 7],
                    1 => b"\x01\x09".to_vec(),
                    2 => facet_postcard::to_vec(&vec![Patch::Remove { node: hotmeal::NodeRef(hotmeal::NodePath(smallvec::smallvec![0, 4000, 7])) }]).unwrap(),
                    _ => facet_postcard::to_vec(&vec![Patch::SetText { path: hotmeal::NodePath(smallvec::smallvec![9, 1]), text: "x".into() }]).unwrap(),
                };
                self.event(LiveReloadEvent::Patches { route, patches_blob: blob }, Expect::Error)
            }
            Some(Step::Page(p)) => {
                self.version = p;
                let e = self.server.diff_route(&route, &self.c.pages[p].clone());
                self.sent(e)
            }
            Some(Step::Head(p, h)) => {
                self.version = p;
                self.head = h;
                let e = self.server.diff_route_with_head(&route, &self.c.pages[p].clone(), &format!("<link rel=x{h}>"));
                self.sent(e)
            }
        }
    }
    fn handled(&mut self) {
        let logs = dom::LOG_LINES.take();
        let reloads = dom::RELOADS.get() - self.reloads;
        self.reloads += reloads;
        self.logs += logs.len();
        let (want, x) = match self.expect {
            Expect::Nothing => return self.wrong("event", "an answer to no call"),
            Expect::Reload => (1, "to reload"),
            Expect::Patches => (0, "to apply patches"),
            Expect::Error => (0, "to refuse patches"),
        };
        if reloads != want {
            return self.wrong("reload", format!("told {x}, the page was reloaded {reloads} times"));
        }
        match self.expect {
            Expect::Reload => {
                self.count("reloads");
                let v = self.version;
                self.show(v);
            }
            Expect::Error => {
                self.count("events that cannot be obeyed");
                if !logs.iter().any(|l| ["err", "fail", "invalid", "cannot", "could not", "unable"].iter().any(|w| l.to_lowercase().contains(w))) {
                    self.wrong("silent", "an event could not be obeyed and nothing was logged");
                }
            }
            _ => {
                self.count("updates applied");
                self.shown_page = self.version;
            }
        }
        if let Some(p) = &self.page
            && !p.rest_untouched()
        {
            self.wrong("rest-of-page", "something outside of the mount point changed");
        }
        self.expect = Expect::Nothing;
        self.compare();
        page::forget_heard();
    }
    fn ended(&mut self, let_go: bool) {
        if self.phase != Phase::Open && self.phase != Phase::Connected {
            return;
        }
        if let_go && self.wrong.is_none() {
            self.note("the client lets the connection go".into());
            if !self.answered || self.granted {
                self.wrong("let-go", "the client lets go of a connection that is fine");
            }
        }
        let good = self.subscribed && self.granted;
        self.count(if good { "connections that worked and ended" } else { "connections that ended before a subscription" });
        self.lost(!good);
    }
    fn sleep(&mut self, ms: u128) {
        self.note(format!("wait {ms}"));
        if self.phase == Phase::Open && self.answered && !self.granted {
            // what is left of a connection without a subscription winds itself up
            self.count("connections let go");
            self.lost(true);
        }
        if self.phase != Phase::Lost {
            self.wrong("wait", format!("the client waits while it is {:?}", self.phase));
        }
        if ms != self.next_delay {
            self.wrong("delay", format!("the delay is {ms} ms, expected {}", self.next_delay));
        }
        self.count(if ms == 5000 { "delays of 5 seconds" } else if ms == 100 { "delays of 100 ms" } else { "delays between" });
        self.next_delay = (self.next_delay * 2).min(5000);
        self.phase = Phase::Ready;
    }
    fn over(&self) -> bool {
        self.over || self.wrong.is_some()
    }
}
impl World {
    fn sent(&mut self, e: Option<LiveReloadEvent>) -> Next {
        match e {
            None => {
                // as far as the server is concerned, the page has not changed
                self.shown_page = self.version;
                world::progress();
                Next::Wait
            }
            Some(e) => {
                let x = if matches!(e, LiveReloadEvent::Patches { .. }) { Expect::Patches } else { Expect::Reload };
                self.event(e, x)
            }
        }
    }
    fn compare(&mut self) {
        if self.c.mount > 1 || self.version != self.shown_page {
            return;
        }
        let Some(p) = &self.page else { return };
        let Node::Elem(mut have) = page::from_dom(&p.root) else { return };
        let t = StrTendril::from(self.c.pages[self.version].as_str());
        let mut want = page::body_of(&parse(&t));
        if self.c.mount == 1 {
            want.tag = "div".into();
            want.attrs = vec![Attr::new("id", "mount")];
        }
        have = norm(&have);
        want = norm(&want);
        if let Some(m) = diff_msg(&have, &want, "") {
            let v = self.version;
            self.wrong("stale", format!("the page does not show version {v}: {m}"));
        }
        self.count("pages compared");
    }
}
fn make(seed: u64, i: u64, corpus: &(Vec<String>, Vec<(String, String)>)) -> Option<Story> {
    let mut r = Rng::stream(seed, 2201, i);
    let n = r.range(2, 5);
    let pages = generate::chain(&mut r, n, corpus, i).docs;
    let mount = *r.pick(&[0, 0, 0, 1, 1, 1, 2, 3]);
    for p in &pages {
        let t = StrTendril::from(p.as_str());
        let d = parse(&t);
        d.body()?;
        let b = page::body_of(&d);
        // what is left to H12: pages that inner HTML or a mount point cannot take
        if lost_in_opaque_body(&d) || b.opaque() || (mount != 0 && !b.attrs.is_empty()) {
            return None;
        }
    }
    let turns = |r: &mut Rng| *r.pick(&[0, 0, 1, 1, 2, 3, 7]);
    // runs of failures long enough to reach the longest delay
    let bad_net = r.chance(1, 3);
    let sessions = (0..r.range(1, if bad_net { 16 } else { 7 }))
        .map(|_| Session {
            connect: (turns(&mut r), !r.chance(if bad_net { 3 } else { 1 }, 5)),
            accept: (turns(&mut r), !r.chance(1, 8)),
            subscribe: (if r.chance(1, 10) { None } else { Some(turns(&mut r)) }, !r.chance(1, 8)),
            early: r.chance(1, 3),
            steps: (0..r.below(6))
                .map(|_| match r.below(12) {
                    0..=6 => Step::Page(r.below(pages.len())),
                    7 => Step::Head(r.below(pages.len()), r.below(3) as u32),
                    8 => Step::Garbage(r.below(4) as u32),
                    9 => Step::Reload,
                    _ => Step::Wait(turns(&mut r)),
                })
                .collect(),
            end_ok: r.chance(2, 3),
            missed: r.chance(1, 4).then(|| r.below(pages.len())),
        })
        .collect();
    let location = match r.below(10) {
        0 => vec![],
        _ => vec![
            r.pick(&["/", "/a", "/a/b/", "/é", "/a%20b", "/index.html", ""]).to_string(),
            r.pick(&["", "?q=1"]).to_string(),
            r.pick(&["", "#top"]).to_string(),
        ],
    };
    Some(Story { pages, mount, url: r.pick(&["ws://localhost:3000/_lr", "wss://x/é?a=1&b=2", "ws://[::1]/", ""]).to_string(), location, strict: r.chance(1, 2), sessions, seed: r.next() })
}
fn follow(c: &Story, acc: &mut Acc) -> Vec<Bad> {
    dom::set_html(page::inner_parser, page::inner_serializer);
    dom::set_listener(Some(page::hear_and_obey));
    dom::set_strict_names(c.strict);
    dom::KEEP_LOGS.set(true);
    dom::LOG_LINES.take();
    dom::RELOADS.set(0);
    dom::LOCATION.set(c.location.clone());
    let count = Rc::new(RefCell::new(vec![]));
    let mut w = World {
        c: c.clone(),
        wrong: None,
        phase: Phase::Ready,
        next_delay: 100,
        at: 0,
        steps: VecDeque::new(),
        subscribed: false,
        answered: false,
        granted: false,
        expect: Expect::Nothing,
        shown_page: 0,
        page: None,
        server: LiveReloadServer::new(),
        version: 0,
        head: 0,
        reloads: 0,
        logs: 0,
        over: false,
        log: vec![],
        count: count.clone(),
    };
    let route = w.route();
    w.server.cache_html(&route, &c.pages[0]);
    w.server.cache_head_injections(&route, "<link rel=x0>");
    w.show(0);
    // any way the parts of the client may take turns
    let mut r = Rng::new(c.seed);
    let result: RefCell<Option<Result<(), JsValue>>> = RefCell::new(None);
    // the world tells what it saw through a shared cell
    let seen = Rc::new(RefCell::new(None));
    let shared = Shared { w: Some(w), seen: seen.clone() };
    let (how, o) = world::run(Box::new(shared), || *result.borrow_mut() = Some(start_live_reload(&c.url, MOUNTS[c.mount])), |n| r.below(n), 50_000);
    drop(o);
    dom::set_document(None);
    let w: World = seen.take().expect("the world is given back");
    if let Some(Err(e)) = result.take() {
        return bad("start", format!("start_live_reload failed: {e:?}"));
    }
    if let Some((sig, m)) = w.wrong {
        return bad(sig, m);
    }
    let tail = w.log[w.log.len().saturating_sub(12)..].join(", ");
    match how {
        Outcome::Over => {}
        Outcome::Stuck => return bad("stuck", format!("the client neither goes on nor reconnects while it is {:?}; so far: {tail}", w.phase)),
        Outcome::Finished => return bad("finished", format!("the client has stopped following its page; so far: {tail}")),
        Outcome::Long => return bad("long", format!("the client runs on without getting anywhere; so far: {tail}")),
    }
    for k in count.take() {
        acc.add(k, 1);
    }
    acc.add("log lines", w.logs as u64);
    acc.add("virtual milliseconds", world::now() as u64);
    acc.max("sessions in one history", c.sessions.len() as u64);
    acc.seen(&w.log.join("|"));
    acc.sample(|| w.log.join(", "));
    vec![]
}
/// Gives the world back when the run is over.
struct Shared {
    w: Option<World>,
    seen: Rc<RefCell<Option<World>>>,
}
impl Drop for Shared {
    fn drop(&mut self) {
        self.seen.replace(self.w.take());
    }
}
impl Outside for Shared {
    fn connect(&mut self, url: &str) -> Answer {
        self.w.as_mut().unwrap().connect(url)
    }
    fn accept(&mut self) -> Answer {
        self.w.as_mut().unwrap().accept()
    }
    fn call(&mut self, method: &'static str, args: Vec<Box<dyn Any>>) -> Answer {
        self.w.as_mut().unwrap().call(method, args)
    }
    fn answered(&mut self, ok: bool) {
        self.w.as_mut().unwrap().answered(ok)
    }
    fn next(&mut self) -> Next {
        self.w.as_mut().unwrap().next()
    }
    fn handled(&mut self) {
        self.w.as_mut().unwrap().handled()
    }
    fn ended(&mut self, let_go: bool) {
        self.w.as_mut().unwrap().ended(let_go)
    }
    fn sleep(&mut self, ms: u128) {
        self.w.as_mut().unwrap().sleep(ms)
    }
    fn over(&self) -> bool {
        self.w.as_ref().unwrap().over()
    }
}
pub fn h22(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases("connection histories", cx.scale(40_000, 1_000_000), |i| make(cx.seed, i, &corpus), follow);
    cx.finish(
        "a distinct sequence of connections, subscriptions, events and delays",
        &[
            ("attempts that fail", 5_000),
            ("handshakes that fail", 1_000),
            ("subscriptions", 10_000),
            ("connections that worked and ended", 5_000),
            ("connections that ended before a subscription", 1_000),
            ("updates applied", 5_000),
            ("reloads", 2_000),
            ("events that cannot be obeyed", 1_000),
            ("pages compared", 5_000),
            ("delays of 5 seconds", 100),
            ("delays of 100 ms", 5_000),
            ("delays between", 1_000),
        ],
    )
}
