//! H18: the patches of one update keep a ledger: nothing is touched twice, nothing is lost.
use crate::checks::big;
use crate::generate::{self, Docs};
use crate::harness::*;
use crate::rng::Rng;
use crate::snap;
use crate::tree::{Elem, Node};
use hotmeal::{Document, NodeId, NodeKind, Patch, StrTendril, diff, parse};
use std::collections::{HashMap, HashSet};

/// Follows a path by the documented meaning: slot, then child indices.
fn find(d: &Document, slots: &HashMap<u32, NodeId>, path: &[u32]) -> Option<NodeId> {
    let mut n = *slots.get(path.first()?)?;
    for &k in &path[1..] {
        n = d.children(n).nth(k as usize)?;
    }
    Some(n)
}
fn below(d: &Document, n: NodeId, out: &mut Vec<NodeId>) {
    out.push(n);
    for c in d.children(n) {
        below(d, c, out);
    }
}
fn blank(d: &Document, n: NodeId) -> bool {
    matches!(&d.get(n).kind, NodeKind::Text(t) if t.is_empty())
}
/// What happened so far to one node.
#[derive(Default)]
struct Entry {
    moved: u32,
    retexted: u32,
    updated: u32,
    announced: u32,
}
impl Entry {
    fn touched(&self) -> bool {
        self.moved + self.retexted + self.updated + self.announced > 0
    }
}
fn attrs(d: &Document, n: NodeId) -> Vec<crate::tree::Attr> {
    match &d.get(n).kind {
        NodeKind::Element(e) => e.attrs.iter().map(|(k, v)| snap::attr(k, v.as_ref())).collect(),
        _ => vec![],
    }
}
fn name(d: &Document, n: NodeId) -> String {
    match &d.get(n).kind {
        NodeKind::Element(e) => format!("<{}>", e.tag),
        k => format!("{k:?}").chars().take(60).collect(),
    }
}
fn ledger(c: &Docs, acc: &mut Acc) -> Vec<Bad> {
    if c.docs.len() < 2 {
        return vec![];
    }
    let (a, b) = (StrTendril::from(c.docs[0].as_str()), StrTendril::from(c.docs[1].as_str()));
    enter(&parse(&a), &parse(&b), &format!("{}\u{0}{}", c.docs[0], c.docs[1]), acc)
}
/// Enters every patch between two documents without empty texts in the ledger.
pub fn enter(old: &Document, new: &Document, key: &str, acc: &mut Acc) -> Vec<Bad> {
    if old.body().is_none() || new.body().is_none() {
        acc.add("pairs where a page has no body", 1);
        return vec![];
    }
    let patches = match diff(old, new) {
        Ok(p) => p,
        Err(e) => return bad("diff-error", format!("diff failed: {e:?}")),
    };
    let shown: String = format!("{patches:?}").chars().take(3000).collect();
    let mut d = old.clone();
    let mut slots = d.init_patch_slots();
    let root = slots[&0];
    let mut before = vec![];
    below(&d, root, &mut before);
    let old_set: HashSet<NodeId> = before.iter().copied().collect();
    let mut known = old_set.clone();
    let mut fresh: HashSet<NodeId> = HashSet::new();
    let mut gone: HashSet<NodeId> = HashSet::new();
    let mut book: HashMap<NodeId, Entry> = HashMap::new();
    let mut used: HashSet<u32> = HashSet::new();
    let mut single: HashSet<(NodeId, String)> = HashSet::new();
    for (k, p) in patches.iter().enumerate() {
        macro_rules! no {
            ($s:expr, $($t:tt)*) => { return bad($s, format!("patch {k} ({:?}): {}; patches {shown}", patches[k], format!($($t)*))) };
        }
        // the node it is about
        let target = match p {
            Patch::SetText { path, .. }
            | Patch::UpdateProps { path, .. }
            | Patch::SetAttribute { path, .. }
            | Patch::RemoveAttribute { path, .. }
            | Patch::OpaqueChanged { path, .. } => Some(&path.0),
            Patch::Move { from, .. } => Some(&from.0.0),
            Patch::Remove { node } => Some(&node.0.0),
            _ => None,
        };
        let mut n = None;
        if let Some(path) = target {
            let Some(x) = find(&d, &slots, path) else { no!("nowhere", "there is no such node") };
            if fresh.contains(&x) {
                no!("inserted", "{} was inserted by an earlier patch", name(&d, x))
            }
            if !old_set.contains(&x) {
                no!("leftover", "{} is what an earlier patch left behind", name(&d, x))
            }
            if gone.contains(&x) {
                no!("removed", "{} is gone", name(&d, x))
            }
            n = Some(x);
        }
        let had = n.map(|n| attrs(&d, n)).unwrap_or_default();
        let mut takes = vec![];
        if let Some(n) = n {
            let e = book.entry(n).or_default();
            match p {
                Patch::SetText { text, .. } => {
                    e.retexted += 1;
                    if let NodeKind::Text(t) | NodeKind::Comment(t) = &d.get(n).kind
                        && t == text
                    {
                        no!("idle", "the text is that already")
                    }
                }
                Patch::UpdateProps { .. } => e.updated += 1,
                Patch::SetAttribute { name, .. } | Patch::RemoveAttribute { name, .. } => {
                    if !single.insert((n, format!("{name:?}"))) {
                        no!("twice", "this attribute was changed before")
                    }
                }
                Patch::Move { from, to, .. } => {
                    e.moved += 1;
                    if from == to {
                        no!("idle", "moved to where it is")
                    }
                }
                Patch::OpaqueChanged { .. } => {
                    e.announced += 1;
                    below(&d, n, &mut takes);
                    takes.remove(0);
                }
                _ => below(&d, n, &mut takes),
            }
            let e = &book[&n];
            if e.moved > 1 || e.retexted > 1 || e.updated > 1 || e.announced > 1 {
                no!("twice", "{} has been through that before", name(&d, n))
            }
        }
        for x in takes {
            if fresh.contains(&x) {
                no!("takes-new", "takes {} with it, which an earlier patch inserted", name(&d, x))
            }
            if book.get(&x).is_some_and(|e| e.touched()) {
                no!("takes-touched", "takes {} with it, which an earlier patch changed or moved", name(&d, x))
            }
            if old_set.contains(&x) {
                gone.insert(x);
            }
        }
        let place = match p {
            Patch::InsertElement { at, detach_to_slot, .. } | Patch::InsertText { at, detach_to_slot, .. } | Patch::InsertComment { at, detach_to_slot, .. } => Some((at, detach_to_slot, true)),
            Patch::Move { to, detach_to_slot, .. } => Some((to, detach_to_slot, false)),
            _ => None,
        };
        if let Some((_, Some(s), _)) = place
            && (*s == 0 || !used.insert(*s))
        {
            no!("slot", "slot {s} is in use")
        }
        if let Err(e) = d.apply_patch_with_slots(p.clone(), &mut slots) {
            no!("apply-error", "refused: {e:?}")
        }
        if let Some((at, _, new)) = place {
            let Some(x) = find(&d, &slots, &at.0.0) else { no!("nowhere", "nothing is there afterwards") };
            if new {
                let mut v = vec![];
                below(&d, x, &mut v);
                for x in v {
                    if known.insert(x) {
                        fresh.insert(x);
                    }
                }
            } else if Some(x) != n {
                no!("nowhere", "the moved node is not there afterwards")
            }
        }
        if let (Patch::UpdateProps { .. } | Patch::SetAttribute { .. } | Patch::RemoveAttribute { .. }, Some(n)) = (p, n)
            && attrs(&d, n) == had
        {
            no!("idle", "the attributes are those already")
        }
        acc.add("patches", 1);
        if place.is_some_and(|p| p.1.is_some()) {
            acc.add("displaced nodes", 1);
        }
    }
    let mut after = vec![];
    below(&d, root, &mut after);
    let there: HashSet<NodeId> = after.iter().copied().collect();
    if let Some(n) = fresh.iter().find(|n| !there.contains(n)) {
        return bad("lost", format!("{} was inserted and is not on the page; patches {shown}", name(&d, *n)));
    }
    if let Some(n) = before.iter().find(|n| there.contains(n) == gone.contains(n)) {
        return bad("lost", format!("{} is {} the page, but no patch removed it or one did; patches {shown}", name(&d, *n), if there.contains(n) { "on" } else { "missing from" }));
    }
    acc.add("nodes inserted", fresh.len() as u64);
    acc.add("nodes removed", gone.len() as u64);
    acc.add("nodes that stayed", (before.len() - gone.len()) as u64);
    for (n, e) in &book {
        let place = |d: &Document| d.parent(*n).map(|p| (p, d.children(p).position(|c| c == *n)));
        if e.moved > 0 {
            acc.add("nodes moved", 1);
            if place(old) == place(&d) {
                return bad("idle", format!("{} was moved and is where it was; patches {shown}", name(&d, *n)));
            }
        }
    }
    if !patches.is_empty() {
        acc.seen(key);
        acc.sample(|| shown.chars().take(300).collect());
    }
    kept(old, &before, &d, root, new, acc).unwrap_or_else(|m| bad("rebuilt", format!("{m}; patches {shown}")))
}
/// What both pages show exactly once, under the same kinds of elements, is still made of the nodes it was.
fn kept(old: &Document, before: &[NodeId], d: &Document, root: NodeId, new: &Document, acc: &mut Acc) -> Result<Vec<Bad>, String> {
    let (ob, nb) = (snap::body(old).unwrap(), snap::body(new).unwrap());
    let mut book = Book::default();
    let (os, ns) = (side(&ob, &mut book), side(&nb, &mut book));
    let mut order = vec![];
    if !pair(d, root, new, new.body().unwrap(), &mut order) {
        return Err("the patched page is not the new one".into());
    }
    let at: HashMap<usize, NodeId> = order.into_iter().collect();
    for (key, &o) in &os.one {
        let Some(&n) = ns.one.get(key) else { continue };
        if !os.whole[o] || !ns.whole[n] {
            acc.add("recurring subtrees passed over", 1);
            continue;
        }
        // the way down to it: the same kinds of elements, none of which is found, whole, on the other page
        let (oc, nc) = (os.up(o), ns.up(n));
        let ok = oc.len() == nc.len()
            && oc.iter().zip(&nc).all(|(&x, &y)| os.label[x] == ns.label[y] && (x == 0 || (!ns.has.contains(&os.key[x]) && !os.has.contains(&ns.key[y]))));
        if !ok {
            acc.add("subtrees with other ancestors passed over", 1);
            continue;
        }
        for q in 0..os.size[o] {
            if at.get(&(n + q)) != Some(&before[o + q]) {
                return Err(format!(
                    "{} (node {o} of the old page, {n} of the new) is on both pages once, under the same kinds of elements, but node {q} of it is not the node it was",
                    os.label[o]
                ));
            }
        }
        acc.add("subtrees that kept their nodes", 1);
        acc.add("nodes kept in them", os.size[o] as u64);
    }
    Ok(vec![])
}
/// A subtree's number: equal for equal subtrees, attributes aside.
type Key = usize;
#[derive(Default)]
struct Book(HashMap<(String, Vec<Key>), Key>);
/// One page's nodes in document order.
#[derive(Default)]
struct Side {
    label: Vec<String>,
    key: Vec<Key>,
    size: Vec<usize>,
    parent: Vec<usize>,
    /// Nothing in the subtree is found twice, nothing in it is opaque, and it is not inside anything opaque.
    whole: Vec<bool>,
    has: HashSet<Key>,
    /// Where the subtrees are that are found only once.
    one: HashMap<Key, usize>,
}
impl Side {
    fn up(&self, mut n: usize) -> Vec<usize> {
        let mut v = vec![];
        while n != 0 {
            n = self.parent[n];
            v.push(n);
        }
        v
    }
    fn add(&mut self, n: &Node, parent: usize, hidden: bool, book: &mut Book) {
        let me = self.key.len();
        self.key.push(0);
        self.label.push(String::new());
        self.size.push(1);
        self.parent.push(parent);
        self.whole.push(!hidden);
        let mut kids = vec![];
        let label = match n {
            Node::Elem(e) => {
                let op = e.opaque();
                self.whole[me] &= !op;
                for c in &e.children {
                    let k = self.key.len();
                    self.add(c, me, hidden || op, book);
                    kids.push(self.key[k]);
                    self.size[me] += self.size[k];
                    self.whole[me] &= self.whole[k];
                }
                format!("{:?} {}{}", e.ns, e.tag, if op { " opaque" } else { "" })
            }
            Node::Text(t) => format!("text {t}"),
            Node::Comment(t) => format!("comment {t}"),
            Node::Doctype(..) => "doctype".into(),
        };
        let next = book.0.len();
        self.key[me] = *book.0.entry((label.clone(), kids)).or_insert(next);
        self.label[me] = label;
    }
}
fn side(b: &Elem, book: &mut Book) -> Side {
    let mut s = Side::default();
    s.add(&Node::Elem(b.clone()), 0, false, book);
    let mut count: HashMap<Key, usize> = HashMap::new();
    for k in &s.key {
        *count.entry(*k).or_default() += 1;
    }
    for n in 0..s.key.len() {
        if count[&s.key[n]] > 1 {
            s.whole[n] = false;
            for m in s.up(n) {
                s.whole[m] = false;
            }
        }
    }
    s.has = s.key.iter().copied().collect();
    s.one = (1..s.key.len()).filter(|&n| count[&s.key[n]] == 1).map(|n| (s.key[n], n)).collect();
    s
}
/// Walks the patched page beside the new one, past what patches leave behind and past the insides of
/// opaque elements, and notes which node shows the new page's k-th one.
fn pair(d: &Document, n: NodeId, new: &Document, m: NodeId, out: &mut Vec<(usize, NodeId)>) -> bool {
    fn count(new: &Document, m: NodeId) -> usize {
        1 + new.children(m).map(|c| count(new, c)).sum::<usize>()
    }
    fn go(d: &Document, n: NodeId, new: &Document, m: NodeId, k: &mut usize, out: &mut Vec<(usize, NodeId)>) -> bool {
        out.push((*k, n));
        *k += 1;
        let opaque = snap_opaque(new, m);
        if opaque {
            *k += count(new, m) - 1;
            return true;
        }
        let a: Vec<NodeId> = d.children(n).filter(|x| !blank(d, *x)).collect();
        let b: Vec<NodeId> = new.children(m).collect();
        a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| go(d, *x, new, *y, k, out))
    }
    go(d, n, new, m, &mut 0, out)
}
fn snap_opaque(d: &Document, n: NodeId) -> bool {
    matches!(&d.get(n).kind, NodeKind::Element(e) if e.attrs.iter().any(|(k, _)| k.local.as_ref() as &str == "data-hotmeal-opaque"))
}
/// Pages of parts of their own, rearranged: much has to be kept.
fn rearranged(r: &mut Rng) -> Docs {
    let st = *r.pick(&[generate::PLAIN, generate::RICH, generate::OPAQUE]);
    let size = r.range(5, 40);
    let mut b = generate::body(r, st, size);
    // give every text something of its own
    fn own(e: &mut Elem, k: &mut usize) {
        for c in &mut e.children {
            match c {
                Node::Text(t) => {
                    *k += 1;
                    t.push_str(&format!(" {k}"));
                }
                Node::Elem(e) => own(e, k),
                _ => {}
            }
        }
    }
    own(&mut b, &mut 0);
    let mut docs = vec![generate::page(&b, 0)];
    for _ in 0..r.range(1, 6) {
        if r.chance(1, 2) && b.children.len() > 1 {
            let (x, y) = (r.below(b.children.len()), r.below(b.children.len()));
            b.children.swap(x, y);
        } else {
            generate::edit(r, &mut b, st);
        }
    }
    docs.push(generate::page(&b, 0));
    Docs { docs, opt: 0, how: "page of distinct parts, rearranged", min: 2 }
}
pub fn h18(cx: &Ctx) -> i32 {
    let corpus = generate::corpus();
    cx.cases(
        "pairs of documents",
        cx.scale(45_000, 3_000_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 1801, i);
            Some(if i % 4 == 3 { rearranged(&mut r) } else { generate::chain(&mut r, 2, &corpus, i) })
        },
        ledger,
    );
    cx.cases(
        "large pairs",
        cx.scale(160, 8_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 1802, i);
            Some(big(&mut r, &corpus, i))
        },
        ledger,
    );
    cx.finish(
        "a distinct pair of pages with a non-empty patch list whose every patch was entered in the ledger",
        &[
            ("patches", 100_000),
            ("displaced nodes", 5_000),
            ("nodes inserted", 50_000),
            ("nodes removed", 50_000),
            ("nodes moved", 20_000),
            ("subtrees that kept their nodes", 30_000),
            ("nodes kept in them", 80_000),
            ("large pairs", 100),
        ],
    )
}
