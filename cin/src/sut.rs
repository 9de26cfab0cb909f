//! Driving the real cinereus code. Everything it returns is translated from NodeIds into indices
//! of the flat specification trees at the API boundary.

use crate::rng::Rng;
use crate::spec::*;
use cinereus::indextree::{Arena, NodeId};
use cinereus::{
    DiffTree, EditOp, Matching, MatchingConfig, NodeData, NodeHash, PropValue, Properties,
    PropertyInFinalState, SimpleTypes, Tree, compute_matching, diff_trees, diff_trees_with_matching,
    generate_edit_script,
};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MProps(pub Vec<(u8, u16)>);

impl Properties for MProps {
    type Key = u8;
    type Value = u16;
    fn similarity(&self, other: &Self) -> f64 {
        prop_similarity(&self.0, &other.0)
    }
    fn diff(&self, other: &Self) -> Vec<PropertyInFinalState<u8, u16>> {
        other
            .0
            .iter()
            .map(|&(k, v)| PropertyInFinalState {
                key: k,
                value: match self.0.iter().find(|x| x.0 == k) {
                    Some(&(_, w)) if w == v => PropValue::Same,
                    _ => PropValue::Different(v),
                },
            })
            .collect()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}

pub type TT = SimpleTypes<Kind, MProps, String>;
pub type RTree = Tree<TT>;

/// How a Tree is laid out in its arena.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Layout {
    Preorder,
    Bfs,
    RandomOrder,
    /// garbage nodes before, between and removed again: gaps, reused slots, shifted indices
    Holes,
    /// root allocated last
    RootLast,
}
pub const LAYOUTS: [Layout; 5] =
    [Layout::Preorder, Layout::Bfs, Layout::RandomOrder, Layout::Holes, Layout::RootLast];

pub fn node_data(f: &FNode) -> NodeData<TT> {
    NodeData::new(NodeHash(f.hash), f.kind, MProps(f.props.clone()), f.text.clone())
}

pub struct Built {
    pub tree: RTree,
    pub ids: Vec<NodeId>,
}

pub fn build(f: &Flat, layout: Layout, r: &mut Rng) -> Built {
    let order: Vec<usize> = match layout {
        Layout::Preorder | Layout::Holes | Layout::RootLast => (0..f.len()).collect(),
        Layout::Bfs => f.bfs(),
        Layout::RandomOrder => {
            // random linear extension of (parent before child, earlier sibling before later)
            let mut out = vec![0];
            let mut next_child = vec![0usize; f.len()];
            let mut open: Vec<usize> = if f.n[0].children.is_empty() { vec![] } else { vec![0] };
            while !open.is_empty() {
                let k = r.below(open.len());
                let p = open[k];
                let c = f.n[p].children[next_child[p]];
                next_child[p] += 1;
                if next_child[p] == f.n[p].children.len() {
                    open.swap_remove(k);
                }
                out.push(c);
                if !f.n[c].children.is_empty() {
                    open.push(c);
                }
            }
            out
        }
    };
    let junk = || NodeData::<TT>::new(NodeHash(0xdead), Kind(99), MProps(vec![]), None);
    match layout {
        Layout::RootLast => {
            let mut arena: Arena<NodeData<TT>> = Arena::new();
            let mut ids: Vec<Option<NodeId>> = vec![None; f.len()];
            for i in (0..f.len()).rev() {
                let id = arena.new_node(node_data(&f.n[i]));
                for &c in &f.n[i].children {
                    id.append(ids[c].unwrap(), &mut arena);
                }
                ids[i] = Some(id);
            }
            let ids: Vec<NodeId> = ids.into_iter().map(|x| x.unwrap()).collect();
            Built { tree: Tree { arena, root: ids[0] }, ids }
        }
        Layout::Holes => {
            let mut arena: Arena<NodeData<TT>> = Arena::new();
            let pre: Vec<NodeId> = (0..r.range(1, 9)).map(|_| arena.new_node(junk())).collect();
            let root = arena.new_node(node_data(&f.n[0]));
            let mut tree = Tree { arena, root };
            for g in pre {
                if r.chance(2, 3) {
                    g.remove(&mut tree.arena);
                }
            }
            let mut ids = vec![root];
            for &i in order.iter().skip(1) {
                if r.chance(1, 3) {
                    // a junk child which is removed again leaves a reusable slot
                    let p = ids[r.below(ids.len())];
                    let g = tree.add_child(p, junk());
                    if r.chance(1, 2) {
                        g.remove_subtree(&mut tree.arena);
                    } else {
                        g.remove(&mut tree.arena);
                    }
                }
                let p = ids[f.n[i].parent.unwrap()];
                ids.push(tree.add_child(p, node_data(&f.n[i])));
            }
            Built { tree, ids }
        }
        _ => {
            let mut tree = Tree::new(node_data(&f.n[0]));
            let mut ids: Vec<Option<NodeId>> = vec![None; f.len()];
            ids[0] = Some(tree.root);
            for &i in order.iter().skip(1) {
                let p = ids[f.n[i].parent.unwrap()].unwrap();
                ids[i] = Some(tree.add_child(p, node_data(&f.n[i])));
            }
            Built { tree, ids: ids.into_iter().map(|x| x.unwrap()).collect() }
        }
    }
}

/// The repository's Tree plus opaque marks (the way its own tests do it).
pub struct OTree {
    pub inner: RTree,
    pub opaque: std::collections::HashSet<NodeId>,
}
impl DiffTree for OTree {
    type Types = TT;
    fn root(&self) -> NodeId {
        DiffTree::root(&self.inner)
    }
    fn node_count(&self) -> usize {
        DiffTree::node_count(&self.inner)
    }
    fn hash(&self, id: NodeId) -> NodeHash {
        DiffTree::hash(&self.inner, id)
    }
    fn kind(&self, id: NodeId) -> &Kind {
        DiffTree::kind(&self.inner, id)
    }
    fn properties(&self, id: NodeId) -> &MProps {
        DiffTree::properties(&self.inner, id)
    }
    fn text(&self, id: NodeId) -> Option<&String> {
        DiffTree::text(&self.inner, id)
    }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        DiffTree::parent(&self.inner, id)
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::children(&self.inner, id)
    }
    fn child_count(&self, id: NodeId) -> usize {
        DiffTree::child_count(&self.inner, id)
    }
    fn position(&self, id: NodeId) -> usize {
        DiffTree::position(&self.inner, id)
    }
    fn height(&self, id: NodeId) -> usize {
        DiffTree::height(&self.inner, id)
    }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::iter(&self.inner)
    }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::post_order(&self.inner)
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::descendants(&self.inner, id)
    }
    fn is_opaque(&self, id: NodeId) -> bool {
        self.opaque.contains(&id)
    }
}

pub struct BuiltO {
    pub tree: OTree,
    pub ids: Vec<NodeId>,
}
pub fn build_o(f: &Flat, layout: Layout, r: &mut Rng) -> BuiltO {
    let b = build(f, layout, r);
    let opaque = (0..f.len()).filter(|&i| f.n[i].opaque).map(|i| b.ids[i]).collect();
    BuiltO { tree: OTree { inner: b.tree, opaque }, ids: b.ids }
}

/// An independent DiffTree over the flat table. It only implements the required methods (the
/// trait's default child_count and position run on top of it), counts every access, and refuses
/// identifiers that are not its own or when the step budget is exhausted.
pub struct VTree {
    pub f: Flat,
    kinds_props: Vec<(Kind, MProps, Option<String>)>,
    pub ids: Vec<NodeId>,
    back: HashMap<NodeId, usize>,
    pub steps: AtomicU64,
    pub budget: u64,
    pub bfs_iter: bool,
    name: &'static str,
    order_iter: Vec<usize>,
    order_post: Vec<usize>,
}

pub struct MonitorStop(pub String);

impl VTree {
    /// `salt` shifts the identifier range so that the two trees of a pair never share ids.
    pub fn new(f: &Flat, name: &'static str, salt: usize, perm: bool, budget: u64, r: &mut Rng) -> VTree {
        let mut arena: Arena<()> = Arena::new();
        for _ in 0..salt {
            arena.new_node(());
        }
        let mut ids: Vec<NodeId> = (0..f.len()).map(|_| arena.new_node(())).collect();
        if perm {
            r.shuffle(&mut ids);
        }
        let back = ids.iter().enumerate().map(|(i, &x)| (x, i)).collect();
        VTree {
            kinds_props: f.n.iter().map(|n| (n.kind, MProps(n.props.clone()), n.text.clone())).collect(),
            order_iter: (0..f.len()).collect(),
            order_post: f.postorder(),
            f: f.clone(),
            ids,
            back,
            steps: AtomicU64::new(0),
            budget,
            bfs_iter: false,
            name,
        }
    }
    pub fn with_bfs(mut self) -> Self {
        self.bfs_iter = true;
        self.order_iter = self.f.bfs();
        self
    }
    fn tick(&self) {
        let s = self.steps.fetch_add(1, Ordering::Relaxed);
        if s >= self.budget {
            std::panic::panic_any(MonitorStop(format!(
                "step budget of {} accesses exhausted on tree {}",
                self.budget, self.name
            )));
        }
    }
    fn ix(&self, id: NodeId, what: &str) -> usize {
        self.tick();
        match self.back.get(&id) {
            Some(&i) => i,
            None => std::panic::panic_any(MonitorStop(format!(
                "foreign node id {} passed to {} of tree {}",
                usize::from(id),
                what,
                self.name
            ))),
        }
    }
}
impl DiffTree for VTree {
    type Types = TT;
    fn root(&self) -> NodeId {
        self.tick();
        self.ids[0]
    }
    fn node_count(&self) -> usize {
        self.f.len()
    }
    fn hash(&self, id: NodeId) -> NodeHash {
        NodeHash(self.f.n[self.ix(id, "hash")].hash)
    }
    fn kind(&self, id: NodeId) -> &Kind {
        &self.kinds_props[self.ix(id, "kind")].0
    }
    fn properties(&self, id: NodeId) -> &MProps {
        &self.kinds_props[self.ix(id, "properties")].1
    }
    fn text(&self, id: NodeId) -> Option<&String> {
        self.kinds_props[self.ix(id, "text")].2.as_ref()
    }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        self.f.n[self.ix(id, "parent")].parent.map(|p| self.ids[p])
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        let i = self.ix(id, "children");
        self.f.n[i].children.iter().map(|&c| {
            self.tick();
            self.ids[c]
        })
    }
    fn height(&self, id: NodeId) -> usize {
        self.f.n[self.ix(id, "height")].height
    }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
        self.order_iter.iter().map(|&c| {
            self.tick();
            self.ids[c]
        })
    }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        self.order_post.iter().map(|&c| {
            self.tick();
            self.ids[c]
        })
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        let i = self.ix(id, "descendants");
        (i..i + self.f.n[i].size).map(|c| {
            self.tick();
            self.ids[c]
        })
    }
    fn is_opaque(&self, id: NodeId) -> bool {
        self.f.n[self.ix(id, "is_opaque")].opaque
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Upd { a: usize, b: usize, changes: Vec<(u8, Option<u16>)> },
    Txt { a: usize, b: usize, text: String },
    Ins { b: usize, parent: usize, pos: usize, kind: Kind },
    Mov { a: usize, b: usize, parent: usize, pos: usize },
    Del { a: usize },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
    /// pairs in the order the matching yields them
    pub pairs: Vec<(usize, usize)>,
    pub ops: Vec<Op>,
    /// inconsistencies of the Matching's own accessors
    pub api: Vec<String>,
    /// ids that belong to neither tree
    pub foreign: Vec<String>,
}

struct Conv<'a> {
    ia: &'a HashMap<NodeId, usize>,
    ib: &'a HashMap<NodeId, usize>,
    foreign: Vec<String>,
}
impl Conv<'_> {
    fn a(&mut self, id: NodeId, w: &str) -> usize {
        self.ia.get(&id).copied().unwrap_or_else(|| {
            self.foreign.push(format!("{w}: id {} is not a node of the old tree", usize::from(id)));
            usize::MAX
        })
    }
    fn b(&mut self, id: NodeId, w: &str) -> usize {
        self.ib.get(&id).copied().unwrap_or_else(|| {
            self.foreign.push(format!("{w}: id {} is not a node of the new tree", usize::from(id)));
            usize::MAX
        })
    }
    fn ops(&mut self, ops: &[EditOp<TT>]) -> Vec<Op> {
        ops.iter()
            .map(|op| match op {
                EditOp::UpdateProperties { node_a, node_b, changes } => Op::Upd {
                    a: self.a(*node_a, "UpdateProperties"),
                    b: self.b(*node_b, "UpdateProperties"),
                    changes: changes
                        .iter()
                        .map(|c| {
                            (
                                c.key,
                                match c.value {
                                    PropValue::Same => None,
                                    PropValue::Different(v) => Some(v),
                                },
                            )
                        })
                        .collect(),
                },
                EditOp::SetText { node_a, node_b, text } => Op::Txt {
                    a: self.a(*node_a, "SetText"),
                    b: self.b(*node_b, "SetText"),
                    text: text.clone(),
                },
                EditOp::Insert { node_b, parent_b, position, kind } => Op::Ins {
                    b: self.b(*node_b, "Insert"),
                    parent: self.b(*parent_b, "Insert parent"),
                    pos: *position,
                    kind: *kind,
                },
                EditOp::Move { node_a, node_b, new_parent_b, new_position } => Op::Mov {
                    a: self.a(*node_a, "Move"),
                    b: self.b(*node_b, "Move"),
                    parent: self.b(*new_parent_b, "Move parent"),
                    pos: *new_position,
                },
                EditOp::Delete { node_a } => Op::Del { a: self.a(*node_a, "Delete") },
            })
            .collect()
    }
}

fn check_matching(
    m: &Matching,
    ids_a: &[NodeId],
    ids_b: &[NodeId],
    pairs: &[(usize, usize)],
) -> Vec<String> {
    let mut v = vec![];
    let mut ab: HashMap<usize, Vec<usize>> = HashMap::new();
    let mut ba: HashMap<usize, Vec<usize>> = HashMap::new();
    for &(a, b) in pairs {
        ab.entry(a).or_default().push(b);
        ba.entry(b).or_default().push(a);
    }
    if m.len() != pairs.len() {
        v.push(format!("len() = {} but {} pairs are listed", m.len(), pairs.len()));
    }
    if m.is_empty() != pairs.is_empty() {
        v.push("is_empty() disagrees with the listed pairs".into());
    }
    for (i, &id) in ids_a.iter().enumerate() {
        let listed = ab.get(&i);
        let got = m.get_b(id);
        if m.contains_a(id) != listed.is_some() {
            v.push(format!("contains_a(a{i}) = {} but listed = {:?}", m.contains_a(id), listed));
        }
        let want = listed.and_then(|l| l.last()).map(|&b| ids_b.get(b).copied());
        if got.is_some() != listed.is_some() || (want.is_some() && want.unwrap() != got) {
            v.push(format!("get_b(a{i}) disagrees with the listed pairs {listed:?}"));
        }
    }
    for (i, &id) in ids_b.iter().enumerate() {
        let listed = ba.get(&i);
        let got = m.get_a(id);
        if m.contains_b(id) != listed.is_some() {
            v.push(format!("contains_b(b{i}) = {} but listed = {:?}", m.contains_b(id), listed));
        }
        let want = listed.and_then(|l| l.last()).map(|&a| ids_a.get(a).copied());
        if got.is_some() != listed.is_some() || (want.is_some() && want.unwrap() != got) {
            v.push(format!("get_a(b{i}) disagrees with the listed pairs {listed:?}"));
        }
    }
    v
}

pub fn run_generic<TA, TB>(ta: &TA, ida: &[NodeId], tb: &TB, idb: &[NodeId], cfg: &MatchingConfig) -> Outcome
where
    TA: DiffTree<Types = TT>,
    TB: DiffTree<Types = TT>,
{
    let m = compute_matching(ta, tb, cfg);
    let ops = generate_edit_script(ta, tb, &m);
    translate(&m, &ops, ida, idb)
}

pub fn translate(m: &Matching, ops: &[EditOp<TT>], ida: &[NodeId], idb: &[NodeId]) -> Outcome {
    let ia: HashMap<NodeId, usize> = ida.iter().enumerate().map(|(i, &x)| (x, i)).collect();
    let ib: HashMap<NodeId, usize> = idb.iter().enumerate().map(|(i, &x)| (x, i)).collect();
    let mut c = Conv { ia: &ia, ib: &ib, foreign: vec![] };
    let pairs: Vec<(usize, usize)> = m.pairs().map(|(a, b)| (c.a(a, "matching"), c.b(b, "matching"))).collect();
    let o = c.ops(ops);
    let api = check_matching(m, ida, idb, &pairs);
    Outcome { pairs, ops: o, api, foreign: c.foreign }
}

/// The public one-call entry points must agree with the two-step pipeline.
pub fn run_entry_points<T: DiffTree<Types = TT>>(
    ta: &T,
    ida: &[NodeId],
    tb: &T,
    idb: &[NodeId],
    cfg: &MatchingConfig,
) -> (Outcome, Vec<Op>) {
    let (ops, m) = diff_trees_with_matching(ta, tb, cfg);
    let o = translate(&m, &ops, ida, idb);
    let ops2 = diff_trees(ta, tb, cfg);
    let o2 = translate(&Matching::new(), &ops2, ida, idb);
    (o, o2.ops)
}

pub fn cfg(threshold: f64, min_height: usize) -> MatchingConfig {
    MatchingConfig { similarity_threshold: threshold, min_height }
}

/// A script for a correspondence of the caller's own. `room` is what the matching is told to expect.
pub fn run_supplied<TA, TB>(ta: &TA, ida: &[NodeId], tb: &TB, idb: &[NodeId], pairs: &[(usize, usize)], room: Option<(usize, usize)>) -> Outcome
where
    TA: DiffTree<Types = TT>,
    TB: DiffTree<Types = TT>,
{
    let mut m = match room {
        Some((a, b)) => Matching::with_capacity(a, b),
        None => Matching::new(),
    };
    let mut wrong = vec![];
    let peek = pairs.len() / 2;
    for (k, &(a, b)) in pairs.iter().enumerate() {
        if k == peek {
            wrong = check_matching(&m, ida, idb, &pairs[..k]);
        }
        m.add(ida[a], idb[b]);
    }
    let before: Vec<_> = m.pairs().collect();
    let ops = generate_edit_script(ta, tb, &m);
    let mut o = translate(&m, &ops, ida, idb);
    o.api.extend(wrong);
    if o.pairs != pairs || before.len() != pairs.len() {
        o.api.push(format!("{} pairs entered, {} listed, or in another order", pairs.len(), o.pairs.len()));
    }
    o
}

/// Standard run: real Tree with opaque marks.
pub fn run_otree(fa: &Flat, fb: &Flat, la: Layout, lb: Layout, c: &MatchingConfig, r: &mut Rng) -> Outcome {
    let a = build_o(fa, la, r);
    let b = build_o(fb, lb, r);
    run_generic(&a.tree, &a.ids, &b.tree, &b.ids, c)
}
