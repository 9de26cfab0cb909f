//! Workload generation: random, mutated, degenerate and exhaustive tree pairs.

use crate::rng::Rng;
use crate::spec::*;

#[derive(Clone, Debug)]
pub struct Params {
    pub kinds: usize,      // element kinds
    pub rich: bool,        // allow kinds with text and children
    pub texts: usize,      // text alphabet
    pub max_nodes: usize,
    pub max_kids: usize,
    pub props: usize,      // number of property keys (0 = none)
    pub vals: usize,
    pub opaque_pct: usize, // percent of elements that are opaque
}

pub fn random_params(r: &mut Rng, opaque: bool) -> Params {
    Params {
        kinds: *r.pick(&[1, 1, 2, 2, 3, 6]),
        rich: r.chance(1, 6),
        texts: *r.pick(&[1, 2, 3, 8, 100_000]),
        max_nodes: *r.pick(&[3, 6, 10, 16, 24, 40, 70]),
        max_kids: *r.pick(&[1, 2, 3, 4, 8, 20]),
        props: *r.pick(&[0, 0, 1, 2, 4]),
        vals: *r.pick(&[1, 2, 5]),
        opaque_pct: if opaque { *r.pick(&[5, 15, 30]) } else { 0 },
    }
}

fn rand_props(r: &mut Rng, p: &Params) -> Vec<(u8, u16)> {
    let mut v = vec![];
    for k in 0..p.props {
        if r.chance(1, 2) {
            v.push((k as u8, r.below(p.vals) as u16));
        }
    }
    if v.len() > 1 && r.chance(1, 4) {
        r.shuffle(&mut v);
    }
    v
}

pub fn rand_leaf(r: &mut Rng, p: &Params) -> SNode {
    if r.chance(1, 2) {
        let mut n = SNode::txt(if r.chance(1, 6) { 201 } else { 200 }, r.below(p.texts) as u32);
        if p.props > 0 && r.chance(1, 12) {
            n.props = rand_props(r, p);
        }
        n
    } else {
        rand_el(r, p, vec![])
    }
}

pub fn rand_el(r: &mut Rng, p: &Params, children: Vec<SNode>) -> SNode {
    let mut n = SNode::el(r.below(p.kinds) as u8, children);
    if p.rich && r.chance(1, 4) {
        n.kind = Kind(100 + n.kind.0);
        n.text = Some(r.below(p.texts) as u32);
    }
    n.props = rand_props(r, p);
    n.opaque = p.opaque_pct > 0 && r.chance(p.opaque_pct, 100);
    n
}

fn fill(r: &mut Rng, p: &Params, budget: usize, depth: usize) -> Vec<SNode> {
    if budget == 0 {
        return vec![];
    }
    let k = 1 + r.below(p.max_kids.min(budget));
    let mut left = budget - k;
    let mut out = vec![];
    for i in 0..k {
        let take = if i + 1 == k { left } else { r.below(left + 1) };
        left -= take;
        if take == 0 || depth > 400 {
            out.push(rand_leaf(r, p));
        } else {
            let ch = fill(r, p, take, depth + 1);
            out.push(rand_el(r, p, ch));
        }
    }
    out
}

pub fn rand_tree(r: &mut Rng, p: &Params) -> SNode {
    let n = 1 + r.below(p.max_nodes);
    let ch = fill(r, p, n - 1, 0);
    let mut t = rand_el(r, p, ch);
    t.opaque = false;
    t
}

/// A root with `n` small subtrees below it (or below one of its children).
pub fn wide_tree(r: &mut Rng, p: &Params, n: usize) -> SNode {
    let q = Params { max_nodes: *r.pick(&[1, 3, 5]), ..p.clone() };
    let kids: Vec<SNode> = (0..n).map(|_| if r.chance(1, 4) { rand_leaf(r, p) } else { rand_tree(r, &q) }).collect();
    let t = rand_el(r, p, kids);
    let mut t = if r.chance(1, 3) {
        let l = rand_leaf(r, p);
        rand_el(r, p, vec![l, t])
    } else {
        t
    };
    t.opaque = false;
    t
}

/// All node addresses (paths) in preorder.
pub fn paths(t: &SNode) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut st = vec![(t, vec![])];
    while let Some((n, p)) = st.pop() {
        for (i, c) in n.children.iter().enumerate().rev() {
            let mut q = p.clone();
            q.push(i);
            st.push((c, q));
        }
        out.push(p);
    }
    out
}
pub fn at<'a>(t: &'a SNode, p: &[usize]) -> &'a SNode {
    let mut n = t;
    for &i in p {
        n = &n.children[i];
    }
    n
}
pub fn at_mut<'a>(t: &'a mut SNode, p: &[usize]) -> &'a mut SNode {
    let mut n = t;
    for &i in p {
        n = &mut n.children[i];
    }
    n
}

/// One random edit. Returns its name.
pub fn mutate(r: &mut Rng, p: &Params, t: &mut SNode) -> &'static str {
    let ps = paths(t);
    for _ in 0..8 {
        let path = ps[r.below(ps.len())].clone();
        match r.below(18) {
            0 | 1 => {
                let n = at_mut(t, &path);
                if n.kind.leaf_only() {
                    continue;
                }
                let i = r.below(n.children.len() + 1);
                n.children.insert(i, rand_leaf(r, p));
                return "insert-leaf";
            }
            2 => {
                let sub_p = Params { max_nodes: 8, ..p.clone() };
                let n = at_mut(t, &path);
                if n.kind.leaf_only() {
                    continue;
                }
                let i = r.below(n.children.len() + 1);
                n.children.insert(i, rand_tree(r, &sub_p));
                return "insert-subtree";
            }
            3 | 4 => {
                if path.is_empty() {
                    continue;
                }
                let n = at_mut(t, &path[..path.len() - 1]);
                n.children.remove(*path.last().unwrap());
                return "delete-subtree";
            }
            5 => {
                if path.is_empty() {
                    continue;
                }
                let i = *path.last().unwrap();
                let n = at_mut(t, &path[..path.len() - 1]);
                let mut x = n.children.remove(i);
                let ch = std::mem::take(&mut x.children);
                for (k, c) in ch.into_iter().enumerate() {
                    n.children.insert(i + k, c);
                }
                return "hoist-children";
            }
            6 => {
                if path.is_empty() {
                    continue;
                }
                let i = *path.last().unwrap();
                let n = at_mut(t, &path[..path.len() - 1]);
                let m = 1 + r.below(n.children.len() - i);
                let taken: Vec<SNode> = n.children.splice(i..i + m, []).collect();
                n.children.insert(i, rand_el(r, p, taken));
                return "wrap";
            }
            7 | 8 => {
                // move subtree elsewhere
                if path.is_empty() {
                    continue;
                }
                let i = *path.last().unwrap();
                let x = at_mut(t, &path[..path.len() - 1]).children.remove(i);
                let qs = paths(t);
                let mut dst = qs[r.below(qs.len())].clone();
                while at(t, &dst).kind.leaf_only() {
                    dst.pop();
                }
                let n = at_mut(t, &dst);
                let k = r.below(n.children.len() + 1);
                n.children.insert(k, x);
                return "move-subtree";
            }
            9 => {
                let n = at_mut(t, &path);
                if n.children.len() < 2 {
                    continue;
                }
                let (a, b) = (r.below(n.children.len()), r.below(n.children.len()));
                n.children.swap(a, b);
                return "swap-siblings";
            }
            10 => {
                let n = at_mut(t, &path);
                if n.children.len() < 2 {
                    continue;
                }
                match r.below(3) {
                    0 => n.children.reverse(),
                    1 => n.children.rotate_left(1),
                    _ => r.shuffle(&mut n.children),
                }
                return "permute-siblings";
            }
            11 => {
                // duplicate subtree
                if path.is_empty() {
                    continue;
                }
                let x = at(t, &path).clone();
                if x.size() > 30 {
                    continue;
                }
                let qs = paths(t);
                let mut dst = qs[r.below(qs.len())].clone();
                while at(t, &dst).kind.leaf_only() {
                    dst.pop();
                }
                let n = at_mut(t, &dst);
                let k = r.below(n.children.len() + 1);
                n.children.insert(k, x);
                return "duplicate-subtree";
            }
            12 | 13 => {
                let n = at_mut(t, &path);
                if n.text.is_none() {
                    continue;
                }
                n.text = Some(r.below(p.texts) as u32);
                return "change-text";
            }
            14 => {
                if p.props == 0 {
                    continue;
                }
                let n = at_mut(t, &path);
                n.props = rand_props(r, p);
                return "change-props";
            }
            15 => {
                let n = at_mut(t, &path);
                if n.kind.has_text() || path.is_empty() && !r.chance(1, 4) {
                    continue;
                }
                n.kind = Kind(r.below(p.kinds + 1) as u8);
                return "change-kind";
            }
            16 => {
                let n = at_mut(t, &path);
                if n.children.is_empty() || !r.chance(1, 3) {
                    continue;
                }
                n.children.clear();
                return "empty-node";
            }
            _ => {
                // swap a node with one of its descendants (nesting inversion)
                let x = at(t, &path).clone();
                if x.size() > 40 || path.is_empty() {
                    continue;
                }
                let qs = paths(&x);
                let q = qs[r.below(qs.len())].clone();
                if q.is_empty() {
                    continue;
                }
                let mut outer = x.clone();
                let inner = at_mut(&mut outer, &q[..q.len() - 1]).children.remove(*q.last().unwrap());
                if inner.kind.leaf_only() {
                    continue;
                }
                let mut inner = inner;
                let k = r.below(inner.children.len() + 1);
                inner.children.insert(k, outer);
                *at_mut(t, &path) = inner;
                return "invert-nesting";
            }
        }
    }
    "none"
}

/// Mutation restricted to the inside of opaque nodes / to flag toggles.
pub fn toggle_opaque(r: &mut Rng, t: &mut SNode) -> bool {
    let ps: Vec<_> = paths(t).into_iter().filter(|p| !p.is_empty() && !at(t, p).kind.leaf_only()).collect();
    if ps.is_empty() {
        return false;
    }
    let p = r.pick(&ps).clone();
    let n = at_mut(t, &p);
    n.opaque = !n.opaque;
    true
}

pub fn degenerate(r: &mut Rng, which: usize, n: usize) -> SNode {
    match which % 9 {
        0 => {
            // chain
            let mut t = SNode::el(0, vec![]);
            for _ in 1..n.max(1) {
                t = SNode::el(0, vec![t]);
            }
            t
        }
        1 => SNode::el(0, (0..n).map(|_| SNode::el(0, vec![])).collect()), // star, identical
        2 => SNode::el(0, (0..n).map(|i| SNode::txt(200, i as u32)).collect()), // star, distinct
        3 => {
            // complete binary
            fn b(d: usize) -> SNode {
                if d == 0 { SNode::el(0, vec![]) } else { SNode::el(0, vec![b(d - 1), b(d - 1)]) }
            }
            b((usize::BITS - n.max(1).leading_zeros()) as usize - 1)
        }
        4 => {
            // caterpillar
            let mut t = SNode::el(0, vec![]);
            for i in 0..n / 2 {
                t = SNode::el(0, vec![SNode::txt(200, (i % 3) as u32), t]);
            }
            t
        }
        5 => SNode::el(r.below(2) as u8, vec![]), // single node
        7 => {
            // star whose last child is the only tall one
            let mut kids: Vec<SNode> = (0..n).map(|_| SNode::el(0, vec![])).collect();
            kids.push(SNode::el(1, vec![SNode::el(0, vec![SNode::txt(200, 7)])]));
            SNode::el(0, kids)
        }
        8 => {
            // chain of ever wider levels
            let mut t = SNode::txt(200, r.below(2) as u32);
            let mut left = n;
            let mut w = 1;
            while left > w {
                let mut kids: Vec<SNode> = (1..w).map(|i| SNode::txt(200, (i % 5) as u32)).collect();
                kids.push(t);
                t = SNode::el((w % 2) as u8, kids);
                left -= w;
                w += 1 + w / 4;
            }
            t
        }
        _ => {
            // alternating-kind chain with text at the bottom
            let mut t = SNode::txt(200, r.below(2) as u32);
            for i in 1..n.max(2) {
                t = SNode::el((i % 2) as u8, vec![t]);
            }
            t
        }
    }
}

/// Takes the text off some nodes of the kinds that have both text and children. (Only ever done to
/// an old tree: no operation takes a text away.)
pub fn drop_texts(r: &mut Rng, t: &mut SNode) {
    if !t.kind.leaf_only() && t.kind.has_text() && r.chance(1, 2) {
        t.text = None;
    }
    for c in t.children.iter_mut() {
        drop_texts(r, c);
    }
}

/// A random tree in which every subtree is unique: every element carries a text-leaf child (or is
/// a leaf of its own) with a globally unique text, so that no two nodes are interchangeable.
pub fn distinct_tree(r: &mut Rng, p: &Params, next: &mut u32) -> SNode {
    let mut t = rand_tree(r, p);
    fn go(n: &mut SNode, next: &mut u32) {
        if n.text.is_some() {
            n.text = Some(*next);
            *next += 1;
        }
        for c in n.children.iter_mut() {
            go(c, next);
        }
        if n.text.is_none() && n.children.is_empty() {
            n.children.push(SNode::txt(200, *next));
            *next += 1;
        }
    }
    go(&mut t, next);
    t
}

/// All ordered trees with exactly n nodes over the given leaf/inner labels.
pub fn all_trees(n: usize, kinds: &[u8]) -> Vec<SNode> {
    fn forests(n: usize, kinds: &[u8]) -> Vec<Vec<SNode>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = vec![];
        for first in 1..=n {
            for t in all_trees(first, kinds) {
                for rest in forests(n - first, kinds) {
                    let mut v = vec![t.clone()];
                    v.extend(rest);
                    out.push(v);
                }
            }
        }
        out
    }
    let mut out = vec![];
    for f in forests(n - 1, kinds) {
        for &k in kinds {
            if k >= 200 {
                // text leaves: two texts
                if f.is_empty() {
                    out.push(SNode::txt(k, 0));
                    out.push(SNode::txt(k, 1));
                }
            } else {
                out.push(SNode::el(k, f.clone()));
            }
        }
    }
    out
}
