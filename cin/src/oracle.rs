//! The oracles. Each takes the two specification trees and what the real code returned, and lists
//! the ways the property is broken (empty list = held on this execution).

use crate::spec::*;
use crate::sut::{Op, Outcome};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Ent {
    A(usize),
    B(usize),
    /// stands for a new root that the script format has no operation to create
    NewRoot,
}

fn a_to_b(o: &Outcome) -> HashMap<usize, usize> {
    o.pairs.iter().copied().collect()
}
fn b_to_a(o: &Outcome) -> HashMap<usize, usize> {
    o.pairs.iter().map(|&(a, b)| (b, a)).collect()
}

/// C02: the matching is a one-to-one relation between real nodes of equal kind, and all of its
/// accessors tell the same story.
pub fn matching_bijective(fa: &Flat, fb: &Flat, o: &Outcome) -> Vec<String> {
    let mut v = o.api.clone();
    v.extend(o.foreign.iter().filter(|s| s.starts_with("matching")).cloned());
    let (mut sa, mut sb) = (HashSet::new(), HashSet::new());
    for &(a, b) in &o.pairs {
        if !sa.insert(a) {
            v.push(format!("old node a{a} is matched more than once"));
        }
        if !sb.insert(b) {
            v.push(format!("new node b{b} is matched more than once"));
        }
        if (a == 0) != (b == 0) {
            v.push(format!("a{a} is matched to b{b}: a root and an inner node"));
        }
        if a < fa.len() && b < fb.len() && fa.n[a].kind != fb.n[b].kind {
            v.push(format!("a{a} ({}) is matched to b{b} ({})", fa.n[a].kind, fb.n[b].kind));
        }
    }
    v
}

/// The property precondition of a script being able to reach the new tree: the format cannot
/// express replacing the root, so the roots must be of one kind and similar enough.
pub fn roots_compatible(fa: &Flat, fb: &Flat, threshold: f64) -> bool {
    fa.n[0].kind == fb.n[0].kind && prop_similarity(&fa.n[0].props, &fb.n[0].props) >= threshold
}

struct Value {
    kind: Kind,
    text: Option<String>,
    props: Vec<(u8, u16)>,
}

fn apply_changes(props: &[(u8, u16)], changes: &[(u8, Option<u16>)]) -> Result<Vec<(u8, u16)>, String> {
    let mut out = vec![];
    for &(k, c) in changes {
        match c {
            Some(v) => out.push((k, v)),
            None => match props.iter().find(|x| x.0 == k) {
                Some(&(_, v)) => out.push((k, v)),
                None => return Err(format!("property {k} is reported unchanged but the old node has no such property")),
            },
        }
    }
    Ok(out)
}

/// C01: interpreting every operation by its documented meaning (absolute final positions, no
/// shifting), the old tree becomes the new tree.
pub fn soundness(fa: &Flat, fb: &Flat, o: &Outcome, threshold: f64) -> Vec<String> {
    let mut v: Vec<String> = o.foreign.clone();
    if !v.is_empty() {
        return v;
    }
    let ba = b_to_a(o);
    let ab = a_to_b(o);
    let compatible = roots_compatible(fa, fb, threshold);
    if compatible && ba.get(&0) != Some(&0) {
        v.push(format!(
            "the two roots have the same kind and similar properties but are not matched to each other \
             (new root matched to {:?}), so no script can reach the new tree",
            ba.get(&0)
        ));
    }
    let root_ent = match ba.get(&0) {
        Some(&a) => Ent::A(a),
        None => Ent::NewRoot,
    };
    let ent_of_b = |b: usize, inserted: &HashSet<usize>| -> Option<Ent> {
        if let Some(&a) = ba.get(&b) {
            Some(Ent::A(a))
        } else if b == 0 {
            Some(Ent::NewRoot)
        } else if inserted.contains(&b) {
            Some(Ent::B(b))
        } else {
            None
        }
    };
    let mut val: HashMap<Ent, Value> = HashMap::new();
    let mut place: HashMap<Ent, (Ent, usize)> = HashMap::new();
    for (i, n) in fa.n.iter().enumerate() {
        if n.inside_opaque {
            continue;
        }
        val.insert(Ent::A(i), Value { kind: n.kind, text: n.text.clone(), props: n.props.clone() });
        if let Some(p) = n.parent {
            place.insert(Ent::A(i), (Ent::A(p), n.pos));
        }
    }
    if root_ent == Ent::NewRoot {
        let n = &fb.n[0];
        val.insert(Ent::NewRoot, Value { kind: n.kind, text: n.text.clone(), props: n.props.clone() });
    }
    // Inserts are collected first so that parents may be named in any order: ordering is C05's.
    let mut inserted = HashSet::new();
    for op in &o.ops {
        if let Op::Ins { b, kind, .. } = op {
            if !inserted.insert(*b) {
                v.push(format!("b{b} is inserted twice"));
            }
            let n = &fb.n[*b];
            val.insert(Ent::B(*b), Value { kind: *kind, text: n.text.clone(), props: n.props.clone() });
        }
    }
    for op in &o.ops {
        match op {
            Op::Ins { b, parent, pos, .. } => match ent_of_b(*parent, &inserted) {
                Some(p) => {
                    place.insert(Ent::B(*b), (p, *pos));
                }
                None => v.push(format!("insert of b{b} names parent b{parent}, which exists nowhere in the result")),
            },
            Op::Mov { a, b, parent, pos } => {
                if ab.get(a) != Some(b) {
                    v.push(format!("move names a{a} and b{b}, which are not counterparts"));
                }
                match ent_of_b(*parent, &inserted) {
                    Some(p) => {
                        place.insert(Ent::A(*a), (p, *pos));
                    }
                    None => v.push(format!("move of a{a} names parent b{parent}, which exists nowhere in the result")),
                }
            }
            Op::Del { a } => {
                val.remove(&Ent::A(*a));
                place.remove(&Ent::A(*a));
            }
            Op::Upd { a, changes, .. } => {
                if let Some(x) = val.get_mut(&Ent::A(*a)) {
                    match apply_changes(&x.props, changes) {
                        Ok(p) => x.props = p,
                        Err(e) => v.push(format!("update of a{a}: {e}")),
                    }
                }
            }
            Op::Txt { a, text, .. } => {
                if let Some(x) = val.get_mut(&Ent::A(*a)) {
                    x.text = Some(text.clone());
                }
            }
        }
    }
    // materialise
    let mut kids: HashMap<Ent, BTreeMap<usize, Vec<Ent>>> = HashMap::new();
    for (&e, &(p, pos)) in &place {
        if e != root_ent {
            kids.entry(p).or_default().entry(pos).or_default().push(e);
        }
    }
    // compare with the new tree
    let mut st = vec![(root_ent, 0usize)];
    let mut seen = HashSet::new();
    while let Some((e, b)) = st.pop() {
        if v.len() > 6 {
            break;
        }
        if !seen.insert(e) {
            v.push(format!("{e:?} appears twice in the result"));
            continue;
        }
        let want = &fb.n[b];
        let Some(x) = val.get(&e) else {
            v.push(format!("b{b} ({}) is to be {e:?}, which the script deletes", want.kind));
            continue;
        };
        if x.kind != want.kind {
            v.push(format!("result has {} where the new tree has {} (b{b})", x.kind, want.kind));
        }
        if x.text != want.text {
            v.push(format!("result text {:?} where the new tree has {:?} (b{b})", x.text, want.text));
        }
        if !props_map_eq(&x.props, &want.props) {
            v.push(format!("result properties {:?} where the new tree has {:?} (b{b})", x.props, want.props));
        }
        // opaque content is replaced as a whole by the caller, and an inserted opaque node
        // brings its content with it
        if want.opaque || matches!(e, Ent::A(0) if fa.n[0].opaque) {
            continue;
        }
        if matches!(e, Ent::A(a) if fa.n[a].opaque) {
            v.push(format!("b{b} is not opaque but is to be {e:?}, whose content no operation can change"));
            continue;
        }
        let empty = BTreeMap::new();
        let ks = kids.get(&e).unwrap_or(&empty);
        let mut at = 0;
        for (&pos, es) in ks {
            if es.len() > 1 {
                v.push(format!("{} nodes end up at position {pos} below b{b}: {es:?}", es.len()));
            }
            if pos != at {
                v.push(format!("position {at} below b{b} ends up empty"));
                at = pos;
            }
            match want.children.get(pos) {
                Some(&c) => st.push((es[0], c)),
                None => v.push(format!("b{b} ends up with a child at position {pos}, the new tree has only {}", want.children.len())),
            }
            at += 1;
        }
        if at < want.children.len() {
            v.push(format!("b{b} ends up with {at} children, the new tree has {}", want.children.len()));
        }
    }
    v
}

/// The exact set of operations the matching calls for.
pub fn expected_ops(fa: &Flat, fb: &Flat, o: &Outcome) -> Vec<Op> {
    let ab = a_to_b(o);
    let ba = b_to_a(o);
    let mut out = vec![];
    for (&a, &b) in &ab {
        let (x, y) = (&fa.n[a], &fb.n[b]);
        if x.inside_opaque || y.inside_opaque {
            continue;
        }
        if x.text != y.text
            && let Some(t) = &y.text
        {
            out.push(Op::Txt { a, b, text: t.clone() });
        }
        if !props_map_eq(&x.props, &y.props) {
            let changes = y
                .props
                .iter()
                .map(|&(k, w)| (k, if x.props.contains(&(k, w)) { None } else { Some(w) }))
                .collect();
            out.push(Op::Upd { a, b, changes });
        }
        if let (Some(pa), Some(pb)) = (x.parent, y.parent)
            && (ab.get(&pa) != Some(&pb) || x.pos != y.pos)
        {
            out.push(Op::Mov { a, b, parent: pb, pos: y.pos });
        }
    }
    for (b, y) in fb.n.iter().enumerate() {
        if !ba.contains_key(&b)
            && !y.inside_opaque
            && let Some(p) = y.parent
        {
            out.push(Op::Ins { b, parent: p, pos: y.pos, kind: y.kind });
        }
    }
    for (a, x) in fa.n.iter().enumerate() {
        if !ab.contains_key(&a) && !x.inside_opaque {
            out.push(Op::Del { a });
        }
    }
    out.sort();
    out
}

/// C04: exactly one operation per actual difference, none for what is already right.
pub fn exactness(fa: &Flat, fb: &Flat, o: &Outcome) -> Vec<String> {
    let mut v = o.foreign.clone();
    if !v.is_empty() {
        return v;
    }
    let want = expected_ops(fa, fb, o);
    let mut got = o.ops.clone();
    got.sort();
    if want == got {
        return v;
    }
    let mut count: BTreeMap<&Op, i64> = BTreeMap::new();
    for x in &want {
        *count.entry(x).or_default() += 1;
    }
    for x in &got {
        *count.entry(x).or_default() -= 1;
    }
    for (x, c) in count {
        if c > 0 {
            v.push(format!("missing operation {x:?}"));
        } else if c < 0 {
            v.push(format!("needless or wrong operation {x:?} ({} too many)", -c));
        }
    }
    v
}

#[derive(Default, Debug, Clone)]
pub struct StepStats {
    pub displaced: usize,
}

/// C05: the script can be executed one operation at a time under the displacement model: whatever
/// an operation names exists at that moment, occupants are parked and later re-placed or deleted,
/// and a deletion never takes a surviving node with it.
pub fn stepwise(fa: &Flat, _fb: &Flat, o: &Outcome, stats: &mut StepStats) -> Vec<String> {
    let mut v = o.foreign.clone();
    if !v.is_empty() {
        return v;
    }
    let ba = b_to_a(o);
    let ab = a_to_b(o);
    let mut slots: HashMap<Ent, BTreeMap<usize, Ent>> = HashMap::new();
    let mut place: HashMap<Ent, (Ent, usize)> = HashMap::new();
    let mut live: HashSet<Ent> = HashSet::new();
    let mut limbo: HashSet<Ent> = HashSet::new();
    for (i, n) in fa.n.iter().enumerate() {
        if n.inside_opaque {
            continue;
        }
        live.insert(Ent::A(i));
        if let Some(p) = n.parent {
            place.insert(Ent::A(i), (Ent::A(p), n.pos));
            slots.entry(Ent::A(p)).or_default().insert(n.pos, Ent::A(i));
        }
    }
    if !ba.contains_key(&0) {
        live.insert(Ent::NewRoot);
    }
    let resolve = |b: usize, live: &HashSet<Ent>| -> Option<Ent> {
        let e = match ba.get(&b) {
            Some(&a) => Ent::A(a),
            None if b == 0 => Ent::NewRoot,
            None => Ent::B(b),
        };
        live.contains(&e).then_some(e)
    };
    for (k, op) in o.ops.iter().enumerate() {
        if v.len() > 6 {
            return v;
        }
        let mut put = |e: Ent, p: Ent, pos: usize, slots: &mut HashMap<Ent, BTreeMap<usize, Ent>>, place: &mut HashMap<Ent, (Ent, usize)>, limbo: &mut HashSet<Ent>| {
            if let Some((op_, opos)) = place.remove(&e) {
                slots.get_mut(&op_).unwrap().remove(&opos);
            }
            limbo.remove(&e);
            if let Some(old) = slots.entry(p).or_default().insert(pos, e) {
                place.remove(&old);
                limbo.insert(old);
                stats.displaced += 1;
            }
            place.insert(e, (p, pos));
        };
        match op {
            Op::Ins { b, parent, pos, .. } => {
                let e = Ent::B(*b);
                if ba.contains_key(b) || !live.insert(e) {
                    v.push(format!("op {k}: b{b} is inserted although it already exists"));
                    continue;
                }
                match resolve(*parent, &live) {
                    Some(p) => put(e, p, *pos, &mut slots, &mut place, &mut limbo),
                    None => v.push(format!("op {k}: insert of b{b} below b{parent}, which does not exist yet")),
                }
            }
            Op::Mov { a, parent, pos, .. } => {
                let e = Ent::A(*a);
                if !live.contains(&e) {
                    v.push(format!("op {k}: move of a{a}, which is already gone"));
                    continue;
                }
                match resolve(*parent, &live) {
                    Some(p) => {
                        // is the new parent currently inside the moved subtree?
                        let mut q = p;
                        let mut guard = 0;
                        loop {
                            if q == e {
                                v.push(format!("op {k}: a{a} is moved to b{parent}, which at that moment lies beneath a{a} itself"));
                                break;
                            }
                            guard += 1;
                            match place.get(&q) {
                                Some(&(up, _)) if guard < 100_000 => q = up,
                                _ => break,
                            }
                        }
                        put(e, p, *pos, &mut slots, &mut place, &mut limbo)
                    }
                    None => v.push(format!("op {k}: move of a{a} below b{parent}, which does not exist yet")),
                }
            }
            Op::Del { a } => {
                let e = Ent::A(*a);
                if !live.remove(&e) {
                    v.push(format!("op {k}: a{a} is deleted but is already gone"));
                    continue;
                }
                if ab.contains_key(a) {
                    v.push(format!("op {k}: a{a} is deleted although it has a counterpart"));
                }
                if let Some(ch) = slots.get(&e)
                    && let Some(c) = ch.values().next()
                {
                    v.push(format!("op {k}: deleting a{a} takes {c:?} with it"));
                }
                limbo.remove(&e);
                if let Some((p, pos)) = place.remove(&e) {
                    slots.get_mut(&p).unwrap().remove(&pos);
                }
            }
            Op::Upd { a, .. } | Op::Txt { a, .. } => {
                if !live.contains(&Ent::A(*a)) {
                    v.push(format!("op {k}: update of a{a}, which is already gone"));
                }
            }
        }
    }
    if !limbo.is_empty() {
        v.push(format!("displaced and never re-placed or deleted: {limbo:?}"));
    }
    v
}

/// C13: for every surviving node, its updates turn exactly its old text/properties into the new.
pub fn updates_exact(fa: &Flat, fb: &Flat, o: &Outcome) -> Vec<String> {
    let mut v = o.foreign.clone();
    if !v.is_empty() {
        return v;
    }
    let ab = a_to_b(o);
    let mut upd: HashMap<usize, Vec<&Op>> = HashMap::new();
    let mut txt: HashMap<usize, Vec<&Op>> = HashMap::new();
    for op in &o.ops {
        match op {
            Op::Upd { a, b, .. } => {
                if ab.get(a) != Some(b) {
                    v.push(format!("property update names a{a} and b{b}, which are not counterparts"));
                }
                upd.entry(*a).or_default().push(op)
            }
            Op::Txt { a, b, .. } => {
                if ab.get(a) != Some(b) {
                    v.push(format!("text update names a{a} and b{b}, which are not counterparts"));
                }
                txt.entry(*a).or_default().push(op)
            }
            _ => {}
        }
    }
    for (&a, &b) in &ab {
        let (x, y) = (&fa.n[a], &fb.n[b]);
        if x.inside_opaque || y.inside_opaque {
            continue;
        }
        let mut text = x.text.clone();
        for op in txt.get(&a).into_iter().flatten() {
            if let Op::Txt { text: t, .. } = op {
                text = Some(t.clone());
            }
        }
        if text != y.text {
            v.push(format!("a{a} -> b{b}: text ends as {text:?}, should be {:?}", y.text));
        }
        let mut props = x.props.clone();
        for op in upd.get(&a).into_iter().flatten() {
            if let Op::Upd { changes, .. } = op {
                match apply_changes(&props, changes) {
                    Ok(p) => props = p,
                    Err(e) => v.push(format!("a{a} -> b{b}: {e}")),
                }
                let order: Vec<u8> = changes.iter().map(|c| c.0).collect();
                let want: Vec<u8> = y.props.iter().map(|c| c.0).collect();
                if order != want {
                    v.push(format!("a{a} -> b{b}: final state lists properties {order:?}, new node has {want:?}"));
                }
                for (k, c) in changes {
                    let old = x.props.iter().find(|p| p.0 == *k);
                    if let (Some(w), Some((_, ov))) = (c, old)
                        && w == ov
                    {
                        v.push(format!("a{a} -> b{b}: unchanged property {k} reported as changed"));
                    }
                }
            }
        }
        if !props_map_eq(&props, &y.props) {
            v.push(format!("a{a} -> b{b}: properties end as {props:?}, should be {:?}", y.props));
        }
    }
    v
}

/// Where two nodes stand to each other, for the exceptions of C09 and C02.
///
/// They correspond in place if they are equally deep and every two ancestors at one level are of
/// one kind (or look identical).
fn in_place(fa: &Flat, fb: &Flat, a: usize, b: usize) -> bool {
    let (mut x, mut y) = (fa.n[a].parent, fb.n[b].parent);
    loop {
        match (x, y) {
            // whatever the roots are
            (Some(0), Some(0)) | (None, None) => return true,
            (Some(p), Some(q)) => {
                if fa.n[p].kind != fb.n[q].kind && fa.n[p].hash != fb.n[q].hash {
                    return false;
                }
                (x, y) = (fa.n[p].parent, fb.n[q].parent);
            }
            _ => return false,
        }
    }
}

/// Whether two nodes are the top or corresponding parts of identical subtrees (of at least the
/// minimum height) at corresponding places.
fn identical_in_place(fa: &Flat, fb: &Flat, a: usize, b: usize, min_height: usize) -> bool {
    let (mut x, mut y) = (a, b);
    loop {
        if fa.n[x].hash == fb.n[y].hash
            && fa.n[x].kind == fb.n[y].kind
            && fa.n[x].height >= min_height
            && in_place(fa, fb, x, y)
        {
            return true;
        }
        if fa.n[x].pos != fb.n[y].pos {
            return false;
        }
        match (fa.n[x].parent, fb.n[y].parent) {
            (Some(p), Some(q)) => (x, y) = (p, q),
            _ => return false,
        }
    }
}

/// C09: no pair with differing content has properties less similar than the threshold.
pub fn threshold_gate(fa: &Flat, fb: &Flat, o: &Outcome, threshold: f64, min_height: usize) -> (Vec<String>, usize) {
    let mut v = vec![];
    let mut gated = 0;
    for &(a, b) in &o.pairs {
        if a >= fa.len() || b >= fb.len() {
            continue;
        }
        let (x, y) = (&fa.n[a], &fb.n[b]);
        if x.inside_opaque || y.inside_opaque {
            continue;
        }
        let same_leaf = x.hash == y.hash && x.children.is_empty() && y.children.is_empty();
        let opaque = x.opaque && y.opaque && in_place(fa, fb, a, b);
        if same_leaf || opaque || identical_in_place(fa, fb, a, b, min_height) {
            continue;
        }
        gated += 1;
        let s = prop_similarity(&x.props, &y.props);
        if s < threshold {
            v.push(format!(
                "a{a} {:?} and b{b} {:?} are not identical in place and have property similarity {s:.3} < threshold {threshold}, yet are matched",
                x.props, y.props
            ));
        }
    }
    (v, gated)
}

/// C09: two nodes below the roots that stand at different places, and are neither identical nor
/// both leaves, share descendants: twice the number of counterparts among what they hold, over
/// what they hold together (each counting itself), reaches the threshold. What they shared when
/// they were paired is known if the pairs are listed as made; what they share at last is no less.
pub fn shared_descendants(
    fa: &Flat,
    fb: &Flat,
    o: &Outcome,
    threshold: f64,
    min_height: usize,
    ordered: bool,
) -> (Vec<String>, usize) {
    let mut v = vec![];
    let mut held = 0;
    let ab = a_to_b(o);
    let made: HashMap<usize, usize> = o.pairs.iter().enumerate().map(|(i, &(a, _))| (a, i)).collect();
    for (i, &(a, b)) in o.pairs.iter().enumerate() {
        if a >= fa.len() || b >= fb.len() {
            continue;
        }
        let (x, y) = (&fa.n[a], &fb.n[b]);
        let (Some(p), Some(q)) = (x.parent, y.parent) else { continue };
        if (ab.get(&p) == Some(&q) && x.pos == y.pos)
            || (x.children.is_empty() && y.children.is_empty())
            || x.inside_opaque
            || y.inside_opaque
            || (x.opaque && y.opaque && in_place(fa, fb, a, b))
            || identical_in_place(fa, fb, a, b, min_height)
        {
            continue;
        }
        held += 1;
        let common = (a + 1..a + x.size)
            .filter(|d| !ordered || made.get(d).is_some_and(|&j| j < i))
            .filter(|d| ab.get(d).is_some_and(|e| (b..b + y.size).contains(e)))
            .count();
        let dice = 2.0 * common as f64 / (x.size + y.size) as f64;
        if dice < threshold {
            v.push(format!(
                "a{a} and b{b} stand at different places and have {common} counterparts among {} and {} nodes, {dice:.3} < threshold {threshold}, yet are matched",
                x.size, y.size
            ));
        }
    }
    (v, held)
}

/// C02: a node whose parent has a counterpart corresponds to something beneath that counterpart.
/// Pairs of identical or opaque nodes in place are made from the top, before this is known of
/// their parents. `ordered`: the pairs are listed in the order in which they were made, so that
/// it can be told whether the parent of the new node had its counterpart by then.
pub fn ancestry(fa: &Flat, fb: &Flat, o: &Outcome, min_height: usize, ordered: bool) -> (Vec<String>, usize) {
    let mut v = vec![];
    let mut checked = 0;
    let ab = a_to_b(o);
    let made: HashMap<usize, (usize, usize)> = o.pairs.iter().enumerate().map(|(i, &(a, b))| (b, (i, a))).collect();
    for (i, &(a, b)) in o.pairs.iter().enumerate() {
        if a >= fa.len() || b >= fb.len() {
            continue;
        }
        let (x, y) = (&fa.n[a], &fb.n[b]);
        if x.inside_opaque
            || y.inside_opaque
            || (x.opaque && y.opaque && in_place(fa, fb, a, b))
            || identical_in_place(fa, fb, a, b, min_height)
        {
            continue;
        }
        if let Some(p) = x.parent
            && let Some(&q) = ab.get(&p)
        {
            checked += 1;
            if q >= fb.len() || !(q..q + fb.n[q].size).contains(&b) {
                v.push(format!("a{a} is matched to b{b}, which is not beneath b{q}, the counterpart of its parent a{p}"));
            }
        }
        if ordered
            && let Some(q) = y.parent
            && let Some(&(j, p)) = made.get(&q)
            && j < i
        {
            checked += 1;
            if p >= fa.len() || !(p..p + fa.n[p].size).contains(&a) {
                v.push(format!("b{b} is matched to a{a}, which is not beneath a{p}, the counterpart its parent b{q} had by then"));
            }
        }
    }
    (v, checked)
}

/// C06: nothing strictly inside an opaque subtree is named by any operation or matched.
pub fn opaque_atomic(fa: &Flat, fb: &Flat, o: &Outcome) -> Vec<String> {
    let mut v = vec![];
    let ia = |a: usize| a < fa.len() && fa.n[a].inside_opaque;
    let ib = |b: usize| b < fb.len() && fb.n[b].inside_opaque;
    for op in &o.ops {
        let bad = match op {
            Op::Upd { a, b, .. } | Op::Txt { a, b, .. } => ia(*a) || ib(*b),
            Op::Ins { b, parent, .. } => ib(*b) || ib(*parent),
            Op::Mov { a, b, parent, .. } => ia(*a) || ib(*b) || ib(*parent),
            Op::Del { a } => ia(*a),
        };
        if bad {
            v.push(format!("{op:?} reaches inside an opaque subtree"));
        }
    }
    for &(a, b) in &o.pairs {
        if ia(a) || ib(b) {
            v.push(format!("a{a} and b{b} are matched, but {} inside an opaque subtree", if ia(a) { "a is" } else { "b is" }));
        }
        if a < fa.len() && b < fb.len() && a != 0 && fa.n[a].opaque != fb.n[b].opaque {
            v.push(format!("a{a} (opaque: {}) is matched to b{b} (opaque: {})", fa.n[a].opaque, fb.n[b].opaque));
        }
    }
    v
}
