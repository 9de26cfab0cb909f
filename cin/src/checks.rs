//! One function per property: workloads + oracle.

use crate::generate::*;
use crate::harness::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::sut::*;
use cinereus::DiffTree;
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, PartialEq)]
pub enum Flavor {
    Plain,
    Props,
    Opaque,
    Mixed,
}

pub fn rand_cfg(r: &mut Rng) -> (f64, usize) {
    (
        *r.pick(&[0.5, 0.5, 0.5, 0.5, 0.0, 0.25, 0.4, 0.6, 0.75, 1.0]),
        if r.chance(1, 40) { usize::MAX - r.below(2) } else { *r.pick(&[1, 1, 1, 0, 0, 2, 5]) },
    )
}

pub fn std_case(seed: u64, stream: u64, i: u64, flavor: Flavor) -> Case {
    let mut r = Rng::stream(seed, stream, i);
    let opaque = match flavor {
        Flavor::Opaque => true,
        Flavor::Plain | Flavor::Props => false,
        Flavor::Mixed => r.chance(1, 3),
    };
    let mut p = random_params(&mut r, opaque);
    if flavor == Flavor::Props {
        p.props = r.range(1, 5);
        p.vals = r.range(1, 4);
    }
    if r.chance(1, 60) {
        p.max_nodes = 250;
    }
    let a = rand_tree(&mut r, &p);
    let b = if r.chance(1, 6) {
        rand_tree(&mut r, &p)
    } else {
        let mut b = a.clone();
        for _ in 0..1 + r.below(*r.clone().pick(&[1, 2, 4, 8, 16])) {
            if opaque && r.chance(1, 8) {
                toggle_opaque(&mut r, &mut b);
            } else {
                mutate(&mut r, &p, &mut b);
            }
        }
        b
    };
    let (mut a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
    if p.rich && r.chance(1, 3) {
        drop_texts(&mut r, &mut a);
    }
    let (threshold, min_height) = rand_cfg(&mut r);
    Case {
        a,
        b,
        threshold,
        min_height,
        hash: if r.chance(1, 3) { HashMode::WithProps } else { HashMode::NoProps },
        la: *r.pick(&LAYOUTS),
        lb: *r.pick(&LAYOUTS),
        seed: r.next(),
    }
}

fn degenerate_case(seed: u64, i: u64, n_max: usize) -> Case {
    let mut r = Rng::stream(seed, 77, i);
    let (n, m) = (1 + r.below(n_max), 1 + r.below(n_max));
    let a = degenerate(&mut r, i as usize % 9, n);
    let k = if r.chance(1, 2) { i as usize % 9 } else { r.below(9) };
    let mut b = degenerate(&mut r, k, m);
    let p = Params { kinds: 2, rich: false, texts: 3, max_nodes: 4, max_kids: 3, props: 0, vals: 1, opaque_pct: 0 };
    if m <= 200 {
        for _ in 0..r.below(3) {
            mutate(&mut r, &p, &mut b);
        }
    }
    let (threshold, min_height) = rand_cfg(&mut r);
    Case { a, b, threshold, min_height, hash: HashMode::NoProps, la: Layout::Preorder, lb: *r.pick(&LAYOUTS), seed: r.next() }
}

/// Runs `oracle` over every workload family.
fn generic<F>(cx: &Ctx, flavor: Flavor, scale: u64, oracle: F)
where
    F: Fn(&Case, &Flat, &Flat, &Outcome, &mut Acc) -> Vec<String> + Sync,
{
    let check = |c: &Case, acc: &mut Acc| {
        let (fa, fb, o) = c.run();
        let v = oracle(c, &fa, &fb, &o, acc);
        if !o.ops.is_empty() && acc.distinct.insert(c.key()) {
            acc.add("operations observed", o.ops.len() as u64);
            acc.add("matched pairs observed", o.pairs.len() as u64);
            for op in &o.ops {
                acc.add(
                    match op {
                        Op::Upd { .. } => "UpdateProperties seen",
                        Op::Txt { .. } => "SetText seen",
                        Op::Ins { .. } => "Insert seen",
                        Op::Mov { .. } => "Move seen",
                        Op::Del { .. } => "Delete seen",
                    },
                    1,
                );
            }
            if fa.len() + fb.len() < 24 {
                acc.sample(|| format!("{} -> {} operations {:?}", c.show(), o.ops.len(), o.ops.first()));
            }
        }
        v
    };
    let stream = cx.id.bytes().fold(0u64, |h, b| h * 131 + b as u64);
    // exhaustive small pairs: every pair of ordered trees up to `k` nodes
    let kinds: &[u8] = &[0, 200];
    let mut small: Vec<SNode> = vec![];
    let k = if cx.thorough { 6 } else { 5 };
    for n in 1..=k {
        small.extend(all_trees(n, kinds).into_iter().filter(|t| !t.kind.leaf_only()));
    }
    let total = (small.len() * small.len()) as u64;
    let step = if cx.thorough { 1 } else { (total / 150_000).max(1) };
    let off = Rng::stream(cx.seed, 5, 5).next() % step;
    cx.cases(
        "exhaustive small pairs",
        total / step,
        |i| {
            let i = i * step + off;
            Some(Case {
                a: small[(i / small.len() as u64) as usize % small.len()].clone(),
                b: small[(i % small.len() as u64) as usize].clone(),
                threshold: 0.5,
                min_height: (i % 2) as usize,
                hash: HashMode::NoProps,
                la: Layout::Preorder,
                lb: Layout::Bfs,
                seed: i,
            })
        },
        &check,
    );
    cx.cases("degenerate shapes", cx.scale(400, 4000), |i| Some(degenerate_case(cx.seed, i, 120)), &check);
    cx.cases(
        "large mutated pairs",
        cx.scale(72, 900),
        |i| {
            let mut r = Rng::stream(cx.seed, stream ^ 0xfff, i);
            let p = Params { max_nodes: 900, ..random_params(&mut r, flavor == Flavor::Opaque) };
            let a = if i % 3 == 0 {
                let n = *r.pick(&[70, 140, 300, 300]);
                wide_tree(&mut r, &p, n)
            } else {
                rand_tree(&mut r, &p)
            };
            let mut b = a.clone();
            if i % 9 == 6 {
                // most of the old tree goes
                b = rand_tree(&mut r, &Params { kinds: p.kinds + 2, ..p.clone() });
                b.kind = a.kind;
                b.text = a.text;
            }
            for _ in 0..1 + r.below(25) {
                mutate(&mut r, &p, &mut b);
            }
            let (threshold, min_height) = rand_cfg(&mut r);
            Some(Case { a, b, threshold, min_height, hash: HashMode::NoProps, la: Layout::Preorder, lb: Layout::Holes, seed: r.next() })
        },
        &check,
    );
    cx.cases("random and mutated pairs", cx.scale(scale, scale * 25), |i| Some(std_case(cx.seed, stream, i, flavor)), &check);
}

const RULE: &str = "tree pairs: every pair of ordered trees up to 5 (thorough 6) nodes [sampled in quick], degenerate shapes, \
    large mutated pairs, and random pairs where the new tree is the old one after 1-16 random edits (insert, delete, hoist, wrap, move, swap, permute, \
    duplicate, nesting inversion, text/property/kind change, opaque toggles) or an unrelated tree, under random thresholds, minimum heights, hash conventions \
    and arena layouts; a case is non-trivial when the script is non-empty, distinct by trees+configuration";

const FLOORS: &[(&str, u64)] = &[("Insert seen", 1000), ("Move seen", 1000), ("Delete seen", 1000), ("SetText seen", 1000)];

pub fn c01(cx: &Ctx) -> i32 {
    generic(cx, Flavor::Mixed, 400_000, |c, fa, fb, o, acc| {
        if roots_compatible(fa, fb, c.threshold) {
            acc.add("pairs with compatible roots", 1);
        }
        let mut v = soundness(fa, fb, o, c.threshold);
        // a caller whose preorder iterator is breadth-first is served as well
        if c.seed % 4 == 0 && v.is_empty() && fa.len() + fb.len() < 300 {
            let mut r = Rng::new(c.seed);
            let ta = VTree::new(fa, "old", 0, true, u64::MAX, &mut r).with_bfs();
            let tb = VTree::new(fb, "new", fa.len() + 1, true, u64::MAX, &mut r).with_bfs();
            let o2 = run_generic(&ta, &ta.ids, &tb, &tb.ids, &cfg(c.threshold, c.min_height));
            acc.add("breadth-first callers", 1);
            v = soundness(fa, fb, &o2, c.threshold);
        }
        v
    });
    cx.finish(RULE, FLOORS)
}

/// Whether a `Matching` lists its pairs in the order they were entered.
fn pairs_are_listed_as_made() -> bool {
    let mut arena = cinereus::indextree::Arena::new();
    let ids: Vec<_> = (0..8).map(|i| arena.new_node(i)).collect();
    let mut m = cinereus::Matching::new();
    let made: Vec<_> = [(5, 2), (0, 7), (3, 3), (6, 0), (1, 5)].map(|(a, b): (usize, usize)| (ids[a], ids[b])).to_vec();
    for &(a, b) in &made {
        m.add(a, b);
    }
    m.pairs().collect::<Vec<_>>() == made
}

pub fn c02(cx: &Ctx) -> i32 {
    let ordered = pairs_are_listed_as_made();
    generic(cx, Flavor::Mixed, 400_000, |c, fa, fb, o, acc| {
        let mut v = matching_bijective(fa, fb, o);
        let (w, checked) = ancestry(fa, fb, o, c.min_height, ordered);
        acc.add("pairs held against their parents' counterparts", checked as u64);
        v.extend(w);
        v
    });
    cx.cases(
        "opaque roots",
        cx.scale(40_000, 400_000),
        |i| Some(opaque_roots(cx.seed, i)),
        &|c: &Case, acc: &mut Acc| {
            let (fa, fb, o) = c.run();
            acc.add("opaque roots", 1);
            matching_bijective(&fa, &fb, &o)
        },
    );
    cx.finish(RULE, &[FLOORS, &[("pairs held against their parents' counterparts", 10_000)]].concat())
}

pub fn c03(cx: &Ctx) -> i32 {
    let check = |c: &Case, acc: &mut Acc| {
        if c.a != c.b {
            return vec![]; // only reached while shrinking
        }
        let (fa, _, o) = c.run();
        let mut v = vec![];
        if !o.ops.is_empty() {
            v.push(format!("diffing a tree with an equal tree yields {} operations, first {:?}", o.ops.len(), o.ops[0]));
        }
        let got: std::collections::HashMap<usize, usize> = o.pairs.iter().copied().collect();
        for (i, n) in fa.n.iter().enumerate() {
            if !n.inside_opaque && got.get(&i) != Some(&i) {
                v.push(format!("node {i} of two equal trees is matched to {:?} instead of its counterpart", got.get(&i)));
                break;
            }
        }
        if acc.distinct.insert(c.key()) && fa.len() > 1 {
            let uniq: std::collections::HashSet<u64> = fa.n.iter().map(|n| n.full).collect();
            if uniq.len() < fa.len() {
                acc.add("trees with repeated subtrees", 1);
            }
            acc.add("nodes compared", fa.len() as u64);
            if fa.len() < 14 {
                acc.sample(|| c.show());
            }
        }
        v
    };
    let same = |mut c: Case| {
        c.b = c.a.clone();
        Some(c)
    };
    let mut small: Vec<SNode> = vec![];
    for n in 1..=if cx.thorough { 8 } else { 6 } {
        small.extend(all_trees(n, &[0, 200]));
    }
    let n_small = small.len() as u64;
    cx.cases(
        "all small trees x heights",
        n_small * 4,
        |i| {
            let t = small[(i / 4) as usize].clone();
            Some(Case { a: t.clone(), b: t, threshold: [0.5, 0.0, 1.0, 0.5][(i % 4) as usize], min_height: [1, 0, 3, 9][(i % 4) as usize], hash: HashMode::NoProps, la: Layout::Preorder, lb: Layout::RootLast, seed: i })
        },
        &check,
    );
    cx.cases("degenerate", cx.scale(600, 6000), |i| same(degenerate_case(cx.seed, i, 250)), &check);
    cx.cases("random", cx.scale(300_000, 3_000_000), |i| same(std_case(cx.seed, 3, i, Flavor::Mixed)), &check);
    cx.finish(
        "a tree diffed against an equal tree built separately (other arena layout): all small trees, degenerate shapes, random trees with repeats, \
         opaque nodes and properties, random thresholds <= 1 and minimum heights; distinct by tree+configuration",
        &[("trees with repeated subtrees", 1000)],
    )
}

pub fn c04(cx: &Ctx) -> i32 {
    generic(cx, Flavor::Mixed, 400_000, |_c, fa, fb, o, _| exactness(fa, fb, o));
    cx.finish(RULE, FLOORS)
}

pub fn c05(cx: &Ctx) -> i32 {
    generic(cx, Flavor::Mixed, 400_000, |_c, fa, fb, o, acc| {
        let mut st = StepStats::default();
        let v = stepwise(fa, fb, o, &mut st);
        acc.add("occupants displaced", st.displaced as u64);
        v
    });
    cx.finish(RULE, &[("occupants displaced", 1000), ("Delete seen", 1000)])
}

pub fn c09(cx: &Ctx) -> i32 {
    let ordered = pairs_are_listed_as_made();
    generic(cx, Flavor::Props, 400_000, |c, fa, fb, o, acc| {
        let (mut v, gated) = threshold_gate(fa, fb, o, c.threshold, c.min_height);
        acc.add("pairs subject to the threshold", gated as u64);
        let (w, held) = shared_descendants(fa, fb, o, c.threshold, c.min_height, ordered);
        acc.add("pairs whose shared descendants were counted", held as u64);
        v.extend(w);
        v
    });
    cx.finish(RULE, &[("pairs subject to the threshold", 1000), ("UpdateProperties seen", 1000)])
}

pub fn c13(cx: &Ctx) -> i32 {
    generic(cx, Flavor::Props, 400_000, |_c, fa, fb, o, _| updates_exact(fa, fb, o));
    cx.finish(RULE, &[("UpdateProperties seen", 1000), ("SetText seen", 1000)])
}

/// C06: opaque subtrees.
/// The roots themselves are opaque, become it or cease to be.
fn opaque_roots(seed: u64, i: u64) -> Case {
    let mut r = Rng::stream(seed, 607, i);
    let mut c = std_case(seed, 608, i, Flavor::Opaque);
    (c.a.opaque, c.b.opaque) = *r.pick(&[(true, true), (true, false), (false, true)]);
    if r.chance(1, 4) {
        // of kinds that may differ, with much or nothing inside
        let side = if r.chance(1, 2) { &mut c.a } else { &mut c.b };
        side.kind = Kind(r.below(4) as u8);
        side.text = None;
        if r.chance(1, 2) {
            side.children.clear();
        }
    }
    c
}

pub fn c06(cx: &Ctx) -> i32 {
    generic(cx, Flavor::Opaque, 400_000, |c, fa, fb, o, acc| {
        acc.add("opaque nodes present", (fa.n.iter().chain(&fb.n)).filter(|n| n.opaque).count() as u64);
        let mut v = opaque_atomic(fa, fb, o);
        v.extend(soundness(fa, fb, o, c.threshold));
        v
    });
    cx.cases(
        "opaque roots",
        cx.scale(80_000, 800_000),
        |i| Some(opaque_roots(cx.seed, i)),
        &|c: &Case, acc: &mut Acc| {
            let (fa, fb, o) = c.run();
            acc.add(
                match (c.a.opaque, c.b.opaque) {
                    (true, true) => "roots opaque on both sides",
                    (true, false) => "roots that cease to be opaque",
                    _ => "roots that become opaque",
                },
                1,
            );
            opaque_atomic(&fa, &fb, &o)
        },
    );
    // Distinguishable tree with opaque regions; only their insides change.
    let make = |i: u64, inside_only: bool| {
        let mut r = Rng::stream(cx.seed, 606 + inside_only as u64, i);
        let p = Params { opaque_pct: 25, texts: 3, max_nodes: *r.pick(&[6, 12, 30]), ..random_params(&mut r, true) };
        let mut next = 1000;
        let a = distinct_tree(&mut r, &p, &mut next);
        let mut b = a.clone();
        let mut touched = 0;
        for path in paths(&a) {
            // outermost opaque nodes only
            let outer_opaque = (0..path.len()).any(|k| at(&a, &path[..k]).opaque);
            if !at(&a, &path).opaque || outer_opaque || r.chance(1, 4) {
                continue;
            }
            let n = at_mut(&mut b, &path);
            for _ in 0..1 + r.below(3) {
                mutate_inside(&mut r, n, &mut next);
            }
            touched += 1;
        }
        if inside_only && touched == 0 {
            return None;
        }
        if !inside_only {
            // one unrelated text change outside
            let outs: Vec<_> = paths(&b)
                .into_iter()
                .filter(|q| !(0..q.len()).any(|k| at(&b, &q[..k]).opaque) && at(&b, q).kind.leaf_only() && !at(&b, q).opaque)
                .collect();
            if outs.is_empty() {
                return None;
            }
            let q = r.pick(&outs).clone();
            at_mut(&mut b, &q).text = Some(next);
        }
        // an empty opaque node is below a minimum height of 1 and left to the heuristics
        let empty = paths(&a).iter().any(|q| at(&a, q).opaque && at(&a, q).children.is_empty());
        let (threshold, min_height) = (*r.pick(&[0.5, 0.5, 0.25, 0.75, 1.0]), if empty { 0 } else { *r.pick(&[0, 1]) });
        Some(Case { a, b, threshold, min_height, hash: HashMode::NoProps, la: *r.pick(&LAYOUTS), lb: *r.pick(&LAYOUTS), seed: i })
    };
    // counterpart of an outside node = same path
    let check = |c: &Case, acc: &mut Acc, ops_expected: usize| {
        let (fa, fb, o) = c.run();
        let mut v = opaque_atomic(&fa, &fb, &o);
        let got: std::collections::HashMap<usize, usize> = o.pairs.iter().copied().collect();
        // walk both trees outside opaque regions in lockstep
        let mut st = vec![(0usize, 0usize)];
        let mut opaque_seen = 0;
        while let Some((x, y)) = st.pop() {
            if got.get(&x) != Some(&y) {
                v.push(format!("a{x} keeps its place and its surroundings but is matched to {:?} instead of b{y}", got.get(&x)));
                break;
            }
            if fa.n[x].opaque {
                opaque_seen += 1;
                continue;
            }
            for (p, q) in fa.n[x].children.iter().zip(&fb.n[y].children) {
                st.push((*p, *q));
            }
        }
        if o.ops.len() != ops_expected {
            v.push(format!("{} operations, expected {ops_expected}: {:?}", o.ops.len(), o.ops.iter().take(4).collect::<Vec<_>>()));
        }
        acc.add("opaque nodes held in place", opaque_seen);
        acc.distinct.insert(c.key());
        v
    };
    let n = cx.scale(60_000, 600_000);
    cx.cases_noshrink("changes inside opaque regions only", n, |i| make(i, true), |c, acc| check(c, acc, 0));
    cx.cases_noshrink("opaque regions beside one unrelated change", n, |i| make(i, false), |c, acc| check(c, acc, 1));
    // Opaque siblings come, go, change inside and change places; those whose content survives
    // beneath the same parent correspond to it, whatever else is on offer there.
    cx.cases_noshrink(
        "opaque regions among siblings that come and go",
        n,
        |i| {
            let mut r = Rng::stream(cx.seed, 609, i);
            let p = Params { opaque_pct: *r.pick(&[25, 50, 80]), texts: 3, max_nodes: *r.pick(&[6, 12, 30]), ..random_params(&mut r, true) };
            let mut next = 1000;
            let a = distinct_tree(&mut r, &p, &mut next);
            let mut b = a.clone();
            for _ in 0..r.range(1, 4) {
                let outside = |t: &SNode, q: &[usize]| !(0..q.len()).any(|k| at(t, &q[..k]).opaque);
                let tops: Vec<_> = paths(&b).into_iter().filter(|q| !q.is_empty() && at(&b, q).opaque && outside(&b, q)).collect();
                let Some(q) = (!tops.is_empty()).then(|| r.pick(&tops).clone()) else { break };
                let (i, kind) = (*q.last().unwrap(), at(&b, &q).kind);
                let up = at_mut(&mut b, &q[..q.len() - 1]);
                match r.below(5) {
                    0 => {
                        up.children.remove(i);
                    }
                    1 => {
                        next += 1;
                        let mut n = SNode::el(kind.0, vec![SNode::txt(200, next)]);
                        n.text = kind.has_text().then_some(next);
                        n.opaque = true;
                        let k = r.below(up.children.len() + 1);
                        up.children.insert(k, n);
                    }
                    2 => {
                        let k = r.below(up.children.len());
                        up.children.swap(i, k);
                    }
                    _ => mutate_inside(&mut r, &mut up.children[i], &mut next),
                }
            }
            Some(Case {
                a,
                b,
                threshold: *r.pick(&[0.5, 0.25, 0.75, 1.0]),
                min_height: *r.pick(&[0, 1]),
                hash: HashMode::NoProps,
                la: *r.pick(&LAYOUTS),
                lb: *r.pick(&LAYOUTS),
                seed: i,
            })
        },
        |c, acc| {
            let (fa, fb, o) = c.run();
            let mut v = opaque_atomic(&fa, &fb, &o);
            let got: std::collections::HashMap<usize, usize> = o.pairs.iter().copied().collect();
            for (x, n) in fa.n.iter().enumerate().filter(|(_, n)| n.opaque && !n.inside_opaque && !n.children.is_empty()) {
                let twins: Vec<usize> = (0..fb.len()).filter(|&y| fb.n[y].hash == n.hash && fb.n[y].opaque && !fb.n[y].inside_opaque).collect();
                if let [y] = twins[..] {
                    acc.add("surviving opaque nodes", 1);
                    if got.get(&x) != Some(&y) {
                        v.push(format!("opaque a{x} is matched to {:?} while its own content survives as b{y} beneath the same parent", got.get(&x)));
                    }
                }
            }
            acc.distinct.insert(c.key());
            v
        },
    );
    cx.finish(
        RULE,
        &[
            ("opaque nodes present", 1000),
            ("opaque nodes held in place", 1000),
            ("surviving opaque nodes", 10_000),
            ("roots that become opaque", 1000),
        ],
    )
}

fn mutate_inside(r: &mut Rng, n: &mut SNode, next: &mut u32) {
    let ps: Vec<_> = paths(n);
    let q = r.pick(&ps).clone();
    let t = at_mut(n, &q);
    *next += 1;
    if t.kind.leaf_only() {
        t.text = Some(*next);
    } else if t.children.len() > 1 && r.chance(1, 2) {
        let k = r.below(t.children.len());
        t.children.remove(k);
    } else {
        let k = r.below(t.children.len() + 1);
        t.children.insert(k, SNode::el(r.below(3) as u8, vec![SNode::txt(200, *next)]));
    }
}

fn digest_of(o: &Outcome) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    o.pairs.hash(&mut h);
    o.ops.hash(&mut h);
    h.finish()
}

/// `digest`: prints one digest per block of cases – compared across processes and builds.
pub fn digest_lines(seed: u64, blocks: u64, per: u64) -> Vec<String> {
    (0..blocks).map(|b| digest_block(seed, b, per)).collect()
}

pub fn digest_block(seed: u64, b: u64, per: u64) -> String {
    let mut h = 0u64;
    for i in 0..per {
        let c = std_case(seed, 0xd16, b * per + i, Flavor::Mixed);
        h = mix(h, match guarded(|| digest_of(&c.run().2)) {
            Ok(d) => d,
            Err(m) => {
                eprintln!("case {}: {m}", b * per + i);
                0xbad
            }
        });
    }
    format!("block {b} {h:016x}")
}

fn child_digest(exe: &str, seed: u64, blocks: u64, per: u64, extra: &[&str]) -> Result<Vec<String>, String> {
    let out = std::process::Command::new(exe)
        .args(["digest", &seed.to_string(), &blocks.to_string(), &per.to_string()])
        .args(extra)
        .output()
        .map_err(|e| format!("cannot run {exe}: {e}"))?;
    if !out.status.success() {
        return Err(format!("child exited with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    Ok(String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()).collect())
}

/// C07: determinism, history independence, concurrency.
pub fn c07(cx: &Ctx) -> i32 {
    // (a) repeated on one thread, with unrelated work in between
    cx.cases(
        "repeat after unrelated work",
        cx.scale(30_000, 400_000),
        |i| Some(std_case(cx.seed, 707, i, Flavor::Mixed)),
        |c, acc| {
            let (_, _, o1) = c.run();
            let mut other = std_case(cx.seed, 708, c.seed % 100_000, Flavor::Mixed);
            other.seed = 1;
            let _ = other.run();
            let (_, _, o2) = c.run();
            if !o1.ops.is_empty() && acc.distinct.insert(c.key()) {
                acc.add("scripts repeated", 1);
                acc.sample(|| c.show());
            }
            if o1 != o2 { vec![format!("same input, different result: {:?} vs {:?}", o1.ops, o2.ops)] } else { vec![] }
        },
    );
    // (b) many threads share the same trees
    let rounds = cx.scale(12, 120);
    for round in 0..rounds {
        if cx.stop.load(Ordering::SeqCst) || cx.elapsed() > cx.deadline() {
            break;
        }
        let cases: Vec<Case> = (0..400).map(|i| std_case(cx.seed, 800 + round, i, Flavor::Mixed)).collect();
        let built: Vec<(BuiltO, BuiltO)> = cases
            .iter()
            .map(|c| {
                let (fa, fb) = c.flats();
                let mut r = Rng::new(c.seed);
                (build_o(&fa, c.la, &mut r), build_o(&fb, c.lb, &mut r))
            })
            .collect();
        let run = |k: usize| {
            let (a, b) = &built[k];
            guarded(|| run_generic(&a.tree, &a.ids, &b.tree, &b.ids, &cfg(cases[k].threshold, cases[k].min_height)))
        };
        let base: Vec<_> = (0..cases.len()).map(run).collect();
        let threads = 12;
        let barrier = std::sync::Barrier::new(threads);
        let mismatches = std::sync::Mutex::new(vec![]);
        let ran = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (base, run, barrier, mismatches, ran) = (&base, &run, &barrier, &mismatches, &ran);
                s.spawn(move || {
                    let mut r = Rng::stream(t as u64, round, 3);
                    let mut order: Vec<usize> = (0..base.len()).collect();
                    if t % 2 == 0 {
                        r.shuffle(&mut order);
                    }
                    barrier.wait();
                    for k in order {
                        let o = run(k);
                        ran.fetch_add(1, Ordering::Relaxed);
                        if o != base[k] {
                            mismatches.lock().unwrap().push(k);
                        }
                        if r.chance(1, 16) {
                            std::thread::yield_now();
                        }
                    }
                });
            }
        });
        let mut acc = Acc::default();
        acc.evaluations = ran.load(Ordering::Relaxed);
        acc.add("concurrent diffs on shared trees", acc.evaluations);
        cx.merge(acc);
        if let Some(&k) = mismatches.lock().unwrap().first() {
            cx.violate(
                format!("a diff run beside {threads} other threads differs from the same diff run alone"),
                format!("family concurrent round {round}\n{}", cases[k].show()),
            );
        }
    }
    // (c) another process
    if !cx.stop.load(Ordering::SeqCst) {
        let exe = std::env::current_exe().unwrap().display().to_string();
        let (blocks, per) = (20, cx.scale(200, 2000));
        let here = digest_lines(cx.seed, blocks, per);
        for extra in [&["nosub"][..], &["reverse"][..]] {
            match child_digest(&exe, cx.seed, blocks, per, extra) {
                Ok(mut l) => {
                    if extra[0] == "reverse" {
                        l.reverse();
                    }
                    let mut acc = Acc::default();
                    acc.add("cross-process blocks compared", l.len() as u64);
                    acc.evaluations = blocks * per;
                    cx.merge(acc);
                    if l != here {
                        let d = l.iter().zip(&here).find(|(a, b)| a != b).map(|(a, b)| format!("{a} vs {b}"));
                        cx.violate("another process computes different results".into(), format!("family cross-process ({}) {d:?}", extra[0]));
                    }
                }
                Err(m) => cx.violate("another process fails on the same inputs".into(), m),
            }
        }
    }
    cx.finish(
        "the same tree pair diffed twice with unrelated diffs in between, by 12 threads sharing the trees (barrier start, shuffled order), and in separate processes \
         (same and reversed order); whole result sequences compared; non-trivial when the script is non-empty",
        &[("scripts repeated", 1000), ("concurrent diffs on shared trees", 1000), ("cross-process blocks compared", 20)],
    )
}

/// C08: navigation primitives.
pub fn c08(cx: &Ctx) -> i32 {
    fn check_tree(f: &Flat, b: &Built, exact_count: bool) -> Vec<String> {
        let t = &b.tree;
        let ids = &b.ids;
        let back: std::collections::HashMap<_, _> = ids.iter().enumerate().map(|(i, &x)| (x, i)).collect();
        let mut v = vec![];
        let ix = |it: &mut dyn Iterator<Item = cinereus::indextree::NodeId>, cap: usize| -> Vec<usize> {
            it.take(cap + 2).map(|x| back.get(&x).copied().unwrap_or(usize::MAX)).collect()
        };
        macro_rules! expect {
            ($what:expr, $got:expr, $want:expr) => {
                let (g, w) = ($got, $want);
                if g != w {
                    v.push(format!("{} is {:?}, should be {:?}", $what, g, w));
                }
            };
        }
        let all: Vec<usize> = (0..f.len()).collect();
        let n = f.len();
        expect!("root()", back.get(&DiffTree::root(t)).copied(), Some(0));
        expect!("iter()", ix(&mut t.iter(), n), all.clone());
        expect!("DiffTree::iter()", ix(&mut DiffTree::iter(t), n), all.clone());
        expect!("post_order()", ix(&mut t.post_order(), n), f.postorder());
        expect!("DiffTree::post_order()", ix(&mut DiffTree::post_order(t), n), f.postorder());
        if exact_count {
            expect!("node_count()", DiffTree::node_count(t), n);
        }
        for i in 0..n {
            let id = ids[i];
            let x = &f.n[i];
            expect!(format!("parent({i})"), t.parent(id).map(|p| back.get(&p).copied()), x.parent.map(Some));
            expect!(format!("DiffTree::parent({i})"), DiffTree::parent(t, id).map(|p| back.get(&p).copied()), x.parent.map(Some));
            expect!(format!("children({i})"), ix(&mut t.children(id), n), x.children.clone());
            expect!(format!("DiffTree::children({i})"), ix(&mut DiffTree::children(t, id), n), x.children.clone());
            expect!(format!("child_count({i})"), t.child_count(id), x.children.len());
            expect!(format!("DiffTree::child_count({i})"), DiffTree::child_count(t, id), x.children.len());
            expect!(format!("position({i})"), t.position(id), x.pos);
            expect!(format!("DiffTree::position({i})"), DiffTree::position(t, id), x.pos);
            expect!(format!("height({i})"), t.height(id), x.height);
            expect!(format!("DiffTree::height({i})"), DiffTree::height(t, id), x.height);
            let want: Vec<usize> = (i..i + x.size).collect();
            expect!(format!("descendants({i})"), ix(&mut t.descendants(id), n), want.clone());
            expect!(format!("DiffTree::descendants({i})"), ix(&mut DiffTree::descendants(t, id), n), want);
            let d = t.get(id);
            expect!(format!("data({i})"), (d.hash.0, d.kind, d.properties.0.clone(), d.text.clone()), (x.hash, x.kind, x.props.clone(), x.text.clone()));
            expect!(
                format!("DiffTree data({i})"),
                (DiffTree::hash(t, id).0, *DiffTree::kind(t, id), DiffTree::properties(t, id).0.clone(), DiffTree::text(t, id).cloned()),
                (x.hash, x.kind, x.props.clone(), x.text.clone())
            );
            expect!(format!("is_opaque({i})"), DiffTree::is_opaque(t, id), false);
            if v.len() > 5 {
                break;
            }
        }
        v
    }
    cx.cases(
        "static trees in all layouts",
        cx.scale(60_000, 400_000),
        |i| Some(std_case(cx.seed, 88, i, Flavor::Props)),
        |c, acc| {
            let fa = Flat::of(&c.a, c.hash);
            let mut r = Rng::new(c.seed);
            let mut v = vec![];
            for l in LAYOUTS {
                let b = build(&fa, l, &mut r);
                v.extend(check_tree(&fa, &b, l != Layout::Holes).into_iter().map(|m| format!("layout {l:?}: {m}")));
                acc.add("nodes checked", fa.len() as u64);
            }
            // the trait's default methods over an independent representation
            let vt = VTree::new(&fa, "old", 2, true, u64::MAX, &mut r);
            for (i, &id) in vt.ids.iter().enumerate() {
                if vt.position(id) != fa.n[i].pos {
                    v.push(format!("default position({i}) is {}, should be {}", vt.position(id), fa.n[i].pos));
                }
                if vt.child_count(id) != fa.n[i].children.len() {
                    v.push(format!("default child_count({i}) is {}", vt.child_count(id)));
                }
            }
            if fa.len() > 1 && acc.distinct.insert(fa.n[0].full) && fa.len() < 12 {
                acc.sample(|| c.a.show());
            }
            v
        },
    );
    cx.cases(
        "deep and wide",
        cx.scale(60, 600),
        |i| {
            let mut c = degenerate_case(cx.seed, i, 1500);
            if i % 20 == 7 {
                let mut r = Rng::stream(cx.seed, 78, i);
                c.a = degenerate(&mut r, 7, 4000 + 600 * (i as usize / 20));
            }
            Some(c)
        },
        |c, acc| {
            let fa = Flat::of(&c.a, c.hash);
            let mut r = Rng::new(c.seed);
            acc.max("depth", fa.n[0].height as u64);
            acc.distinct.insert(fa.n[0].full);
            check_tree(&fa, &build(&fa, Layout::Preorder, &mut r), true)
        },
    );
    // growth histories: after every add the whole tree is re-observed
    cx.cases(
        "growth histories",
        cx.scale(600, 10_000),
        |i| {
            let mut c = std_case(cx.seed, 89, i, Flavor::Props);
            c.b = c.a.clone();
            Some(c)
        },
        |c, acc| {
            let mut r = Rng::new(c.seed);
            let p = Params { kinds: 3, rich: false, texts: 5, max_nodes: 1, max_kids: 1, props: 2, vals: 3, opaque_pct: 0 };
            let mut spec = SNode::el(0, vec![]);
            let f0 = Flat::of(&spec, HashMode::Collide(16));
            let mut tree = RTree::new(node_data(&f0.n[0]));
            // ids by path
            let mut idmap: std::collections::HashMap<Vec<usize>, cinereus::indextree::NodeId> = Default::default();
            idmap.insert(vec![], tree.root);
            for step in 0..r.range(3, 25) {
                let ps: Vec<_> = paths(&spec).into_iter().filter(|q| !at(&spec, q).kind.leaf_only()).collect();
                let q = r.pick(&ps).clone();
                let leaf = rand_leaf(&mut r, &p);
                let k = at(&spec, &q).children.len();
                let mut one = Flat::of(&leaf, HashMode::Collide(16));
                // the hash of a stored node does not change when children arrive: store 0 everywhere
                one.n[0].hash = 0;
                let id = tree.add_child(idmap[&q], node_data(&one.n[0]));
                at_mut(&mut spec, &q).children.push(leaf);
                let mut qq = q.clone();
                qq.push(k);
                idmap.insert(qq, id);
                let mut f = Flat::of(&spec, HashMode::Collide(16));
                let root_hash = f0.n[0].hash;
                for n in f.n.iter_mut() {
                    n.hash = 0;
                }
                f.n[0].hash = root_hash;
                let ids: Vec<_> = paths(&spec).iter().map(|q| idmap[q]).collect();
                // borrow dance: Built owns its tree
                let b = Built { tree, ids };
                let v = check_tree(&f, &b, true);
                tree = b.tree;
                acc.add("history steps observed", 1);
                if !v.is_empty() {
                    return vec![format!("after {} additions: {}", step + 1, v.join("; "))];
                }
            }
            acc.distinct.insert(mix(c.seed, 1));
            vec![]
        },
    );
    cx.finish(
        "random trees in five arena layouts (preorder, breadth-first, random order, holes and reused slots, root allocated last), deep and wide shapes, and growth \
         histories re-observed after each added child; every navigation method compared with a table computed from the nested value; distinct by tree",
        &[("nodes checked", 10_000), ("history steps observed", 1000), ("depth", 300)],
    )
}

/// C10: totality and bounded work.
pub fn c10(cx: &Ctx) -> i32 {
    let monitored = |c: &Case, acc: &mut Acc| {
        let (o, steps, budget) = run_monitored(c);
        acc.add("tree accesses counted", steps);
        acc.max("permille of the step budget used", steps * 1000 / budget.max(1));
        let (fa, fb) = c.flats();
        let mut v = vec![];
        if matches!(c.hash, HashMode::Collide(_)) {
            acc.add("runs with colliding hashes", 1);
        }
        v.extend(o.foreign.clone());
        if o.ops.len() > 3 * (fa.len() + fb.len()) {
            v.push(format!("{} operations for trees of {} and {} nodes", o.ops.len(), fa.len(), fb.len()));
        }
        if !o.ops.is_empty() && acc.distinct.insert(c.key()) && fa.len() < 8 && fb.len() < 8 {
            acc.sample(|| format!("{} -> {steps} accesses of {budget}", c.show()));
        }
        v
    };
    let real = |c: &Case, acc: &mut Acc| {
        let (fa, fb, o) = c.run();
        acc.max("nodes", (fa.len() + fb.len()) as u64);
        acc.max("depth", fa.n[0].height.max(fb.n[0].height) as u64);
        acc.distinct.insert(c.key());
        o.foreign
    };
    cx.cases(
        "monitored, colliding hashes",
        cx.scale(40_000, 800_000),
        |i| {
            let mut c = std_case(cx.seed, 1010, i, Flavor::Mixed);
            c.hash = HashMode::Collide((i % 7) as u32);
            Some(c)
        },
        &monitored,
    );
    cx.cases("monitored, lawful hashes", cx.scale(40_000, 800_000), |i| Some(std_case(cx.seed, 1011, i, Flavor::Mixed)), &monitored);
    cx.cases("monitored, degenerate", cx.scale(300, 4000), |i| Some(degenerate_case(cx.seed, i, 150)), &monitored);
    cx.cases(
        "real tree, colliding hashes",
        cx.scale(20_000, 400_000),
        |i| {
            let mut c = std_case(cx.seed, 1012, i, Flavor::Mixed);
            c.hash = HashMode::Collide((i % 5) as u32);
            Some(c)
        },
        &real,
    );
    // deep and wide on the real tree
    cx.cases(
        "real tree, extreme shapes",
        cx.scale(14, 42),
        |i| {
            let mut r = Rng::stream(cx.seed, 1013, i);
            let n = if cx.thorough { 1500 } else { 700 };
            let a = degenerate(&mut r, i as usize, n);
            let b = degenerate(&mut r, i as usize + (i as usize / 7), n - 3);
            Some(Case { a, b, threshold: 0.5, min_height: (i % 2) as usize, hash: HashMode::NoProps, la: Layout::Preorder, lb: Layout::Preorder, seed: i })
        },
        &real,
    );
    cx.finish(
        "random, mutated, degenerate and extreme tree pairs with lawful hashes and with hashes truncated to 0-6 bits, on an independent tree that counts every access, \
         rejects identifiers of the other tree and stops a run after 64*(n+m+2)^3 accesses, and on the real tree; non-trivial when the script is non-empty",
        &[("runs with colliding hashes", 1000), ("tree accesses counted", 1_000_000), ("depth", 300)],
    )
}

/// C11: observability features and counters.
pub fn c11(cx: &Ctx) -> i32 {
    let featured = std::env::var("CINMON_FEATURED").expect("CINMON_FEATURED");
    let (blocks, per) = (40, cx.scale(300, 6000));
    let plain = digest_lines(cx.seed, blocks, per);
    let mut acc = Acc::default();
    for (name, extra) in [("subscriber at trace level", "sub"), ("subscriber that rejects everything", "rejectsub"), ("no subscriber", "nosub")] {
        match child_digest(&featured, cx.seed, blocks, per, &[extra, "stats"]) {
            Ok(lines) => {
                let mut it: Vec<String> = vec![];
                for l in lines {
                    if let Some(m) = l.strip_prefix("STATSVIOLATION ") {
                        cx.violate(m.to_string(), format!("family counters ({name}) {m}"));
                    } else if let Some(n) = l.strip_prefix("EVENTS ") {
                        let n: u64 = n.parse().unwrap_or(0);
                        if extra == "sub" {
                            acc.add("trace events delivered to the subscriber", n);
                        }
                    } else if let Some(n) = l.strip_prefix("STATS ") {
                        acc.add("counter snapshots checked", n.parse().unwrap_or(0));
                    } else {
                        it.push(l);
                    }
                }
                acc.evaluations += blocks * per;
                acc.add("result blocks compared with the plain build", it.len() as u64);
                for k in 0..it.len() {
                    acc.distinct.insert(mix(k as u64, extra.len() as u64));
                }
                if it != plain {
                    let d = it.iter().zip(&plain).find(|(a, b)| a != b).map(|(a, b)| format!("{a} vs {b}"));
                    cx.violate(format!("results change when built with statistics and tracing ({name})"), format!("family digests ({name}) {d:?}"));
                }
            }
            Err(m) => cx.violate(format!("the instrumented build fails ({name})"), m),
        }
    }
    acc.samples.push(format!("{} == {}", plain[0], "same block in the instrumented build"));
    cx.merge(acc);
    // position counters: exact, per thread, resettable
    cx.cases(
        "position counters",
        cx.scale(3000, 60_000),
        |i| Some(std_case(cx.seed, 1111, i, Flavor::Plain)),
        |c, acc| {
            let fa = Flat::of(&c.a, c.hash);
            let mut r = Rng::new(c.seed);
            let vt = VTree::new(&fa, "old", 0, false, u64::MAX, &mut r);
            let mut v = vec![];
            cinereus::reset_position_counters();
            if cinereus::get_position_stats() != (0, 0) {
                v.push(format!("after a reset the counters read {:?}", cinereus::get_position_stats()));
            }
            let (mut calls, mut scanned) = (0u64, 0u64);
            for _ in 0..r.range(1, 30) {
                let i = r.below(fa.len());
                let _ = vt.position(vt.ids[i]);
                calls += 1;
                if fa.n[i].parent.is_some() {
                    scanned += fa.n[i].pos as u64 + 1;
                }
                if cinereus::get_position_stats() != (calls, scanned) {
                    v.push(format!("counters read {:?} after {calls} calls scanning {scanned} siblings", cinereus::get_position_stats()));
                    break;
                }
                acc.add("counter readings", 1);
            }
            acc.distinct.insert(c.key());
            v
        },
    );
    if !cx.stop.load(Ordering::SeqCst) {
        let fa = Flat::of(&SNode::parse("k0[k0 k0 k0]"), HashMode::NoProps);
        let mut r = Rng::new(1);
        let vt = VTree::new(&fa, "old", 0, false, u64::MAX, &mut r);
        cinereus::reset_position_counters();
        let _ = vt.position(vt.ids[2]);
        let before = cinereus::get_position_stats();
        let other = std::thread::scope(|s| {
            s.spawn(|| {
                let start = cinereus::get_position_stats();
                let _ = vt.position(vt.ids[3]);
                (start, cinereus::get_position_stats())
            })
            .join()
            .unwrap()
        });
        if before != (1, 2) || other != ((0, 0), (1, 3)) || cinereus::get_position_stats() != before {
            cx.violate("position counters are not per thread".into(), format!("{before:?} {other:?} {:?}", cinereus::get_position_stats()));
        }
    }
    cx.finish(
        "blocks of random tree pairs diffed by the plain build and by a build with statistics and tracing on (subscriber formatting every event, a rejecting subscriber, \
         no subscriber), digests of whole results compared; statistics and position counters compared with bounds/exact values after resets; distinct = blocks and position cases",
        &[("trace events delivered to the subscriber", 1000), ("counter snapshots checked", 1000), ("counter readings", 1000), ("result blocks compared with the plain build", 100)],
    )
}

fn sets(o: &Outcome) -> (Vec<(usize, usize)>, Vec<Op>) {
    let mut p = o.pairs.clone();
    p.sort();
    let mut q = o.ops.clone();
    q.sort();
    (p, q)
}

/// C12: representation independence.
pub fn c12(cx: &Ctx) -> i32 {
    let check = |c: &Case, acc: &mut Acc| {
        let (fa, fb) = c.flats();
        let mut r = Rng::new(c.seed);
        let k = cfg(c.threshold, c.min_height);
        let base_a = build_o(&fa, Layout::Preorder, &mut r);
        let base_b = build_o(&fb, Layout::Preorder, &mut r);
        let base = run_generic(&base_a.tree, &base_a.ids, &base_b.tree, &base_b.ids, &k);
        let want = sets(&base);
        let mut v = base.api.clone();
        let mut cmp = |name: &str, o: Outcome, v: &mut Vec<String>| {
            acc.add("representations compared", 1);
            if sets(&o) != want {
                v.push(format!("{name}: result differs from the preorder-built tree: {:?} vs {:?}", o.ops, base.ops));
            }
        };
        let alt_a = build_o(&fa, c.la, &mut r);
        let alt_b = build_o(&fb, c.lb, &mut r);
        cmp("other arena layout", run_generic(&alt_a.tree, &alt_a.ids, &alt_b.tree, &alt_b.ids, &k), &mut v);
        let va = VTree::new(&fa, "old", 1, true, u64::MAX, &mut r);
        let vb = VTree::new(&fb, "new", fa.len() + 5, true, u64::MAX, &mut r);
        cmp("independent tree type", run_generic(&va, &va.ids, &vb, &vb.ids, &k), &mut v);
        cmp("mixed tree types (own, independent)", run_generic(&alt_a.tree, &alt_a.ids, &vb, &vb.ids, &k), &mut v);
        cmp("mixed tree types (independent, own)", run_generic(&va, &va.ids, &alt_b.tree, &alt_b.ids, &k), &mut v);
        let (e1, e2) = run_entry_points(&alt_a.tree, &alt_a.ids, &alt_b.tree, &alt_b.ids, &k);
        let mut e2 = e2;
        e2.sort();
        if e2 != want.1 {
            v.push("the one-call entry point returns a different script".into());
        }
        cmp("one-call entry point with matching", e1, &mut v);
        if !fa.n.iter().chain(&fb.n).any(|n| n.opaque) {
            let pa = build(&fa, c.lb, &mut r);
            let pb = build(&fb, c.la, &mut r);
            cmp("plain tree without opaque marks", run_generic(&pa.tree, &pa.ids, &pb.tree, &pb.ids, &k), &mut v);
        }
        if !base.ops.is_empty() && acc.distinct.insert(c.key()) && fa.len() + fb.len() < 20 {
            acc.sample(|| c.show());
        }
        v
    };
    cx.cases("random", cx.scale(160_000, 1_200_000), |i| Some(std_case(cx.seed, 1212, i, Flavor::Mixed)), &check);
    cx.cases("degenerate", cx.scale(200, 3000), |i| Some(degenerate_case(cx.seed, i, 100)), &check);
    cx.finish(
        "each random tree pair is diffed as trees built in preorder, in other arena layouts (holes, reused slots, random order), as an independent tree type relying on the trait's \
         default methods, as a mix of both types, and through each public entry point; matchings and scripts compared as sets after translating ids; non-trivial when the script is non-empty",
        &[("representations compared", 10_000)],
    )
}

/// C14: locality of single edits on trees of distinguishable nodes.
pub fn c14(cx: &Ctx) -> i32 {
    use std::collections::BTreeMap;
    let make = |i: u64| -> Option<(Case, Vec<Op>, &'static str)> {
        let mut r = Rng::stream(cx.seed, 1414, i);
        let p = Params { opaque_pct: 0, rich: r.chance(1, 8), ..random_params(&mut r, false) };
        let mut next = 10u32;
        let mut a = distinct_tree(&mut r, &p, &mut next);
        if i % 200 == 7 {
            // a wide list of distinguishable sections
            let n = if r.chance(1, 8) { r.range(250, 300) } else { r.range(20, 90) };
            let q = Params { max_nodes: 4, ..p.clone() };
            a = SNode::el(0, (0..n).map(|_| {
                let mut t = distinct_tree(&mut r, &q, &mut next);
                if t.kind.leaf_only() {
                    t = SNode::el(1, vec![t]);
                }
                t
            }).collect());
        }
        if a.kind.leaf_only() {
            return None;
        }
        let mut b = a.clone();
        let hash = if r.chance(1, 3) { HashMode::WithProps } else { HashMode::NoProps };
        let threshold: f64 = *r.pick(&[0.5, 0.5, 0.5, 0.25, 0.75, 1.0]);
        let min_height = *r.pick(&[0, 1]);
        let ps = paths(&a);
        let fresh = |next: &mut u32, r: &mut Rng, p: &Params| {
            // element with children, all texts new
            let mut t = distinct_tree(r, &Params { max_nodes: 5, ..p.clone() }, next);
            if t.kind.leaf_only() {
                t.text = Some(*next);
                *next += 1;
            }
            t
        };
        let path = if i % 200 == 7 && r.chance(2, 3) { vec![] } else { r.pick(&ps).clone() };
        let fa = Flat::of(&a, hash);
        let ix: BTreeMap<Vec<usize>, usize> = ps.iter().cloned().zip(0..).collect();
        let ia = ix[&path];
        let is_el = !at(&a, &path).kind.leaf_only();
        // position of every following sibling must be guarded by its own subtree hash
        let robust = |q: &[usize]| at(&a, q).children.iter().all(|c| !c.children.is_empty());
        let name;
        enum E {
            Txt,
            Upd,
            Ins(usize, usize), // parent (old index), position
            Del,
            Swap(usize, usize),
        }
        let e = match r.below(8) {
            0 | 1 => {
                let n = at_mut(&mut b, &path);
                n.text?;
                n.text = Some(next + 5);
                name = "text change";
                E::Txt
            }
            2 => {
                let n = at_mut(&mut b, &path);
                if n.kind.has_text() {
                    return None;
                }
                let old = n.props.clone();
                let mut np = old.clone();
                match r.below(3) {
                    0 => np.push((50, 1)),
                    1 if !np.is_empty() => {
                        let k = r.below(np.len());
                        np[k].1 += 100;
                    }
                    _ if !np.is_empty() => {
                        let k = r.below(np.len());
                        np.remove(k);
                    }
                    _ => return None,
                }
                if prop_similarity(&old, &np) < threshold {
                    return None;
                }
                n.props = np;
                name = "property change";
                E::Upd
            }
            3 | 4 => {
                if !is_el {
                    return None;
                }
                let sub = if r.chance(1, 2) { SNode::txt(200, next + 7) } else { fresh(&mut next, &mut r, &p) };
                let n = at_mut(&mut b, &path);
                let k = n.children.len();
                n.children.push(sub);
                name = "append";
                E::Ins(ia, k)
            }
            5 => {
                if !is_el || !robust(&path) {
                    return None;
                }
                let sub = fresh(&mut next, &mut r, &p);
                if sub.children.is_empty() {
                    return None;
                }
                let n = at_mut(&mut b, &path);
                let k = r.below(n.children.len() + 1);
                n.children.insert(k, sub);
                name = "insert between";
                E::Ins(ia, k)
            }
            6 => {
                if path.is_empty() {
                    return None;
                }
                let (last, par) = path.split_last().unwrap();
                let n_sib = at(&a, par).children.len();
                if *last + 1 != n_sib && !robust(par) {
                    return None;
                }
                at_mut(&mut b, par).children.remove(*last);
                name = "delete";
                E::Del
            }
            _ => {
                if !is_el || !robust(&path) || at(&a, &path).children.len() < 2 {
                    return None;
                }
                let n = at_mut(&mut b, &path);
                let m = n.children.len();
                let (x, y) = (r.below(m), r.below(m));
                if x == y {
                    return None;
                }
                n.children.swap(x, y);
                name = "swap";
                E::Swap(x, y)
            }
        };
        let fb = Flat::of(&b, hash);
        // index of old nodes in the new tree, by construction of the edit
        let mut want: Vec<Op> = vec![];
        match e {
            E::Txt => want.push(Op::Txt { a: ia, b: ia, text: fb.n[ia].text.clone().unwrap() }),
            E::Upd => {
                let (x, y) = (&fa.n[ia].props, &fb.n[ia].props);
                want.push(Op::Upd { a: ia, b: ia, changes: y.iter().map(|&(k, v)| (k, if x.contains(&(k, v)) { None } else { Some(v) })).collect() });
            }
            E::Ins(par, k) => {
                // par has the same preorder index in both trees
                let first = fb.n[par].children[k];
                for j in first..first + fb.n[first].size {
                    want.push(Op::Ins { b: j, parent: fb.n[j].parent.unwrap(), pos: fb.n[j].pos, kind: fb.n[j].kind });
                }
                for (q, &c) in fa.n[par].children.iter().enumerate().skip(k) {
                    want.push(Op::Mov { a: c, b: fb.n[par].children[q + 1], parent: par, pos: q + 1 });
                }
            }
            E::Del => {
                for j in ia..ia + fa.n[ia].size {
                    want.push(Op::Del { a: j });
                }
                let par = fa.n[ia].parent.unwrap();
                for (q, &c) in fa.n[par].children.iter().enumerate().skip(fa.n[ia].pos + 1) {
                    want.push(Op::Mov { a: c, b: fb.n[par].children[q - 1], parent: par, pos: q - 1 });
                }
            }
            E::Swap(x, y) => {
                for (from, to) in [(x, y), (y, x)] {
                    want.push(Op::Mov { a: fa.n[ia].children[from], b: fb.n[ia].children[to], parent: ia, pos: to });
                }
            }
        }
        want.sort();
        let c = Case { a, b, threshold, min_height, hash, la: *r.pick(&LAYOUTS), lb: *r.pick(&LAYOUTS), seed: i };
        Some((c, want, name))
    };
    let memo = make;
    cx.cases_noshrink(
        "single edits",
        cx.scale(700_000, 4_000_000),
        |i| {
            memo(i).map(|(mut c, _, _)| {
                c.seed = i;
                c
            })
        },
        |c, acc| {
            let Some((_, want, name)) = memo(c.seed) else { return vec![] };
            let (fa, _, o) = c.run();
            let mut got = o.ops.clone();
            got.sort();
            acc.add(name, 1);
            if acc.distinct.insert(c.key()) && fa.len() < 12 {
                acc.sample(|| format!("{name}: {}", c.show()));
            }
            if got != want {
                let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(3).collect();
                let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(3).collect();
                vec![format!("single {name}: {} operations instead of {}; unexpected {extra:?}; missing {missing:?}", got.len(), want.len())]
            } else {
                vec![]
            }
        },
    );
    cx.finish(
        "random trees whose subtrees are all distinct, changed by exactly one edit (text, property within the similarity threshold, append, insertion or deletion among \
         siblings that have content of their own, swap of two such siblings); the script must be exactly the operations of that edit; distinct by pair+configuration",
        &[("text change", 500), ("property change", 500), ("append", 500), ("insert between", 200), ("delete", 500), ("swap", 200)],
    )
}
/// One line of counters printed by a child of this check: `NAME k=v k=v ...`.
fn parse_counts(line: &str) -> std::collections::BTreeMap<String, f64> {
    line.split_whitespace()
        .filter_map(|w| w.split_once('='))
        .filter_map(|(k, v)| Some((k.to_string(), v.parse().ok()?)))
        .collect()
}

/// C15: sanitizer builds (whose reports are the oracle) and the heap monitor.
pub fn c15(cx: &Ctx) -> i32 {
    let env = |k: &str| std::env::var(k).ok();
    let me = std::env::current_exe().unwrap().display().to_string();
    let seed = cx.seed.to_string();
    let text = |o: &std::process::Output| format!("{}\n{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    let report = |t: &str, marks: &[&str]| -> Option<String> {
        let i = marks.iter().filter_map(|m| t.find(m)).min()?;
        let from = t[..i].rfind('\n').map_or(0, |x| x + 1);
        Some(t[from..].chars().take(2500).collect())
    };
    // name, command line, environment, marks of a report
    let runs: Vec<(&'static str, Vec<String>, Vec<(&str, String)>, &[&str])> = vec![
        (
            "ThreadSanitizer",
            [env("CINMON_TSAN").unwrap_or_default(), "san".into(), seed.clone(), cx.scale(60, 1200).to_string(), "120".into(), "8".into(), "mixed".into()].to_vec(),
            vec![("TSAN_OPTIONS", "halt_on_error=1 history_size=7 exitcode=66".into())],
            &["WARNING: ThreadSanitizer", "ThreadSanitizer:", "unsafe precondition", "MISMATCH"],
        ),
        (
            "AddressSanitizer",
            [env("CINMON_ASAN").unwrap_or_default(), "san".into(), seed.clone(), cx.scale(80, 1600).to_string(), "120".into(), "8".into(), "mixed".into()].to_vec(),
            vec![("ASAN_OPTIONS", "detect_leaks=0 detect_stack_use_after_return=1".into())],
            &["ERROR: AddressSanitizer", "AddressSanitizer:", "unsafe precondition", "MISMATCH"],
        ),
        (
            "unchecked-use checks",
            [me.clone(), "san".into(), seed.clone(), cx.scale(300, 6000).to_string(), "200".into(), "8".into(), "mixed".into()].to_vec(),
            vec![],
            &["unsafe precondition", "MISMATCH"],
        ),
        (
            "Miri",
            ["cargo", "+nightly", "miri", "run", "--offline", "--features", "stats", "--target-dir", "/verif/cin/target/miri", "--", "san", &seed, "1", &cx.scale(8, 40).to_string(), "3", "tiny"]
                .iter()
                .map(|s| s.to_string())
                .collect(),
            vec![("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-many-seeds=0..{}", cx.scale(4, 16)))],
            &["error: Undefined Behavior", "MISMATCH"],
        ),
        ("heap monitor", [me.clone(), "heap".into(), seed.clone(), "12".into(), cx.scale(2000, 30000).to_string()].to_vec(), vec![], &[]),
    ];
    std::thread::scope(|s| {
        for (name, argv, envs, marks) in &runs {
            let (text, report) = (&text, &report);
            s.spawn(move || {
                let out = std::process::Command::new("timeout")
                    .arg("760")
                    .args(argv)
                    .envs(envs.iter().map(|(k, v)| (k, v)))
                    .output();
                let note = |m: String| cx.st.lock().unwrap().inconclusive.push(m);
                let Ok(out) = out else { return note(format!("{name}: cannot run {argv:?}")) };
                let t = text(&out);
                if let Some(r) = report(&t, marks) {
                    cx.violate(format!("{name} reports: {}", r.lines().next().unwrap_or("")), format!("command {argv:?}\n{r}"));
                    return;
                }
                let mut acc = Acc::default();
                let lines: Vec<_> = t.lines().filter(|l| l.starts_with("SAN ") || l.starts_with("HEAP ")).map(parse_counts).collect();
                if !out.status.success() || lines.is_empty() {
                    use std::os::unix::process::ExitStatusExt;
                    let tail: String = t.chars().rev().take(800).collect::<String>().chars().rev().collect();
                    if matches!(out.status.signal(), Some(4 | 6 | 7 | 11)) || matches!(out.status.code(), Some(132 | 134 | 135 | 139)) {
                        cx.violate(format!("{name}: the process died: {:?}", out.status), format!("command {argv:?}\n{tail}"));
                    } else if *name == "Miri" {
                        // the interpreter may not know an operation; the other monitors decide then
                        eprintln!("note: no result from Miri ({:?}): {tail}", out.status);
                    } else {
                        note(format!("{name}: no result ({:?}): {tail}", out.status));
                    }
                    return;
                }
                for c in &lines {
                    let n = |k: &str| c.get(k).copied().unwrap_or(0.0);
                    acc.evaluations += n("diffs") as u64;
                    let k = |a, b, c, d, e| match *name {
                        "ThreadSanitizer" => a,
                        "AddressSanitizer" => b,
                        "Miri" => c,
                        "heap monitor" => d,
                        _ => e,
                    };
                    acc.add(k("diffs under ThreadSanitizer", "diffs under AddressSanitizer", "diffs under Miri", "diffs under the heap monitor", "diffs with unchecked-use checks"), n("diffs") as u64);
                    acc.add(k("operations under ThreadSanitizer", "operations under AddressSanitizer", "operations under Miri", "operations under the heap monitor", "operations with unchecked-use checks"), n("ops") as u64);
                    if *name != "heap monitor" {
                        acc.add(
                            k("overlapping diffs under ThreadSanitizer", "overlapping diffs under AddressSanitizer", "overlapping diffs under Miri", "", "overlapping diffs with unchecked-use checks"),
                            n("overlapping") as u64,
                        );
                        continue;
                    }
                    // growth has to go on, and to go with the number of diffs, to be a leak
                    let per = (n("last") - n("mid")) / n("second_half_diffs").max(1.0);
                    let dump = format!("command {argv:?}\n{t}");
                    if per >= 8.0 && n("mid") - n("first") >= 8.0 * n("second_half_diffs") * 0.5 {
                        cx.violate(format!("every diff leaves about {per:.0} bytes behind"), dump.clone());
                    }
                    if n("threads_growth") >= 64.0 * 64.0 {
                        cx.violate(format!("64 threads that ended left {} bytes behind", n("threads_growth")), dump.clone());
                    }
                    if n("peak_per_size_squared") > 128.0 {
                        cx.violate(format!("a diff used {:.0} bytes per squared node", n("peak_per_size_squared")), dump);
                    }
                    acc.max("bytes left after the heap workload", n("last").max(0.0) as u64);
                    acc.max("peak millibytes per squared node", (n("peak_per_size_squared") * 1000.0) as u64);
                }
                if *name == "unchecked-use checks" {
                    // the other builds run a part of the same pairs
                    acc.distinct.extend(0..lines.iter().map(|c| c.get("pairs").copied().unwrap_or(0.0) as u64).sum::<u64>());
                }
                acc.sample(|| format!("{name}: {}", t.lines().find(|l| l.starts_with("SAN ") || l.starts_with("HEAP ")).unwrap_or("")));
                cx.merge(acc);
            });
        }
    });
    cx.finish(
        "every diff counted here ran under the named monitor: 8 threads released by a barrier diff shared trees (two entry points) and trees of their own, in shuffled order, with statistics and \
         tracing on; the oracle is the monitor's report, differing results, or bytes that stay allocated and grow with the number of diffs; distinct_nontrivial counts the different pairs of unequal trees",
        &[
            ("diffs under ThreadSanitizer", 10_000),
            ("overlapping diffs under ThreadSanitizer", 1_000),
            ("diffs under AddressSanitizer", 10_000),
            ("diffs under the heap monitor", 10_000),
            ("diffs with unchecked-use checks", 10_000),
        ],
    )
}

/// A one-to-one correspondence of equal kinds that pairs the roots and never an opaque node with
/// one that is not: picked at random, by place, or the computed one with some pairs dropped and
/// others crossed. Listed in any order.
fn any_correspondence(fa: &Flat, fb: &Flat, c: &Case, r: &mut Rng) -> (Vec<(usize, usize)>, &'static str) {
    let fits = |a: usize, b: usize| {
        let (x, y) = (&fa.n[a], &fb.n[b]);
        (a == 0) == (b == 0) && x.kind == y.kind && x.opaque == y.opaque && x.inside_opaque == y.inside_opaque
    };
    let mut pairs: Vec<(usize, usize)> = vec![];
    let style = match r.below(4) {
        0 => {
            // anything goes
            let keep = r.range(1, 5);
            let mut bs: Vec<usize> = (1..fb.len()).collect();
            r.shuffle(&mut bs);
            let mut by: std::collections::HashMap<(Kind, bool, bool), Vec<usize>> = Default::default();
            for b in bs {
                let y = &fb.n[b];
                by.entry((y.kind, y.opaque, y.inside_opaque)).or_default().push(b);
            }
            for a in 1..fa.len() {
                let x = &fa.n[a];
                if let Some(l) = by.get_mut(&(x.kind, x.opaque, x.inside_opaque))
                    && r.chance(keep, 5)
                    && let Some(b) = l.pop()
                {
                    pairs.push((a, b));
                }
            }
            "random correspondences"
        }
        1 => {
            // what stands in the same place, where it can
            let mut st = vec![(0usize, 0usize)];
            while let Some((a, b)) = st.pop() {
                for (x, y) in fa.n[a].children.iter().zip(&fb.n[b].children) {
                    if fits(*x, *y) && r.chance(9, 10) {
                        pairs.push((*x, *y));
                        st.push((*x, *y));
                    }
                }
            }
            "correspondences by place"
        }
        _ => {
            let (_, _, o) = c.run();
            pairs = o.pairs.iter().copied().filter(|p| *p != (0, 0)).collect();
            for _ in 0..r.below(4) {
                if !pairs.is_empty() {
                    let k = r.below(pairs.len());
                    pairs.swap_remove(k);
                }
            }
            for _ in 0..r.below(6) {
                if pairs.len() > 1 {
                    let (i, j) = (r.below(pairs.len()), r.below(pairs.len()));
                    let (p, q) = (pairs[i], pairs[j]);
                    if i != j && fits(p.0, q.1) && fits(q.0, p.1) {
                        pairs[i].1 = q.1;
                        pairs[j].1 = p.1;
                    }
                }
            }
            "computed correspondences, crossed and thinned"
        }
    };
    pairs.retain(|&(a, b)| fits(a, b));
    pairs.push((0, 0));
    if r.chance(2, 3) {
        r.shuffle(&mut pairs);
    }
    (pairs, style)
}

/// C16: scripts for correspondences the caller brings along.
pub fn c16(cx: &Ctx) -> i32 {
    let make = |mut c: Case| {
        c.a.opaque = false;
        c.b.opaque = false;
        if c.a.kind != c.b.kind {
            c.b.kind = c.a.kind;
            c.b.text = c.a.text;
            if c.a.kind.leaf_only() {
                return None;
            }
        }
        Some(c)
    };
    let check = |c: &Case, acc: &mut Acc| {
        let (fa, fb) = c.flats();
        if fa.n[0].kind != fb.n[0].kind {
            return vec![];
        }
        let mut r = Rng::new(c.seed ^ 0xc16);
        let (pairs, style) = any_correspondence(&fa, &fb, c, &mut r);
        let room = match r.below(4) {
            0 => None,
            1 => Some((0, 0)),
            2 => Some((r.below(fa.len() + 1), r.below(2 * fb.len() + 1))),
            _ => Some((2 * fa.len() + 8, 2 * fb.len() + 8)),
        };
        let o = if c.seed % 8 == 0 && fa.len() + fb.len() < 300 {
            let mut ta = VTree::new(&fa, "old", 0, true, u64::MAX, &mut r);
            let mut tb = VTree::new(&fb, "new", fa.len() + 1, true, u64::MAX, &mut r);
            if r.chance(1, 2) {
                (ta, tb) = (ta.with_bfs(), tb.with_bfs());
            }
            acc.add("trees of the caller's own type", 1);
            run_supplied(&ta, &ta.ids, &tb, &tb.ids, &pairs, room)
        } else {
            let a = build_o(&fa, c.la, &mut r);
            let b = build_o(&fb, c.lb, &mut r);
            run_supplied(&a.tree, &a.ids, &b.tree, &b.ids, &pairs, room)
        };
        let mut v = o.api.clone();
        v.extend(exactness(&fa, &fb, &o));
        if v.is_empty() {
            v.extend(soundness(&fa, &fb, &o, c.threshold));
        }
        if v.is_empty() {
            let mut st = StepStats::default();
            v.extend(stepwise(&fa, &fb, &o, &mut st));
            acc.add("occupants displaced", st.displaced as u64);
        }
        if v.is_empty() {
            v.extend(updates_exact(&fa, &fb, &o));
        }
        acc.add(style, 1);
        if !o.ops.is_empty() && acc.distinct.insert(mix(c.key(), c.seed)) {
            acc.add("pairs entered", pairs.len() as u64);
            acc.add("operations observed", o.ops.len() as u64);
            // a pair whose ancestors are paired the other way round
            let ab: std::collections::HashMap<usize, usize> = pairs.iter().copied().collect();
            let inverted = pairs.iter().any(|&(a, b)| {
                let mut up = fa.n[a].parent;
                while let Some(x) = up {
                    if ab.get(&x).is_some_and(|&y| y != b && fb.within(y, b)) {
                        return true;
                    }
                    up = fa.n[x].parent;
                }
                false
            });
            if inverted {
                acc.add("correspondences that turn ancestors into descendants", 1);
            }
            if fa.len() + fb.len() < 20 {
                acc.sample(|| format!("{} pairs {pairs:?} -> {} operations", c.show(), o.ops.len()));
            }
        }
        v
    };
    let mut small: Vec<SNode> = vec![];
    for n in 1..=5 {
        small.extend(all_trees(n, &[0, 200]).into_iter().filter(|t| !t.kind.leaf_only()));
    }
    cx.cases(
        "small pairs",
        cx.scale(150_000, 1_500_000),
        |i| {
            let mut r = Rng::stream(cx.seed, 1601, i);
            let (a, b) = (r.pick(&small).clone(), r.pick(&small).clone());
            make(Case { a, b, threshold: 0.5, min_height: 1, hash: HashMode::NoProps, la: *r.pick(&LAYOUTS), lb: *r.pick(&LAYOUTS), seed: r.next() })
        },
        &check,
    );
    cx.cases("degenerate shapes", cx.scale(500, 5000), |i| make(degenerate_case(cx.seed, i, 150)), &check);
    cx.cases("random and mutated pairs", cx.scale(300_000, 6_000_000), |i| make(std_case(cx.seed, 1602, i, Flavor::Mixed)), &check);
    cx.finish(
        "tree pairs as in C01 with a correspondence entered by hand: random, by place, or the computed one thinned and crossed, in any order, into matchings \
         told to expect too little, enough or too much; distinct by trees, configuration and correspondence",
        &[("correspondences that turn ancestors into descendants", 1000), ("random correspondences", 1000), ("occupants displaced", 1000)],
    )
}
