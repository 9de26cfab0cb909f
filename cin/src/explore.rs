//! Exploration mode (development aid): run all oracles over the generator families and print the
//! smallest failing case per oracle.
use crate::generate::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::sut::*;
use std::collections::BTreeMap;

pub fn pair(r: &mut Rng, opaque: bool) -> (SNode, SNode) {
    let p = random_params(r, opaque);
    let a = rand_tree(r, &p);
    let b = if r.chance(1, 5) {
        rand_tree(r, &p)
    } else {
        let mut b = a.clone();
        for _ in 0..1 + r.below(6) {
            mutate(r, &p, &mut b);
        }
        b
    };
    (a, b)
}

pub fn explore(seed: u64, n: u64, opaque: bool) {
    let mut best: BTreeMap<String, (usize, String)> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    for i in 0..n {
        let mut r = Rng::stream(seed, 1, i);
        let (a, b) = pair(&mut r, opaque);
        let fa = Flat::of(&a, HashMode::NoProps);
        let fb = Flat::of(&b, HashMode::NoProps);
        let th = *r.pick(&[0.5, 0.5, 0.5, 0.0, 0.25, 1.0]);
        let mh = *r.pick(&[1, 1, 1, 0, 2, 5]);
        let c = cfg(th, mh);
        let o = run_otree(&fa, &fb, Layout::Preorder, Layout::Bfs, &c, &mut r);
        let mut st = StepStats::default();
        let mut all = vec![
            ("C01", soundness(&fa, &fb, &o, th)),
            ("C02", matching_bijective(&fa, &fb, &o)),
            ("C04", exactness(&fa, &fb, &o)),
            ("C05", stepwise(&fa, &fb, &o, &mut st)),
            ("C06", opaque_atomic(&fa, &fb, &o)),
            ("C09", threshold_gate(&fa, &fb, &o, th, mh).0),
            ("C13", updates_exact(&fa, &fb, &o)),
        ];
        // identity
        let o2 = run_otree(&fa, &fa, Layout::Preorder, Layout::Bfs, &c, &mut r);
        if !o2.ops.is_empty() {
            let m = format!("identity {:?}", o2.ops);
            all.push(("C03", vec![m]));
        }
        for (id, v) in all {
            if !v.is_empty() {
                let key = format!("{id} {}", v[0].chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>());
                *counts.entry(key.clone()).or_default() += 1;
                let sz = fa.len() + fb.len();
                let e = best.entry(key).or_insert((usize::MAX, String::new()));
                if sz < e.0 {
                    *e = (sz, format!("th={th} mh={mh}\n  A {}\n  B {}\n  {:?}\n  ops {:?} pairs {:?}", a.show(), b.show(), v, o.ops, o.pairs));
                }
            }
        }
    }
    for (k, (sz, s)) in best {
        println!("== {k}: {} cases, smallest {sz}\n  {s}", counts[&k]);
    }
}
