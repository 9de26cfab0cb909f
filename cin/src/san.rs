//! Sanitized workloads (run in ThreadSanitizer, AddressSanitizer and Miri builds of this binary)
//! and the heap monitor. The workload adds no synchronisation of its own between the barrier and
//! the joins: only relaxed counters and per-thread results, so that a race in the code under test
//! is not hidden by the monitor.

use crate::checks::{Flavor, std_case};
use crate::generate::*;
use crate::harness::*;
use crate::rng::Rng;
use crate::sut::*;
use std::alloc::{GlobalAlloc, Layout as MemLayout, System};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Barrier;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

fn grew(by: i64, blocks: i64) {
    let l = LIVE.fetch_add(by, Relaxed) + by;
    BLOCKS.fetch_add(blocks, Relaxed);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: MemLayout) -> *mut u8 {
        if ON.load(Relaxed) {
            grew(l.size() as i64, 1);
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: MemLayout) {
        if ON.load(Relaxed) {
            grew(-(l.size() as i64), -1);
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: MemLayout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            grew(n as i64 - l.size() as i64, 0);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

fn digest(o: &Outcome) -> u64 {
    let mut h = DefaultHasher::new();
    o.pairs.hash(&mut h);
    o.ops.hash(&mut h);
    h.finish()
}

/// Small pairs for the interpreter: same families, few nodes.
fn tiny_case(seed: u64, stream: u64, i: u64) -> Case {
    let mut r = Rng::stream(seed, stream, i);
    let opaque = r.chance(1, 3);
    let mut p = random_params(&mut r, opaque);
    p.max_nodes = 4 + r.below(14);
    let a = rand_tree(&mut r, &p);
    let mut b = a.clone();
    for _ in 0..1 + r.below(4) {
        mutate(&mut r, &p, &mut b);
    }
    let mut c = std_case(seed, stream, i, Flavor::Mixed);
    c.a = a;
    c.b = b;
    c
}

/// `san <seed> <rounds> <pairs> <threads> <tiny|mixed>`
pub fn san(a: &[String]) -> i32 {
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let (seed, rounds, pairs, threads) = (n(0), n(1), n(2), n(3) as usize);
    let tiny = a[4] == "tiny";
    #[cfg(feature = "trace")]
    tracing::subscriber::set_global_default(crate::stats::sub::Sub { accept: !tiny }).unwrap();
    let (mut diffs, mut ops, mut overlapping, mut panics) = (0u64, 0u64, 0u64, 0u64);
    let mut distinct = std::collections::HashSet::new();
    for round in 0..rounds {
        let cases: Vec<Case> = (0..pairs)
            .map(|i| if tiny { tiny_case(seed, 0x5a0 + round, i) } else { std_case(seed, 0x5a0 + round, i, Flavor::Mixed) })
            .collect();
        let built: Vec<(BuiltO, BuiltO)> = cases
            .iter()
            .map(|c| {
                let (fa, fb) = c.flats();
                let mut r = Rng::new(c.seed);
                (build_o(&fa, c.la, &mut r), build_o(&fb, c.lb, &mut r))
            })
            .collect();
        let active = AtomicU64::new(0);
        let barrier = Barrier::new(threads);
        let results: Vec<(Vec<(usize, u64)>, u64, u64, u64)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (cases, built, active, barrier) = (&cases, &built, &active, &barrier);
                    s.spawn(move || {
                        let mut r = Rng::stream(seed, round * 1000 + t as u64, 9);
                        let mut order: Vec<usize> = (0..cases.len()).collect();
                        r.shuffle(&mut order);
                        let (mut out, mut over, mut nops, mut panics) = (vec![], 0, 0, 0);
                        barrier.wait();
                        for k in order {
                            let c = &cases[k];
                            let m = cfg(c.threshold, c.min_height);
                            if active.fetch_add(1, Relaxed) > 0 {
                                over += 1;
                            }
                            let o = guarded(|| {
                                if t % 3 == 2 {
                                    // this thread builds its own trees while others read shared ones
                                    c.run().2
                                } else {
                                    let (x, y) = &built[k];
                                    if t % 3 == 1 {
                                        run_entry_points(&x.tree, &x.ids, &y.tree, &y.ids, &m).0
                                    } else {
                                        run_generic(&x.tree, &x.ids, &y.tree, &y.ids, &m)
                                    }
                                }
                            });
                            active.fetch_sub(1, Relaxed);
                            #[cfg(feature = "stats")]
                            if r.chance(1, 4) {
                                let _ = cinereus::matching::get_stats();
                                cinereus::matching::reset_stats();
                            }
                            // a panic is C10's business, as long as it is the same everywhere
                            match o {
                                Ok(o) => {
                                    nops += o.ops.len() as u64;
                                    out.push((k, digest(&o)));
                                }
                                Err(_) => {
                                    panics += 1;
                                    out.push((k, 0));
                                }
                            }
                            if r.chance(1, 8) {
                                std::thread::yield_now();
                            }
                        }
                        (out, over, nops, panics)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker panicked")).collect()
        });
        let mut want = vec![None; cases.len()];
        distinct.extend(cases.iter().filter(|c| c.a != c.b).map(|c| c.key()));
        for (out, over, nops, b) in results {
            overlapping += over;
            ops += nops;
            panics += b;
            for (k, d) in out {
                diffs += 1;
                if *want[k].get_or_insert(d) != d {
                    println!("MISMATCH {}", cases[k].show().replace('\n', " | "));
                    return 7;
                }
            }
        }
    }
    println!("SAN diffs={diffs} ops={ops} overlapping={overlapping} threads={threads} panics={panics} pairs={}", distinct.len());
    0
}

/// `heap <seed> <batches> <pairs>`: memory still allocated after each batch of diffs over new trees.
pub fn heap(a: &[String]) -> i32 {
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let (seed, batches, pairs) = (n(0), n(1), n(2));
    let one = |stream: u64, i: u64| -> u64 {
        let c = std_case(seed, stream, i, Flavor::Mixed);
        let (_, _, o) = c.run();
        o.ops.len() as u64
    };
    // the largest trees first: buffers that are kept and reused have their final size early
    let big = |k: u64| {
        let mut r = Rng::stream(seed, 0x4ea8, k);
        let mut c = std_case(seed, 0x4ea9, k, Flavor::Mixed);
        c.a = degenerate(&mut r, k as usize % 6, 400);
        c.b = degenerate(&mut r, (k as usize + 1) % 6, 400);
        c.threshold = 0.5;
        let _ = c.run();
    };
    let mut live = Vec::with_capacity(batches as usize + 1);
    let mut worst_ratio = 0.0f64;
    let (mut diffs, mut ops) = (0u64, 0u64);
    ON.store(true, Relaxed);
    for k in 0..6 {
        big(k);
    }
    for b in 0..batches {
        for i in 0..pairs {
            ops += one(0x4eb0 + b, i);
            diffs += 1;
        }
        live.push(LIVE.load(Relaxed));
    }
    // short-lived threads: what belongs to a thread goes with it
    let before = LIVE.load(Relaxed);
    for t in 0..64 {
        std::thread::spawn(move || {
            let c = std_case(seed, 0x4ea7, t, Flavor::Mixed);
            let _ = c.run();
        })
        .join()
        .unwrap();
    }
    let threads_growth = LIVE.load(Relaxed) - before;
    // peak of single diffs against the size of the input
    for k in 0..(pairs / 4).max(40) {
        let c = if k < 24 {
            let mut r = Rng::stream(seed, 0x4eaa, k);
            let mut c = std_case(seed, 0x4eab, k, Flavor::Mixed);
            let n = [50, 100, 200, 400][k as usize / 6];
            c.a = degenerate(&mut r, k as usize % 6, n);
            c.b = degenerate(&mut r, (k as usize + k as usize / 6) % 6, n);
            c
        } else {
            std_case(seed, 0x4eac, k, Flavor::Mixed)
        };
        let (fa, fb) = c.flats();
        let mut r = Rng::new(c.seed);
        let (x, y) = (build_o(&fa, c.la, &mut r), build_o(&fb, c.lb, &mut r));
        let base = LIVE.load(Relaxed);
        PEAK.store(base, Relaxed);
        let m = cinereus::compute_matching(&x.tree, &y.tree, &cfg(c.threshold, c.min_height));
        let s = cinereus::generate_edit_script(&x.tree, &y.tree, &m);
        let peak = PEAK.load(Relaxed) - base;
        std::hint::black_box(&s);
        let size = (fa.len() + fb.len()) as f64;
        worst_ratio = worst_ratio.max(peak as f64 / (size * size.max(64.0)));
    }
    ON.store(false, Relaxed);
    let (first, mid, last) = (live[0], live[live.len() / 2], live[live.len() - 1]);
    println!(
        "HEAP diffs={diffs} ops={ops} batches={batches} first={first} mid={mid} last={last} second_half_diffs={} threads_growth={threads_growth} peak_per_size_squared={:.3}",
        (batches - 1 - batches / 2) * pairs,
        worst_ratio
    );
    0
}
