//! H17: sanitized workloads on shared documents, and the heap monitor. Nothing here synchronises
//! the threads between the barrier and the joins, so that a race in the code under test is not
//! hidden by the monitor.
use crate::checks;
use crate::generate;
use crate::harness::*;
use crate::rng::Rng;
use crate::work::{self, Corpus};
use hotmeal::{Document, StrTendril, parse};
use hotmeal_server::LiveReloadServer;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::sync::Barrier;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static ASKED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Bytes this thread asked the allocator for so far.
pub fn asked() -> u64 {
    ASKED.get()
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ASKED.set(ASKED.get() + l.size() as u64);
        if ON.load(Relaxed) {
            LIVE.fetch_add(l.size() as i64, Relaxed);
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ASKED.set(ASKED.get() + n.saturating_sub(l.size()) as u64);
        if ON.load(Relaxed) {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static A: Counting = Counting;

fn small(seed: u64, stream: u64, i: u64, corpus: &Corpus, tiny: bool) -> generate::Docs {
    if !tiny {
        return work::case(seed, stream, i, corpus);
    }
    let mut r = Rng::stream(seed, stream, i);
    let st = *r.pick(&[generate::PLAIN, generate::DULL, generate::OPAQUE]);
    let mut b = generate::body(&mut r, st, 3);
    let f = r.below(4);
    let mut docs = vec![generate::page(&b, f)];
    for _ in 0..2 {
        generate::edit(&mut r, &mut b, st);
        docs.push(generate::page(&b, f));
    }
    generate::Docs { docs, opt: r.next(), how: "tiny", min: 2 }
}

/// `san <seed> <rounds> <chains> <threads> <tiny|mixed>`
pub fn san(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let (seed, rounds, chains, threads) = (n(0), n(1), n(2), n(3) as usize);
    let tiny = a[4] == "tiny";
    let corpus = if tiny { (vec![], vec![]) } else { generate::corpus() };
    let (mut units, mut patches, mut overlapping) = (0u64, 0u64, 0u64);
    let mut distinct = std::collections::HashSet::new();
    for round in 0..rounds {
        let cases: Vec<_> = (0..chains).map(|i| small(seed, 0x17a0 + round, i, &corpus, tiny)).collect();
        let ts: Vec<Vec<StrTendril>> = cases.iter().map(|c| c.docs.iter().map(|d| StrTendril::from(d.as_str())).collect()).collect();
        // half of the documents borrow from strings shared by all threads, half own theirs
        let docs: Vec<Vec<Document>> = ts.iter().enumerate().map(|(k, v)| v.iter().map(|t| if k % 2 == 0 { parse(t) } else { checks::rebuild(&parse(t), &mut Rng::stream(seed, 3, k as u64)) }).collect()).collect();
        let active = AtomicU64::new(0);
        let barrier = Barrier::new(threads);
        let results: Vec<(Vec<(usize, usize, u64)>, u64, u64)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (cases, docs, active, barrier) = (&cases, &docs, &active, &barrier);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut r = Rng::stream(seed, round * 1000 + t as u64, 9);
                            let mut order: Vec<usize> = (0..cases.len()).collect();
                            r.shuffle(&mut order);
                            let (mut out, mut over, mut np) = (vec![], 0, 0);
                            barrier.wait();
                            for k in order {
                                if active.fetch_add(1, Relaxed) > 0 {
                                    over += 1;
                                }
                                let alone = t % 3 == 2;
                                let (d, n) = work::digest(|mut o| if alone { work::whole(&cases[k], &mut o) } else { work::shared(&docs[k], &mut o) });
                                active.fetch_sub(1, Relaxed);
                                np += n;
                                out.push((k, alone as usize, d));
                                if r.chance(1, 8) {
                                    std::thread::yield_now();
                                }
                            }
                            (out, over, np)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker panicked")).collect()
        });
        let mut want = vec![[None; 2]; cases.len()];
        for (out, over, np) in results {
            overlapping += over;
            patches += np;
            for (k, kind, d) in out {
                units += 1;
                if *want[k][kind].get_or_insert(d) != d {
                    println!("MISMATCH {}", cases[k].show().replace('\n', " | "));
                    return 7;
                }
            }
        }
        distinct.extend(cases.iter().map(|c| hash(&c.docs.concat())));
        // the owners go away on another thread than the one that made them
        std::thread::spawn({
            let owned: Vec<Document<'static>> = docs.iter().flatten().take(8).map(|d| checks::rebuild(d, &mut Rng::new(round))).collect();
            move || drop(owned)
        })
        .join()
        .unwrap();
    }
    println!("SAN units={units} patches={patches} overlapping={overlapping} threads={threads} chains={}", distinct.len());
    0
}

/// `heap <seed> <batches> <cases>`: memory still allocated after each batch of work.
pub fn heap(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let (seed, batches, per) = (n(0), n(1), n(2));
    let corpus = generate::corpus();
    let live = || LIVE.load(Relaxed);
    let mut sink = 0u64;
    let mut patches = 0;
    ON.store(true, Relaxed);
    // the largest inputs first: buffers that are kept and reused have their final size early
    for p in &corpus.0 {
        let s: String = p.chars().take(20_000).collect();
        let c = generate::Docs { docs: vec![s.clone(), s + "<p>x"], opt: 0, how: "", min: 2 };
        patches += work::digest(|mut o| work::whole(&c, &mut o)).1;
    }
    let mut work_live = Vec::with_capacity(batches as usize);
    for b in 0..batches {
        for i in 0..per {
            let c = work::case(seed, 0x17b0 + b, i, &corpus);
            let (d, k) = work::digest(|mut o| work::whole(&c, &mut o));
            sink ^= d;
            patches += k;
        }
        work_live.push(live());
    }
    // a server whose routes are updated over and over ends every batch in the same state
    let mut server_live = Vec::with_capacity(batches as usize);
    let mut server = LiveReloadServer::new();
    let before_server = live();
    let mut updates = 0u64;
    let home: Vec<(String, String)> = (0..6).map(|k| (format!("/page{k}"), work::case(seed, 0x17c0, k, &corpus).docs[0].clone())).collect();
    for b in 0..batches {
        for i in 0..per {
            let c = work::case(seed, 0x17d0 + b, i, &corpus);
            let route = &home[i as usize % home.len()].0;
            for d in &c.docs {
                let _ = guarded(|| server.diff_route_with_head(route, d, if i % 3 == 0 { "<link>" } else { "<meta>" }).map(|e| e.to_postcard().len()));
                updates += 1;
            }
            // visitors of pages that come and go
            let passing = format!("/passing/{b}/{i}");
            server.cache_html(&passing, &c.docs[0]);
            server.cache_head_injections(&passing, "<style>");
            let _ = guarded(|| server.diff_route(&passing, &c.docs[1]));
            server.remove_route(&passing);
            updates += 3;
        }
        for (r, p) in &home {
            server.cache_html(r, p);
            server.cache_head_injections(r, "<link>");
        }
        server_live.push(live());
    }
    server.clear();
    let cleared = live() - before_server;
    drop(server);
    let dropped = live() - before_server;
    // one document patched over and over, back and forth
    let c = work::case(seed, 0x17e0, 10, &corpus);
    // short-lived threads: what belongs to a thread goes with it
    let before = live();
    for t in 0..32 {
        let c = if t % 2 == 0 { c.clone() } else { work::case(seed, 0x17e1, t, &corpus) };
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || work::digest(|mut o| work::whole(&c, &mut o)).1)
            .unwrap()
            .join()
            .unwrap();
    }
    drop(c);
    let threads_growth = live() - before;
    ON.store(false, Relaxed);
    let third = |v: &[i64]| (v[0], v[v.len() / 2], v[v.len() - 1]);
    let (f, m, l) = third(&work_live);
    let (sf, sm, sl) = third(&server_live);
    println!(
        "HEAP units={} patches={patches} updates={updates} first={f} mid={m} last={l} server_first={sf} server_mid={sm} server_last={sl} half={} cleared={cleared} dropped={dropped} threads_growth={threads_growth} sink={}",
        batches * per,
        (batches - 1 - batches / 2) * per,
        sink & 1
    );
    0
}

fn parse_counts(l: &str) -> BTreeMap<String, f64> {
    l.split_whitespace().filter_map(|w| w.split_once('=')).filter_map(|(k, v)| Some((k.to_string(), v.parse().ok()?))).collect()
}
pub fn h17(cx: &Ctx) -> i32 {
    let env = |k: &str| std::env::var(k).unwrap_or_default();
    let me = std::env::current_exe().unwrap().display().to_string();
    let args = |v: &[&str]| -> Vec<String> { v.iter().map(|s| s.to_string()).collect() };
    let (seed, rounds) = (cx.seed.to_string(), |q: u64, t: u64| cx.scale(q, t).to_string());
    type Run = (&'static str, Vec<String>, Vec<(&'static str, String)>, &'static [&'static str]);
    let runs: Vec<Run> = vec![
        (
            "ThreadSanitizer",
            args(&[&env("HOTMON_TSAN"), "san", &seed, &rounds(10, 250), "60", "8", "mixed"]),
            vec![("TSAN_OPTIONS", "halt_on_error=1 history_size=7 exitcode=66".into())],
            &["WARNING: ThreadSanitizer", "ThreadSanitizer:", "unsafe precondition", "MISMATCH"],
        ),
        (
            "AddressSanitizer",
            args(&[&env("HOTMON_ASAN"), "san", &seed, &rounds(16, 400), "60", "8", "mixed"]),
            vec![("ASAN_OPTIONS", "detect_leaks=0 detect_stack_use_after_return=1".into())],
            &["ERROR: AddressSanitizer", "AddressSanitizer:", "unsafe precondition", "MISMATCH"],
        ),
        ("unchecked-use checks", args(&[&me, "san", &seed, &rounds(40, 1200), "100", "8", "mixed"]), vec![], &["unsafe precondition", "MISMATCH"]),
        (
            "Miri",
            args(&["cargo", "+nightly", "miri", "run", "--offline", "-p", "hotmon", "--target-dir", "/verif/hot/target/miri", "--", "san", &seed, "1", &rounds(2, 12), "3", "tiny"]),
            vec![("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-many-seeds=0..{}", cx.scale(2, 8)))],
            &["error: Undefined Behavior", "MISMATCH"],
        ),
        ("heap monitor", args(&[&me, "heap", &seed, "12", &rounds(250, 6000)]), vec![], &[]),
    ];
    std::thread::scope(|s| {
        for (name, argv, envs, marks) in &runs {
            s.spawn(move || {
                let out = std::process::Command::new("timeout").arg("760").args(argv).envs(envs.iter().map(|(k, v)| (k, v))).output();
                let note = |m: String| cx.st.lock().unwrap().inconclusive.push(m);
                let Ok(out) = out else { return note(format!("{name}: cannot run {argv:?}")) };
                let t = format!("{}\n{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
                if let Some(i) = marks.iter().filter_map(|m| t.find(m)).min() {
                    let from = t[..i].rfind('\n').map_or(0, |x| x + 1);
                    let r: String = t[from..].chars().take(3000).collect();
                    cx.violate(format!("{name} reports: {}", r.lines().next().unwrap_or("")), format!("command {argv:?}\n{r}"));
                    return;
                }
                let lines: Vec<_> = t.lines().filter(|l| l.starts_with("SAN ") || l.starts_with("HEAP ")).map(parse_counts).collect();
                if !out.status.success() || lines.is_empty() {
                    use std::os::unix::process::ExitStatusExt;
                    let tail: String = t.chars().rev().take(800).collect::<String>().chars().rev().collect();
                    if matches!(out.status.signal(), Some(4 | 6 | 7 | 11)) || matches!(out.status.code(), Some(132 | 134 | 135 | 139)) {
                        cx.violate(format!("{name}: the process died: {:?}", out.status), format!("command {argv:?}\n{tail}"));
                    } else if *name == "Miri" {
                        // the interpreter may not know an operation; the other monitors decide then
                        eprintln!("note: no result from Miri ({:?}): {tail}", out.status);
                    } else {
                        note(format!("{name}: no result ({:?}): {tail}", out.status));
                    }
                    return;
                }
                let mut acc = Acc::default();
                for c in &lines {
                    let n = |k: &str| c.get(k).copied().unwrap_or(0.0);
                    acc.evaluations += n("units") as u64;
                    let names = match *name {
                        "ThreadSanitizer" => ["chains under ThreadSanitizer", "patches under ThreadSanitizer", "overlapping chains under ThreadSanitizer"],
                        "AddressSanitizer" => ["chains under AddressSanitizer", "patches under AddressSanitizer", "overlapping chains under AddressSanitizer"],
                        "Miri" => ["chains under Miri", "patches under Miri", "overlapping chains under Miri"],
                        "heap monitor" => ["chains under the heap monitor", "patches under the heap monitor", ""],
                        _ => ["chains with unchecked-use checks", "patches with unchecked-use checks", "overlapping chains with unchecked-use checks"],
                    };
                    acc.add(names[0], n("units") as u64);
                    acc.add(names[1], n("patches") as u64);
                    if *name != "heap monitor" {
                        acc.add(names[2], n("overlapping") as u64);
                        if *name == "unchecked-use checks" {
                            // the other builds run a part of the same chains
                            acc.distinct.extend(0..n("chains") as u64);
                        }
                        continue;
                    }
                    acc.add("server updates under the heap monitor", n("updates") as u64);
                    let dump = format!("command {argv:?}\n{t}");
                    // growth has to go on, and to go with the amount of work, to be a leak
                    let half = n("half").max(1.0);
                    for (what, f, m, l) in [("chain of pages", "first", "mid", "last"), ("round of updates", "server_first", "server_mid", "server_last")] {
                        let per = (n(l) - n(m)) / half;
                        if per >= 8.0 && n(m) - n(f) >= 4.0 * half {
                            cx.violate(format!("every {what} leaves about {per:.0} bytes behind"), dump.clone());
                        }
                    }
                    if n("threads_growth") >= 64.0 * 64.0 {
                        cx.violate(format!("32 threads that ended left {} bytes behind", n("threads_growth")), dump.clone());
                    }
                    if n("dropped") >= 65536.0 {
                        cx.violate(format!("a dropped server left {} bytes behind", n("dropped")), dump.clone());
                    }
                    acc.max("bytes left after the heap workload", n("last").max(0.0) as u64);
                    acc.max("bytes a cleared server keeps", n("cleared").max(0.0) as u64);
                }
                acc.sample(|| format!("{name}: {}", t.lines().find(|l| l.starts_with("SAN ") || l.starts_with("HEAP ")).unwrap_or("")));
                cx.merge(acc);
            });
        }
    });
    cx.finish(
        "every chain of pages counted here was parsed, serialized, diffed, patched and (by some threads) encoded, served and shown under the named monitor: 8 threads released by a barrier use shared \
         documents, borrowed and owned, in shuffled order; the oracle is the monitor's report, differing results, or bytes that stay allocated and grow with the work; distinct_nontrivial counts different chains",
        &[
            ("chains under ThreadSanitizer", 1_000),
            ("overlapping chains under ThreadSanitizer", 300),
            ("chains under AddressSanitizer", 1_000),
            ("chains under the heap monitor", 1_000),
            ("server updates under the heap monitor", 1_000),
            ("chains with unchecked-use checks", 5_000),
        ],
    )
}
