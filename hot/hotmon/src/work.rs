//! One fixed piece of work per (seed, stream, index), over everything the library offers, reduced
//! to a digest: compared between builds (H16), threads and sanitizers (H17).
use crate::api;
use crate::client;
use crate::generate::{self, Docs};
use crate::harness::*;
use crate::rng::Rng;
use hotmeal::{Document, Patch, StrTendril, diff, diff_html, parse};
use hotmeal_server::{LiveReloadEvent, LiveReloadServer, inject_into_head};
use std::hash::{DefaultHasher, Hash, Hasher};

pub type Corpus = (Vec<String>, Vec<(String, String)>);
pub fn case(seed: u64, stream: u64, i: u64, corpus: &Corpus) -> Docs {
    let mut r = Rng::stream(seed, stream, i);
    let n = *r.pick(&[2, 2, 3, 5]);
    generate::chain(&mut r, n, corpus, i)
}
/// What can be computed from shared documents alone.
pub fn shared(docs: &[Document], out: &mut impl FnMut(&str)) -> u64 {
    let mut n = 0;
    for d in docs {
        out(&d.to_html());
        out(&d.to_html_without_doctype());
        out(&d.dump_body().unwrap_or_default());
    }
    for k in 1..docs.len() {
        let p = match diff(&docs[k - 1], &docs[k]) {
            Ok(p) => p,
            Err(e) => {
                out(&format!("{e:?}"));
                continue;
            }
        };
        n += p.len() as u64;
        out(&format!("{p:?}"));
        let mut d = docs[k - 1].clone();
        let r = d.apply_patches(p);
        out(&format!("{r:?}"));
        out(&d.to_html());
    }
    n
}
/// The whole way from strings: parse, diff, encode, patch, serve, show in a browser.
pub fn whole(c: &Docs, out: &mut impl FnMut(&str)) -> u64 {
    let ts: Vec<StrTendril> = c.docs.iter().map(|d| StrTendril::from(d.as_str())).collect();
    let docs: Vec<Document> = ts.iter().map(parse).collect();
    let n = shared(&docs, out);
    for k in 1..ts.len() {
        let Ok(p) = diff_html(&ts[k - 1], &ts[k]) else { continue };
        let p: Vec<Patch<'static>> = p.into_iter().map(|p| p.into_owned()).collect();
        match facet_json::to_string(&p) {
            Ok(j) => out(&j),
            Err(e) => out(&format!("{e:?}")),
        }
        match facet_postcard::to_vec(&p) {
            Ok(b) => out(&format!("{b:?}")),
            Err(e) => out(&format!("{e:?}")),
        }
    }
    let mut s = LiveReloadServer::new();
    let mut said = |e: Option<LiveReloadEvent>| {
        if let Some(e) = e {
            let b = e.to_postcard();
            out(&format!("{e:?} {b:?} {:?}", LiveReloadEvent::from_postcard(&b).is_ok()));
        } else {
            out("nothing");
        }
    };
    for (k, d) in c.docs.iter().enumerate() {
        let route = if k % 3 == 2 { "/b" } else { "/a" };
        said(s.diff_route(route, d));
        // hardly another version
        said(s.diff_route(route, &format!("{d} \n")));
        said(s.diff_route(route, &d.replace(' ', "  ")));
        said(s.diff_route(route, &generate::perturb(&mut Rng::new(d.len() as u64), d)));
        said(s.diff_route_with_head(route, &inject_into_head(d, "<!--x-->"), ["<a>", "<b>"][k / 2 % 2]));
    }
    let mut routes = s.cached_routes();
    routes.sort();
    out(&format!("{routes:?}"));
    out(&client::show_and_patch(c));
    n
}
/// Patches of unknown origin.
pub fn refused(seed: u64, i: u64, corpus: &Corpus, out: &mut impl FnMut(&str)) {
    let mut r = Rng::stream(seed, 1602, i);
    let Some(h) = api::hostile_list(&mut r, corpus, i) else { return };
    let t = StrTendril::from(h.doc.as_str());
    let mut d = parse(&t);
    let r = d.apply_patches(h.patches.clone());
    out(&format!("{r:?}"));
    out(&d.to_html());
}
pub fn digest(f: impl FnOnce(&mut dyn FnMut(&str)) -> u64) -> (u64, u64) {
    let mut h = DefaultHasher::new();
    let r = guarded(|| f(&mut |s: &str| s.hash(&mut h)));
    match r {
        Ok(n) => (h.finish(), n),
        Err(m) => {
            m.hash(&mut h);
            (h.finish(), 0)
        }
    }
}
pub fn digest_one(seed: u64, i: u64, corpus: &Corpus) -> (u64, u64) {
    let c = case(seed, 1601, i, corpus);
    digest(|mut out| {
        let n = whole(&c, &mut out);
        refused(seed, i, corpus, &mut out);
        n
    })
}

// ---------------------------------------------------------------- H16

#[cfg(feature = "trace")]
pub mod sub {
    use std::fmt::Write;
    use std::sync::atomic::{AtomicU64, Ordering};
    pub static EVENTS: AtomicU64 = AtomicU64::new(0);
    pub static BYTES: AtomicU64 = AtomicU64::new(0);
    /// Formats every field of every event, so that all Display/Debug code runs.
    pub struct Sub {
        pub accept: bool,
    }
    struct V(String);
    impl tracing::field::Visit for V {
        fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
            let _ = write!(self.0, "{}={:?} ", f.name(), v);
        }
    }
    impl tracing::Subscriber for Sub {
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            self.accept
        }
        fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
            tracing::span::Id::from_u64(1)
        }
        fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
        fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            let mut v = V(String::new());
            e.record(&mut v);
            EVENTS.fetch_add(1, Ordering::Relaxed);
            BYTES.fetch_add(v.0.len() as u64, Ordering::Relaxed);
        }
        fn enter(&self, _: &tracing::span::Id) {}
        fn exit(&self, _: &tracing::span::Id) {}
    }
}
/// `digest <seed> <from> <to> <sub|rejectsub|nosub>`: one line per case.
pub fn print_digests(a: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    #[cfg(feature = "trace")]
    if a[3] != "nosub" {
        tracing::subscriber::set_global_default(sub::Sub { accept: a[3] == "sub" }).unwrap();
    }
    let corpus = generate::corpus();
    let (seed, from, to) = (n(0), n(1), n(2));
    for (i, (d, k)) in all_digests(seed, from, to, &corpus) {
        println!("D {i} {d:016x} {k}");
    }
    #[cfg(feature = "trace")]
    println!("EVENTS {} {}", sub::EVENTS.load(std::sync::atomic::Ordering::Relaxed), sub::BYTES.load(std::sync::atomic::Ordering::Relaxed));
}
fn all_digests(seed: u64, from: u64, to: u64, corpus: &Corpus) -> Vec<(u64, (u64, u64))> {
    let next = std::sync::atomic::AtomicU64::new(from);
    let mut v: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut v = vec![];
                        loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if i >= to {
                                return v;
                            }
                            v.push((i, digest_one(seed, i, corpus)));
                        }
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    v.sort();
    v
}
pub fn h16(cx: &Ctx) -> i32 {
    let featured = std::env::var("HOTMON_TRACED").expect("HOTMON_TRACED");
    let corpus = generate::corpus();
    let total = cx.scale(8_000, 300_000);
    let step = cx.scale(8_000, 20_000);
    let mut from = 0;
    while from < total && !cx.stop.load(std::sync::atomic::Ordering::SeqCst) && cx.elapsed() < cx.deadline() {
        let to = (from + step).min(total);
        let plain = all_digests(cx.seed, from, to, &corpus);
        let mut acc = Acc::default();
        for (_, (d, k)) in &plain {
            if *k > 0 {
                acc.distinct.insert(*d);
            }
            acc.add("patches in the plain build", *k);
        }
        for how in ["sub", "rejectsub", "nosub"] {
            let out = std::process::Command::new("timeout")
                .args(["600", &featured, "digest", &cx.seed.to_string(), &from.to_string(), &to.to_string(), how])
                .output();
            let Ok(out) = out else {
                cx.st.lock().unwrap().inconclusive.push("cannot run the traced build".into());
                break;
            };
            let text = String::from_utf8_lossy(&out.stdout);
            let name = match how {
                "sub" => "a subscriber that formats everything",
                "rejectsub" => "a subscriber that rejects everything",
                _ => "no subscriber",
            };
            let mut at = plain.iter();
            for l in text.lines() {
                let w: Vec<&str> = l.split(' ').collect();
                if w[0] == "EVENTS" {
                    if how == "sub" {
                        acc.add("events delivered", w[1].parse().unwrap());
                        acc.add("bytes of fields formatted", w[2].parse().unwrap());
                    } else if w[1] != "0" {
                        cx.violate(format!("{} events delivered with {name}", w[1]), l.into());
                    }
                    continue;
                }
                let Some((i, (d, _))) = at.next() else { break };
                acc.evaluations += 1;
                if w[1] != i.to_string() || w[2] != format!("{d:016x}") {
                    let c = case(cx.seed, 1601, *i, &corpus);
                    cx.violate(
                        format!("case {i} has another result when built with tracing ({name})"),
                        format!("seed {} case {i}\n{}", cx.seed, c.show()),
                    );
                    break;
                }
                acc.add(
                    match how {
                        "sub" => "cases compared, formatting subscriber",
                        "rejectsub" => "cases compared, rejecting subscriber",
                        _ => "cases compared, no subscriber",
                    },
                    1,
                );
            }
            if at.next().is_some() && !cx.stop.load(std::sync::atomic::Ordering::SeqCst) {
                use std::os::unix::process::ExitStatusExt;
                if out.status.signal().is_some() || matches!(out.status.code(), Some(132 | 134 | 135 | 139)) {
                    cx.violate(format!("the traced build died with {name}: {:?}", out.status), String::from_utf8_lossy(&out.stderr).into());
                } else {
                    cx.st.lock().unwrap().inconclusive.push(format!("the traced build gave no result ({:?})", out.status));
                }
            }
        }
        acc.sample(|| format!("case {from}: {:016x} in every build", plain[0].1.0));
        cx.merge(acc);
        from = to;
    }
    cx.finish(
        "a distinct chain of pages with at least one patch, parsed, diffed, encoded, patched, served, shown in a browser, and given patches of unknown origin, by the plain build and by the build \
         with tracing in hotmeal, hotmeal-server and cinereus, under three subscribers; digests of all results compared",
        &[
            ("cases compared, formatting subscriber", 5_000),
            ("cases compared, rejecting subscriber", 5_000),
            ("cases compared, no subscriber", 5_000),
            ("events delivered", 100_000),
            ("patches in the plain build", 10_000),
        ],
    )
}
