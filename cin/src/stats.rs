//! Digest mode and, in the instrumented build, the subscriber and statistics monitors.

use crate::checks;

#[cfg(feature = "trace")]
pub mod sub {
    use std::fmt::Write;
    use std::sync::atomic::{AtomicU64, Ordering};
    pub static EVENTS: AtomicU64 = AtomicU64::new(0);
    /// Formats every field of every event, so that all Display/Debug code runs.
    pub struct Sub {
        pub accept: bool,
    }
    struct V(String);
    impl tracing::field::Visit for V {
        fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
            let _ = write!(self.0, "{}={:?} ", f.name(), v);
        }
    }
    impl tracing::Subscriber for Sub {
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            self.accept
        }
        fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
            tracing::span::Id::from_u64(1)
        }
        fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
        fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            let mut v = V(String::new());
            e.record(&mut v);
            if !v.0.is_empty() {
                EVENTS.fetch_add(1, Ordering::Relaxed);
            }
        }
        fn enter(&self, _: &tracing::span::Id) {}
        fn exit(&self, _: &tracing::span::Id) {}
    }
}

#[cfg(feature = "stats")]
fn check_stats(seed: u64, n: u64) {
    use crate::harness::*;
    use crate::spec::*;
    let mut done = 0;
    for i in 0..n {
        let c = checks::std_case(seed, 0x57a7, i, checks::Flavor::Mixed);
        cinereus::matching::reset_stats();
        if cinereus::matching::get_stats() != (0, 0, 0) {
            println!("STATSVIOLATION statistics read {:?} after a reset", cinereus::matching::get_stats());
            return;
        }
        let (fa, fb): (Flat, Flat) = c.flats();
        let Ok(_) = guarded(|| c.run()) else { continue };
        let (calls, ua, ub) = cinereus::matching::get_stats();
        let inner_b = fb.n.iter().filter(|x| !x.children.is_empty()).count();
        if ua > calls || ub > calls || ua > fa.len() || ub > inner_b || calls > ua * ub || (calls > 0) != (ua > 0 && ub > 0) {
            println!("STATSVIOLATION impossible statistics (comparisons {calls}, old nodes {ua}, new nodes {ub}) for trees of {} and {} nodes: {}", fa.len(), fb.len(), c.show().replace('\n', " | "));
            return;
        }
        // accumulation without a reset
        let Ok(_) = guarded(|| c.run()) else { continue };
        let (calls2, _, _) = cinereus::matching::get_stats();
        if calls2 != 2 * calls {
            println!("STATSVIOLATION comparisons count {calls} after one run and {calls2} after the same run again");
            return;
        }
        // another thread has its own
        if i % 50 == 0 {
            let other = std::thread::spawn(cinereus::matching::get_stats).join().unwrap();
            if other != (0, 0, 0) {
                println!("STATSVIOLATION a fresh thread sees statistics {other:?}");
                return;
            }
        }
        done += 1;
    }
    println!("STATS {done}");
}

pub fn digest(a: &[String]) {
    let (seed, blocks, per): (u64, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let has = |s: &str| a.iter().any(|x| x == s);
    #[cfg(feature = "trace")]
    if has("sub") || has("rejectsub") {
        tracing::subscriber::set_global_default(sub::Sub { accept: has("sub") }).unwrap();
    }
    if has("reverse") {
        // same blocks, computed in the opposite order
        for b in (0..blocks).rev() {
            println!("{}", checks::digest_block(seed, b, per));
        }
    } else {
        for l in checks::digest_lines(seed, blocks, per) {
            println!("{l}");
        }
    }
    #[cfg(feature = "trace")]
    println!("EVENTS {}", sub::EVENTS.load(std::sync::atomic::Ordering::Relaxed));
    #[cfg(feature = "stats")]
    if has("stats") {
        check_stats(seed, (blocks * per / 4).max(500));
    }
}
