//! Check runner: parallel case execution, three-valued verdicts, shrinking, replay files,
//! evidence.

use crate::rng::Rng;
use crate::spec::*;
use crate::sut::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub start: Instant,
    pub st: Mutex<Stats>,
    pub stop: AtomicBool,
    pub workers: usize,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>, // (message, replay text)
    pub inconclusive: Vec<String>,
}

/// Per-worker accumulator, merged at the end of a family.
#[derive(Default)]
pub struct Acc {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}
impl Acc {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_default();
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
}

#[derive(Clone)]
pub struct Case {
    pub a: SNode,
    pub b: SNode,
    pub threshold: f64,
    pub min_height: usize,
    pub hash: HashMode,
    pub la: Layout,
    pub lb: Layout,
    pub seed: u64,
}

impl Case {
    pub fn key(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.a.show().hash(&mut h);
        self.b.show().hash(&mut h);
        (self.threshold.to_bits(), self.min_height, self.hash).hash(&mut h);
        h.finish()
    }
    pub fn show(&self) -> String {
        format!(
            "threshold={} min_height={} hash={:?} layouts={:?}/{:?} seed={}\nold {}\nnew {}",
            self.threshold, self.min_height, self.hash, self.la, self.lb, self.seed, self.a.show(), self.b.show()
        )
    }
    pub fn flats(&self) -> (Flat, Flat) {
        (Flat::of(&self.a, self.hash), Flat::of(&self.b, self.hash))
    }
    pub fn run(&self) -> (Flat, Flat, Outcome) {
        let (fa, fb) = self.flats();
        let mut r = Rng::new(self.seed);
        let o = run_otree(&fa, &fb, self.la, self.lb, &cfg(self.threshold, self.min_height), &mut r);
        (fa, fb, o)
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(m) = e.downcast_ref::<MonitorStop>() {
        return format!("monitor stopped the run: {}", m.0);
    }
    let s = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "unknown panic".into());
    format!("the code under test panicked: {s}")
}

/// Runs `f` and turns a panic into a violation message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

struct Slot {
    started: Mutex<Option<(Instant, Case)>>,
}

impl Ctx {
    pub fn new(id: &str, seed: u64, thorough: bool, out: &str) -> Ctx {
        std::panic::set_hook(Box::new(|_| {}));
        Ctx {
            id: id.into(),
            seed,
            thorough,
            out: out.into(),
            start: Instant::now(),
            st: Mutex::new(Stats::default()),
            stop: AtomicBool::new(false),
            workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
        }
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Thorough runs stop taking new work after this many seconds; quick runs are bounded by
    /// their case counts and this is only a guard.
    pub fn deadline(&self) -> f64 {
        if self.thorough { 700.0 } else { 240.0 }
    }
    pub fn violate(&self, msg: String, replay: String) {
        let mut s = self.st.lock().unwrap();
        if s.violations.len() < 5 {
            s.violations.push((msg, replay));
        }
        self.stop.store(true, Ordering::SeqCst);
    }
    pub fn merge(&self, a: Acc) {
        let mut s = self.st.lock().unwrap();
        s.evaluations += a.evaluations;
        if s.distinct.len() < 4_000_000 {
            s.distinct.extend(a.distinct);
        }
        for (k, v) in a.counters {
            *s.counters.entry(k.into()).or_default() += v;
        }
        for (k, v) in a.maxima {
            let e = s.maxima.entry(k.into()).or_default();
            *e = (*e).max(v);
        }
        let room = 6usize.saturating_sub(s.samples.len());
        s.samples.extend(a.samples.into_iter().take(room.min(1)));
    }

    /// Run `n` indexed cases in parallel. `make` builds the case; `check` executes the real code
    /// and returns violations. Failing cases are shrunk.
    pub fn cases<M, C>(&self, family: &'static str, n: u64, make: M, check: C)
    where
        M: Fn(u64) -> Option<Case> + Sync,
        C: Fn(&Case, &mut Acc) -> Vec<String> + Sync,
    {
        self.cases_(family, n, make, check, true)
    }
    /// For oracles whose expectation is tied to how the case was built.
    pub fn cases_noshrink<M, C>(&self, family: &'static str, n: u64, make: M, check: C)
    where
        M: Fn(u64) -> Option<Case> + Sync,
        C: Fn(&Case, &mut Acc) -> Vec<String> + Sync,
    {
        self.cases_(family, n, make, check, false)
    }
    fn cases_<M, C>(&self, family: &'static str, n: u64, make: M, check: C, shrink: bool)
    where
        M: Fn(u64) -> Option<Case> + Sync,
        C: Fn(&Case, &mut Acc) -> Vec<String> + Sync,
    {
        if self.stop.load(Ordering::SeqCst) {
            return;
        }
        let next = AtomicU64::new(0);
        let slots: Vec<Slot> = (0..self.workers).map(|_| Slot { started: Mutex::new(None) }).collect();
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for w in 0..self.workers {
                let (next, slots, done, make, check) = (&next, &slots, &done, &make, &check);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut acc = Acc::default();
                        loop {
                            if self.stop.load(Ordering::Relaxed) || self.elapsed() > self.deadline() {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let Some(case) = make(i) else { continue };
                            *slots[w].started.lock().unwrap() = Some((Instant::now(), case.clone()));
                            acc.evaluations += 1;
                            let v = match guarded(|| check(&case, &mut acc)) {
                                Ok(v) => v,
                                Err(m) => vec![m],
                            };
                            if !v.is_empty() {
                                let (case, v) = if shrink { self.shrink(case, v, check, slots, w) } else { (case, v) };
                                self.violate(
                                    v.join("; "),
                                    format!("family {family} index {i}\n{}\n{}", case.show(), v.join("\n")),
                                );
                            }
                            *slots[w].started.lock().unwrap() = None;
                        }
                        acc.add(family, acc.evaluations);
                        self.merge(acc);
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            while done.load(Ordering::SeqCst) < self.workers as u64 {
                std::thread::sleep(Duration::from_millis(20));
                for s in &slots {
                    let g = s.started.lock().unwrap();
                    if let Some((t, case)) = &*g
                        && t.elapsed() > Duration::from_secs(60)
                    {
                        let case = case.clone();
                        drop(g);
                        self.hung(family, case);
                    }
                }
            }
        });
    }

    /// A case takes far too long in wall-clock terms. Decide on logical steps: re-run it on the
    /// step-counting tree. Only an exhausted step budget is a violation.
    fn hung(&self, family: &str, case: Case) -> ! {
        let c2 = case.clone();
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || guarded(|| run_monitored(&c2)).err())
            .unwrap();
        let t = Instant::now();
        while !h.is_finished() && t.elapsed() < Duration::from_secs(120) {
            std::thread::sleep(Duration::from_millis(50));
        }
        if h.is_finished()
            && let Ok(Some(m)) = h.join()
        {
            self.violate(m.clone(), format!("family {family}\n{}\n{m}", case.show()));
        } else {
            self.st.lock().unwrap().inconclusive.push(format!("a case exceeded the wall-clock watchdog: {}", case.show()));
        }
        std::process::exit(self.finish("watchdog", &[]));
    }

    fn shrink<C>(&self, case: Case, v: Vec<String>, check: &C, slots: &[Slot], w: usize) -> (Case, Vec<String>)
    where
        C: Fn(&Case, &mut Acc) -> Vec<String> + Sync,
    {
        let start = Instant::now();
        let mut best = case;
        let mut bv = v;
        let mut scratch = Acc::default();
        let mut progress = true;
        while progress && start.elapsed() < Duration::from_secs(20) {
            progress = false;
            let mut cands: Vec<Case> = vec![];
            for side in 0..2 {
                let t = if side == 0 { &best.a } else { &best.b };
                if t.size() > 3000 {
                    continue;
                }
                for p in crate::generate::paths(t) {
                    if p.is_empty() {
                        continue;
                    }
                    let mut c = best.clone();
                    let t = if side == 0 { &mut c.a } else { &mut c.b };
                    let n = crate::generate::at_mut(t, &p[..p.len() - 1]);
                    n.children.remove(*p.last().unwrap());
                    cands.push(c);
                    if cands.len() > 400 {
                        break;
                    }
                }
            }
            for c in cands {
                if start.elapsed() > Duration::from_secs(20) {
                    break;
                }
                *slots[w].started.lock().unwrap() = Some((Instant::now(), c.clone()));
                let r = match guarded(|| check(&c, &mut scratch)) {
                    Ok(v) => v,
                    Err(m) => vec![m],
                };
                if !r.is_empty() {
                    best = c;
                    bv = r;
                    progress = true;
                    break;
                }
            }
        }
        (best, bv)
    }

    /// Writes evidence, prints the verdict, returns the exit code.
    pub fn finish(&self, rule: &str, floors: &[(&str, u64)]) -> i32 {
        let mut s = self.st.lock().unwrap();
        // A run that observed nothing has no verdict.
        if s.violations.is_empty() {
            for (k, min) in floors {
                let got = s.counters.get(*k).copied().unwrap_or(0).max(s.maxima.get(*k).copied().unwrap_or(0));
                if got < *min {
                    s.inconclusive.push(format!("counter {k} is {got}, below the floor {min}: the run observed too little"));
                }
            }
        }
        let mut j = String::new();
        j.push_str(&format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"observed\": {{",
            js(&self.id),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            s.evaluations,
            s.distinct.len(),
            js(rule),
            s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
        ));
        let obs: Vec<String> = s
            .counters
            .iter()
            .map(|(k, v)| format!("{}: {v}", js(k)))
            .chain(s.maxima.iter().map(|(k, v)| format!("{}: {v}", js(&format!("max {k}")))))
            .collect();
        j.push_str(&obs.join(", "));
        j.push_str(&format!(
            "}}\n }},\n \"assumptions\": [\"verdict covers the executions counted here, nothing more\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.elapsed(),
            s.violations.len()
        ));
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.out));
        std::fs::write(format!("{}/evidence/{}.json", self.out, self.id), j).expect("write evidence");
        for m in &s.inconclusive {
            eprintln!("INCONCLUSIVE {m}");
        }
        if !s.violations.is_empty() {
            let dir = format!("{}/out/replays", self.out);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}.txt", self.id);
            let mut f = std::fs::File::create(&path).expect("replay file");
            let (m, rep) = &s.violations[0];
            let _ = writeln!(f, "property {}\nseed {}\n{rep}", self.id, self.seed);
            println!("{}", rep.chars().take(3000).collect::<String>());
            println!("# {}", m.chars().take(500).collect::<String>());
            println!("VIOLATION property={} replay={path}", self.id);
            return 1;
        }
        if !s.inconclusive.is_empty() {
            return 2;
        }
        println!(
            "{}: held on {} executions ({} distinct non-trivial), {:.1}s",
            self.id,
            s.evaluations,
            s.distinct.len(),
            self.elapsed()
        );
        0
    }
}

/// Run a case on the step-counting independent tree; panics with MonitorStop on a violation.
pub fn run_monitored(case: &Case) -> (Outcome, u64, u64) {
    let (fa, fb) = case.flats();
    let s = (fa.len() + fb.len() + 2) as u64;
    let budget = 64 * s * s * s;
    let mut r = Rng::new(case.seed);
    let salt = fa.len() + 3;
    let ta = VTree::new(&fa, "old", 0, true, budget, &mut r);
    let tb = VTree::new(&fb, "new", salt, true, budget, &mut r);
    let o = run_generic(&ta, &ta.ids, &tb, &tb.ids, &cfg(case.threshold, case.min_height));
    let steps = ta.steps.load(Ordering::Relaxed) + tb.steps.load(Ordering::Relaxed);
    (o, steps, budget)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
