//! Check runner: parallel case execution, shrinking, known findings, replay files, evidence.
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub trait Case: Clone + Send + Sync {
    fn show(&self) -> String;
    fn shrinks(&self) -> Vec<Self>;
}

/// One violated expectation. `sig` names the kind of failure for matching against the list of
/// known findings; it is derived from the input and the failure, never from a position in a run.
#[derive(Clone, Debug)]
pub struct Bad {
    pub sig: String,
    pub msg: String,
}
pub fn bad(sig: &str, msg: impl Into<String>) -> Vec<Bad> {
    vec![Bad { sig: sig.into(), msg: msg.into() }]
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub start: Instant,
    pub st: Mutex<Stats>,
    pub stop: AtomicBool,
    pub workers: usize,
    pub stack: usize,
    /// signature -> description
    pub known: BTreeMap<String, String>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>,
    pub inconclusive: Vec<String>,
    pub known_seen: BTreeSet<String>,
}

#[derive(Default)]
pub struct Acc {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}
impl Acc {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_default();
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s().chars().take(400).collect());
        }
    }
    pub fn seen(&mut self, s: &str) {
        self.distinct.insert(hash(s));
    }
}
pub fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn panic_text(e: Box<dyn Any + Send>) -> String {
    let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "unknown panic".into());
    format!("the code under test panicked: {s}")
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

impl Ctx {
    pub fn new(id: &str, seed: u64, thorough: bool, out: &str) -> Ctx {
        std::panic::set_hook(Box::new(|_| {}));
        let mut known = BTreeMap::new();
        if let Ok(f) = std::fs::read_to_string("/verif/known_findings.txt") {
            for l in f.lines() {
                if let Some(r) = l.strip_prefix("known: ")
                    && let Some(r) = r.strip_prefix(&format!("property={id} "))
                    && let Some((sig, d)) = r.split_once(' ')
                {
                    known.insert(sig.to_string(), d.to_string());
                }
            }
        }
        Ctx {
            id: id.into(),
            seed,
            thorough,
            out: out.into(),
            start: Instant::now(),
            st: Mutex::new(Stats::default()),
            stop: AtomicBool::new(false),
            workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
            stack: 64 << 20,
            known,
        }
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn deadline(&self) -> f64 {
        if self.thorough { 700.0 } else { 240.0 }
    }
    pub fn violate(&self, msg: String, replay: String) {
        let mut s = self.st.lock().unwrap();
        if s.violations.len() < 5 {
            s.violations.push((msg, replay));
        }
        self.stop.store(true, Ordering::SeqCst);
    }
    pub fn merge(&self, a: Acc) {
        let mut s = self.st.lock().unwrap();
        s.evaluations += a.evaluations;
        if s.distinct.len() < 4_000_000 {
            s.distinct.extend(a.distinct);
        }
        for (k, v) in a.counters {
            *s.counters.entry(k.into()).or_default() += v;
        }
        for (k, v) in a.maxima {
            let e = s.maxima.entry(k.into()).or_default();
            *e = (*e).max(v);
        }
        let room = 6usize.saturating_sub(s.samples.len());
        s.samples.extend(a.samples.into_iter().take(room.min(1)));
    }
    /// Splits off what the list of known findings covers; anything else is a violation.
    fn unknown(&self, v: Vec<Bad>) -> Vec<Bad> {
        v.into_iter()
            .filter(|b| {
                if self.known.contains_key(&b.sig) {
                    self.st.lock().unwrap().known_seen.insert(b.sig.clone());
                    false
                } else {
                    true
                }
            })
            .collect()
    }

    pub fn cases<T, M, C>(&self, family: &'static str, n: u64, make: M, check: C)
    where
        T: Case,
        M: Fn(u64) -> Option<T> + Sync,
        C: Fn(&T, &mut Acc) -> Vec<Bad> + Sync,
    {
        if self.stop.load(Ordering::SeqCst) {
            return;
        }
        let next = AtomicU64::new(0);
        let slots: Vec<Mutex<Option<(Instant, T)>>> = (0..self.workers).map(|_| Mutex::new(None)).collect();
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for w in 0..self.workers {
                let (next, slots, done, make, check) = (&next, &slots, &done, &make, &check);
                std::thread::Builder::new()
                    .stack_size(self.stack)
                    .spawn_scoped(sc, move || {
                        let mut acc = Acc::default();
                        loop {
                            if self.stop.load(Ordering::Relaxed) || self.elapsed() > self.deadline() {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let Some(case) = make(i) else { continue };
                            *slots[w].lock().unwrap() = Some((Instant::now(), case.clone()));
                            acc.evaluations += 1;
                            let run = |c: &T, acc: &mut Acc| match guarded(|| check(c, acc)) {
                                Ok(v) => v,
                                Err(m) => bad("panic", m),
                            };
                            let v = self.unknown(run(&case, &mut acc));
                            if !v.is_empty() && !self.stop.load(Ordering::Relaxed) {
                                // shrink
                                let (mut best, mut bv) = (case, v);
                                let t0 = Instant::now();
                                let mut scratch = Acc::default();
                                'outer: while t0.elapsed() < Duration::from_secs(20) {
                                    for c in best.shrinks() {
                                        if t0.elapsed() > Duration::from_secs(20) {
                                            break 'outer;
                                        }
                                        *slots[w].lock().unwrap() = Some((Instant::now(), c.clone()));
                                        let v = self.unknown(run(&c, &mut scratch));
                                        if !v.is_empty() {
                                            (best, bv) = (c, v);
                                            continue 'outer;
                                        }
                                    }
                                    break;
                                }
                                let msgs = bv.iter().map(|b| format!("[{}] {}", b.sig, b.msg)).collect::<Vec<_>>();
                                if let Ok(n) = std::env::var("HOTMON_EXPLORE") {
                                    let mut st = self.st.lock().unwrap();
                                    let k = st.counters.entry("explored".into()).or_default();
                                    *k += 1;
                                    println!("---- {k}\n{}{}", best.show(), msgs.join("\n"));
                                    if *k > n.parse::<u64>().unwrap_or(10) {
                                        std::process::exit(9);
                                    }
                                    continue;
                                }
                                self.violate(msgs.join("; "), format!("family {family} index {i}\n{}\n{}", best.show(), msgs.join("\n")));
                            }
                            *slots[w].lock().unwrap() = None;
                        }
                        acc.add(family, acc.evaluations);
                        self.merge(acc);
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            while done.load(Ordering::SeqCst) < self.workers as u64 {
                std::thread::sleep(Duration::from_millis(10));
                for s in &slots {
                    let g = s.lock().unwrap();
                    if let Some((t, case)) = &*g
                        && t.elapsed() > Duration::from_secs(120)
                    {
                        let show = case.show();
                        drop(g);
                        // Cases are small; minutes on one of them is a hang, not load.
                        self.violate(
                            "a case did not finish within 120 seconds".into(),
                            format!("family {family}\n{show}\nno result after 120 s"),
                        );
                        std::process::exit(self.finish("watchdog", &[]));
                    }
                }
            }
        });
    }

    pub fn finish(&self, rule: &str, floors: &[(&str, u64)]) -> i32 {
        let mut s = self.st.lock().unwrap();
        if s.violations.is_empty() {
            for (k, min) in floors {
                let got = s.counters.get(*k).copied().unwrap_or(0).max(s.maxima.get(*k).copied().unwrap_or(0));
                if got < *min {
                    s.inconclusive.push(format!("counter {k} is {got}, below the floor {min}: the run observed too little"));
                }
            }
        }
        let mut j = String::new();
        j.push_str(&format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"observed\": {{",
            js(&self.id),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            s.evaluations,
            s.distinct.len(),
            js(rule),
            s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
        ));
        let obs: Vec<String> = s
            .counters
            .iter()
            .map(|(k, v)| format!("{}: {v}", js(k)))
            .chain(s.maxima.iter().map(|(k, v)| format!("{}: {v}", js(&format!("max {k}")))))
            .collect();
        j.push_str(&obs.join(", "));
        j.push_str(&format!(
            "}}\n }},\n \"assumptions\": [\"verdict covers the executions counted here, nothing more\", \"third-party crates missing offline are replaced by stand-ins (hot/shims)\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.elapsed(),
            s.violations.len()
        ));
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.out));
        std::fs::write(format!("{}/evidence/{}.json", self.out, self.id), j).expect("write evidence");
        for m in &s.inconclusive {
            eprintln!("INCONCLUSIVE {m}");
        }
        for k in &s.known_seen {
            println!("KNOWN-FINDING: property={} {}", self.id, self.known[k]);
        }
        if !s.violations.is_empty() {
            let dir = format!("{}/out/replays", self.out);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}.txt", self.id);
            let mut f = std::fs::File::create(&path).expect("replay file");
            let (m, rep) = &s.violations[0];
            let _ = writeln!(f, "property {}\nseed {}\n{rep}", self.id, self.seed);
            println!("{}", rep.chars().take(3000).collect::<String>());
            println!("# {}", m.chars().take(500).collect::<String>());
            println!("VIOLATION property={} replay={path}", self.id);
            return 1;
        }
        if !s.inconclusive.is_empty() {
            return 2;
        }
        println!("{}: held on {} executions ({} distinct non-trivial), {:.1}s", self.id, s.evaluations, s.distinct.len(), self.elapsed());
        0
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
