//! H13: no input makes the library panic, overflow its stack or run away.
//!
//! The work happens in child processes on a 2 MB stack, so that an overflow or an endless loop is
//! observed from outside instead of taking the monitor down.
use crate::generate::{self, Docs};
use crate::harness::*;
use crate::rng::Rng;
use hotmeal::{Document, Patch, StrTendril, diff, diff_html, parse, parse_body_fragment};
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Nesting is bounded: the library walks trees recursively, and beyond a depth of some thousand
/// elements a small stack does not suffice. That limit is recorded, not hidden: see DESIGN.md.
const DEPTH: usize = 300;

const TAGS: &[&str] = &[
    "div", "p", "b", "i", "a", "nobr", "font", "span", "table", "td", "ul", "li", "svg", "g", "foreignObject", "math", "mi", "mtext",
    "annotation-xml", "select", "option", "template", "button", "form", "h1", "em", "code", "object", "applet", "ruby", "rt", "section",
    "title", "desc", "custom-x", "dd", "dt", "frameset", "head", "body", "html", "marquee",
];

fn odd_char(r: &mut Rng) -> char {
    match r.below(8) {
        0 => char::from(r.below(0x20) as u8),
        1 => *r.pick(&['\u{feff}', '\u{fffe}', '\u{ffff}', '\u{fffd}', '\u{200d}', '\u{2028}', '\u{10ffff}', '\u{e000}', '\u{80}', '\u{9f}', '\u{ad}']),
        2 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
        3 => *r.pick(&['İ', 'ſ', 'K', 'ß', 'ﬁ', 'Å', 'ı']),
        _ => *r.pick(&['<', '>', '/', '=', '"', '\'', '&', ';', '#', '!', '-', '?', '[', ']', ' ', '\n', 'a', 'x', '0', '`']),
    }
}
fn one(r: &mut Rng, corpus: &(Vec<String>, Vec<(String, String)>), fam: u64) -> String {
    match fam {
        0 => {
            let n = r.range(0, 400);
            let b: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
            String::from_utf8_lossy(&b).into_owned()
        }
        1 => {
            let n = r.range(0, 300);
            (0..n).map(|_| odd_char(r)).collect()
        }
        2 => {
            // deep and unclosed
            let d = r.range(1, DEPTH);
            let k = *r.pick(&[1, 1, 2, 3, TAGS.len()]);
            let set: Vec<&str> = (0..k).map(|_| *r.pick(TAGS)).collect();
            let mut s = String::new();
            for i in 0..d {
                s.push_str(&format!("<{}>", r.pick(&set)));
                if i % 17 == 0 {
                    s.push('x');
                }
            }
            if r.chance(1, 2) {
                for _ in 0..r.range(0, d) {
                    s.push_str(&format!("</{}>", r.pick(&set)));
                }
            }
            s
        }
        3 => {
            // wide
            let n = if r.chance(1, 40) { r.range(400, 800) } else { r.range(50, 400) };
            let item = *r.pick(&["<li>a", "<p>", "<br>", "x<!---->", "<td>", "<option>", "<b></b>", "<div id=a></div> "]);
            let mut s = "<body>".to_string();
            for i in 0..n {
                s.push_str(item);
                if r.chance(1, 50) {
                    s.push_str(&format!("<i>{i}</i>"));
                }
            }
            s
        }
        4 => {
            // many or huge attributes
            let n = r.range(1, 300);
            let mut s = "<div".to_string();
            for i in 0..n {
                let v = if r.chance(1, 40) { r.range(0, 5000) } else { r.range(0, 6) };
                let c = odd_char(r);
                s.push_str(&format!(" a{}={}", if r.chance(1, 5) { 0 } else { i }, "v".repeat(v)));
                if r.chance(1, 30) {
                    s.push(c);
                }
            }
            s + ">x</div>"
        }
        5 => {
            // formatting elements and misnesting: the adoption agency
            let set = ["<b>", "<i>", "<a>", "<nobr>", "<font size=1>", "<p>", "<div>", "</b>", "</i>", "</a>", "</p>", "</div>", "<table>", "<td>", "</font>", "x", "<button>", "</button>", "<applet>"];
            let k = *r.pick(&[3, 5, set.len()]);
            let sub: Vec<&str> = (0..k).map(|_| *r.pick(&set)).collect();
            let n = r.range(10, 250);
            (0..n).map(|_| *r.pick(&sub)).collect()
        }
        6 => {
            let n = r.range(30, 400);
            generate::soup(r, n)
        }
        7 if !corpus.0.is_empty() => {
            // a real page, cut off anywhere or spliced
            let p = r.pick(&corpus.0).clone();
            let l = r.range(0, 20_000);
            let mut s = generate::excerpt(r, &p, l);
            for _ in 0..r.range(0, 12) {
                s = generate::damage(r, &s);
            }
            s
        }
        8 => {
            let n = r.range(1, 60);
            let ents = ["&", "&#", "&#x", "&amp", "&#55296;", "&#1114112;", "&#99999999999999999999;", "&#x0;", "&notit;", "&CounterClockwiseContourIntegral;", "&#x80;", "&;", "&lt", "&#38;#60;"];
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(r.pick(&ents));
                if r.chance(1, 3) {
                    s.push(odd_char(r));
                }
            }
            if r.chance(1, 2) { format!("<p title=\"{s}\">{s}") } else { s }
        }
        _ => {
            // opening without closing, of everything that changes the tokenizer's state
            let set = ["<script>", "<style>", "<textarea>", "<title>", "<!--", "<![CDATA[", "<svg><![CDATA[", "<plaintext>", "<xmp>", "<iframe>", "<noscript>", "<a b=\"", "<a b='", "</", "<!doctype", "<!DOCTYPE x PUBLIC \"", "<?", "<script><!--<script>", "<svg><script>", "<math><annotation-xml encoding=text/html>", "<template>", "<frameset>", "<html a=b>", "<body c=d>", "<head>"];
            let mut s = String::new();
            for _ in 0..r.range(1, 8) {
                s.push_str(r.pick(&set));
                if r.chance(1, 2) {
                    s.push(odd_char(r));
                }
            }
            s
        }
    }
}
fn make(seed: u64, i: u64, corpus: &(Vec<String>, Vec<(String, String)>)) -> Docs {
    let mut r = Rng::stream(seed, 1301, i);
    let fam = i % 10;
    let a = one(&mut r, corpus, fam);
    let b = match r.below(4) {
        0 => {
            let f = r.below(10) as u64;
            one(&mut r, corpus, f)
        }
        1 => one(&mut r, corpus, fam),
        _ => {
            let mut s = a.clone();
            for _ in 0..r.range(1, 5) {
                s = generate::damage(&mut r, &s);
            }
            s
        }
    };
    Docs { docs: vec![a, b], opt: i, how: "hostile pair", min: 2 }
}

/// Everything a document can go through, on this thread's stack.
fn exercise(c: &Docs, acc: &mut Acc) -> Result<(), String> {
    let (a, b) = (StrTendril::from(c.docs[0].as_str()), StrTendril::from(c.docs[1].as_str()));
    let (old, new) = (parse(&a), parse(&b));
    for d in [&old, &new] {
        acc.sample(|| format!("{:?} -> {:?}", c.docs[0], c.docs[1]));
        let n = d.to_html().len() + d.to_html_without_doctype().len() + d.to_body_html().len() + d.dump_body().map_or(0, |s| s.len());
        acc.max("bytes of output for one document", n as u64);
        let mut depth = 0;
        let mut at = Some(d.root);
        while let Some(x) = at {
            depth += 1;
            at = d.last_child(x);
        }
        acc.max("depth of the last path of a document", depth);
        acc.add("documents", 1);
    }
    for (x, y) in [(&old, &new), (&new, &old), (&old, &old)] {
        let p = diff(x, y).map_err(|e| format!("diff: {e:?}"))?;
        acc.max("patches for one pair", p.len() as u64);
        acc.add("patches", p.len() as u64);
        let bytes = facet_postcard::to_vec(&p).map_err(|e| format!("encode: {e:?}"))?;
        let back: Vec<Patch<'static>> = facet_postcard::from_slice(&bytes).map_err(|e| format!("decode: {e:?}"))?;
        let mut d: Document = x.clone();
        d.apply_patches(p).map_err(|e| format!("apply: {e:?}"))?;
        let mut e: Document = x.clone();
        e.apply_patches(back).map_err(|e| format!("apply decoded: {e:?}"))?;
        if d.to_html() != e.to_html() {
            return Err("patches act differently after their trip as bytes".into());
        }
    }
    for s in [&c.docs[0], &c.docs[1]] {
        let t = StrTendril::from(s.as_str());
        let f = parse_body_fragment(&t);
        let _ = f.to_html();
        let i = hotmeal_server::inject_into_head(s, "<meta name=x>");
        if i.len() != s.len() + 13 {
            return Err("injection changed the page's length by something else than the injection".into());
        }
    }
    diff_html(&a, &b).map_err(|e| format!("diff_html: {e:?}"))?;
    let mut s = hotmeal_server::LiveReloadServer::new();
    s.cache_html("/r", &c.docs[0]);
    let _ = s.diff_route("/r", &c.docs[1]);
    let _ = s.diff_route("/r", &c.docs[0]);
    acc.seen(&c.docs.concat());
    Ok(())
}

/// `h13child SEED FIRST STEP END`, or `h13child file PATH` for a single pair.
pub fn child(args: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let args = args.to_vec();
    let t = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut acc = Acc::default();
            let out = std::io::stdout();
            if args[0] == "file" {
                let s = std::fs::read_to_string(&args[1]).expect("case file");
                let (a, b) = s.split_once('\u{1}').unwrap();
                let c = Docs { docs: vec![a.into(), b.into()], opt: 0, how: "", min: 2 };
                let v = guarded(|| exercise(&c, &mut acc)).and_then(|x| x);
                println!("{}", if let Err(m) = v { format!("E 0 {}", m.replace('\n', " ")) } else { "D 0".into() });
                return;
            }
            let n = |k: usize| args[k].parse::<u64>().unwrap();
            let corpus = generate::corpus();
            let mut i = n(1);
            while i < n(3) {
                let c = make(n(0), i, &corpus);
                let _ = writeln!(out.lock(), "B {i}");
                if let Err(m) = guarded(|| exercise(&c, &mut acc)).and_then(|x| x) {
                    let _ = writeln!(out.lock(), "E {i} {}", m.replace('\n', " "));
                }
                i += n(2);
            }
            for (k, v) in &acc.counters {
                let _ = writeln!(out.lock(), "C {v} {k}");
            }
            for (k, v) in &acc.maxima {
                let _ = writeln!(out.lock(), "M {v} {k}");
            }
            for t in &acc.samples {
                let _ = writeln!(out.lock(), "S 0 {}", t.replace('\n', " "));
            }
            for h in &acc.distinct {
                let _ = writeln!(out.lock(), "H {h}");
            }
            let _ = writeln!(out.lock(), "F 0");
        })
        .unwrap();
    if t.join().is_err() {
        std::process::exit(5);
    }
}

const PATIENCE: Duration = Duration::from_secs(120);

/// What one pair does in a process of its own; None when it is fine.
fn verdict(c: &Docs, tag: &str) -> Option<String> {
    let f = std::env::temp_dir().join(format!("h13-{}-{tag}", std::process::id()));
    std::fs::write(&f, format!("{}\u{1}{}", c.docs[0], c.docs[1])).ok()?;
    let mut ch = Command::new(std::env::current_exe().ok()?).args(["h13child", "file", f.to_str()?]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let t0 = Instant::now();
    let st = loop {
        if let Ok(Some(s)) = ch.try_wait() {
            break Some(s);
        }
        if t0.elapsed() > PATIENCE {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let mut out = String::new();
    if let Some(mut o) = ch.stdout.take() {
        use std::io::Read;
        let _ = o.read_to_string(&mut out);
    }
    let _ = std::fs::remove_file(&f);
    match st {
        None => Some("no result after 120 s".into()),
        Some(s) if !s.success() => Some(format!("the process died: {s}")),
        Some(_) => out.lines().find_map(|l| l.strip_prefix("E 0 ").map(|m| m.to_string())),
    }
}

enum End {
    Died(u64, String),
    Error(u64, String),
}

pub fn h13(cx: &Ctx) -> i32 {
    let n = cx.scale(6_000, 400_000);
    let ends: Mutex<Vec<End>> = Mutex::new(vec![]);
    let exe = std::env::current_exe().expect("own path");
    // many shortish children: a thorough run stops at its deadline between them
    let batch = 100u64;
    let next = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..cx.workers {
            let (ends, next, exe) = (&ends, &next, &exe);
            sc.spawn(move || {
                loop {
                    let b = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if b * batch >= n || cx.elapsed() > cx.deadline() || !ends.lock().unwrap().is_empty() {
                        return;
                    }
                    let mut ch = Command::new(exe)
                        .args(["h13child", &cx.seed.to_string(), &(b * batch).to_string(), "1", &((b + 1) * batch).min(n).to_string()])
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                        .expect("start child");
                    let last = std::sync::Arc::new(Mutex::new((Instant::now(), b * batch)));
                    let o = ch.stdout.take().unwrap();
                    let l2 = last.clone();
                    let reader = std::thread::spawn(move || {
                        let (mut acc, mut err, mut fin) = (Acc::default(), None, false);
                        let (mut cs, mut ms) = (vec![], vec![]);
                        for line in std::io::BufReader::new(o).lines().map_while(Result::ok) {
                            let (k, rest) = line.split_at(1);
                            let rest = rest.trim_start();
                            let (num, tail) = rest.split_once(' ').unwrap_or((rest, ""));
                            let num: u64 = num.parse().unwrap_or(0);
                            match k {
                                "B" => {
                                    acc.evaluations += 1;
                                    *l2.lock().unwrap() = (Instant::now(), num);
                                }
                                "E" => err = err.or(Some((num, tail.to_string()))),
                                "C" => cs.push((tail.to_string(), num)),
                                "M" => ms.push((tail.to_string(), num)),
                                "S" => acc.samples.push(tail.to_string()),
                                "H" => {
                                    acc.distinct.insert(num);
                                }
                                _ => fin = true,
                            }
                        }
                        (acc, err, fin, cs, ms)
                    });
                    let mut timeout = false;
                    let st = loop {
                        if let Ok(Some(s)) = ch.try_wait() {
                            break Some(s);
                        }
                        if last.lock().unwrap().0.elapsed() > PATIENCE {
                            timeout = true;
                            let _ = ch.kill();
                            break ch.wait().ok();
                        }
                        std::thread::sleep(Duration::from_millis(5));
                    };
                    let (acc, err, fin, cs, ms) = reader.join().unwrap();
                    cx.merge(acc);
                    {
                        let mut s = cx.st.lock().unwrap();
                        for (k, v) in cs {
                            *s.counters.entry(k).or_default() += v;
                        }
                        for (k, v) in ms {
                            let e = s.maxima.entry(k).or_default();
                            *e = (*e).max(v);
                        }
                        *s.counters.entry("child processes".into()).or_default() += 1;
                    }
                    let at = last.lock().unwrap().1;
                    if let Some((i, m)) = err {
                        ends.lock().unwrap().push(End::Error(i, m));
                    } else if timeout {
                        ends.lock().unwrap().push(End::Died(at, "no result after 120 s".into()));
                    } else if !fin || !st.is_some_and(|s| s.success()) {
                        ends.lock().unwrap().push(End::Died(at, format!("the process died: {st:?}")));
                    }
                }
            });
        }
    });
    if let Some(e) = ends.into_inner().unwrap().into_iter().next() {
        let (i, m) = match e {
            End::Died(i, m) | End::Error(i, m) => (i, m),
        };
        let corpus = generate::corpus();
        let mut best = make(cx.seed, i, &corpus);
        // on its own, in a process of its own: a death that does not repeat may have been the machine's
        match verdict(&best, "x") {
            None => cx.st.lock().unwrap().inconclusive.push(format!("case {i}: {m}; it did not repeat")),
            Some(m) => {
                let mut msg = m;
                let t0 = Instant::now();
                if !msg.starts_with("no result") {
                    'outer: while t0.elapsed() < Duration::from_secs(30) {
                        for c in crate::harness::Case::shrinks(&best) {
                            if t0.elapsed() > Duration::from_secs(30) {
                                break 'outer;
                            }
                            if let Some(m) = verdict(&c, "x") {
                                (best, msg) = (c, m);
                                continue 'outer;
                            }
                        }
                        break;
                    }
                }
                cx.violate(msg.clone(), format!("family hostile pairs index {i}\n{}\n{msg}", crate::harness::Case::show(&best)));
            }
        }
    }
    cx.finish("a distinct pair of hostile inputs taken through every operation in a child process with a 2 MB stack", &[("documents", 8_000), ("patches", 50_000), ("child processes", 5)])
}
