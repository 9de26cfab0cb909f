//! H14: the loader script, executed.
use crate::generate;
use crate::harness::*;
use crate::refdom;
use crate::rng::Rng;
use crate::tree::*;
use hotmeal_server::{inject_into_head, loader_script};

#[derive(Clone)]
struct Args {
    a: [String; 4],
    page: String,
}
impl Args {
    fn show(&self) -> String {
        format!("wasm_js_url {:?}\nwasm_url {:?}\nmount_selector {:?}\nws_url {:?}\npage {:?}", self.a[0], self.a[1], self.a[2], self.a[3], self.page)
    }
}
const BITS: &[&str] = &[
    "\"", "'", "\\", "\\\\", "`", "${x}", "{}", "{x}", "{{", "}}", "</script>", "</SCRIPT ", "<!--", "-->", "<script>", "<!-- <script>", "\n", "\r", "\r\n", "\t", "\0",
    "\u{2028}", "\u{2029}", "\u{feff}", "&amp;", "&quot;", "&", "//", "/*", "*/", "\u{7f}", "\u{1}", "é", "😀", "\\n", "\\u0041", "\\x41", "]]>", "<![CDATA[", " ", ";", "%22", "#{x}", "\");alert(1);(\"",
];
fn arg(r: &mut Rng, k: usize) -> String {
    let plain: &[&[&str]] = &[
        &["/wasm.js", "./pkg/hotmeal_wasm.js", "https://cdn.example/x.js?v=1&w=2", "/_lr/client.js"],
        &["/wasm.wasm", "./pkg/hotmeal_wasm_bg.wasm", "/x y.wasm", ""],
        &["body", "#content", "[data-app=\"main\"]", "div[title='it\\'s']", "#a\\:b", "main > .x", "[x=\"a\\\"b\"]", ".größe"],
        &["ws://localhost:3000/_lr", "wss://h/p?a=\"b\"", "ws://[::1]/"],
    ];
    let mut s = r.pick(plain[k]).to_string();
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 4) {
            let ix: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
            s.insert_str(*r.pick(&ix), r.pick(BITS));
        }
    }
    if r.chance(1, 30) {
        s = generate::text(r);
    }
    s
}
fn script_in(d: &refdom::RefDoc) -> Option<&Elem> {
    let h = d.html()?.children.iter().filter_map(|c| c.elem()).find(|e| e.tag == "head")?;
    h.children.first()?.elem().filter(|e| e.tag == "script")
}
/// What a page holds once the script is in it: the script's source, or what is wrong.
fn source(c: &Args) -> Result<String, Vec<Bad>> {
    let tag = loader_script(&c.a[0], &c.a[1], &c.a[2], &c.a[3]);
    let page = inject_into_head(&c.page, &tag);
    let d = refdom::parse_full(&page);
    let Some(s) = script_in(&d) else {
        return Err(bad("no-script", format!("the page with the loader has no script first in its head: {page:?}")));
    };
    if s.attr("type") != Some("module") || s.attrs.len() != 1 {
        return Err(bad("type", format!("the loader is no plain module script: {tag:?}")));
    }
    let [Node::Text(src)] = &s.children[..] else {
        return Err(bad("content", format!("the loader holds {} nodes", s.children.len())));
    };
    let src = src.clone();
    // nothing of it may leak into the page
    let mut h = d.html().unwrap().clone();
    for e in h.children.iter_mut() {
        if let Node::Elem(e) = e
            && e.tag == "head"
        {
            e.children.remove(0);
            break;
        }
    }
    let plain = refdom::parse_full(&c.page);
    if Some(&h) != plain.html() {
        return Err(bad("leaks", format!("the loader changes the page beyond its script element: {page:?}")));
    }
    Ok(src)
}
/// Runs the sources in node; one line of observations each.
fn execute(dir: &std::path::Path, name: &str, srcs: &[String]) -> Result<Vec<String>, String> {
    let (js_, i, o) = (dir.join("loader.mjs"), dir.join(format!("{name}.in")), dir.join(format!("{name}.out")));
    std::fs::write(&js_, include_str!("loader.mjs")).map_err(|e| e.to_string())?;
    std::fs::write(&i, srcs.iter().map(|s| js(s) + "\n").collect::<String>()).map_err(|e| e.to_string())?;
    let out = std::process::Command::new("timeout")
        .args(["600", "node", "--no-warnings", "--experimental-vm-modules"])
        .args([&js_, &i, &o])
        .output()
        .map_err(|e| format!("cannot run node: {e}"))?;
    if !out.status.success() {
        return Err(format!("node ended with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let t = std::fs::read_to_string(&o).map_err(|e| e.to_string())?;
    let v: Vec<String> = t.lines().map(|l| l.to_string()).collect();
    if v.len() != srcs.len() { Err(format!("{} results for {} scripts", v.len(), srcs.len())) } else { Ok(v) }
}
/// JSON the way JSON.stringify writes it.
fn jsn(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn expected(c: &Args) -> String {
    let [a, b, m, w] = &c.a;
    format!("[[\"import\",{}],[\"init\",{}],[\"start\",{},{}]]", jsn(a), jsn(b), jsn(w), jsn(m))
}
pub fn h14(cx: &Ctx) -> i32 {
    let per = cx.scale(1500, 60_000);
    let dir = std::path::PathBuf::from(format!("{}/out/loader", cx.out));
    let _ = std::fs::create_dir_all(&dir);
    const PAGES: &[&str] = &[
        "<!DOCTYPE html><html><head><title>t</title></head><body><p>x</p></body></html>",
        "<html><head></head><body></body></html>",
        "<!DOCTYPE html><html lang=en>\n<head>\n<script>var a</script></head><body class=c>x</body></html>",
        "<head><meta charset=utf-8></head><p>a</p>",
    ];
    std::thread::scope(|s| {
        for w in 0..cx.workers as u64 {
            let dir = &dir;
            s.spawn(move || {
                let mut acc = Acc::default();
                let mut cases = vec![];
                let mut srcs = vec![];
                for i in 0..per {
                    let mut r = Rng::stream(cx.seed, 1401 + w, i);
                    let c = Args { a: [0, 1, 2, 3].map(|k| arg(&mut r, k)), page: r.pick(PAGES).to_string() };
                    acc.evaluations += 1;
                    match guarded(|| source(&c)) {
                        Ok(Ok(s)) => {
                            cases.push(c);
                            srcs.push(s);
                        }
                        Ok(Err(b)) => return cx.violate(b[0].msg.clone(), format!("{}\n{}", c.show(), b[0].msg)),
                        Err(m) => return cx.violate(m.clone(), format!("{}\n{m}", c.show())),
                    }
                }
                match execute(dir, &format!("w{w}"), &srcs) {
                    Err(m) => cx.st.lock().unwrap().inconclusive.push(m),
                    Ok(v) => {
                        for (k, got) in v.iter().enumerate() {
                            let want = expected(&cases[k]);
                            acc.add("loader scripts executed", 1);
                            acc.add("calls observed", got.matches("[\"").count() as u64);
                            if cases[k].a.iter().any(|a| BITS[..22].iter().any(|b| a.contains(b))) {
                                acc.add("scripts with delicate characters", 1);
                            }
                            acc.seen(&cases[k].show());
                            acc.sample(|| got.clone());
                            if *got != want {
                                let m = format!("the loader script did {got}, expected {want}");
                                return cx.violate(m.clone(), format!("{}\nscript {:?}\n{m}", cases[k].show(), srcs[k]));
                            }
                        }
                    }
                }
                cx.merge(acc);
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    cx.finish(
        "a distinct quadruple of arguments, its script injected into a page, read back by a parser, executed as a module, its import and calls recorded",
        &[("loader scripts executed", 5_000), ("scripts with delicate characters", 1_000)],
    )
}
