//! Offline stand-in for `datatest-stable`, enough for one file-driven test.
pub type Result<T> = std::result::Result<T, Box<dyn std::error::Error>>;

pub fn run(name: &str, f: fn(&std::path::Path) -> Result<()>, root: &str) {
    let root = std::env::var("DATATEST_ROOT").unwrap_or_else(|_| root.to_string());
    let mut files: Vec<_> = std::fs::read_dir(&root).expect(&root).map(|e| e.unwrap().path()).collect();
    files.sort();
    let mut bad = 0;
    for p in &files {
        match f(p) {
            Ok(()) => println!("test {name}::{} ... ok", p.display()),
            Err(e) => {
                bad += 1;
                println!("test {name}::{} ... FAILED\n{e}", p.display());
            }
        }
    }
    println!("{} files, {} failed", files.len(), bad);
    if bad > 0 {
        std::process::exit(101);
    }
}

#[macro_export]
macro_rules! harness {
    ({ test = $f:path, root = $r:expr, pattern = $p:expr $(,)? } $(,)?) => {
        fn main() { $crate::run(stringify!($f), $f, $r) }
    };
}
