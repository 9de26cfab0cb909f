mod checks;
mod explore;
#[path = "gen.rs"]
mod generate;
mod harness;
mod oracle;
mod rng;
mod san;
mod spec;
mod stats;
mod sut;

#[global_allocator]
static ALLOC: san::Counting = san::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("explore") => explore::explore(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4] == "opaque"),
        Some("san") => std::process::exit(san::san(&a[2..])),
        Some("heap") => std::process::exit(san::heap(&a[2..])),
        Some("digest") => {
            std::panic::set_hook(Box::new(|_| {}));
            stats::digest(&a[2..]);
        }
        Some("check") => {
            let id = a[2].clone();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
            let out = std::env::var("VERIF_OUT").unwrap_or_else(|_| "/verif".into());
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let cx = harness::Ctx::new(&id, seed, thorough, &out);
                    match id.as_str() {
                        "C01" => checks::c01(&cx),
                        "C02" => checks::c02(&cx),
                        "C03" => checks::c03(&cx),
                        "C04" => checks::c04(&cx),
                        "C05" => checks::c05(&cx),
                        "C06" => checks::c06(&cx),
                        "C07" => checks::c07(&cx),
                        "C08" => checks::c08(&cx),
                        "C09" => checks::c09(&cx),
                        "C10" => checks::c10(&cx),
                        "C11" => checks::c11(&cx),
                        "C12" => checks::c12(&cx),
                        "C13" => checks::c13(&cx),
                        "C14" => checks::c14(&cx),
                        "C15" => checks::c15(&cx),
                        "C16" => checks::c16(&cx),
                        _ => {
                            eprintln!("unknown property {id}");
                            3
                        }
                    }
                })
                .unwrap();
            let code = h.join().unwrap_or(4);
            std::process::exit(code);
        }
        _ => {
            eprintln!("usage: cinmon check <ID> | digest <seed> <blocks> <per> [mode..] | explore <seed> <n> <plain|opaque>");
            std::process::exit(3);
        }
    }
}
