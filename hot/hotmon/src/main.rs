mod api;
mod built;
mod checks;
mod client;
mod cost;
mod minimal;
mod parsing;
#[path = "gen.rs"]
mod generate;
mod harness;
mod html5lib;
mod ledger;
#[cfg(feature = "live")]
mod live;
mod loader;
mod refdom;
mod rng;
mod robust;
mod san;
mod server;
mod shown;
mod snap;
mod tree;
mod values;
mod work;
mod zerocopy;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("h13child") => robust::child(&a[2..]),
        Some("digest") => work::print_digests(&a[2..]),
        Some("san") => std::process::exit(san::san(&a[2..])),
        Some("heap") => {
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || san::heap(&a[2..])).unwrap();
            std::process::exit(h.join().unwrap_or(4));
        }
        Some("html5lib") => html5lib::run(&a[2], a.len() > 3),
        Some("check") => {
            let id = a[2].clone();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
            let out = std::env::var("VERIF_OUT").unwrap_or_else(|_| "/verif".into());
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let cx = harness::Ctx::new(&id, seed, thorough, &out);
                    match id.as_str() {
                        "H01" => checks::h01(&cx),
                        "H02" => checks::h02(&cx),
                        "H12" => client::h12(&cx),
                        "H13" => robust::h13(&cx),
                        "H14" => loader::h14(&cx),
                        "H15" => minimal::h15(&cx),
                        "H16" => work::h16(&cx),
                        "H17" => san::h17(&cx),
                        "H23" => cost::h23(&cx),
                        "H24" => shown::h24(&cx),
                        "H18" => ledger::h18(&cx),
                        "H19" => built::h19(&cx),
                        "H20" => values::h20(&cx),
                        "H21" => zerocopy::h21(&cx),
                        "H10" => server::h10(&cx),
                        "H11" => server::h11(&cx),
                        "H06" => api::h06(&cx),
                        "H07" => api::h07(&cx),
                        "H04" => parsing::h04(&cx),
                        "H05" => parsing::h05(&cx),
                        "H03" => checks::h03(&cx),
                        "H08" => checks::h08(&cx),
                        "H09" => checks::h09(&cx),
                        #[cfg(feature = "live")]
                        "H22" => live::h22(&cx),
                        _ => {
                            eprintln!("unknown property {id}");
                            3
                        }
                    }
                })
                .unwrap();
            std::process::exit(h.join().unwrap_or(4));
        }
        _ => std::process::exit(3),
    }
}
