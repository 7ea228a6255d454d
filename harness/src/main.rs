#![cfg_attr(feature = "backtrace", feature(error_generic_member_access))]
#![allow(dead_code, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod bits;
mod budget;
mod checks;
mod cli;
mod content;
mod det;
mod docgen;
mod dump;
mod enums;
mod faults;
mod feature;
mod graph;
mod hostile;
mod io;
mod leak;
mod mini;
mod px;
mod rng;
mod run;
mod sys;
mod tables;
mod trees;
mod typed;
mod ub;

use run::Tier;

#[global_allocator]
static A: sys::Tracking = sys::Tracking;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let find = |id: &str| checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no check for {id}");
        std::process::exit(2)
    });
    match arg(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(run::coordinate(&find(arg(2)), tier(arg(3)), seed));
        }
        "worker" => run::worker(
            &find(arg(2)),
            tier(arg(3)),
            arg(4).parse().unwrap(),
            arg(5).parse().unwrap(),
            arg(6).parse().unwrap(),
            arg(7).parse().unwrap(),
            std::path::Path::new(arg(8)),
            arg(9).parse().unwrap(),
        ),
        "replay" => {
            let t = std::fs::read_to_string(arg(2)).unwrap();
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
            checks::one(&find(&get("property")), tier(&get("tier")), get("seed").parse().unwrap(), get("case").parse().unwrap());
        }
        "case" => checks::one(&find(arg(2)), tier(arg(5)), arg(3).parse().unwrap(), arg(4).parse().unwrap()),
        "dump" => {
            let d = std::fs::read(arg(2)).unwrap();
            match px::section(&d, "x.one") {
                px::Res::Ok(s) => {
                    for (k, v) in dump::dump_section(&s) {
                        println!("{k} = {v}");
                    }
                }
                r => println!("{}", r.what()),
            }
        }
        "mini" => {
            // size of the object graphs of the hostile catalogue and what they parse to
            let n: usize = arg(3).parse().unwrap();
            let k: usize = arg(2).parse().unwrap();
            let c = hostile::graph(k, n, &mut rng::Rng::new(1)).unwrap();
            println!("{} {}", c.label, c.bytes.len());
            let t = std::time::Instant::now();
            run::on_stack(|| match px::section(&c.bytes, "x.one") {
                px::Res::Ok(s) => println!("ok {} {:?}", dump::dump_section(&s).len(), t.elapsed()),
                r => println!("{} {:?}", r.what(), t.elapsed()),
            });
            if !arg(4).is_empty() {
                hostile::save(std::path::Path::new(arg(4)), &c);
            }
        }
        "corpus" => {
            let mut r = rng::Rng::new(arg(3).parse().unwrap());
            for k in 0..40 {
                let (l, b, toc) = ub::small(&mut r, k);
                let f = format!("{}/{k}", arg(2));
                std::fs::write(&f, &b).unwrap();
                println!("{k}\t{}\t{f}\tx.one\t{} {l}", if toc { "notebook" } else { "buffer" }, b.len());
            }
        }
        "interpret" => ub::interpret(std::path::Path::new(arg(2))),
        "answers-bt" => feature::answers(std::path::Path::new(arg(2))),
        "answers" => det::answers(std::path::Path::new(arg(2))),
        "list" => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
        _ => std::process::exit(2),
    }
}
