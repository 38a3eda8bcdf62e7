//! Deterministic simulation of vec-collections with fault injection. See /verif/DESIGN.md.
#[macro_use]
mod rt;
mod runner;
mod scn;

#[global_allocator]
static ALLOC: rt::arena::SimAlloc = rt::arena::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = args.get(1..).unwrap_or(&[]);
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") if rest.len() == 1 => runner::check(&rest[0]),
        Some("worker") => runner::worker(rest),
        Some("exec") => runner::exec(rest),
        Some("replay") if rest.len() == 1 => runner::replay(&rest[0]),
        Some("det") => {
            let n = rest.get(1).and_then(|s| s.parse().ok()).unwrap_or(500);
            runner::determinism(&rest[0], n)
        }
        Some("list") => {
            for s in scn::SCNS {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|det|list ...");
            2
        }
    };
    std::process::exit(code);
}
