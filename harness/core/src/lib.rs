#![allow(deprecated, clippy::all)]
extern crate alloc;

pub mod ledger;
pub mod mocks;
pub mod mon;
pub mod nft;
pub mod rng;
pub mod util;
pub mod vm;

pub const VM_NOTE: &str = "contracts run natively (x86-64) against an emulated Stylus host (storage cache, frames, revert, logs, static calls); gas and ink metering is not modelled";
pub const MOCK_NOTE: &str = "external contracts are scripted mocks of the harness (honest, hostile, failing, reentering)";

pub fn main(all: Vec<mon::Prop>) {
    std::panic::set_hook(Box::new(|i| {
        let quiet = vm::IN_CONTRACT.with(|c| *c.borrow() > 0);
        if !quiet {
            eprintln!("harness panic: {i}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let mode = args.get(2).cloned().unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if id == "list" {
        for p in &all {
            println!("{}", p.id);
        }
        return;
    }
    let Some(p) = all.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let (thorough, only) = match mode.as_str() {
        "quick" => (false, None),
        "thorough" => (true, None),
        "replay" => (false, args.get(3).and_then(|s| s.parse().ok())),
        _ => {
            eprintln!("unknown mode");
            std::process::exit(2);
        }
    };
    std::process::exit(mon::run_prop(p, seed, thorough, only));
}
