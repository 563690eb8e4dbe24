//! Dumps the monomorphised MIR reachable from a crate's roots as JSON facts.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: `mirfacts <rustc> <args..>`. For crates
//! named in MIRFACTS_CRATES it writes `$MIRFACTS_OUT/<crate>.json`.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_span;

mod dump;
mod json;

use std::process::{Command, ExitCode};

fn main() -> ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // argv: mirfacts /path/to/rustc ...
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(0);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let wanted = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let hit = !out.is_empty()
        && name.as_deref().map_or(false, |n| wanted.split(',').any(|w| w == n))
        && !args.iter().any(|a| a == "--test");
    if !hit {
        let st = Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        return ExitCode::from(st.code().unwrap_or(1) as u8);
    }
    let name = name.unwrap();
    let mut rargs = args.clone();
    rargs[0] = "rustc".to_string();
    let res: Result<(), _> = rustc_public::run_with_tcx!(&rargs, move |tcx| {
        dump::dump(tcx, &name, &out);
        std::ops::ControlFlow::<(), ()>::Continue(())
    });
    match res {
        Ok(_) => ExitCode::SUCCESS,
        Err(_) => ExitCode::FAILURE,
    }
}
