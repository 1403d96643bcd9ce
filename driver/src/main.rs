//! Dumps the monomorphised MIR of everything of the analysed binary crate that can be reached from
//! its `main` function (and of every other non-generic function in it), together with the types,
//! evaluated constants and resolved callees, as JSON. Nothing of the analysed crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_span;

mod dump;
mod json;

use std::process::Command;
use std::ops::ControlFlow;

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let args: Vec<String> = std::env::args().skip(1).collect();
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    if crate_name != target {
        let status = Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(status.code().unwrap_or(1));
    }
    let mut args = args;
    args.push("-Zmir-opt-level=0".into());
    let result: Result<(), _> = run_with_tcx!(&args, |tcx| -> ControlFlow<()> {
        let out = dump::dump(tcx);
        let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        std::fs::write(path, out).expect("write dump");
        ControlFlow::Continue(())
    });
    if result.is_err() {
        std::process::exit(1);
    }
}
