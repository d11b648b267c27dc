// MIR exporter for the rust-raknet static checks.
//
// Runs as RUSTC_WORKSPACE_WRAPPER.  For the crate `rust_raknet` it snapshots the
// MIR of every body right after promotion (before drop elaboration and before
// the coroutine transform), resolves every call to a concrete instance, and
// writes everything as JSON to $RNV_OUT.  For other crates it is plain rustc.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;

extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
mod dump;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump::run(tcx);
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper convention: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut name = String::new();
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        i += 1;
    }
    let want = std::env::var("RNV_CRATE").unwrap_or_else(|_| "rust_raknet".into());
    if name == want && std::env::var("RNV_OUT").is_ok() {
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    } else {
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));
    }
}
