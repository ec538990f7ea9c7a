//! MIR fact extractor: a rustc wrapper that, for the crate named in MIRDUMP_CRATE, walks
//! every monomorphic function reachable from the functions of that crate and writes the
//! monomorphised MIR, types with their layouts, and constant allocations as JSON.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;

mod dump;
mod json;


struct Passthrough;
impl rustc_driver::Callbacks for Passthrough {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == want);
    if !is_target {
        rustc_driver::catch_fatal_errors(|| {
            rustc_driver::compiler_entrypoint(&args, &mut Passthrough);
        })
        .map(|_| ())
        .unwrap_or_else(|_| std::process::exit(101));
        return;
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let res = run_with_tcx!(&args, |tcx| -> std::ops::ControlFlow<(), ()> {
        dump::run(tcx, &out);
        std::ops::ControlFlow::Continue(())
    });
    match res {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(_) => std::process::exit(101),
    }
}
