//! rustc driver: type-checks the crate exactly as cargo asked, then dumps the resolved program
//! (items, types, impls, evaluated constants, monomorphic MIR) as one JSON file.
//! It never runs any code of the crate.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::Compilation;
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let s = dump::dump(tcx);
        std::fs::write(&self.out, s).expect("cannot write dump");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let mut name = None;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = Some(w[1].clone());
        }
    }
    let is_target = name.as_deref() == Some(want.as_str()) && !want.is_empty();
    rustc_driver::init_rustc_env_logger(&rustc_session::EarlyDiagCtxt::new(
        rustc_session::config::ErrorOutputType::default(),
    ));
    let code = rustc_driver::catch_with_exit_code(|| {
        if is_target {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain)
        }
    });
    let _ = code;
    std::process::exit(if format!("{:?}", code).contains("SUCCESS") || format!("{:?}", code) == "ExitCode(unix_exit_status(0))" { 0 } else { 1 });
}
