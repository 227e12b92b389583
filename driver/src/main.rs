//! rustc_private driver: type-checks the crate exactly as the real build does and, for the crate
//! named in MIRDUMP_CRATE, writes the resolved program (MIR bodies, type table, impl table,
//! trait table, ADT table, statics) as JSON to MIRDUMP_OUT.  It runs nothing from the crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_type_ir;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    active: bool,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.active {
            config.opts.unstable_opts.mir_opt_level = Some(0);
            config.opts.unstable_opts.always_encode_mir = true;
        }
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if self.active {
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            let s = dump::dump(tcx);
            let tmp = format!("{out}.tmp{}", std::process::id());
            std::fs::write(&tmp, s).expect("write dump");
            std::fs::rename(&tmp, &out).expect("rename dump");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    let args: Vec<String> = std::env::args().skip(1).collect();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut active = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == want {
            active = true;
        }
    }
    if args.iter().any(|a| a.starts_with("--print")) {
        active = false;
    }
    let mut cb = Cb { active };
    rustc_driver::install_ice_hook("mirdump", |_| ());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
