//! Fact extractor: a rustc driver, injected with RUSTC_WORKSPACE_WRAPPER, that dumps the
//! type-checked program (MIR of every body, impls, ADTs, visibilities) of one crate as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Dump;

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("RRB_FACTS_CRATE").unwrap_or_default();
        let out = std::env::var("RRB_FACTS_OUT").unwrap_or_default();
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if !out.is_empty() && (want.is_empty() || want == name) {
            let text = dump::dump_crate(tcx, &name);
            let tmp = format!("{}.tmp.{}", out, std::process::id());
            std::fs::write(&tmp, text).expect("writing facts");
            std::fs::rename(&tmp, &out).expect("renaming facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper, argv[1] is the path of the real rustc.
    if args.len() > 1 && !args[1].starts_with('-') && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Dump);
}
