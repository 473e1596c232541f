//! Fact extractor: a rustc driver used as RUSTC_WORKSPACE_WRAPPER. For every body of the crate it
//! writes the built MIR with resolved callees as JSON to $JESTER_FACTS/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Facts { out: Option<String> }

impl Callbacks for Facts {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(dir) = &self.out {
            dump::dump(tcx, dir);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: <wrapper> <rustc> <args...>
    args.remove(0);
    let is_rustc = args.first().map(|a| a.contains("rustc")).unwrap_or(false);
    if !is_rustc { args.insert(0, "rustc".into()); }
    let dumping = args.iter().any(|a| a == "--crate-name")
        && !args.iter().any(|a| a == "--test" || a.starts_with("--print"));
    let out = if dumping { std::env::var("JESTER_FACTS").ok() } else { None };
    rustc_driver::install_ice_hook("", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Facts { out });
}
