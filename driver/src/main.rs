//! rustc driver: dumps what the analyses need of the crate under analysis, as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; for the crate named in JBV_CRATE it writes JBV_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
mod dump;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;
use std::path::Path;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("JBV_CRATE").unwrap_or_else(|_| "jbcrs".into());
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if name == want {
            if let Ok(out) = std::env::var("JBV_OUT") {
                let stop = std::env::var("JBV_STOP").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
                let j = dump::dump(tcx, &stop);
                let mut s = String::new();
                j.write(&mut s);
                std::fs::write(out, s).unwrap();
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a cargo wrapper the first argument is the path of rustc
    if args.len() > 1 && Path::new(&args[1]).file_stem().map_or(false, |s| s == "rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Zalways-encode-mir".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
