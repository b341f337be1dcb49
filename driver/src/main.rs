#![feature(rustc_private)]
#![allow(rustc::default_hash_types)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;

use rustc_driver::Compilation;
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}

// The tree targets Rust 1.74, where `&CONST_FN()` inside a const table initialiser is promoted
// to a 'static. Newer compilers only promote calls to functions marked promotable; restore the
// 1.74 rule for this crate's own constructors (const fns returning one of the crate's types).
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            p.queries.is_promotable_const_fn = |tcx, d| {
                if !tcx.is_const_fn(d) {
                    return false;
                }
                let out = tcx.fn_sig(d).skip_binder().output().skip_binder();
                matches!(out.kind(), rustc_middle::ty::Adt(a, _) if a.did().is_local())
            };
        });
    }

    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let s = dump::dump(tcx);
            std::fs::write(out, s).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // Dependencies are built with RUSTC_BOOTSTRAP=-1 (as stable); the analysed crates are not.
    std::env::remove_var("RUSTC_BOOTSTRAP");
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: args[1] is the real rustc.
    args.remove(1);
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .map(|i| args[i + 1].clone())
        .unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && (w[1] == "lib" || w[1] == "cdylib" || w[1] == "rlib"))
        || args.iter().any(|a| a == "--crate-type=lib" || a == "--crate-type=cdylib");
    let mut out = None;
    if is_lib {
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            out = Some(format!("{dir}/{krate}.json"));
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir".into());
        }
    }
    args.push("-Awarnings".into());
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}
