#![feature(rustc_private)]
#![allow(dead_code, clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
mod checks;
mod facts;
mod interp;
mod models;
mod state;
mod term;
use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        // the analysis keeps arena references in thread-local tables; it never outlives `tcx`
        let t: interp::Tcx = unsafe { std::mem::transmute(tcx) };
        interp::set_tcx(t);
        checks::main();
        Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let target = !krate.is_empty() && !krate.starts_with("build_script") && !krate.starts_with("___");
    if target {
        for x in ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Zunstable-options", "--cap-lints", "allow"] {
            args.push(x.into());
        }
        if let Ok(rt) = std::env::var("SA_RT") {
            args.push("--extern".into());
            args.push(format!("force:sa_rt={rt}"));
            args.push("-L".into());
            args.push(format!("dependency={}", std::path::Path::new(&rt).parent().unwrap().display()));
        }
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        if target {
            rustc_driver::compiler_entrypoint(&args, &mut Cb)
        } else {
            struct N;
            impl Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N)
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
