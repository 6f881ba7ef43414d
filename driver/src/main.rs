//! Static extractor: used as RUSTC_WRAPPER. For the crates named in ND_DUMP it dumps the
//! type-checked, instantiated MIR of the root functions and of everything they reach (as far as
//! the policy allows); for the crates named in ND_FACTS it dumps effect / unsafe facts.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod facts;
mod json;

use std::process::{Command, ExitCode};

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    dump: bool,
    facts: bool,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, _tcx: TyCtxt<'tcx>) -> Compilation {
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.dump {
            dump::dump(tcx);
        }
        if self.facts {
            facts::facts(tcx);
        }
        Compilation::Continue
    }
}

fn listed(var: &str, name: &str) -> bool {
    std::env::var(var)
        .map(|v| v.split(',').any(|x| x == name))
        .unwrap_or(false)
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    let rustc = args.get(1).cloned().unwrap_or_else(|| "rustc".into());
    let rest: Vec<String> = args.iter().skip(2).cloned().collect();
    let mut crate_name = String::new();
    let mut it = rest.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            crate_name = it.next().cloned().unwrap_or_default();
        }
    }
    let dump = listed("ND_DUMP", &crate_name);
    let facts = listed("ND_FACTS", &crate_name);
    let mir = listed("ND_MIR", &crate_name);
    let mut full = rest.clone();
    if dump || mir {
        full.push("-Zalways-encode-mir".into());
        full.push("-Zmir-opt-level=0".into());
        let da = if std::env::var("ND_DA").is_ok() { "on" } else { "off" };
        full.push(format!("-Cdebug-assertions={da}"));
        full.push("-Coverflow-checks=on".into());
    }
    if !(dump || facts) {
        let st = Command::new(&rustc).args(&full).status();
        return match st {
            Ok(s) => ExitCode::from(s.code().unwrap_or(101) as u8),
            Err(e) => {
                eprintln!("nd-driver: {e}");
                ExitCode::from(101)
            }
        };
    }
    let mut argv = vec![rustc];
    argv.extend(full);
    let mut cb = Cb { dump, facts };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&argv, &mut cb))
}
