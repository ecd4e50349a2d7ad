//! The coverage-guided search: libFuzzer grows the choice tape of one check
//! (`TWV_CHECK`), guided by the coverage of the code under test, and the
//! check's own oracle judges every case. A tape that breaks the property ends
//! the process, and libFuzzer keeps it; `twv confirm` then shows it again,
//! narrows it down and reports it.
#![no_main]

use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;
use twv::{checks, runner, sut};

fn check() -> &'static runner::Check {
    static C: OnceLock<&'static runner::Check> = OnceLock::new();
    C.get_or_init(|| {
        sut::install_hook();
        let id = std::env::var("TWV_CHECK").expect("TWV_CHECK names a check");
        checks::all().iter().find(|c| c.id == id).expect("TWV_CHECK is the id of a check")
    })
}

fuzz_target!(|data: &[u8]| {
    let check = check();
    let tape = runner::tape_of_bytes(data);
    if let Some(m) = runner::try_tape(check, &tape, true) {
        eprintln!("property {} does not hold: {m}", check.id);
        std::process::abort();
    }
});
