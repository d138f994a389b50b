//! sfmc: explicit exploration of the real silverfox binary. `sfmc ID TIER --bin B --shim S --verif V`,
//! or `sfmc replay FILE --bin B --shim S`.
#![allow(clippy::too_many_arguments, dead_code)]
mod cal;
mod checks;
mod common;
mod fw;
mod model;
mod outparse;
mod sut;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| -> PathBuf {
        let i = a.iter().position(|x| x == n).unwrap_or_else(|| usage());
        PathBuf::from(a.get(i + 1).unwrap_or_else(|| usage()))
    };
    if a.len() < 3 {
        usage();
    }
    if a[1] == "replay" {
        fw::replay(&PathBuf::from(&a[2]), &opt("--bin"), &opt("--shim"));
        return;
    }
    cal::selftest();
    let h = fw::Harness::new(&a[1], a[2] == "thorough", opt("--bin"), opt("--shim"), opt("--verif"));
    let code = match checks::ALL.iter().find(|c| c.0 == a[1]) {
        Some(c) => (c.1)(&h),
        None => usage(),
    };
    h.cleanup();
    std::process::exit(code);
}

fn usage() -> ! {
    eprintln!("usage: sfmc ID quick|thorough --bin B --shim S --verif V | sfmc replay FILE --bin B --shim S");
    std::process::exit(2)
}
