//! Compiles the scheduler, which is C so that its own atomics are not instrumented.
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=src/rt.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = |c: &mut Command| assert!(c.status().expect("a C compiler").success());
    ok(Command::new("gcc").args(["-O2", "-g", "-Wall", "-fPIC", "-c", "src/rt.c", "-o"]).arg(format!("{out}/rt.o")));
    ok(Command::new("ar").arg("crs").arg(format!("{out}/librt_sched.a")).arg(format!("{out}/rt.o")));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=rt_sched");
}
