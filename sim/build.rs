use std::process::Command;
fn main() {
    // the runtime is C so that the coverage instrumentation of the Rust code never applies to it
    let out = std::env::var("OUT_DIR").unwrap();
    for f in ["dsim", "alloc"] {
        println!("cargo:rerun-if-changed=c/{f}.c");
        let o = format!("{out}/{f}.o");
        let src = format!("c/{f}.c");
        let cov = if std::env::var("DSIM_COV").is_ok() { "-DDSIM_COV" } else { "-UDSIM_COV" };
        let race = if std::env::var("DSIM_RACE").is_ok() { "-DDSIM_RACE" } else { "-UDSIM_RACE" };
        let ok = Command::new("gcc").args(["-O2", "-fPIC", "-Wall", cov, race, "-c", &src, "-o", &o]).status().unwrap().success();
        assert!(ok);
        println!("cargo:rustc-link-arg-bins={o}");
    }
    println!("cargo:rerun-if-changed=c/race.c");
    println!("cargo:rerun-if-env-changed=DSIM_RACE");
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
