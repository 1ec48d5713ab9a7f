use std::path::Path;
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=c/simio.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/simio.o");
    let a = format!("{out}/libsimio.a");
    let so = format!("{out}/simio.so");
    let run = |c: &mut Command| assert!(c.status().expect("run").success(), "{c:?}");
    run(Command::new("gcc").args(["-O1", "-fPIC", "-c", "-o", &o, "c/simio.c"]));
    let _ = std::fs::remove_file(&a);
    run(Command::new("ar").args(["rcs", &a, &o]));
    run(Command::new("gcc").args(["-O1", "-DSIMIO_PRELOAD", "-shared", "-fPIC", "-o", &so, "c/simio.c", "-ldl"]));
    assert!(Path::new(&so).exists());
    // only the simulator links the shim; the real `rng` gets it preloaded at run time
    println!("cargo:rustc-link-arg-bin=rngsim=-Wl,--whole-archive");
    println!("cargo:rustc-link-arg-bin=rngsim={a}");
    println!("cargo:rustc-link-arg-bin=rngsim=-Wl,--no-whole-archive");
    println!("cargo:rustc-link-arg-bin=rngsim=-Wl,--export-dynamic-symbol=getrandom,--export-dynamic-symbol=statx");
    println!("cargo:rustc-env=SIMIO_SO={so}");
}
