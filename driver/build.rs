use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    // DEP_IMAGEQUANT_INCLUDE is exported by imagequant-sys (links = "imagequant"), as C users get it
    let inc = std::env::var("DEP_IMAGEQUANT_INCLUDE").unwrap();
    let ok = |c: &mut Command| assert!(c.status().expect("tool").success());
    ok(Command::new("gcc").args(["-std=c11", "-O1", "-fPIC", "-w", "-c", "csrc/shim.c", "-I"]).arg(&inc).arg("-o").arg(format!("{out}/shim.o")));
    let _ = std::fs::remove_file(format!("{out}/libshim.a"));
    ok(Command::new("ar").arg("crs").arg(format!("{out}/libshim.a")).arg(format!("{out}/shim.o")));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=shim");
    println!("cargo:rerun-if-changed=csrc/shim.c");
    println!("cargo:rerun-if-changed={inc}/libimagequant.h");
}
