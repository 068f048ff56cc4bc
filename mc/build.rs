use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let rt = concat!(env!("CARGO_MANIFEST_DIR"), "/../rt");
    let ok = Command::new("gcc")
        .args(["-O2", "-fPIC", "-c", "-o"])
        .arg(format!("{out}/amrt.o"))
        .arg(format!("{rt}/amrt.c"))
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "gcc failed");
    println!("cargo:rustc-link-arg={out}/amrt.o");
    println!("cargo:rustc-link-arg=-ldl");
    println!("cargo:rerun-if-changed={rt}/amrt.c");
    println!("cargo:rerun-if-changed={rt}/amrt.h");
}
