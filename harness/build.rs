use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/shim.o");
    let st = Command::new("gcc")
        .args(["-O2", "-c", "-fPIC", "-Wall", "../sim/shim.c", "-o", &obj])
        .status()
        .expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg={obj}");
    println!("cargo:rerun-if-changed=../sim/shim.c");
    println!("cargo:rerun-if-changed=../sim/shim.h");
}
