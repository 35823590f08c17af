use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{}/simrt.o", out);
    let st = Command::new("gcc")
        .args(["-O2", "-g", "-fPIC", "-Wall", "-fno-stack-protector", "-c", "rt/simrt.c", "-o", &obj])
        .status()
        .expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg={}", obj);
    for f in ["putchar", "GC_malloc"] { println!("cargo:rustc-link-arg=-Wl,--export-dynamic-symbol={}", f); }
    println!("cargo:rerun-if-changed=rt/simrt.c");
    println!("cargo:rerun-if-changed=rt/simrt.h");
}
