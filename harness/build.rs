fn main() {
    // the native side of the intrinsics stays outside the IR so that they are not inlined
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/irs_rt.o");
    let cc = std::env::var("CC").unwrap_or_else(|_| "cc".into());
    let st = std::process::Command::new(cc).args(["-O1", "-fPIC", "-c", "rt/irs_rt.c", "-o", &o]).status().expect("cc");
    assert!(st.success());
    println!("cargo:rustc-link-arg={o}");
    println!("cargo:rerun-if-changed=rt/irs_rt.c");
}
