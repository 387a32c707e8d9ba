use std::io::Write;
fn main() {
    // The real build scripts record git and date information, and download DLLs for the debugger.
    let out = std::path::PathBuf::from(std::env::var_os("OUT_DIR").unwrap());
    let mut f = std::fs::File::create(out.join("build-info.txt")).unwrap();
    writeln!(f, "commit: verif").unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
