//! The application links a library of the compiled program; here the program is in the same file.
fn main() {
    let directory = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{directory}/libmain.a"), "!<arch>\n").unwrap();
    println!("cargo:rustc-link-search=native={directory}");
    println!("cargo:rerun-if-changed=build.rs");
}
