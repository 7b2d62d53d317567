// The program's main.rs names itself through these two; the binary has them from cargo.
fn main() {
    let manifest = std::fs::read_to_string("../../repo/Cargo.toml").unwrap_or_default();
    let version = manifest
        .lines()
        .find_map(|l| l.trim().strip_prefix("version = "))
        .map(|v| v.trim_matches('"').to_string())
        .unwrap_or_default();
    println!("cargo:rustc-env=CARGO_BIN_NAME=plusendi");
    println!("cargo:rustc-env=CARGO_PKG_VERSION={}", version);
    println!("cargo:rerun-if-changed=../../repo/Cargo.toml");
    println!("cargo:rerun-if-changed=build.rs");
}
