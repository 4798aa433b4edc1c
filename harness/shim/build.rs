fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-check-cfg=cfg(texmo_verif)");
    println!("cargo:rustc-cfg=texmo_verif");
}
