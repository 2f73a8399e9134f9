fn main() {
    println!("cargo:rustc-cfg=mozak_verif");
    println!("cargo:rerun-if-changed=build.rs");
}
