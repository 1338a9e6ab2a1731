fn main() {
    println!("cargo:rustc-link-lib=z3");
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
}
