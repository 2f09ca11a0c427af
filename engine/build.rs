fn main() {
    // system libz3 (4.8.12); the runtime .so.4 is always there
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
}
