fn main() {
    // The system libz3 (4.8.12) is linked by its exact file name: no dev symlink is required.
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
