fn main() {
    println!("cargo:rerun-if-env-changed=VH_LLVM_LIBDIR");
    if let Ok(d) = std::env::var("VH_LLVM_LIBDIR") {
        println!("cargo:rustc-link-arg-bins=-Wl,-rpath,{d}");
    }
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
