fn main() {
    println!("cargo:rerun-if-env-changed=VH_LLVM_LIBDIR");
    if let Ok(d) = std::env::var("VH_LLVM_LIBDIR") {
        println!("cargo:rustc-link-arg-bins=-Wl,-rpath,{d}");
    }
    // What a user of ahead-of-time compiled code does: export the builtins.
    revmc_build::emit();
}
