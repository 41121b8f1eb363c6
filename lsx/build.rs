// Links against the z3 that ships with the sandbox's Python tooling, or the system one.
fn main() {
    let dirs = std::fs::read_dir("/opt/veriftools/pyvenv/lib").map(|d| {
        d.filter_map(|e| e.ok()).map(|e| e.path().join("site-packages/z3/lib")).collect::<Vec<_>>()
    }).unwrap_or_default();
    for d in dirs {
        if d.join("libz3.so").exists() {
            println!("cargo:rustc-link-search=native={}", d.display());
            println!("cargo:rustc-link-arg=-Wl,-rpath,{}", d.display());
        }
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
