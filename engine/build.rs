fn main() {
    // z3 (shared library of the pre-installed python tooling venv, else the system one)
    let vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(&format!("{}/libz3.so", vt)).exists() {
        println!("cargo:rustc-link-search=native={}", vt);
        println!("cargo:rustc-link-arg=-Wl,-rpath,{}", vt);
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
