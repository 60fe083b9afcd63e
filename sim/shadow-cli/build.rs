fn main() {
    let out = std::path::PathBuf::from(std::env::var_os("OUT_DIR").unwrap());
    std::fs::write(out.join("build-info.txt"), "build date: simulated\n").unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
