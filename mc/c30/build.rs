// What this crate is really built with, and a binary whose exported functions can be looked up like those of a library.
fn main() {
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
    let rustc = std::process::Command::new(std::env::var_os("RUSTC").unwrap()).arg("-vV").output().unwrap();
    let rustc = String::from_utf8(rustc.stdout).unwrap();
    let of = |key: &str| rustc.lines().find_map(|l| l.strip_prefix(key)).unwrap().trim().to_string();
    println!("cargo:rustc-env=REAL_RELEASE={}", of("release:"));
    println!("cargo:rustc-env=REAL_COMMIT={}", of("commit-hash:"));
    for key in ["OPT_LEVEL", "DEBUG", "NUM_JOBS", "TARGET", "HOST"] {
        println!("cargo:rustc-env=REAL_{key}={}", std::env::var(key).unwrap());
    }
}
