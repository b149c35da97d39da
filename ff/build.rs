// `read` of this program also serves the shared libraries, so that read errors can be injected
fn main() {
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=read");
}
