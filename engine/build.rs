fn main() {
    // the replayer exports its es_* functions to the harness library it loads
    println!("cargo:rustc-link-arg-bin=replayer=-rdynamic");
}
