fn main() {
    println!("cargo:rerun-if-changed=src/simrt.c");
    println!("cargo:rerun-if-changed=src/simrt.h");
    cc::Build::new()
        .file("src/simrt.c")
        .flag("-O2")
        .flag("-g1")
        .flag("-fno-builtin")
        .flag("-Wall")
        .link_lib_modifier("+whole-archive")
        .cargo_metadata(true)
        .compile("simrt_c");
}
