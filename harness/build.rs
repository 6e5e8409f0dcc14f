fn main() {
    // The harness shares the cfg values of the hooks in the code under test.
    println!("cargo::rustc-check-cfg=cfg(auto_palette_verif, values(none(), \"color\", \"neighbors\", \"dbscan\", \"kmeans\", \"graph\", \"hierarchical\", \"hdbscan\", \"point\"))");
    println!("cargo::rerun-if-changed=build.rs");
    let here = std::env::var("CARGO_MANIFEST_DIR").expect("directory");
    println!("cargo::rustc-link-arg-bins=-Wl,-T,{here}/benign.ld");
    println!("cargo::rerun-if-changed=benign.ld");
}
