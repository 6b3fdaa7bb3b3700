//! Writes the declarations of the families that have to behave alike whatever features are enabled.
#![allow(dead_code)]
#[path = "../src/codec.rs"]
mod codec;
#[path = "../src/model.rs"]
mod model;
#[path = "../src/render.rs"]
mod render;
#[path = "../src/schema.rs"]
mod schema;

fn main() {
    for f in ["codec", "model", "render", "schema"] {
        println!("cargo:rerun-if-changed=../src/{f}.rs");
    }
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-env-changed=VH_SCALE");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(2.0);
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    for f in ["P23", "P23N", "P23B", "P23M"] {
        let s = schema::family(f, seed, scale);
        let text = format!("{}pub const SEED: u64 = {seed};\npub const SCALE: f64 = {scale:?};\n", render::file(&s));
        std::fs::write(out.join(format!("{}.rs", f.to_lowercase())), text).unwrap();
    }
}
