//! The scenarios over f32 (replay).
#[allow(dead_code)]
#[path = "../parts/emit_native.rs"]
mod emit;
include!("../parts/common.rs");

#[allow(dead_code, unused_imports, unused_macros, clippy::all)]
mod m {
    pub type F = f32;
    /// a constant
    pub fn mkf(x: f64) -> F {
        x as f32
    }
    /// an input
    pub fn inf(x: f64) -> F {
        x as f32
    }
    include!("../parts/scen.rs");
}

fn main() {
    emit::main(emit::run_native);
}
