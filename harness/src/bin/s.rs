//! The scenarios over symbolic scalars.
#[path = "../parts/emit.rs"]
mod emit;
#[path = "../parts/sym.rs"]
mod sym;
include!("../parts/common.rs");

#[allow(dead_code, unused_imports, unused_macros, clippy::all)]
mod m {
    pub type F = crate::sym::Sym;
    /// a constant
    pub fn mkf(x: f64) -> F {
        crate::sym::Sym::c(crate::sym::rnd(x))
    }
    /// an input
    pub fn inf(_x: f64) -> F {
        crate::sym::Sym::input()
    }
    include!("../parts/scen.rs");
}

fn main() {
    emit::main(emit::run_sym);
}
