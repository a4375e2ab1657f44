//! Writes unit! types of random expressions, for the compiler to evaluate.
#[path = "src/tree.rs"]
#[allow(dead_code)]
mod tree;
use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=src/tree.rs");
    let mut r = spec::nd::Rng::new(20);
    let mut s = String::from("pub const TYPES: &[(&str, [i16; 8], [i16; 4], [i32; 8], [i32; 4])] = &[\n");
    let mut n = 0;
    while n < 400 {
        let t = tree::Tree::random(&mut r, 3, tree::LEAVES);
        let x = t.text(&mut r);
        let v = t.value();
        if !v.fits() { continue }
        n += 1;
        let _ = writeln!(s, "    ({x:?}, <whippyunits::unit!({x}) as qx::Qx>::D, <whippyunits::unit!({x}) as qx::Qx>::S, {:?}, {:?}),", v.dims, v.scale);
    }
    s.push_str("];\n");
    std::fs::write(format!("{}/types.rs", std::env::var("OUT_DIR").unwrap()), s).unwrap();
}
