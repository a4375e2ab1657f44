//! Writes one `unit!` type per prefixed name of the specification, for the compiler to evaluate.
use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut s = String::from("pub const TYPES: &[(&str, [i16; 8], [i16; 4])] = &[\n");
    let mut add = |n: &str| {
        let _ = writeln!(s, "    (\"{n}\", <whippyunits::unit!({n}) as qx::Qx>::D, <whippyunits::unit!({n}) as qx::Qx>::S),");
    };
    for u in spec::si::UNITS.iter().filter(|u| u.prefixable) {
        for (p, n, _) in spec::si::PREFIXES {
            for sym in u.symbols {
                add(&format!("{p}{sym}"));
            }
            if *p != "µ" {
                add(&format!("{n}{}", u.name));
            }
        }
    }
    s.push_str("];\n");
    std::fs::write(format!("{}/types.rs", std::env::var("OUT_DIR").unwrap()), s).unwrap();
}
