//! Writes the targets read into, one line each.
#[path = "../c13/src/tree.rs"]
#[allow(dead_code)]
mod tree;
use spec::si::{self, PREFIXES, Si};
use std::fmt::Write;

fn dims(u: &Si) -> si::Dims {
    // lumens are listed with illuminance (known finding of C11)
    if u.name == "lumen" { si::LUX } else { u.dims }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=../c13/src/tree.rs");
    // the specification knows some units the library does not have
    let units: Vec<&Si> = si::UNITS.iter().filter(|u| whippyunits_core::Dimension::find_unit_by_name(u.name).is_some()).collect();

    // the numeric core, into every dimension and scale a unit has, and some that none has
    let mut targets: Vec<(si::Dims, si::Scale)> = vec![];
    for u in &units {
        if !targets.iter().any(|(d, _)| *d == dims(u)) {
            targets.push((dims(u), u.scale()));
            targets.push((dims(u), [1, -2, 3, -4]));
        }
    }
    targets.push(([0; 8], [0; 4]));
    targets.push(([1, -2, 3, -4, 5, -6, 7, -8], [9, 10, -11, 12]));
    targets.push(([i16::MAX, i16::MIN, -1, 100, -100, 255, 256, -257], [i16::MIN, i16::MAX, -1, 300]));
    let mut o = String::new();
    for (i, c) in targets.chunks(12).enumerate() {
        let stubs = "#[kani::solver(cvc5)]\n#[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_factor)]\n\
            #[kani::stub(whippyunits::serialization::parse_ucum_unit, crate::callee::contract_parse)]\n\
            #[kani::stub(whippyunits::serialization::calculate_unit_conversion_factors, crate::callee::contract_factors)]\n\
            #[kani::stub(std::fmt::format, crate::callee::contract_text)]";
        let _ = writeln!(o, "{stubs}\nfn values_{i}(x: f64, cf: f64, af: f64, k: f64, from: [i16; 4]) {{ let mut all = true;");
        for (d, s) in c { let _ = writeln!(o, "    core!(all, x, cf, af, k, from, {d:?} {s:?});"); }
        let _ = writeln!(o, "    all_hold!(all);\n}}");
        let stubs = stubs.replace("#[kani::solver(cvc5)]\n", "");
        for (name, args, parses, known) in [
            ("mismatched", "x: f64, parsed: [i16; 8], from: [i16; 4]", "true", "true"),
            ("unparsed", "x: f64, parsed: [i16; 8], from: [i16; 4]", "false", "true"),
            ("unknown", "x: f64, parsed: [i16; 8], from: [i16; 4]", "true", "false"),
        ] {
            let _ = writeln!(o, "{stubs}\nfn {name}_{i}({args}) {{ let mut all = true;");
            for (d, s) in c.iter().step_by(2) { let _ = writeln!(o, "    refused!(all, x, parsed, from, {parses}, {known}, {d:?} {s:?});"); }
            let _ = writeln!(o, "    all_hold!(all);\n}}");
        }
    }
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/core.rs"), format!("spec::obligations! {{ {o} }}")).unwrap();

    // every unit as a target
    let mut s = String::from("pub fn targets(ctx: &mut spec::nd::Ctx) {\n");
    let mut dims_seen: Vec<si::Dims> = vec![];
    for u in &units {
        if !dims_seen.contains(&dims(u)) { dims_seen.push(dims(u)); }
        // a type names a storage unit
        if !u.is_exact() || u.offset != 0.0 { continue }
        let _ = writeln!(s, "    target!(ctx, {}, {:?}, {:e}, {:?} {:?});", u.symbols[0], u.name, spec::math::scale_f64(u.scale()), dims(u), u.scale());
        if u.prefixable {
            for (p, _, k) in PREFIXES.iter().filter(|(_, _, k)| [3, -3, 6, -9, -2].contains(k)) {
                let sc = si::add(u.scale(), si::ten(*k));
                let _ = writeln!(s, "    target!(ctx, {p}{}, {:?}, {:e}, {:?} {sc:?});", u.symbols[0], u.name, spec::math::scale_f64(sc), dims(u));
            }
        }
    }
    s.push_str("}\npub fn wrong_dimensions(ctx: &mut spec::nd::Ctx) {\n");
    for d in dims_seen {
        let _ = writeln!(s, "    refuses!(ctx, {d:?} [0, 0, 0, 0]);");
    }
    s.push_str("}\npub fn compounds(ctx: &mut spec::nd::Ctx) {\n");
    let mut r = spec::nd::Rng::new(16);
    let leaves: Vec<&str> = tree::LEAVES.iter().chain(tree::CUSTOMARY).copied().collect();
    let mut n = 0;
    while n < 300 {
        let t = tree::Tree::random(&mut r, 3, &leaves);
        let x = t.text(&mut r);
        let v = t.value();
        if !v.fits() || !(1e-200..1e200).contains(&v.cf) || v.scale.iter().any(|e| e.abs() > 100) { continue }
        n += 1;
        // into a scale ten times as large
        let to = [v.scale[0] + 1, v.scale[1], v.scale[2] + 1, v.scale[3]];
        let _ = writeln!(s, "    compound!(ctx, {x:?}, {:?} {to:?}, 0.325 * {:e});", v.dims, v.cf);
    }
    s.push_str("}\n");
    std::fs::write(format!("{out}/tables.rs"), s).unwrap();
}
