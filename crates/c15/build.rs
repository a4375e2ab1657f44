//! Writes one line per way of reading a quantity in each unit of the specification.
#[path = "../c13/src/tree.rs"]
#[allow(dead_code)]
mod tree;
use spec::si::{self, PREFIXES, Si};
use std::fmt::Write;

fn dims(u: &Si) -> si::Dims {
    // lumens are listed with illuminance (known finding of C11)
    if u.name == "lumen" { si::LUX } else { u.dims }
}
/// How many of the unit `r` storage units are.
fn number(u: &Si, r: &str, t: &str) -> String {
    match (u.is_exact(), u.offset != 0.0) {
        (true, false) => r.to_string(),
        // the offset of most units is zero: taken off all the same, as -0.0 and 0.0 read the same
        (false, false) => format!("((({r}) as f64 - af!({0:?})) / cf!({0:?})) as {t}", u.name),
        (true, true) => format!("(({r}) as f64 - af!({:?})) as {t}", u.name),
        (false, true) => format!("((({r}) as f64 - af!({0:?})) / cf!({0:?})) as {t}", u.name),
    }
}
struct Out {
    lines: Vec<String>,
    text: String,
    n: usize,
}
impl Out {
    fn flush(&mut self, attr: &str, args: &str, group: &str, chunk: usize) {
        for c in std::mem::take(&mut self.lines).chunks(chunk) {
            let _ = writeln!(self.text, "{attr}\nfn {group}_{}({args}) {{ let mut all = true;\n{}    all_hold!(all); }}", self.n, c.concat());
            self.n += 1;
        }
        self.n = 0;
    }
}
const INTS: [&str; 12] = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"];

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=../c13/src/tree.rs");
    // the specification knows some units the library does not have
    let units: Vec<&Si> = si::UNITS.iter().filter(|u| whippyunits_core::Dimension::find_unit_by_name(u.name).is_some()).collect();
    let scaled = |u: &Si, k: i16| si::add(u.scale(), si::ten(k));
    let mut o = Out { lines: vec![], text: String::new(), n: 0 };
    let stub = "#[kani::solver(cvc5)]\n#[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_factor)]";
    // from any scale, by symbol and name, f64 and f32, with a brand
    for u in &units {
        for n in u.symbols.iter().chain([&u.name]) {
            o.lines.push(format!("    read!(all, x, k, f64, (), {:?} {:?}, value!({n}), |r| {});\n", dims(u), u.scale(), number(u, "r", "f64")));
        }
    }
    o.flush(stub, "x: f64, k: f64", "doubles", 40);
    for u in &units {
        let n = u.symbols[0];
        o.lines.push(format!("    read!(all, x, k, f64, Brand, {:?} {:?}, value!({n}, f64, Brand), |r| {});\n", dims(u), u.scale(), number(u, "r", "f64")));
    }
    o.flush(stub, "x: f64, k: f64", "branded", 40);
    for u in &units {
        let n = u.symbols[0];
        o.lines.push(format!("    read!(all, x, k, f32, (), {:?} {:?}, value!({n}, f32), |r| {});\n", dims(u), u.scale(), number(u, "r", "f32")));
    }
    o.flush(stub, "x: f32, k: f64", "singles", 40);
    for u in units.iter().filter(|u| u.prefixable) {
        for (p, n, k) in PREFIXES {
            let s = scaled(u, *k);
            o.lines.push(format!("    read!(all, x, k, f64, (), {:?} {:?}, value!({p}{}), |r| r);\n", dims(u), s, u.symbols[0]));
            if *k == 3 || *k == -9 {
                o.lines.push(format!("    read!(all, x, k, f64, (), {:?} {:?}, value!({n}{}), |r| r);\n", dims(u), s, u.name));
            }
        }
    }
    o.flush(stub, "x: f64, k: f64", "prefixed", 100);
    for t in INTS {
        for s in ["m", "kg", "mm", "h", "mi", "degC", "degF"] {
            let (d, sc, u, _) = si::resolve(s).unwrap();
            let from = si::add(sc, [1, 1, 0, 0]);
            for b in ["()", "Brand"] {
                let arg = if b == "()" { String::new() } else { format!(", {b}") };
                o.lines.push(format!("    read_int!(all, x, y, rescale_{t}, {t}, {b}, {d:?} {sc:?} {from:?}, value!({s}, {t}{arg}), |r| {});\n", number(u, "r", t)));
            }
        }
        let attr = format!("#[kani::solver(cvc5)]\n#[kani::stub(whippyunits::api::rescale_{t}, crate::callee::{t}::rescaled)]");
        o.flush(&attr, &format!("x: {t}, y: {t}"), &format!("ints_{t}"), 80);
    }
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/reading.rs"), format!("spec::obligations! {{ {} }}", o.text)).unwrap();

    // there and back
    let mut s = String::from("pub fn round_trips(ctx: &mut spec::nd::Ctx, xs: &[f64]) {\n");
    for u in &units {
        for n in u.symbols.iter().chain([&u.name]) {
            let exact = u.is_exact() && u.offset == 0.0;
            let _ = writeln!(s, "    for x in xs {{ round_trip!(ctx, *x, {n}, {exact}, {}); }}", u.offset);
        }
        if u.prefixable {
            for (p, _, _) in PREFIXES {
                let _ = writeln!(s, "    for x in xs {{ round_trip!(ctx, *x, {p}{}, true, 0.0); }}", u.symbols[0]);
            }
        }
    }
    s.push_str("}\n");
    // between units of one dimension
    s.push_str("pub fn conversions(ctx: &mut spec::nd::Ctx) {\n");
    for u in &units {
        for v in &units {
            if dims(u) != dims(v) { continue }
            let (a, b) = (u.symbols[0], v.symbols[0]);
            let _ = writeln!(s, "    convert!(ctx, {a}, {b}, ({:e}, {:e}), ({:e}, {:e}), {:e});", u.si(), u.offset, v.si(), v.offset, u.tol + v.tol + 1e-14);
        }
    }
    s.push_str("}\n");
    // what fmt makes of each name
    s.push_str("pub fn formatted(ctx: &mut spec::nd::Ctx, xs: &[f64]) {\n");
    for u in &units {
        let mut names: Vec<(String, i16)> = u.symbols.iter().chain([&u.name]).map(|n| (n.to_string(), 0)).collect();
        if u.prefixable {
            for (p, n, k) in PREFIXES {
                names.push((format!("{p}{}", u.symbols[0]), *k));
                if *p != "µ" { names.push((format!("{n}{}", u.name), *k)); }
            }
        }
        for (n, k) in names {
            // a unit's own symbol goes before a prefixed reading
            if k != 0 && si::by_symbol(&n).is_some() { continue }
            let _ = writeln!(s, "    format!(ctx, xs, {n:?}, {:?}, {:e}, {:e}, {:e});", dims(u), u.si() * 10f64.powi(k as i32), u.offset, u.tol + 1e-13);
        }
    }
    s = s.replace("    format!(", "    formats!(");
    s.push_str("}\n");
    // compound expressions
    s.push_str("pub fn compounds(ctx: &mut spec::nd::Ctx) {\n");
    let mut r = spec::nd::Rng::new(15);
    let leaves: Vec<&str> = tree::LEAVES.iter().chain(tree::CUSTOMARY).copied().collect();
    let mut n = 0;
    while n < 400 {
        let t = tree::Tree::random(&mut r, 3, &leaves);
        let x = t.text(&mut r);
        let v = t.value();
        if !v.fits() || !(1e-200..1e200).contains(&v.cf) || v.scale.iter().any(|e| e.abs() > 100) { continue }
        n += 1;
        // from a scale ten times as large
        let from = [v.scale[0] + 1, v.scale[1], v.scale[2] + 1, v.scale[3]];
        let _ = writeln!(s, "    compound!(ctx, {x:?}, ({x}), {:?} {from:?} {:?}, 32.5 / {:e});", v.dims, v.scale, v.cf);
    }
    s.push_str("}\n");
    std::fs::write(format!("{out}/tables.rs"), s).unwrap();
}
