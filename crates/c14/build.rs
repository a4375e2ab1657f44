//! Writes one line per way of creating a quantity in each unit of the specification.
#[path = "../c13/src/tree.rs"]
#[allow(dead_code)]
mod tree;
use spec::si::{self, PREFIXES, Si};
use std::fmt::Write;

/// English plural, as the method names have it.
fn plural(n: &str) -> String {
    match n {
        "inch" => "inches".into(),
        "foot" => "feet".into(),
        "henry" => "henries".into(),
        "stone" | "lux" | "candela" | "fahrenheit" | "rankine" | "psi" | "horsepower" | "torr" | "bar" | "celsius" | "kelvin" => n.into(),
        _ => format!("{n}s"),
    }
}
fn dims(u: &Si) -> si::Dims {
    // lumens are listed with illuminance (known finding of C11)
    if u.name == "lumen" { si::LUX } else { u.dims }
}
struct Out {
    lines: Vec<String>,
    text: String,
    n: usize,
}
impl Out {
    fn flush(&mut self, attr: &str, ty: &str, group: &str, chunk: usize) {
        for c in std::mem::take(&mut self.lines).chunks(chunk) {
            let _ = writeln!(self.text, "{attr}\nfn {group}_{}(x: {ty}) {{ let mut all = true;\n{}    all_hold!(all); }}", self.n, c.concat());
            self.n += 1;
        }
        self.n = 0;
    }
    fn made(&mut self, expr: &str, want: &str, d: si::Dims, s: si::Scale, ty: &str, brand: &str) {
        self.lines.push(format!("    made!(all, {expr}, {want}, {d:?}, {s:?}, {ty}, {brand});\n"));
    }
}
const TYPES: [&str; 12] = ["f32", "i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "i128"];
// a literal's macro cannot be called by a keyword
const KEYWORDS: [&str; 2] = ["in", "as"];

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=../c13/src/tree.rs");
    // the specification knows some units the library does not have
    let units: Vec<&Si> = si::UNITS.iter().filter(|u| whippyunits_core::Dimension::find_unit_by_name(u.name).is_some()).collect();
    let mut o = Out { lines: vec![], text: String::new(), n: 0 };
    let scaled = |u: &Si, k: i16| si::add(u.scale(), si::ten(k));
    let stored = |u: &Si| u.is_exact() && u.offset == 0.0;
    let cvc5 = "#[kani::solver(cvc5)]";
    let number = |u: &Si, x: &str| match (u.is_exact(), u.offset != 0.0) {
        (true, false) => x.to_string(),
        (false, false) => format!("{x} * cf!({:?})", u.name),
        (true, true) => format!("{x} + af!({:?})", u.name),
        (false, true) => format!("{x} * cf!({0:?}) + af!({0:?})", u.name),
    };
    // by symbol, by name, by method
    for u in &units {
        let want = number(u, "x");
        for n in u.symbols.iter().chain([&u.name]) {
            o.made(&format!("quantity!(x, {n})"), &want, dims(u), u.scale(), "f64", "()");
        }
        o.made(&format!("x.{}()", plural(u.name)), &want, dims(u), u.scale(), "f64", "()");
    }
    o.flush(cvc5, "f64", "doubles", 80);
    for u in &units {
        let (want, ty) = if stored(u) { ("x".into(), "i32") }
            else if u.offset != 0.0 && u.is_exact() { (number(u, "x as f64"), "f64") }
            else { (format!("({}) as i32", number(u, "x as f64")), "i32") };
        o.made(&format!("x.{}()", plural(u.name)), &want, dims(u), u.scale(), ty, "()");
    }
    o.flush(cvc5, "i32", "ints", 40);
    for u in units.iter().filter(|u| !u.is_exact()) {
        o.made(&format!("x.{}()", plural(u.name)), &format!("(x as f64 * cf!({0:?})) as i64", u.name), dims(u), u.scale(), "i64", "()");
    }
    o.flush(cvc5, "i64", "longs", 40);
    for u in units.iter().filter(|u| stored(u) && u.name != "rankine") {
        for (p, n, k) in PREFIXES {
            if *p == "µ" { continue }
            o.made(&format!("x.{n}{}()", plural(u.name)), "x", dims(u), scaled(u, *k), "f64", "()");
        }
    }
    o.flush(cvc5, "f64", "prefixed_methods", 200);
    for u in units.iter().filter(|u| stored(u) && u.name != "rankine") {
        for (p, n, k) in PREFIXES {
            if *p == "µ" { continue }
            o.made(&format!("x.{n}{}()", plural(u.name)), "x", dims(u), scaled(u, *k), "i32", "()");
        }
    }
    o.flush("", "i32", "prefixed_int_methods", 400);
    for u in units.iter().filter(|u| u.prefixable) {
        for (p, n, k) in PREFIXES {
            for s in u.symbols { o.made(&format!("quantity!(x, {p}{s})"), "x", dims(u), scaled(u, *k), "f64", "()"); }
            if *k == 3 || *k == -9 { o.made(&format!("quantity!(x, {n}{})", u.name), "x", dims(u), scaled(u, *k), "f64", "()"); }
        }
    }
    o.flush(cvc5, "f64", "prefixed_units", 200);
    // with a storage type and a brand
    for t in TYPES {
        for s in ["m", "kg", "h", "Nm"] {
            let u = si::resolve(s).unwrap();
            o.made(&format!("quantity!(x, {s}, {t})"), "x", u.0, u.1, t, "()");
            o.made(&format!("quantity!(x, {s}, {t}, Brand)"), "x", u.0, u.1, t, "Brand");
        }
        o.made(&format!("quantity!(x, m * s^-2, {t})"), "x", [0, 1, -2, 0, 0, 0, 0, 0], [0; 4], t, "()");
        if t == "i128" { o.flush(cvc5, t, &format!("typed_{t}"), 80); continue }
        for s in ["mi", "in", "hp", "degC", "degF"] {
            let u = si::by_symbol(s).unwrap();
            let want = format!("(x as f64 * cf!({0:?}) + af!({0:?})) as {t}", u.name);
            o.made(&format!("quantity!(x, {s}, {t})"), &want, u.dims, u.scale(), t, "()");
            o.made(&format!("quantity!(x, {s}, {t}, Brand)"), &want, u.dims, u.scale(), t, "Brand");
        }
        o.flush(cvc5, t, &format!("typed_{t}"), 80);
    }
    for u in &units {
        let want = if stored(u) { "x".into() } else { format!("x * cf!({0:?}) + af!({0:?})", u.name) };
        o.made(&format!("quantity!(x, {}, f64, Brand)", u.symbols[0]), &want, dims(u), u.scale(), "f64", "Brand");
    }
    o.flush(cvc5, "f64", "branded", 80);
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/creation.rs"), format!("spec::obligations! {{ {} }}", o.text)).unwrap();

    // the types' names
    let mut s = String::from("pub const TYPES: &[(&str, [i16; 8], [i16; 4], [i16; 8], [i16; 4])] = &[\n");
    let mut add = |n: &str, d: si::Dims, sc: si::Scale| {
        let n = n[..1].to_ascii_uppercase() + &n[1..];
        let _ = writeln!(s, "    (\"{n}\", <whippyunits::default_declarators::{n} as qx::Qx>::D, <whippyunits::default_declarators::{n} as qx::Qx>::S, {d:?}, {sc:?}),");
    };
    for u in units.iter().filter(|u| stored(u) || u.is_exact()) {
        if u.name == "fahrenheit" { continue }
        add(u.name, dims(u), u.scale());
        if !stored(u) || u.name == "rankine" { continue }
        for (p, n, k) in PREFIXES {
            if *p != "µ" { add(&format!("{n}{}", u.name), dims(u), scaled(u, *k)); }
        }
    }
    s.push_str("];\n");
    // literals
    s.push_str("pub fn literals(ctx: &mut spec::nd::Ctx) {\n");
    let mut lit = |m: &str, sym: &str, v: &str, u: &Si, sc: si::Scale, ty: &str| {
        let want = if stored(u) { format!("{v} as {ty}") } else { format!("({v} as {ty} as f64 * cf!({0:?}) + af!({0:?})) as {ty}", u.name) };
        let _ = writeln!(s, "    literal!(ctx, whippyunits::default_declarators::literals::{m}::{sym}!({v}), {want}, {:?}, {sc:?}, {ty});", dims(u));
    };
    for u in &units {
        for sym in u.symbols.iter().copied().chain((!stored(u)).then_some(u.name)) {
            if KEYWORDS.contains(&sym) { continue }
            lit("float", sym, "2.5", u, u.scale(), "f64");
            lit("integer", sym, "7", u, u.scale(), "i32");
            for t in ["f64", "f32"] { lit("float", &format!("{sym}_{t}"), "12.625", u, u.scale(), t); }
            for t in ["i32", "i64", "u32", "u64"] { lit("integer", &format!("{sym}_{t}"), "41", u, u.scale(), t); }
        }
        if u.prefixable {
            for (p, _, k) in PREFIXES {
                if *p == "u" { continue }
                for sym in u.symbols {
                    // a unit's own symbol goes before a prefixed reading
                    if si::by_symbol(&format!("{p}{sym}")).is_some() || KEYWORDS.contains(&&*format!("{p}{sym}")) { continue }
                    lit("float", &format!("{p}{sym}"), "2.5", u, scaled(u, *k), "f64");
                    lit("integer", &format!("{p}{sym}"), "7", u, scaled(u, *k), "i32");
                }
            }
        }
    }
    s.push_str("}\n");
    // compound expressions
    s.push_str("pub fn compounds(ctx: &mut spec::nd::Ctx) {\n");
    let mut r = spec::nd::Rng::new(14);
    let leaves: Vec<&str> = tree::LEAVES.iter().chain(tree::CUSTOMARY).copied().collect();
    let mut n = 0;
    while n < 400 {
        let t = tree::Tree::random(&mut r, 3, &leaves);
        let x = t.text(&mut r);
        let v = t.value();
        if !v.fits() || !(1e-200..1e200).contains(&v.cf) { continue }
        n += 1;
        let _ = writeln!(s, "    compound!(ctx, {x:?}, quantity!(3.25, {x}), 3.25 * {:e}, {:?}, {:?});", v.cf, v.dims, v.scale);
    }
    s.push_str("}\n");
    std::fs::write(format!("{out}/tables.rs"), s).unwrap();
}
