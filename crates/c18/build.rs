//! Writes the sets of declarators and one line per way of creating a quantity with them.
#[path = "../c13/src/tree.rs"]
#[allow(dead_code)]
mod tree;
use spec::si::{self, PREFIXES, Si};
use std::fmt::Write;

/// Module, brand, and the preferred prefix and unit of each base dimension.
struct Set(&'static str, &'static str, [(&'static str, &'static str); 8]);
const SETS: [Set; 3] = [
    Set("short", "()", [("kilo", "gram"), ("milli", "meter"), ("", "second"), ("", "ampere"), ("", "kelvin"), ("", "mole"), ("", "candela"), ("", "radian")]),
    Set("odd", "Odd", [("", "gram"), ("kilo", "meter"), ("", "minute"), ("milli", "ampere"), ("micro", "kelvin"), ("nano", "mole"), ("mega", "candela"), ("", "degree")]),
    Set("big", "Big", [("mega", "gram"), ("", "meter"), ("", "hour"), ("kilo", "ampere"), ("milli", "kelvin"), ("", "mole"), ("deca", "candela"), ("", "turn")]),
];
impl Set {
    fn base(&self, i: usize) -> si::Scale {
        let (p, n) = self.2[i];
        let k = PREFIXES.iter().find(|x| x.1 == p).map_or(0, |x| x.2);
        si::add(si::by_name(n).unwrap().scale(), si::ten(k))
    }
    fn target(&self, d: &si::Dims) -> si::Scale {
        let mut s = [0; 4];
        for i in 0..8 { s = si::add(s, self.base(i).map(|x| x * d[i])); }
        s
    }
    fn declaration(&self) -> String {
        let names: Vec<String> = self.2.iter().map(|(p, n)| { let w = format!("{p}{n}"); w[..1].to_ascii_uppercase() + &w[1..] }).collect();
        let brand = if self.1 == "()" { String::new() } else { format!("{}, ", self.1) };
        format!("define_unit_declarators!({}, {brand}{});\n", self.0, names.join(", "))
    }
    fn brand(&self) -> String {
        if self.1 == "()" { "()".into() } else { format!("{}::{}", self.0, self.1) }
    }
}
fn dims(u: &Si) -> si::Dims {
    // lumens are listed with illuminance (known finding of C11)
    if u.name == "lumen" { si::LUX } else { u.dims }
}
fn plural(n: &str) -> String {
    if ["candela", "kelvin"].contains(&n) { n.into() } else { format!("{n}s") }
}
const KEYWORDS: [&str; 2] = ["in", "as"];
#[derive(Default)]
struct Out {
    lines: Vec<String>,
    text: String,
    n: usize,
}
impl Out {
    fn flush(&mut self, attr: &str, args: &str, group: &str, chunk: usize) {
        for c in std::mem::take(&mut self.lines).chunks(chunk) {
            let _ = writeln!(self.text, "{attr}\nfn {group}_{}({args}) {{ let mut all = true;\n{}    all_hold!(all); }}", self.n, c.concat());
            self.n += 1;
        }
        self.n = 0;
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=../c13/src/tree.rs");
    // a symbol that is no keyword
    let sym = |u: &Si| u.symbols.iter().copied().find(|s| !KEYWORDS.contains(s)).unwrap_or(u.name);
    let units: Vec<&Si> = si::UNITS.iter().filter(|u| whippyunits_core::Dimension::find_unit_by_name(u.name).is_some()).collect();
    let stored = |u: &Si| u.is_exact() && u.offset == 0.0;
    let number = |u: &Si, x: &str| if stored(u) { x.to_string() } else { format!("({x} * cf!({0:?}) + af!({0:?}))", u.name) };
    let leaves: Vec<&str> = tree::LEAVES.to_vec();
    let mut rng = spec::nd::Rng::new(18);
    let mut compounds = vec![];
    while compounds.len() < 40 {
        let t = tree::Tree::random(&mut rng, 3, &leaves);
        // the declarators take expressions of Rust: no products written as `.(`
        let x = t.text(&mut rng).replace('.', " * ");
        let v = t.value();
        if !v.fits() || v.cf != 1.0 || v.scale.iter().any(|x| x.abs() > 60) { continue }
        compounds.push((x, v.dims.map(|x| x as i16), v.scale.map(|x| x as i16)));
    }
    let float = "#[kani::solver(cvc5)] #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::float)]";
    let int = "#[kani::solver(cvc5)] #[kani::stub(whippyunits::api::aggregate_scale_factor, crate::callee::ratio)]";
    let mut text = String::new();
    for set in &SETS { text.push_str(&set.declaration()); }
    text.push_str("define_unit_declarators!(plain, Plain);\n");
    let mut lits = String::from("pub fn literals(ctx: &mut spec::nd::Ctx) {\n");
    for set in &SETS {
        let (m, b) = (set.0, set.brand());
        let mut o = Out::default();
        let scaled = |o: &mut Out, e: &str, x: &str, d: si::Dims, s: si::Scale, t: &str| {
            let to = set.target(&d);
            o.lines.push(format!("    scaled!(all, {e}, {x}, k, {d:?}, {s:?}, {to:?}, {t}, {b});\n"));
        };
        let whole = |o: &mut Out, e: &str, d: si::Dims, s: si::Scale, t: &str| {
            let to = set.target(&d);
            let f = |i: usize| (s[i] - to[i]) as i32;
            let Some((n, den)) = spec::math::ratio(f(0), f(1), f(2), f(3)) else { return };
            if n.max(den) > 1_000_000_000 { return }
            o.lines.push(format!("    whole!(all, x, {e}, {n}, {den}, {d:?}, {s:?}, {to:?}, {t}, {b});\n"));
        };
        for u in &units {
            scaled(&mut o, &format!("{m}::quantity!(x, {})", sym(u)), &number(u, "x"), dims(u), u.scale(), "f64");
        }
        o.flush(float, "x: f64, k: f64", "units", 40);
        for u in units.iter().filter(|u| u.prefixable) {
            for (p, n, k) in PREFIXES.iter().filter(|x| [-9, -2, 1, 6].contains(&x.2)) {
                let s = si::add(u.scale(), si::ten(*k));
                let w = if *k == 6 { format!("{n}{}", u.name) } else { format!("{p}{}", u.symbols[0]) };
                scaled(&mut o, &format!("{m}::quantity!(x, {w}, f64)"), "x", dims(u), s, "f64");
            }
        }
        o.flush(float, "x: f64, k: f64", "prefixed", 40);
        for (e, d, s) in &compounds { scaled(&mut o, &format!("{m}::quantity!(x, {e})"), "x", *d, *s, "f64"); }
        o.flush(float, "x: f64, k: f64", "compounds", 40);
        for (e, d, s) in compounds.iter().take(12) { scaled(&mut o, &format!("{m}::quantity!(x, {e}, f32)"), "x", *d, *s, "f32"); }
        for w in ["m", "kg", "h", "rad", "mW"] {
            let r = si::resolve(w).unwrap();
            scaled(&mut o, &format!("{m}::quantity!(x, {w}, f32)"), "x", r.0, r.1, "f32");
        }
        o.flush(float, "x: f32, k: f64", "singles", 40);
        for t in ["i32", "i64", "isize", "usize"] {
            for w in ["m", "km", "mm", "kg", "g", "s", "min", "h", "mA", "K", "mol", "cd", "deg", "turn", "J", "mW", "Pa", "Hz", "Mg"] {
                let r = si::resolve(w).unwrap();
                whole(&mut o, &format!("{m}::quantity!(x, {w}, {t})"), r.0, r.1, t);
            }
            o.flush(int, &format!("x: {t}"), &format!("whole_{t}"), 20);
        }
        for t in ["f64", "i32", "i64"] {
            for i in 0..8 {
                let n = ["gram", "meter", "second", "ampere", "kelvin", "mole", "candela", "radian"][i];
                let u = si::by_name(n).unwrap();
                for (p, name, k) in [("", "", 0)].iter().chain(PREFIXES) {
                    if *p == "µ" { continue }
                    let e = format!("x.{name}{}()", plural(n));
                    let s = si::add(u.scale(), si::ten(*k));
                    if t == "f64" { scaled(&mut o, &e, "x", u.dims, s, t) } else if k.abs() < 4 { whole(&mut o, &e, u.dims, s, t) }
                }
            }
            if t == "f64" { o.flush(float, "x: f64, k: f64", "methods", 70) } else { o.flush(int, &format!("x: {t}"), &format!("methods_{t}"), 40) }
        }
        let _ = writeln!(text, "mod with_{m} {{ use super::*; use super::{m}::*;\nspec::obligations! {{ {} }} }}", o.text);
        for u in &units {
            for sym in u.symbols.iter().copied().chain((!stored(u)).then_some(u.name)) {
                if KEYWORDS.contains(&sym) { continue }
                let _ = writeln!(lits, "    literal!(ctx, {m}::literals::float::{sym}!(2.5), {m}::quantity!(2.5, {sym}));");
                let _ = writeln!(lits, "    literal!(ctx, {m}::literals::float::{sym}_f32!(2.5), {m}::quantity!(2.5f32, {sym}, f32));");
                let _ = writeln!(lits, "    literal!(ctx, {m}::literals::float::{sym}_f64!(7.5), {m}::quantity!(7.5, {sym}));");
            }
        }
        for w in ["m", "km", "kg", "h", "J", "mW", "deg", "K"] {
            let _ = writeln!(lits, "    literal!(ctx, {m}::literals::integer::{w}!(70), {m}::quantity!(70, {w}, i32));");
            let _ = writeln!(lits, "    literal!(ctx, {m}::literals::integer::{w}_i64!(70), {m}::quantity!(70i64, {w}, i64));");
        }
    }
    // brand without preferences: nothing is rescaled
    let mut o = Out::default();
    let b = "plain::Plain";
    for u in &units {
        o.lines.push(format!("    made!(all, plain::quantity!(x, {}), {}, {:?}, {:?}, f64, {b});\n", sym(u), number(u, "x"), dims(u), u.scale()));
        if u.is_exact() && u.offset == 0.0 && !["rankine"].contains(&u.name) && whippyunits_core::Dimension::find_unit_by_name(u.name).unwrap().0.system == whippyunits_core::System::Metric
            && !whippyunits_core::Dimension::find_unit_by_name(u.name).unwrap().1.name.contains(' ') {
            let p = match u.name { "henry" => "henries".into(), "lux" | "bar" => u.name.into(), n => plural(n) };
            o.lines.push(format!("    made!(all, x.{p}(), x, {:?}, {:?}, f64, {b});\n", dims(u), u.scale()));
        }
    }
    o.flush("#[kani::solver(cvc5)]", "x: f64", "units", 80);
    for (e, d, s) in &compounds { o.lines.push(format!("    made!(all, plain::quantity!(x, {e}, i64), x, {d:?}, {s:?}, i64, {b});\n")); }
    o.flush("#[kani::solver(cvc5)]", "x: i64", "compounds", 80);
    let _ = writeln!(text, "mod with_plain {{ use super::*; use super::plain::*;\nspec::obligations! {{ {} }} }}", o.text);
    for u in &units {
        for sym in u.symbols.iter().filter(|s| !KEYWORDS.contains(s)) {
            let _ = writeln!(lits, "    literal!(ctx, plain::literals::float::{sym}!(2.5), plain::quantity!(2.5, {sym}));");
            let _ = writeln!(lits, "    literal!(ctx, plain::literals::integer::{sym}_u32!(7), plain::quantity!(7, {sym}, u32));");
        }
    }
    lits.push_str("}\n");
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/sets.rs"), text).unwrap();
    std::fs::write(format!("{out}/literals.rs"), lits).unwrap();
}
