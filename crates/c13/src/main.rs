//! C13: a unit expression means the product its grammar says.
use whippyunits_core::{EvaluationMode, Unit, UnitExpr, UnitExprUnit, calculate_unit_conversion_factors};
#[cfg(not(kani))]
use whippyunits_core::get_unit_info;
#[cfg(not(kani))]
mod tree;

/// Two units for the leaves of one expression.  Under the verifier, `get_unit_info` is replaced by its
/// contract: some unit, any unit, per name.  Natively, units of the real table picked by `pick`.
#[cfg(kani)]
mod world {
    use super::*;
    use whippyunits_core::{Dimension, System, dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents};
    const ANY: Unit = Unit { name: "a", symbols: &[], scale: ScaleExponents([0; 4]), conversion_factor: 1.0, affine_offset: 0.0,
        exponents: DynDimensionExponents([0; 8]), system: System::Metric };
    static mut A: Unit = ANY;
    static mut B: Unit = ANY;
    fn unit(i: usize) -> &'static Unit { unsafe { if i == 0 { &*(&raw const A) } else { &*(&raw const B) } } }
    pub fn get_unit_info(name: &str) -> Option<&'static Unit> {
        match name.as_bytes()[0] {
            b'a' => Some(unit(0)),
            b'b' => Some(unit(1)),
            _ => None,
        }
    }
    /// `a` and `b` are units' own symbols.
    pub fn find_unit_by_symbol(s: &str) -> Option<(&'static Unit, &'static Dimension)> {
        let _ = s;
        Some((Dimension::ALL[0].units.first().unwrap(), &Dimension::ALL[0]))
    }
    pub fn set(i: usize, p: [i16; 12], cf: f64, off: f64) {
        let u = Unit {
            exponents: DynDimensionExponents([p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]]),
            scale: ScaleExponents([p[8], p[9], p[10], p[11]]),
            conversion_factor: cf,
            affine_offset: off,
            ..ANY
        };
        unsafe { if i == 0 { A = u } else { B = u } }
    }
    pub fn name(i: usize) -> &'static str { if i == 0 { "a" } else { "b" } }
    pub fn lit(e: i16) -> syn::LitInt { syn::LitInt(e as i64) }
}
#[cfg(not(kani))]
mod world {
    use super::*;
    use std::cell::Cell;
    thread_local!(static N: [Cell<&'static str>; 2] = const { [Cell::new("m"), Cell::new("s")] });
    pub fn set(i: usize, pick: [i16; 12], _: f64, _: f64) {
        let all: Vec<&'static str> = whippyunits_core::Dimension::ALL.iter().flat_map(|d| d.units).map(|u| u.symbols[0]).filter(|s| syn::parse_str::<syn::Ident>(s).is_ok()).collect();
        let k = pick.iter().fold(7usize, |h, x| h.wrapping_mul(31).wrapping_add(*x as u16 as usize));
        N.with(|n| n[i].set(all[k % all.len()]));
    }
    pub fn name(i: usize) -> &'static str { N.with(|n| n[i].get()) }
    pub fn lit(e: i16) -> syn::LitInt { syn::LitInt::new(&e.to_string(), proc_macro2::Span::call_site()) }
}
#[cfg(kani)]
use world::get_unit_info;

mod nodes {
    use super::*;
    use core::mem::ManuallyDrop;
    use spec::{ensures, requires};
    fn info(i: usize) -> Unit { *get_unit_info(world::name(i)).unwrap() }
    fn leaf(i: usize, e: i16) -> UnitExpr {
        UnitExpr::Unit(UnitExprUnit { name: syn::Ident::new(world::name(i), proc_macro2::Span::call_site()), exponent: e })
    }
    fn mode(strict: bool) -> EvaluationMode { if strict { EvaluationMode::Strict } else { EvaluationMode::Tolerant } }
    fn eval(e: &UnitExpr, strict: bool) -> [i16; 12] {
        let r = e.evaluate_with_mode(mode(strict));
        vector(r.dimension_exponents.0, r.scale_exponents.0)
    }
    fn vector(d: [i16; 8], s: [i16; 4]) -> [i16; 12] {
        [d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], s[0], s[1], s[2], s[3]]
    }
    fn of(u: Unit) -> [i16; 12] { vector(u.exponents.0, u.scale.0) }
    /// Componentwise `f`, which must fit.
    fn comb(a: [i16; 12], b: [i16; 12], f: impl Fn(i32, i32) -> i32) -> [i16; 12] {
        let g = |i: usize| { let x = f(a[i] as i32, b[i] as i32); requires!(x >= -32767 && x <= 32767); x as i16 };
        [g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8), g(9), g(10), g(11)]
    }
    fn same(a: [i16; 12], b: [i16; 12]) -> bool {
        a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5] && a[6] == b[6]
            && a[7] == b[7] && a[8] == b[8] && a[9] == b[9] && a[10] == b[10] && a[11] == b[11]
    }
    spec::obligations! {
        // Each node of an expression, over any units as its parts.
        #[kani::stub(whippyunits_core::get_unit_info, world::get_unit_info)]
        #[kani::stub(whippyunits_core::Dimension::find_unit_by_symbol, world::find_unit_by_symbol)]
        #[kani::unwind(13)]
        fn a_unit(a: [i16; 12], strict: bool, cf: f64) {
            world::set(0, a, cf, 0.0);
            let u = info(0);
            requires!(!strict || u.conversion_factor == 1.0);
            let got = eval(&leaf(0, 1), strict);
            ensures!(same(got, of(u)), "{} is {got:?}, want {:?}", u.name, of(u));
        }
        #[kani::stub(whippyunits_core::get_unit_info, world::get_unit_info)]
        #[kani::stub(whippyunits_core::Dimension::find_unit_by_symbol, world::find_unit_by_symbol)]
        #[kani::unwind(13)]
        fn a_unit_with_implicit_exponent(a: [i16; 12], e: i16, strict: bool, cf: f64) {
            world::set(0, a, cf, 0.0);
            let u = info(0);
            requires!(!strict || u.conversion_factor == 1.0);
            let want = comb(of(u), of(u), |x, _| x * e as i32);
            let got = eval(&leaf(0, e), strict);
            ensures!(same(got, want), "{}{e} is {got:?}, want {want:?}", u.name);
        }
        #[kani::stub(whippyunits_core::get_unit_info, world::get_unit_info)]
        #[kani::stub(whippyunits_core::Dimension::find_unit_by_symbol, world::find_unit_by_symbol)]
        #[kani::unwind(13)]
        fn a_power_of_ten(e: i16, strict: bool) {
            let u = UnitExpr::Unit(UnitExprUnit { name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()), exponent: e });
            let got = eval(&u, strict);
            ensures!(same(got, [0, 0, 0, 0, 0, 0, 0, 0, e, 0, e, 0]), "10^{e} is {got:?}");
            let (cf, off) = calculate_unit_conversion_factors(&u);
            ensures!(cf == 1.0 && off == 0.0, "10^{e} is {cf} + {off} of its scale");
        }
        #[kani::stub(whippyunits_core::get_unit_info, world::get_unit_info)]
        #[kani::stub(whippyunits_core::Dimension::find_unit_by_symbol, world::find_unit_by_symbol)]
        #[kani::unwind(13)]
        fn a_product(a: [i16; 12], b: [i16; 12], strict: bool, cf: f64, cg: f64) {
            world::set(0, a, cf, 0.0);
            world::set(1, b, cg, 0.0);
            let (u, v) = (info(0), info(1));
            requires!(!strict || (u.conversion_factor == 1.0 && v.conversion_factor == 1.0));
            let want = comb(of(u), of(v), |x, y| x + y);
            let got = eval(&ManuallyDrop::new(UnitExpr::Mul(Box::new(leaf(0, 1)), Box::new(leaf(1, 1)))), strict);
            ensures!(same(got, want), "{} * {} is {got:?}, want {want:?}", u.name, v.name);
        }
        #[kani::stub(whippyunits_core::get_unit_info, world::get_unit_info)]
        #[kani::stub(whippyunits_core::Dimension::find_unit_by_symbol, world::find_unit_by_symbol)]
        #[kani::unwind(13)]
        fn a_quotient(a: [i16; 12], b: [i16; 12], strict: bool, cf: f64, cg: f64) {
            world::set(0, a, cf, 0.0);
            world::set(1, b, cg, 0.0);
            let (u, v) = (info(0), info(1));
            requires!(!strict || (u.conversion_factor == 1.0 && v.conversion_factor == 1.0));
            let _ = comb(of(v), of(v), |x, _| -x);
            let want = comb(of(u), of(v), |x, y| x - y);
            let got = eval(&ManuallyDrop::new(UnitExpr::Div(Box::new(leaf(0, 1)), Box::new(leaf(1, 1)))), strict);
            ensures!(same(got, want), "{} / {} is {got:?}, want {want:?}", u.name, v.name);
        }
        #[kani::stub(whippyunits_core::get_unit_info, world::get_unit_info)]
        #[kani::stub(whippyunits_core::Dimension::find_unit_by_symbol, world::find_unit_by_symbol)]
        #[kani::unwind(13)]
        fn a_power(a: [i16; 12], e: i16, strict: bool, cf: f64) {
            world::set(0, a, cf, 0.0);
            let u = info(0);
            requires!(!strict || u.conversion_factor == 1.0);
            let want = comb(of(u), of(u), |x, _| x * e as i32);
            let got = eval(&ManuallyDrop::new(UnitExpr::Pow(Box::new(leaf(0, 1)), world::lit(e))), strict);
            ensures!(same(got, want), "{} ^ {e} is {got:?}, want {want:?}", u.name);
        }
        #[kani::stub(whippyunits_core::get_unit_info, world::get_unit_info)]
        #[kani::unwind(13)]
        fn factor_of_a_unit(a: [i16; 12], cf: f64, off: f64) {
            requires!(cf.is_finite() && off.is_finite());
            world::set(0, a, cf, off);
            let u = info(0);
            let (got, o) = calculate_unit_conversion_factors(&leaf(0, 1));
            ensures!(got == u.conversion_factor && o == u.affine_offset, "{}: {got} + {o}", u.name);
        }
        #[kani::stub(whippyunits_core::get_unit_info, world::get_unit_info)]
        #[kani::unwind(13)]
        fn factor_of_a_product(a: [i16; 12], b: [i16; 12], cf: f64, cg: f64) {
            requires!(cf > 1e-100 && cf < 1e100 && cg > 1e-100 && cg < 1e100);
            world::set(0, a, cf, 0.0);
            world::set(1, b, cg, 0.0);
            let (u, v) = (info(0), info(1));
            requires!(u.affine_offset == 0.0 && v.affine_offset == 0.0);
            let (got, off) = calculate_unit_conversion_factors(&ManuallyDrop::new(UnitExpr::Mul(Box::new(leaf(0, 1)), Box::new(leaf(1, 1)))));
            ensures!(got == u.conversion_factor * v.conversion_factor && off == 0.0, "{} * {}: {got} + {off}", u.name, v.name);
        }
        // (division of symbolic doubles is beyond the back ends: quotients' factors are left to the evaluations)
    }
}

#[cfg(not(kani))]
mod expressions {
    use super::*;
    use spec::nd::Ctx;
    use tree::{CUSTOMARY, LEAVES, Tree, Value};
    include!(concat!(env!("OUT_DIR"), "/types.rs"));

    /// The real parser and evaluator on one text, against what it means (`None`: nothing).
    fn check(c: &mut Ctx, text: &str, want: Option<Value>) {
        let got = syn::parse_str::<UnitExpr>(text);
        if got.is_ok() != want.is_some() {
            c.case(|| format!("{text:?} {}, want {want:?}", if got.is_ok() { "parses" } else { "does not parse" }), false);
            return;
        }
        let (Ok(e), Some(v)) = (got, want) else { c.case(|| format!("{text:?} is rejected"), true); return };
        for mode in [EvaluationMode::Tolerant, EvaluationMode::Strict] {
            if mode == EvaluationMode::Strict && !v.exact { continue }
            let r = e.evaluate_with_mode(mode);
            c.case(|| format!("{text:?} is {:?} {:?}, want {:?} {:?} ({mode:?})", r.dimension_exponents.0, r.scale_exponents.0, v.dims, v.scale),
                r.dimension_exponents.0.map(|x| x as i32) == v.dims && r.scale_exponents.0.map(|x| x as i32) == v.scale);
        }
        let (cf, off) = calculate_unit_conversion_factors(&e);
        c.case(|| format!("{text:?} is {cf} + {off} of its scale, want {}", v.cf), off == 0.0 && (cf == v.cf || (cf / v.cf - 1.0).abs() < 1e-12));
        c.case(|| format!("{text:?}: strict validation says {:?}", e.validate_strict()), e.validate_strict().is_none() == v.exact);
    }

    /// The grammar, over tokens: quotients of products of powers of atoms.
    struct P<'a>(&'a [&'a str], usize);
    impl P<'_> {
        fn peek(&self) -> &str { self.0.get(self.1).unwrap_or(&"") }
        fn eat(&mut self, s: &[&str]) -> bool {
            let y = s.contains(&self.peek());
            self.1 += y as usize;
            y
        }
        fn int(&mut self) -> Option<i32> {
            let n = self.peek().parse().ok()?;
            self.1 += 1;
            Some(n)
        }
        fn quotient(&mut self) -> Option<Value> {
            let mut v = self.product()?;
            while self.eat(&["/"]) { v = v.mul(self.product()?, -1); }
            Some(v)
        }
        fn product(&mut self) -> Option<Value> {
            let mut v = self.power()?;
            while self.eat(&["*", "."]) { v = v.mul(self.power()?, 1); }
            Some(v)
        }
        fn power(&mut self) -> Option<Value> {
            let v = self.atom()?;
            Some(if self.eat(&["^"]) { v.pow(self.int()?) } else { v })
        }
        fn atom(&mut self) -> Option<Value> {
            if self.eat(&["("]) {
                let v = self.quotient()?;
                return self.eat(&[")"]).then_some(v);
            }
            if let Some(n) = self.int() {
                // a number takes its own exponent, before any of a parenthesis's
                let e = if self.eat(&["^"]) { self.int()? } else { 1 };
                if n == 1 { return Some(Value::ONE) }
                let k = (n > 0).then(|| n.ilog10()).filter(|k| 10i32.pow(*k) == n)?;
                return Some(Value::ten(k as i32 * e));
            }
            let t = self.peek().to_string();
            let i = t.find(|c: char| c.is_ascii_digit()).unwrap_or(t.len());
            let e = if i < t.len() { t[i..].parse().ok()? } else { 1 };
            let v = Value::unit(&t[..i])?.pow(e);
            self.1 += 1;
            Some(v)
        }
    }

    spec::evaluated! {
        // the compiler's own types for random expressions
        fn bounded_types_of_expressions(ctx) {
            for (x, d, s, wd, ws) in TYPES {
                ctx.case(|| format!("unit!({x}) is {d:?} {s:?}, want {wd:?} {ws:?}"), d.map(|x| x as i32) == *wd && s.map(|x| x as i32) == *ws);
            }
        }
        // every sequence of up to 5 tokens (6 in the thorough tier), legal or not
        fn bounded_token_sequences(ctx) {
            const T: &[&str] = &["m", "s2", "kg", "ft", "1", "10", "-2", "3", "/", "*", ".", "^", "(", ")"];
            let n = if ctx.thorough { 6 } else { 5 };
            let mut idx = vec![0usize];
            loop {
                let toks: Vec<&str> = idx.iter().map(|i| T[*i]).collect();
                let mut p = P(&toks, 0);
                let want = p.quotient().filter(|_| p.1 == toks.len());
                check(ctx, &toks.join(" "), want);
                let mut k = idx.len();
                loop {
                    if k == 0 { idx = vec![0; idx.len() + 1]; break }
                    k -= 1;
                    idx[k] += 1;
                    if idx[k] < T.len() { break }
                    idx[k] = 0;
                }
                if idx.len() > n { break }
            }
        }
        // every pair of units in a product, a quotient and a power
        fn bounded_pairs_of_units(ctx) {
            let all: Vec<&str> = whippyunits_core::Dimension::ALL.iter().flat_map(|d| d.units)
                .filter(|u| u.affine_offset == 0.0 && !["lumen", "year", "parsec", "therm"].contains(&u.name)).flat_map(|u| u.symbols.iter().copied()).collect();
            let val = |s: &str| Value::unit(s).unwrap();
            for a in &all {
                for e in -4..=4 {
                    check(ctx, &format!("{a}^{e}"), Some(val(a).pow(e)));
                    if e >= 0 { check(ctx, &format!("{a}{e}"), Some(val(a).pow(e))); }
                }
                for b in &all {
                    check(ctx, &format!("{a}*{b}"), Some(val(a).mul(val(b), 1)));
                    check(ctx, &format!("{a}/{b}2"), Some(val(a).mul(val(b).pow(2), -1)));
                }
            }
        }
        // random expressions, written in random ways
        fn bounded_random_expressions(ctx) {
            let mut r = ctx.rng();
            let leaves: Vec<&str> = LEAVES.iter().chain(CUSTOMARY).copied().collect();
            for _ in 0..if ctx.thorough { 3_000_000 } else { 150_000 } {
                let t = Tree::random(&mut r, 4, &leaves);
                let v = t.value();
                let x = t.text(&mut r);
                if !v.fits() || !v.cf.is_normal() { continue }
                check(ctx, &x, Some(v));
            }
        }
        fn bounded_exponents_at_the_limits(ctx) {
            for (x, ok) in [("m^32767", true), ("m^-32767", true), ("m^32768", false), ("m^-32769", false), ("m^65537", false), ("m^4294967297", false),
                ("10^32767", true), ("10^32768", false), ("100^16384", false), ("10^65536", false), ("m^18446744073709551617", false), ("2*m", false), ("m*5", false),
                ("0", false), ("-1", false), ("-10", false), ("10000000000", false), ("1000000000", true), ("m^2.5", false), ("m^", false), ("^2", false), ("", false),
                ("m m", false), ("m s", false), ("10 m", false), ("m**2", false), ("(m", false), ("m)", false), ("()", false), ("m²", false),
                ("m+s", false), ("m-s", false), ("\"m\"", false), ("m^s", false), ("m^(2)", false), ("m^2m", false)] {
                let got = syn::parse_str::<UnitExpr>(x).is_ok();
                ctx.case(|| format!("{x:?} {}", if got { "parses" } else { "does not parse" }), got == ok);
            }
        }
        // offsets only ever come from units with an offset, and per-degree quantities have none
        fn bounded_offsets_in_compounds(ctx) {
            for (x, cf) in [("J/degC", 1.0), ("W/degF", 1.0), ("m/degF", 1.0), ("J/kg/degC", 1.0), ("ft/degC", 3.048), ("1/degC", 1.0)] {
                let (f, off) = calculate_unit_conversion_factors(&syn::parse_str(x).unwrap());
                ctx.case(|| format!("{x}: {f} + {off}, want {cf}"), off == 0.0 && (f / cf - 1.0).abs() < 1e-12);
            }
        }
        // macros given an expression with a name that denotes nothing, or an unusable unit, do not compile
        fn bounded_rejected_programs(ctx) {
            let bad = ["mtr", "kft", "foo", "m/foo", "foo*m", "foo^2", "m/(s*foo)", "mmin", "kkm", "KM", "Meterr", "m2x", "2*m", "m^40000", "s.foo2"];
            let mut lines: Vec<(String, bool)> = vec![];
            for x in bad {
                lines.push((format!("whippyunits::quantity!(1.0, {x});"), false));
                lines.push((format!("let _: whippyunits::unit!({x});"), false));
                lines.push((format!("let _: f64 = whippyunits::value!(whippyunits::quantity!(1.0, 1/1), {x});"), false));
            }
            // customary units have no scale of their own to be a type
            for x in ["ft", "m/ft", "lb*m", "ft2", "psi^2", "(m*mi)^2"] { lines.push((format!("let _: whippyunits::unit!({x});"), false)); }
            for x in ["m", "km/h", "N.m", "kg*m^2/s2", "1/s", "10^3", "in", "as", "ft/s", "dimensionless"] {
                lines.push((format!("whippyunits::quantity!(1.0, {x});"), true));
            }
            for (l, ok) in spec::reject::verdicts("c13", &lines) {
                let want = lines.iter().find(|x| x.0 == l).unwrap().1;
                ctx.case(|| format!("`{l}` {}", if ok { "compiles" } else { "does not compile" }), ok == want);
            }
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[nodes::REGISTRY], &[expressions::EVALUATED])
}
