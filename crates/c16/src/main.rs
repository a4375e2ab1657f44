//! C16: quantities read from text denote what the text says, and texts of another dimension or of no unit are refused.
#![recursion_limit = "1024"]
use qx::{Qx, q};
use whippyunits::serialization::*;
use whippyunits_core::{dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents};

// What the text parser and the unit tables say of the unit's text is properties C11, C12 and C13's. Under the
// verifier they are stand-ins that answer anything at all (any dimension, scale, factor and offset, or an error),
// and check that they are asked about the text given; natively they are the real ones, over every unit.
#[derive(Clone, Copy)]
pub struct Case {
    pub text: &'static str,
    pub cf: f64,
    pub af: f64,
    pub k: f64,
}
#[cfg(kani)]
pub mod callee {
    use super::*;
    pub static mut FACTOR: f64 = 0.0;
    pub static mut SCALES: [i16; 8] = [0; 8];
    pub static mut CF: f64 = 1.0;
    pub static mut AF: f64 = 0.0;
    pub static mut DIMS: [i16; 8] = [0; 8];
    pub static mut FROM: [i16; 4] = [0; 4];
    pub static mut PARSES: bool = true;
    pub static mut KNOWN: bool = true;
    fn is_the_unit(s: &str) {
        let b = s.as_bytes();
        assert!(b.len() == 2 && b[0] == b'u' && b[1] == b't', "the unit's text is passed on whole");
    }
    #[allow(clippy::too_many_arguments)]
    pub fn contract_factor(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) -> f64 {
        unsafe {
            assert!(qx::eq8([a, b, c, d, e, f, g, h], SCALES), "scales passed to the factor computation");
            FACTOR
        }
    }
    pub fn contract_parse(s: &str) -> Result<UnitDimensions, UcumError> {
        is_the_unit(s);
        unsafe {
            if PARSES { Ok((DynDimensionExponents(DIMS), ScaleExponents(FROM))) } else { Err(UcumError::UnknownDimension(DynDimensionExponents([0; 8]))) }
        }
    }
    pub fn contract_factors(s: &str) -> Result<(f64, f64), SerializationError> {
        is_the_unit(s);
        unsafe {
            if KNOWN { Ok((CF, AF)) } else { Err(SerializationError::UnknownUnit(String::new())) }
        }
    }
    pub fn contract_text(_: std::fmt::Arguments<'_>) -> String {
        String::new()
    }
    pub fn cases(d: [i16; 8], from: [i16; 4], to: [i16; 4], cf: f64, af: f64, k: f64) -> [Case; 1] {
        unsafe {
            (DIMS, FROM, CF, AF, FACTOR, PARSES, KNOWN) = (d, from, cf, af, k, true, true);
            SCALES = [from[0], from[1], from[2], from[3], to[0], to[1], to[2], to[3]];
        }
        [Case { text: "ut", cf, af, k }]
    }
}
#[cfg(not(kani))]
pub mod callee {
    use super::*;
    /// Every unit of the dimension.
    pub fn cases(d: [i16; 8], _: [i16; 4], to: [i16; 4], _: f64, _: f64, _: f64) -> Vec<Case> {
        let mut v = vec![];
        for u in spec::si::UNITS {
            let Some((l, dim)) = whippyunits_core::Dimension::find_unit_by_name(u.name) else { continue };
            if dim.exponents.0 != d { continue }
            let f = u.scale();
            let k = whippyunits::api::aggregate_scale_factor_float(f[0], f[1], f[2], f[3], to[0], to[1], to[2], to[3]);
            v.push(Case { text: u.symbols[0], cf: l.conversion_factor, af: l.affine_offset, k });
        }
        v
    }
}

/// Same number, or both not a number.
fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// A storage type of its own.
#[derive(Clone, Copy)]
pub struct Own(pub f64);
impl From<f64> for Own {
    fn from(x: f64) -> Own { Own(x) }
}
macro_rules! core {
    ($all:ident, $x:ident, $cf:ident, $af:ident, $k:ident, $from:ident, [$($d:expr),*] [$($s:expr),*]) => {
        for c in callee::cases([$($d),*], $from, [$($s),*], $cf, $af, $k) {
            let want = ($x * c.cf + c.af) * c.k;
            let got = [
                deserialize_core::<$({ $d },)* $({ $s }),*>($x, c.text).ok(),
                deserialize_core_quantity::<$({ $d },)* $({ $s },)* f64>($x, c.text).ok().map(|q: q!([$($d),*] [$($s),*] f64)| q.raw()),
                deserialize_core_quantity::<$({ $d },)* $({ $s },)* Own>($x, c.text).ok().map(|q: q!([$($d),*] [$($s),*] Own)| q.raw().0),
            ];
            for g in got {
                let ok = matches!(g, Some(g) if eq(g, want));
                #[cfg(not(kani))]
                spec::ensures!(ok, "{} {} as a quantity of dimension {:?} and scale {:?} is {g:?}, want {want}", $x, c.text, [$($d),*] as [i16; 8], [$($s),*] as [i16; 4]);
                $all &= ok;
            }
        }
    };
}
/// Refused exactly when the unit's text does not parse, is of another dimension, or names an unknown unit.
macro_rules! refused {
    ($all:ident, $x:ident, $parsed:ident, $from:ident, $parses:literal, $known:literal, [$($d:expr),*] [$($s:expr),*]) => {{
        let target = [$($d),*];
        #[cfg(kani)]
        let (text, fits) = unsafe {
            callee::cases($parsed, $from, [$($s),*], 1.0, 0.0, 1.0);
            (callee::PARSES, callee::KNOWN) = ($parses, $known);
            ("ut", qx::eq8($parsed, target))
        };
        #[cfg(not(kani))]
        let (text, fits, $parsed) = {
            // units of the specification, picked by the parsed exponents, and texts that denote none
            let pick = $parsed.iter().fold(0usize, |a, e| a * 31 + *e as u16 as usize);
            let u = loop {
                let u = &spec::si::UNITS[pick % spec::si::UNITS.len()];
                spec::requires!(whippyunits_core::Dimension::find_unit_by_name(u.name).is_some());
                break u;
            };
            let d = whippyunits_core::Dimension::find_unit_by_name(u.name).unwrap().1.exponents.0;
            match ($parses, $known) {
                (true, true) => (u.symbols[0], d == target, d),
                (true, false) => ("nosuchunit", target == [0; 8], [0; 8]),
                _ => ("m +", false, $parsed),
            }
        };
        let expected = (DynDimensionExponents(target), ScaleExponents([$($s),*]));
        let want_error = |e: &SerializationError| match e {
            SerializationError::ParseError(_) => !$parses,
            SerializationError::DimensionMismatch { expected: e, actual: a } =>
                $parses && !fits && qx::eq8(e.0.0, expected.0.0) && qx::eq4(e.1.0, expected.1.0) && qx::eq8(a.0.0, $parsed),
            SerializationError::UnknownUnit(_) => $parses && fits && !$known,
            _ => false,
        };
        let r = core::mem::ManuallyDrop::new(deserialize_core::<$({ $d },)* $({ $s }),*>($x, text));
        let ok1 = match &*r {
            Ok(_) => $parses && fits && $known,
            Err(e) => want_error(e),
        };
        let r = core::mem::ManuallyDrop::new(deserialize_core_quantity::<$({ $d },)* $({ $s },)* f64>($x, text));
        let ok2 = match &*r {
            Ok(_) => $parses && fits && $known,
            Err(e) => want_error(e),
        };
        #[cfg(not(kani))]
        spec::ensures!(ok1 && ok2, "{} {text} as a quantity of dimension {target:?}: accepted or refused wrongly", $x);
        $all &= ok1 && ok2;
    }};
}
macro_rules! all_hold {
    ($all:ident) => { spec::ensures!($all, "a text reads wrong") }
}

mod core_values {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/core.rs"));
}

mod checks {
    use super::*;
    type Any = q!([1, -2, 3, -4, 5, -6, 7, -8] [9, 10, -11, 12] u8);
    spec::obligations! {
        #[kani::solver(z3)]
        fn dimensions_compared(a: [i16; 8], b: [i16; 8], s: [i16; 4], t: [i16; 4]) {
            let x = (DynDimensionExponents(a), ScaleExponents(s));
            let y = (DynDimensionExponents(b), ScaleExponents(t));
            let same = qx::eq8(a, b);
            let v = match validate_dimensions(&x, &y) {
                Ok(()) => same,
                Err(SerializationError::DimensionMismatch { expected, actual }) =>
                    !same && qx::eq8(expected.0.0, a) && qx::eq4(expected.1.0, s) && qx::eq8(actual.0.0, b) && qx::eq4(actual.1.0, t),
                Err(_) => false,
            };
            spec::ensures!(v && dimensions_match(&x, &y) == same, "dimensions {a:?} and {b:?} compared wrongly");
        }
        #[kani::solver(z3)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_factor)]
        fn factor_from_to(d: [i16; 8], s: [i16; 4], t: [i16; 4], k: f64) {
            #[cfg(kani)]
            callee::cases(d, s, t, 1.0, 0.0, k);
            #[cfg(not(kani))]
            let k = {
                let [s, t] = [s, t].map(|s| s.map(|e| e % 40));
                whippyunits::api::aggregate_scale_factor_float(s[0], s[1], s[2], s[3], t[0], t[1], t[2], t[3])
            };
            #[cfg(not(kani))]
            let [s, t] = [s, t].map(|s| s.map(|e| e % 40));
            let got = calculate_conversion_factor(&(DynDimensionExponents(d), ScaleExponents(s)), &(DynDimensionExponents(d), ScaleExponents(t)));
            spec::ensures!(eq(got, k), "the factor from scale {s:?} to {t:?} is {got}, want {k}");
        }
        #[kani::solver(z3)]
        fn dimensions_of_a_quantity(x: u8) {
            let (d, s) = get_quantity_dimensions(&Any::make(x));
            spec::ensures!(qx::eq8(d.0, Any::D) && qx::eq4(s.0, Any::S), "dimensions of a quantity: {d:?} {s:?}");
        }
    }
}

#[cfg(not(kani))]
mod tables {
    use super::*;
    use spec::math::close;
    use spec::si::{self, PREFIXES};
    use whippyunits::{from_json, from_string};

    /// Every name of every unit of a dimension, with its size and offset.
    fn names(d: si::Dims) -> Vec<(String, f64, f64, f64)> {
        let mut v = vec![];
        for u in si::UNITS {
            let ud = if u.name == "lumen" { si::LUX } else { u.dims };
            if ud != d || whippyunits_core::Dimension::find_unit_by_name(u.name).is_none() { continue }
            for n in u.symbols.iter().chain([&u.name]) { v.push((n.to_string(), u.si(), u.offset, u.tol)); }
            if u.prefixable {
                for (p, n, k) in PREFIXES {
                    let size = u.si() * 10f64.powi(*k as i32);
                    let s = format!("{p}{}", u.symbols[0]);
                    // a unit's own symbol goes before a prefixed reading
                    if si::by_symbol(&s).is_none() { v.push((s, size, 0.0, u.tol)); }
                    if *p != "µ" { v.push((format!("{n}{}", u.name), size, 0.0, u.tol)); }
                }
            }
        }
        v
    }
    fn read(ctx: &mut spec::nd::Ctx, target: &str, text: &str, got: Result<f64, SerializationError>, want: f64, tol: f64) {
        ctx.case(|| format!("{text} read into {target} is {got:?}, want {want:e}"), matches!(got, Ok(g) if (g - want).abs() <= tol * want.abs() || g == want));
    }
    macro_rules! target {
        ($ctx:ident, $u:ident, $name:literal, $size:expr, $d:tt $s:tt) => {{
            let size: f64 = $size;
            for (n, f, o, tol) in names($d) {
                for x in [2.5f64, -4.0] {
                    // on the target's storage scale
                    let want = (x + o) * f / size;
                    let tol = tol + 1e-13;
                    for text in [format!("{x} {n}"), format!("{x:.3}{n}")] {
                        let got = from_string!(&text, $u).map(|q: q!($d $s f64)| q.raw());
                        read($ctx, stringify!($u), &text, got, want, tol);
                    }
                    let text = format!("{{\"value\": {x}, \"unit\": \"{n}\"}}");
                    let got = from_json!(&text, $u).map(|q: q!($d $s f64)| q.raw());
                    read($ctx, stringify!($u), &text, got, want, tol);
                    let got = serde_json::from_str::<q!($d $s f64, Mark)>(&text).map(|q| q.raw());
                    read($ctx, stringify!($u), &text, got.map_err(|e| SerializationError::InvalidFormat(e.to_string())), want, tol);
                }
            }
            let text = format!("2.5 {}", $name);
            let a = from_string!(&text, $u, Own).ok().map(|q: q!($d $s Own)| q.raw().0);
            let b = from_string!(&text, $u).ok().map(|q| q.raw());
            let json = format!("{{\"value\": 2.5, \"unit\": \"{}\"}}", $name);
            let c = from_json!(&json, $u, Own).ok().map(|q: q!($d $s Own)| q.raw().0);
            $ctx.case(|| format!("{text} read into {} of another storage type: {a:?} and {c:?}, want {b:?}", stringify!($u)), a == b && c == b && b.is_some());
        }};
    }
    pub struct Mark;
    /// Every unit of other dimensions is refused, with a message that says so.
    macro_rules! refuses {
        ($ctx:ident, $d:tt $s:tt) => {{
            for u in si::UNITS {
                let Some((_, dim)) = whippyunits_core::Dimension::find_unit_by_name(u.name) else { continue };
                if dim.exponents.0 == $d { continue }
                let t = u.symbols[0];
                let r = deserialized::<q!($d $s f64)>(t);
                $ctx.case(|| format!("1 {t} read into dimension {:?} is {r:?}", $d), matches!(&r, Err(m) if m.starts_with("Dimension mismatch")));
            }
            for t in ["xyz", "meterz", "kkm", "kft"] {
                let r = deserialized::<q!($d $s f64)>(t);
                $ctx.case(|| format!("1 {t} read into dimension {:?} is {r:?}", $d), r.is_err());
            }
        }};
    }
    fn deserialized<Q: Qx<T = f64> + for<'a> serde::Deserialize<'a>>(unit: &str) -> Result<f64, String> {
        serde_json::from_str::<Q>(&format!("{{\"value\": 1, \"unit\": \"{unit}\"}}")).map(|q| q.raw()).map_err(|e| e.to_string())
    }
    macro_rules! compound {
        ($ctx:ident, $x:literal, $d:tt $to:tt, $want:expr) => {{
            let want: f64 = $want;
            let json = format!("{{\"value\": 3.25, \"unit\": {:?}}}", $x);
            let r = serde_json::from_str::<q!($d $to f64)>(&json).map(|q| q.raw());
            $ctx.case(|| format!("{json} reads {r:?}, want {want:e}"), matches!(r, Ok(r) if close(r, want, 1e-12)));
        }};
    }
    include!(concat!(env!("OUT_DIR"), "/tables.rs"));

    spec::evaluated! {
        fn bounded_every_unit(ctx) { targets(ctx) }
        fn bounded_wrong_dimensions(ctx) { wrong_dimensions(ctx) }
        fn bounded_compound_units(ctx) { compounds(ctx) }
        fn bounded_numbers(ctx) {
            // how numbers may be written, next to units that begin like the rest of a number might
            let mut r = ctx.rng();
            let mut xs = vec![0.0, 1.0, 12.0, 0.5, 1e3, 1.5e-3, 123456.789, 2.5e20, 1e-7];
            for _ in 0..40 { xs.push(f64::from_bits(r.next() % (700 << 52) + (700 << 52))); }
            for x in xs {
                let texts = [format!("{x}"), format!("{x:e}"), format!("{x:E}"), format!("+{x}"), format!("-{x}"), format!("-{x:e}"), format!("{x:?}"), format!("{x:.0}.")];
                for t in texts {
                    let want: f64 = t.parse().unwrap();
                    for (space, end) in [("", ""), (" ", ""), ("  ", " "), ("\t", "\n"), ("", "  ")] {
                        let s = format!("{end}{t}{space}eV{end}");
                        let got = parse_string_input(&s);
                        ctx.case(|| format!("{s:?} parses as {got:?}"), got == Ok((want, "eV".into())));
                        let s = format!("{end}{t}{space}m/s2{end}");
                        let got = from_string!(&s, m/s^2).map(|q| q.raw());
                        ctx.case(|| format!("{s:?} reads {got:?}"), got == Ok(want));
                        let s = format!("{end}{t} kg * m / s^2{end}");
                        let got = from_string!(&s, N).map(|q| q.raw());
                        ctx.case(|| format!("{s:?} reads {got:?}"), got == Ok(want));
                    }
                }
            }
        }
        fn bounded_malformed(ctx) {
            for s in ["", " ", "5", "5.0", "m", "five m", "5..0 m", "5.0.0 m", "5,0 m", "1_000 m", "m 5", "5 m 5", "5 m+", "5 (m", "5 m)", "5 m^", "5 m^x", "5 /", "5 *m", "5 m*", "5 m//s", "5 m/*s*/", "- m", "e3 m", "5e m", "0x10 m", "5 m^1.5", "5 m m", "5 'm'", "5 \"m\""] {
                let r = from_string!(s, m).map(|q| q.raw());
                ctx.case(|| format!("{s:?} reads {r:?}"), r.is_err());
                let r = from_string!(s, 1).map(|q| q.raw());
                ctx.case(|| format!("{s:?} reads {r:?} as a number"), r.is_err());
            }
            for s in ["", "{}", "[]", "5", "null", "\"5 m\"", "{\"value\": 5}", "{\"unit\": \"m\"}", "{\"value\": \"5\", \"unit\": \"m\"}", "{\"value\": 5, \"unit\": 5}",
                      "{\"value\": null, \"unit\": \"m\"}", "{\"value\": 5, \"unit\": null}", "{\"value\": 5, \"unit\": \"\"}", "{\"value\": 5, \"unit\": \"m\"", "{\"value\": [5], \"unit\": \"m\"}",
                      "{\"value\": true, \"unit\": \"m\"}", "{\"Value\": 5, \"unit\": \"m\"}", "{\"value\": 5, \"units\": \"m\"}", "[5, \"m\"]", "{\"value\": 5, \"unit\": \"m\"} x", "{\"value\": 5, \"unit\": \"5 m\"}"] {
                let r = from_json!(s, m).map(|q| q.raw());
                ctx.case(|| format!("from_json {s:?} reads {r:?}"), r.is_err());
                let r = serde_json::from_str::<whippyunits::unit!(m)>(s).map(|q| q.raw());
                ctx.case(|| format!("serde {s:?} reads {r:?}"), r.is_err());
            }
        }
        fn bounded_fields(ctx) {
            // every sequence of at most four fields, known or not
            let fields = ["\"value\": 2.5", "\"unit\": \"km\"", "\"note\": {\"value\": 7, \"unit\": [\"s\"]}", "\"values\": 3"];
            for n in 0..=4u32 {
                for i in 0..4u32.pow(n) {
                    let seq: Vec<usize> = (0..n).map(|j| (i / 4u32.pow(j) % 4) as usize).collect();
                    let count = |f| seq.iter().filter(|x| **x == f).count();
                    let json = format!("{{{}}}", seq.iter().map(|f| fields[*f]).collect::<Vec<_>>().join(", "));
                    let r = serde_json::from_str::<whippyunits::unit!(m)>(&json).map(|q| q.raw());
                    let ok = if count(0) == 1 && count(1) == 1 { matches!(r, Ok(2500.0)) } else { r.is_err() };
                    ctx.case(|| format!("{json} reads {r:?}"), ok);
                }
            }
        }
        fn bounded_unit_texts(ctx) {
            for u in si::UNITS {
                let Some((_, dim)) = whippyunits_core::Dimension::find_unit_by_name(u.name) else { continue };
                let mut ns: Vec<(String, si::Scale)> = u.symbols.iter().chain([&u.name]).map(|n| (n.to_string(), u.scale())).collect();
                if u.prefixable {
                    for (p, n, k) in PREFIXES {
                        let s = si::add(u.scale(), si::ten(*k));
                        let t = format!("{p}{}", u.symbols[0]);
                        if si::by_symbol(&t).is_none() { ns.push((t, s)); }
                        ns.push((format!("{n}{}", u.name), s));
                    }
                }
                for (n, s) in ns {
                    let want = (DynDimensionExponents(dim.exponents.0), ScaleExponents(s));
                    let got = parse_ucum_unit(&n);
                    ctx.case(|| format!("{n} parses as {got:?}, want {want:?}"), got.as_ref() == Ok(&want));
                    let got = get_target_unit_dimensions(&n);
                    ctx.case(|| format!("{n} is a target of {got:?}, want {want:?}"), got == want);
                }
                let n = format!("k{}", u.symbols[0]);
                if si::resolve(&n).is_none() {
                    ctx.case(|| format!("{n} is a target"), spec::nd::panics(|| { get_target_unit_dimensions(&n); }));
                }
            }
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[core_values::REGISTRY, checks::REGISTRY], &[tables::EVALUATED])
}
