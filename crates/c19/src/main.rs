//! C19: what a quantity is printed as denotes the quantity.
#![cfg_attr(kani, feature(formatting_options))]
use qx::{Qx, q};
use whippyunits::print::utils::get_si_prefix;
use whippyunits_core::dimension_exponents::DynDimensionExponents as D;
use whippyunits_core::scale_exponents::ScaleExponents as S;
use whippyunits_core::{Dimension, SiPrefix, lookup_unit_literal_by_scale_factors};

pub struct Brand;

// What `Display` and `Debug` have printed, by the printer's contract: under the verifier a stand-in checks what it is
// asked to print and the text is arbitrary; natively the printed text itself is read.
#[cfg(kani)]
mod printer {
    use super::{D, S};
    pub static mut ASKED: u32 = 0;
    pub static mut VALUE: u64 = 0;
    pub static mut DIMS: [i16; 8] = [0; 8];
    pub static mut SCALE: [i16; 4] = [0; 4];
    pub static mut VERBOSE: bool = false;
    pub static mut BRANDED: bool = false;
    pub static mut TYPE: &str = "";
    pub fn contract(value: Option<f64>, d: D, s: S, t: &str, verbose: bool, _show: bool, brand: Option<&str>) -> String {
        unsafe {
            ASKED += 1;
            assert!(matches!(value, Some(v) if v.to_bits() == VALUE || (v.is_nan() && f64::from_bits(VALUE).is_nan())), "the number printed is the quantity's");
            assert!(qx::eq8(d.0, DIMS), "the dimension printed is the quantity's");
            assert!(qx::eq4(s.0, SCALE), "the scale printed is the quantity's");
            assert!(verbose == VERBOSE, "Debug is verbose and Display is not");
            let want: &str = TYPE;
            assert!(super::same(t, want), "the number type printed is the quantity's");
            assert!(matches!(brand, Some(b) if BRANDED == (b.len() != 2)), "the brand printed is the quantity's");
        }
        String::from("U")
    }
    /// Takes down whether it is given exactly `U`.
    pub struct Sink(pub u32, pub bool);
    impl std::fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if !s.is_empty() {
                self.0 += 1;
                self.1 = s.len() == 1 && s.as_bytes()[0] == b'U';
            }
            Ok(())
        }
    }
}

macro_rules! printed {
    ($x:ident $f64:expr, $verbose:expr, $d:tt $s:tt $t:ty, $b:ty, $branded:expr) => {{
        type Q = q!($d $s $t, $b);
        let v: f64 = $f64;
        #[cfg(kani)]
        unsafe {
            printer::ASKED = 0;
            printer::VALUE = v.to_bits();
            printer::DIMS = Q::D;
            printer::SCALE = Q::S;
            printer::VERBOSE = $verbose;
            printer::BRANDED = $branded;
            printer::TYPE = stringify!($t);
            let mut sink = printer::Sink(0, false);
            let mut f = std::fmt::Formatter::new(&mut sink, std::fmt::FormattingOptions::new());
            let q = Q::make($x);
            let r = if $verbose { std::fmt::Debug::fmt(&q, &mut f) } else { std::fmt::Display::fmt(&q, &mut f) };
            // a printer that goes about it in another way is looked at natively
            if printer::ASKED == 1 { spec::ensures!(r.is_ok() && sink.0 == 1 && sink.1, "the text printed is what the printer made"); }
        }
        #[cfg(not(kani))]
        {
            let q = Q::make($x);
            let text = if $verbose { format!("{q:?}") } else { format!("{q}") };
            if let Err(e) = reading::check(&text, Some(v), Q::D, Q::S, $verbose, stringify!($t), $branded) {
                spec::ensures!(false, "{} of {:?} {:?} prints as {text:?}: {e}", $x, Q::D, Q::S);
            }
        }
    }};
}
macro_rules! both {
    ($($name:ident $debug:ident $t:ident $d:tt $s:tt $b:ty, $branded:expr;)*) => {
        spec::obligations! { $(
            #[kani::stub(whippyunits::print::prettyprint::pretty_print_quantity, crate::printer::contract)]
            #[kani::unwind(12)]
            fn $name(x: $t) { printed!(x x as f64, false, $d $s $t, $b, $branded) }
            #[kani::stub(whippyunits::print::prettyprint::pretty_print_quantity, crate::printer::contract)]
            #[kani::unwind(12)]
            fn $debug(x: $t) { printed!(x x as f64, true, $d $s $t, $b, $branded) }
        )* }
    };
}
mod shows {
    use super::*;
    both! {
        display_f64 debug_f64 f64 [1, 2, -3, -4, 5, 6, -7, -1] [3, -2, 5, 1] (), false;
        display_f32 debug_f32 f32 [0, -1, 2, 3, -4, 5, -6, 7] [-1, 2, -3, -2] (), false;
        display_i8 debug_i8 i8 [2, 1, 0, -1, -2, 3, 4, 5] [0, 1, 2, 3] (), false;
        display_i16 debug_i16 i16 [-3, 3, 1, 2, 4, -1, 5, 0] [1, 0, 2, -1] (), false;
        display_i32 debug_i32 i32 [4, -3, 2, 1, -1, 0, 3, 5] [2, 3, 0, 1] (), false;
        display_i64 debug_i64 i64 [5, 4, 3, -2, 1, -1, 0, 2] [-2, -1, 3, 0] (), false;
        display_u8 debug_u8 u8 [0, 1, -1, 2, 3, -3, 4, 5] [1, 2, 4, 3] (), false;
        display_u16 debug_u16 u16 [1, 0, 2, 3, -1, 4, -2, 5] [4, 2, 1, 0] (), false;
        display_u32 debug_u32 u32 [2, 3, 5, 7, 1, -1, 4, 0] [2, 1, -1, 1] (), false;
        display_u64 debug_u64 u64 [3, 5, 7, 2, 0, 1, -4, 4] [0, -1, 1, 2] (), false;
        display_isize debug_isize isize [6, 5, 4, 3, 2, 1, 0, -1] [5, 4, 3, 2] (), false;
        display_usize debug_usize usize [0, 2, 4, 6, 1, 3, 5, 7] [-1, -2, -3, -4] (), false;
        display_branded_f64 debug_branded_f64 f64 [1, -2, 3, -4, 0, 6, -7, 2] [3, 1, -5, 2] Brand, true;
        display_branded_i32 debug_branded_i32 i32 [-1, 2, 0, 4, -5, 6, 7, -8] [0, 3, 1, -1] Brand, true;
    }
}

/// Is `s` that very constant, or at least the same text?
fn same(s: &str, t: &str) -> bool {
    s.len() == t.len() && (s.as_ptr() == t.as_ptr() || s.as_bytes() == t.as_bytes())
}
mod names {
    use super::*;
    use qx::{eq4, eq8};
    use spec::ensures;
    spec::obligations! {
        // the prefix printed for a power of ten is that power's, and there is one when there is one
        #[kani::unwind(40)]
        fn prefix_of_a_power(p: i16, long: bool) {
            let r = get_si_prefix(p, long);
            let mut found = false;
            for x in SiPrefix::ALL.iter() {
                if x.factor_log10() == p {
                    found = true;
                    ensures!(r.is_some_and(|r| same(r, if long { x.name() } else { x.symbol() })), "10^{p} is printed with {r:?}");
                }
            }
            ensures!(found || r.is_none(), "10^{p} is printed with {r:?}");
        }
        // a unit's name is given to its own dimension and scale only, whatever the scale
        #[kani::unwind(80)]
        fn name_of_mass(s: [i16; 4], long: bool) { named([1, 0, 0, 0, 0, 0, 0, 0], s, long) }
        #[kani::unwind(80)]
        fn name_of_length(s: [i16; 4], long: bool) { named([0, 1, 0, 0, 0, 0, 0, 0], s, long) }
        #[kani::unwind(80)]
        fn name_of_time(s: [i16; 4], long: bool) { named([0, 0, 1, 0, 0, 0, 0, 0], s, long) }
        #[kani::unwind(80)]
        fn name_of_current(s: [i16; 4], long: bool) { named([0, 0, 0, 1, 0, 0, 0, 0], s, long) }
        #[kani::unwind(80)]
        fn name_of_temperature(s: [i16; 4], long: bool) { named([0, 0, 0, 0, 1, 0, 0, 0], s, long) }
        #[kani::unwind(80)]
        fn name_of_amount(s: [i16; 4], long: bool) { named([0, 0, 0, 0, 0, 1, 0, 0], s, long) }
        #[kani::unwind(80)]
        fn name_of_luminosity(s: [i16; 4], long: bool) { named([0, 0, 0, 0, 0, 0, 1, 0], s, long) }
        #[kani::unwind(80)]
        fn name_of_angle(s: [i16; 4], long: bool) { named([0, 0, 0, 0, 0, 0, 0, 1], s, long) }
        #[kani::unwind(80)]
        fn name_of_area(s: [i16; 4], long: bool) { named([0, 2, 0, 0, 0, 0, 0, 0], s, long) }
        #[kani::unwind(80)]
        fn name_of_volume(s: [i16; 4], long: bool) { named([0, 3, 0, 0, 0, 0, 0, 0], s, long) }
        #[kani::unwind(80)]
        fn name_of_frequency(s: [i16; 4], long: bool) { named([0, 0, -1, 0, 0, 0, 0, 0], s, long) }
    }
    fn named(d: [i16; 8], s: [i16; 4], long: bool) {
        let Some(r) = lookup_unit_literal_by_scale_factors(&d, S(s), long) else { return };
        let mut found = false;
        for x in Dimension::ALL {
            if !eq8(x.exponents.0, d) { continue }
            for u in x.units {
                if eq4(u.scale.0, s) && u.conversion_factor == 1.0 && u.affine_offset == 0.0
                    && same(r, if long { u.name } else { u.symbols[0] }) { found = true; }
            }
        }
        ensures!(found, "{d:?} {s:?} is called {r}");
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[shows::REGISTRY, names::REGISTRY], &[texts::EVALUATED])
}

/// Reads what is printed.
#[cfg(not(kani))]
mod reading {
    use spec::si;
    fn digit(c: char) -> Option<char> {
        "⁻⁰¹²³⁴⁵⁶⁷⁸⁹".chars().position(|x| x == c).map(|i| "-0123456789".as_bytes()[i] as char)
    }
    pub fn superscript(n: i32) -> String {
        n.to_string().chars().map(|c| if c == '-' { '⁻' } else { "⁰¹²³⁴⁵⁶⁷⁸⁹".chars().nth(c as usize - 48).unwrap() }).collect()
    }
    fn log10(s: [i16; 4]) -> f64 {
        s[0] as f64 * 2f64.log10() + s[1] as f64 * 3f64.log10() + s[2] as f64 * 5f64.log10() + s[3] as f64 * std::f64::consts::PI.log10()
    }
    /// Exponents, and the decimal logarithm of the factor to the coherent SI unit.
    type Unit = ([i32; 8], f64);
    fn part(s: &str, long: bool) -> Option<Unit> {
        let name = s.trim_end_matches(|c| digit(c).is_some());
        let e = &s[name.len()..];
        let e: i32 = if e.is_empty() { 1 } else { e.chars().map(|c| digit(c).unwrap()).collect::<String>().parse().ok()? };
        let whole = if long { si::by_name(name) } else { si::by_symbol(name) };
        let (u, p) = match whole {
            Some(u) => (u, 0),
            None => si::PREFIXES.iter().find_map(|(sym, full, k)| {
                let rest = name.strip_prefix(if long { full } else { sym })?;
                let u = (if long { si::by_name(rest) } else { si::by_symbol(rest) })?;
                u.prefixable.then_some((u, *k))
            })?,
        };
        if u.offset != 0.0 { return None }
        Some((u.dims.map(|x| x as i32 * e), (u.si().log10() + p as f64) * e as f64))
    }
    fn product(s: &str, long: bool) -> Option<Unit> {
        let mut r = ([0; 8], 0.0);
        if s.is_empty() { return Some(r) }
        for p in s.split('·') {
            let (d, l) = part(p, long)?;
            for i in 0..8 { r.0[i] += d[i] }
            r.1 += l;
        }
        Some(r)
    }
    /// A unit's text: a number in parentheses or a power of ten, a prefix to parentheses, a product.
    /// The last is whether the scale is given as a number.
    fn unit(mut s: &str, long: bool) -> Option<(Unit, bool)> {
        let (mut l, mut number) = (0.0, false);
        if s.starts_with('(') {
            let k = s.find(')')?;
            if let Ok(v) = s[1..k].parse::<f64>() {
                if v <= 0.0 || !v.is_finite() { return None }
                l += v.log10();
                number = true;
                s = &s[k + 1..];
            }
        }
        if let Some(r) = s.strip_prefix("10") {
            let k = r.find(' ')?;
            l += if k == 0 { 1.0 } else { r[..k].chars().map(digit).collect::<Option<String>>()?.parse::<i32>().ok()? as f64 };
            s = &r[k + 1..];
        }
        if s.ends_with(')') {
            let k = s.find('(')?;
            if k > 0 {
                l += si::PREFIXES.iter().find(|p| (if long { p.1 } else { p.0 }) == &s[..k])?.2 as f64;
            }
            s = &s[k + 1..s.len() - 1];
        }
        let (d, m) = product(s, long)?;
        Some(((d, l + m), number))
    }
    pub fn check_unit(text: &str, d: [i16; 8], s: [i16; 4], long: bool) -> Result<(), String> {
        let Some(((e, l), number)) = unit(text, long) else { return Err(format!("{text:?} is no unit")) };
        if e != d.map(i32::from) { return Err(format!("{text:?} has dimension {e:?}")) }
        // three significant figures of a number
        let tolerance = if number { 0.0022 } else { 1e-7 };
        if (l - log10(s)).abs() > tolerance { return Err(format!("{text:?} is 10^{l} coherent units, want 10^{}", log10(s))) }
        Ok(())
    }
    pub fn check_number(text: &str, x: f64) -> Result<(), String> {
        let y: f64 = text.parse().map_err(|_| format!("{text:?} is no number"))?;
        // five significant figures
        let ok = if x.is_nan() { y.is_nan() } else if x.is_infinite() || x == 0.0 { x == y }
            else { x.signum() == y.signum() && (y - x).abs() <= (5.0001e-5 * x.abs()).max(5e-324) };
        if ok { Ok(()) } else { Err(format!("{text:?} is not {x:e} to five figures")) }
    }
    fn brackets(names: &[&str], e: &[i16]) -> String {
        let t: Vec<String> = names.iter().zip(e).filter(|(_, e)| **e != 0).map(|(n, e)| format!("{n}{}", superscript(*e as i32))).collect();
        if t.is_empty() { String::new() } else { format!(" [{}]", t.join(", ")) }
    }
    pub fn check(text: &str, x: Option<f64>, d: [i16; 8], s: [i16; 4], verbose: bool, t: &str, branded: bool) -> Result<(), String> {
        let k = text.find("Quantity<").ok_or("no quantity")?;
        match x {
            Some(x) => check_number(text[..k].strip_suffix(' ').ok_or("no space")?, x)?,
            None => if k != 0 { return Err("a number".into()) },
        }
        let body = text[k + 9..].strip_suffix('>').ok_or("not closed")?;
        let c = body.find(", ").filter(|_| !verbose).or_else(|| body.find(&format!(", {t}"))).ok_or("no number type")?;
        let rest = body[c..].strip_prefix(", ").unwrap();
        let brand = rest.strip_prefix(t).ok_or("another number type")?;
        if branded != brand.ends_with("Brand") || !branded && !brand.is_empty() { return Err(format!("brand {brand:?}")) }
        let mut u = &body[..c];
        if verbose {
            let b = brackets(&["2", "3", "5", "π"], &s) + &brackets(&["mass", "length", "time", "current", "temperature", "amount", "luminosity", "angle"], &d);
            u = u.strip_suffix(b.as_str()).ok_or_else(|| format!("does not end in {b:?}"))?;
            if let Some((_, name)) = si_dimension(d) && let Some(v) = u.strip_suffix(&format!(" ({name})")) { u = v }
        }
        check_unit(u, d, s, verbose)
    }
    pub fn si_dimension(d: [i16; 8]) -> Option<(usize, &'static str)> {
        si::DIMENSIONS.iter().position(|x| x.1 == d).map(|i| (i, si::DIMENSIONS[i].0))
    }
}

#[cfg(not(kani))]
mod texts {
    use super::*;
    use whippyunits::print::prettyprint::{pretty_print_quantity_type, pretty_print_quantity_value};
    use whippyunits_core::storage_unit::*;

    fn dims(thorough: bool) -> Vec<[i16; 8]> {
        let mut v: Vec<[i16; 8]> = spec::si::DIMENSIONS.iter().map(|d| d.1).collect();
        v.extend(v.clone().iter().map(|d| d.map(|x| -x)));
        for i in 0..8 {
            for k in if thorough { -12..=12 } else { -4..=4 } {
                let mut e = [0; 8];
                e[i] = k;
                v.push(e);
                for j in i + 1..8 {
                    for l in [-2, -1, 1, 2, 3] {
                        let mut f = e;
                        f[j] = l;
                        v.push(f);
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }
    fn scales() -> Vec<[i16; 4]> {
        let mut v: Vec<[i16; 4]> = (-40..=40).map(|k| [k, 0, k, 0]).collect();
        for u in spec::si::UNITS {
            for k in [-4, -3, -2, -1, 1, 2, 3, 4] {
                let s = u.scale().map(|x| x * k);
                v.extend([s, [s[0] + 3, s[1], s[2] + 3, s[3]], [s[0] - 6, s[1], s[2] - 6, s[3]]]);
            }
        }
        v.extend([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 0, 0, -1], [5, -2, 3, 1], [1, 0, 2, 0], [30, 20, 10, 5], [-30, -20, -10, -5]]);
        v.sort();
        v.dedup();
        v
    }
    spec::evaluated! {
        // exponents are written in full
        fn superscripts(ctx) {
            for n in i16::MIN + 1..=i16::MAX {
                let t = whippyunits_core::to_unicode_superscript(n, true);
                ctx.case(|| format!("{n} is written {t}"), t == reading::superscript(n as i32));
                let t = whippyunits_core::to_unicode_superscript(n, false);
                ctx.case(|| format!("{n} is written {t}"), t == if n == 1 { String::new() } else { reading::superscript(n as i32) });
            }
        }
        fn bounded_units_printed(ctx) {
            let scales = scales();
            for d in dims(ctx.thorough) {
                for s in &scales {
                    for verbose in [false, true] {
                        let t = pretty_print_quantity_type(D(d), S(*s), "f64", verbose, true, Some("()"));
                        let r = reading::check(&t, None, d, *s, verbose, "f64", false);
                        ctx.case(|| format!("{d:?} {s:?} prints as {t:?}: {r:?}"), r.is_ok());
                    }
                    let t = get_storage_unit_name(S(*s), D(d), true);
                    let r = reading::check_unit(&t, d, *s, true);
                    ctx.case(|| format!("the storage unit of {d:?} {s:?} is named {t:?}: {r:?}"), r.is_ok());
                }
            }
            for (i, n) in ["Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminous Intensity", "Angle"].iter().enumerate() {
                let mut d = [0; 8];
                d[i] = 1;
                for s in &scales {
                    let t = get_storage_unit_name_by_dimension_name(S(*s), n, true);
                    let r = reading::check_unit(&t, d, *s, true);
                    ctx.case(|| format!("the storage unit of {n} {s:?} is named {t:?}: {r:?}"), r.is_ok());
                }
            }
        }
        fn bounded_numbers_printed(ctx) {
            let mut rng = ctx.rng();
            let mut one = |x: f64| {
                let t = pretty_print_quantity_value(x, D([0, 1, 0, 0, 0, 0, 0, 0]), S([0; 4]), "f64", false, true, Some("()"));
                let r = reading::check(&t, Some(x), [0, 1, 0, 0, 0, 0, 0, 0], [0; 4], false, "f64", false);
                ctx.case(|| format!("{x:e} metres print as {t:?}: {r:?}"), r.is_ok());
            };
            for x in [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e-310, 99999.5, 999995.0, 0.99999, 0.999995, 123456.0, 9.99995] {
                one(x);
            }
            for k in -323..=308 {
                for m in ["1", "9.9999", "9.99999", "1.00005", "4.4445", "-7.12345678"] { one(format!("{m}e{k}").parse().unwrap()); }
            }
            for _ in 0..200_000 { one(f64::from_bits(rng.next())); }
            for _ in 0..200_000 { one((rng.next() as i64 >> (rng.next() % 63)) as f64); }
            for _ in 0..100_000 { one((rng.next() as i64 >> (rng.next() % 63)) as f64 / 1000.0); }
        }
    }
}
