//! C11: every built-in unit means what the standards say.
use spec::si::{self, Def};
use whippyunits_core::{Dimension, Unit};

/// What the verifier compares, one row per unit of the built-in table.
#[derive(Clone, Copy)]
pub struct Row {
    pub name: &'static str,
    pub dims: [i16; 8],
    pub home: [i16; 8],
    pub scale: [i16; 4],
    pub factor: f64,
    pub offset: f64,
    pub listed: bool,
    pub want_dims: [i16; 8],
    pub want_scale: [i16; 4],
    pub exact: bool,
    pub low: f64,
    pub high: f64,
    pub want_offset: f64,
}
const NONE: Row = Row { name: "", dims: [0; 8], home: [0; 8], scale: [0; 4], factor: 0.0, offset: 0.0, listed: false,
    want_dims: [0; 8], want_scale: [0; 4], exact: true, low: 0.0, high: 0.0, want_offset: 0.0 };

const fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
const fn pow(base: f64, e: i16) -> f64 {
    let (mut r, mut i) = (1.0, 0);
    while i < e.unsigned_abs() { r *= base; i += 1; }
    r
}
const fn div_or_mul(x: f64, base: f64, e: i16) -> f64 {
    if e >= 0 { x / pow(base, e) } else { x * pow(base, e) }
}
/// The specification's row for one of the table's units, computed by the compiler.
const fn row(u: &Unit, home: [i16; 8]) -> Row {
    let mut r = Row { name: u.name, dims: u.exponents.0, home, scale: u.scale.0, factor: u.conversion_factor, offset: u.affine_offset, ..NONE };
    let mut i = 0;
    while i < si::UNITS.len() {
        let s = &si::UNITS[i];
        if same(s.name, u.name) {
            r.listed = true;
            // known finding: lumen is listed with illuminance
            r.want_dims = if same(u.name, "lumen") && qx::eq8(u.exponents.0, si::LUX) { si::LUX } else { s.dims };
            r.want_offset = s.offset;
            match s.def {
                Def::Exact(sc) => { r.want_scale = sc; r.exact = true; r.low = 1.0; r.high = 1.0; }
                Def::Stored(f, sc) => {
                    r.want_scale = sc;
                    r.exact = false;
                    // the scales of stored units have no pi; 2^a 3^b 5^c are few: exact or an ulp off
                    let f = div_or_mul(div_or_mul(div_or_mul(f, 2.0, sc[0]), 3.0, sc[1]), 5.0, sc[2]);
                    let t = if s.tol < 4e-15 { 4e-15 } else { s.tol };
                    r.low = f * (1.0 - t);
                    r.high = f * (1.0 + t);
                }
            }
        }
        i += 1;
    }
    r
}
const MAX: usize = 256;
const fn rows() -> ([Row; MAX], usize) {
    let (mut t, mut n, mut d) = ([NONE; MAX], 0, 0);
    while d < Dimension::ALL.len() {
        let dim = &Dimension::ALL[d];
        let mut u = 0;
        while u < dim.units.len() {
            t[n] = row(&dim.units[u], dim.exponents.0);
            n += 1;
            u += 1;
        }
        d += 1;
    }
    (t, n)
}
pub const ROWS: ([Row; MAX], usize) = rows();
/// Numbers only: what the verifier indexes symbolically.
static TABLE: [Row; MAX] = ROWS.0;
const BASES: [Row; 8] = {
    let (mut t, mut i) = ([NONE; 8], 0);
    while i < 8 {
        t[i] = row(&Unit::BASES[i], Dimension::BASIS[i].exponents.0);
        i += 1;
    }
    t
};

mod table {
    use super::*;
    use qx::{eq4, eq8};
    use spec::{ensures, requires};
    spec::obligations! {
        // for every unit of the table
        fn every_unit_has_its_dimension(i: usize) {
            requires!(i < ROWS.1);
            let r = &TABLE[i];
            ensures!(eq8(r.dims, r.home), "{} is listed under another dimension than its own", r.name);
            ensures!(!r.listed || eq8(r.dims, r.want_dims), "{} has dimension {:?}, want {:?}", r.name, r.dims, r.want_dims);
        }
        fn every_unit_has_its_scale(i: usize) {
            requires!(i < ROWS.1);
            let r = &TABLE[i];
            requires!(r.listed);
            ensures!(eq4(r.scale, r.want_scale), "{} has scale {:?}, want {:?}", r.name, r.scale, r.want_scale);
        }
        fn every_unit_has_its_factor(i: usize) {
            requires!(i < ROWS.1);
            let r = &TABLE[i];
            requires!(r.listed);
            ensures!(if r.exact { r.factor == 1.0 } else { r.factor >= r.low && r.factor <= r.high },
                "{} is {} of its storage unit, want {}..{}", r.name, r.factor, r.low, r.high);
        }
        fn every_unit_has_its_zero_point(i: usize) {
            requires!(i < ROWS.1);
            let r = &TABLE[i];
            requires!(r.listed);
            ensures!(r.offset == r.want_offset, "{} has offset {}, want {}", r.name, r.offset, r.want_offset);
        }
        fn every_base_unit(i: usize) {
            requires!(i < 8);
            let r = &BASES[i];
            ensures!(r.home[i] == 1 && eq8(r.dims, r.home), "base unit {i} ({}) has dimension {:?}", r.name, r.dims);
            ensures!(r.factor == 1.0 && r.offset == 0.0 && eq4(r.scale, if i == 0 { [-3, 0, -3, 0] } else { [0; 4] }), "base unit {i} ({}) has scale {:?}", r.name, r.scale);
        }
    }
}

#[allow(dead_code)]
mod names {
    #[cfg(not(kani))]
    use super::*;
    spec::evaluated! {
        // Factors against the definitions in double-double arithmetic, to the last published digit.
        fn factors_to_the_published_digit(ctx) {
            for r in &ROWS.0[..ROWS.1] {
                let Some(s) = si::by_name(r.name) else { continue };
                let ok = if s.is_exact() { r.factor == 1.0 } else { spec::math::close(r.factor, s.cf(), s.tol) };
                ctx.case(|| format!("{}: {} storage units, want {}", r.name, r.factor, s.cf()), ok);
            }
        }
        // Every standard unit this library offers is there, under its name and each of its symbols.
        fn units_by_name_and_symbol(ctx) {
            // defined but not listed under any dimension
            let unlisted = ["slug", "fathom", "furlong", "metric_fluid_ounce"];
            for s in si::UNITS {
                if unlisted.contains(&s.name) { continue }
                let n = Dimension::find_unit_by_name(s.name);
                if s.name == "lumen" && n.is_some_and(|(u, d)| u.name == s.name && d.exponents.0 == si::LUX) {
                    ctx.known("the unit lumen has the dimension of illuminance (lux)".into());
                } else {
                    ctx.case(|| format!("unit named {}: {:?}", s.name, n.map(|x| x.0.name)),
                        n.is_some_and(|(u, d)| u.name == s.name && d.exponents.0 == s.dims));
                }
                for sym in s.symbols {
                    // lumens are listed with illuminance (known finding), under their own symbol all the same
                    let f = Dimension::find_unit_by_symbol(sym);
                    ctx.case(|| format!("unit with symbol {sym}: {:?}, want {}", f.map(|x| x.0.name), s.name),
                        f.is_some_and(|(u, _)| u.name == s.name));
                }
            }
            for k in ["", "x", "METER", "Meter", "ft ", "kk", "§"] {
                ctx.case(|| format!("{k:?} found"), Dimension::find_unit_by_name(k).is_none() && Dimension::find_unit_by_symbol(k).is_none());
            }
        }
        fn dimensions_by_name_symbol_and_exponents(ctx) {
            for (name, e) in si::DIMENSIONS {
                if *name == "dimensionless" { continue }
                let d = Dimension::find_dimension(name);
                ctx.case(|| format!("dimension {name}: {d:?}"), d.is_some_and(|d| d.exponents.0 == *e && d.name == *name));
                let x = Dimension::find_dimension_by_exponents(whippyunits_core::dimension_exponents::DynDimensionExponents(*e));
                ctx.case(|| format!("dimension of {e:?}: {:?}, want {name}", x.map(|d| d.name)), x.is_some_and(|d| d.name == *name));
            }
            for d in Dimension::ALL {
                let s = Dimension::find_dimension(d.symbol);
                ctx.case(|| format!("dimension with symbol {} is {:?}, want {}", d.symbol, s.map(|d| d.name), d.name), s.is_some_and(|s| s == d));
            }
            ctx.case(|| "unknown dimension".into(), Dimension::find_dimension("Speedy").is_none());
            ctx.case(|| "unknown exponents".into(), Dimension::find_dimension_by_exponents(whippyunits_core::dimension_exponents::DynDimensionExponents([9; 8])).is_none());
        }
        // No two units share a name or symbol, and no symbol reads as a prefixed leading unit.
        fn symbols_are_unambiguous(ctx) {
            let all: Vec<(&Unit, &Dimension)> = Dimension::ALL.iter().flat_map(|d| d.units.iter().map(move |u| (u, d))).collect();
            for (i, (u, _)) in all.iter().enumerate() {
                for (v, _) in &all[i + 1..] {
                    ctx.case(|| format!("two units named {}", u.name), u.name != v.name);
                    for s in u.symbols {
                        ctx.case(|| format!("{s} is both {} and {}", u.name, v.name), !v.symbols.contains(s) && v.name != *s || v.name == u.name);
                    }
                }
                for s in u.symbols {
                    for (p, pn, _) in si::PREFIXES {
                        for (b, _) in &all {
                            if si::by_name(b.name).is_some_and(|x| x.prefixable) && b.symbols.iter().any(|bs| format!("{p}{bs}") == *s) {
                                ctx.case(|| format!("{s} ({}) reads as {pn}{}", u.name, b.name), false);
                            }
                        }
                    }
                }
            }
        }
        fn flags_agree_with_the_numbers(ctx) {
            for d in Dimension::ALL {
                for u in d.units {
                    ctx.case(|| format!("has_conversion of {}", u.name), u.has_conversion() == (u.conversion_factor != 1.0));
                    ctx.case(|| format!("has_affine_offset of {}", u.name), u.has_affine_offset() == (u.affine_offset != 0.0));
                }
            }
        }
        fn base_units_by_symbol_and_multiple(ctx) {
            const B: [(&str, &str); 8] = [("g", "gram"), ("m", "meter"), ("s", "second"), ("A", "ampere"), ("K", "kelvin"), ("mol", "mole"), ("cd", "candela"), ("rad", "radian")];
            for (i, (sym, name)) in B.iter().enumerate() {
                ctx.case(|| format!("base unit {i}"), Unit::BASES[i].name == *name);
                ctx.case(|| format!("base unit {sym}"), Unit::find_base(sym).is_some_and(|u| u.name == *name));
                ctx.case(|| format!("multiple {name}"), Unit::multiple_to_base_unit(name).is_some_and(|(u, p)| u.name == *name && p.is_none()));
                for (_, p, k) in si::PREFIXES {
                    let m = format!("{p}{name}");
                    let r = Unit::multiple_to_base_unit(&m);
                    ctx.case(|| format!("multiple {m}: {:?}", r.map(|r| (r.0.name, r.1.map(|p| p.name())))),
                        r.is_some_and(|(u, p)| u.name == *name && p.is_some_and(|p| p.factor_log10() == *k)));
                }
            }
            for s in ["kg", "ft", "", "km"] { ctx.case(|| format!("base unit {s:?}"), Unit::find_base(s).is_none()); }
            for s in ["abc", "kilofoot", "", "kilo"] { ctx.case(|| format!("multiple {s:?}"), Unit::multiple_to_base_unit(s).is_none()); }
        }
        // Base and compound units partition the table.
        fn base_and_compound_units_partition_the_table(ctx) {
            let base: Vec<&str> = Dimension::si_base_units().map(|(u, _)| u.name).collect();
            let other: Vec<&str> = Dimension::non_si_base_units().map(|(u, _)| u.name).collect();
            let all: Vec<&str> = Dimension::names(Dimension::ALL).collect();
            ctx.case(|| "names".into(), all.len() == ROWS.1 && all.iter().zip(&ROWS.0).all(|(a, r)| *a == r.name));
            for r in &ROWS.0[..ROWS.1] {
                let one = r.dims.iter().filter(|e| **e != 0).count() == 1 && r.dims.contains(&1);
                ctx.case(|| format!("{} is in both or neither list", r.name), base.contains(&r.name) != other.contains(&r.name));
                ctx.case(|| format!("{} is not a base unit", r.name), !one || base.contains(&r.name));
            }
            let n: usize = Dimension::ALL.iter().flat_map(|d| d.units).map(|u| u.symbols.len()).sum();
            ctx.case(|| "symbols".into(), Dimension::symbols(Dimension::ALL).count() == n);
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[table::REGISTRY], &[names::EVALUATED])
}
