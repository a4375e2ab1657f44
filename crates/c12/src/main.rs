//! C12: an SI prefix multiplies the leading metric unit of a dimension by its power of ten, nothing else.
use spec::si;
use whippyunits_core::SiPrefix;

const fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
/// One row per prefix of the library: its power of ten, and the specification's for its name and symbol.
#[derive(Clone, Copy)]
struct Row { k: i16, by_name: i16, by_symbol: i16, first: u8, n: usize, name: [u8; 8], m: usize, sym: [u8; 2] }
const NOT: i16 = i16::MIN;
const fn bytes<const N: usize>(s: &str) -> [u8; N] {
    let (mut r, mut i) = ([0; N], 0);
    while i < s.len() { r[i] = s.as_bytes()[i]; i += 1; }
    r
}
const COUNT: usize = SiPrefix::ALL.len();
static ROWS: [Row; COUNT] = {
    let (mut t, mut i) = ([Row { k: 0, by_name: NOT, by_symbol: NOT, first: 0, n: 0, name: [0; 8], m: 0, sym: [0; 2] }; COUNT], 0);
    while i < COUNT {
        let p = &SiPrefix::ALL[i];
        t[i].k = p.factor_log10();
        t[i].first = p.name().as_bytes()[0];
        t[i].n = p.name().len();
        t[i].name = bytes(p.name());
        t[i].m = p.symbol().len();
        t[i].sym = bytes(p.symbol());
        let mut j = 0;
        while j < si::PREFIXES.len() {
            let (sym, name, k) = si::PREFIXES[j];
            if same(name, p.name()) { t[i].by_name = k; }
            if same(sym, p.symbol()) { t[i].by_symbol = k; }
            j += 1;
        }
        i += 1;
    }
    t
};

mod table {
    use super::*;
    use spec::{ensures, requires};
    /// An arbitrary string of up to `n` bytes.
    fn text(b: &[u8; 8], n: usize) -> &str {
        requires!(n <= 8);
        let s = core::str::from_utf8(&b[..n]);
        requires!(s.is_ok());
        s.unwrap()
    }
    spec::obligations! {
        // for every prefix of the library
        fn every_prefix_has_its_power_of_ten(i: usize) {
            requires!(i < COUNT);
            let r = &ROWS[i];
            ensures!(r.by_name == r.k, "{} is 10^{}, want {}", SiPrefix::ALL[i].name(), r.k, r.by_name);
            ensures!(r.by_symbol == r.k, "{} is 10^{}, want {}", SiPrefix::ALL[i].symbol(), r.k, r.by_symbol);
        }
        fn no_two_prefixes_are_the_same(i: usize, j: usize) {
            requires!(i < COUNT && j < COUNT && i != j);
            ensures!(ROWS[i].k != ROWS[j].k, "{i} and {j} are both 10^{}", ROWS[i].k);
        }
        // Stripping a name takes exactly the name (its initial in either case) off, for every prefix and every
        // string of up to 8 bytes (no prefix name is longer than 6).
        #[kani::unwind(10)]
        fn bounded_strip_prefix_name(i: usize, b0: u8, b1: u8, b2: u8, b3: u8, b4: u8, b5: u8, b6: u8, b7: u8, n: usize) {
            requires!(i < COUNT);
            let b = [b0, b1, b2, b3, b4, b5, b6, b7];
            requires!(b[0] < 128 && b[1] < 128 && b[2] < 128 && b[3] < 128 && b[4] < 128 && b[5] < 128 && b[6] < 128 && b[7] < 128);
            let s = text(&b, n);
            let r = &ROWS[i];
            let mut want = n >= r.n && (b[0] == r.first || b[0] == r.first - 32);
            let mut k = 1;
            while k < r.n { if k < 8 && b[k] != r.name[k] { want = false; } k += 1; }
            let got = SiPrefix::ALL[i].strip_prefix_name(s);
            ensures!(got.is_some() == want, "{} off {s:?}: {got:?}", SiPrefix::ALL[i].name());
            if let Some(g) = got { ensures!(g.len() == n - r.n && g.as_ptr() as usize == s.as_ptr() as usize + r.n, "{} off {s:?}: {g:?}", SiPrefix::ALL[i].name()); }
        }
        #[kani::unwind(10)]
        fn bounded_strip_prefix_symbol(i: usize, b0: u8, b1: u8, b2: u8, b3: u8, n: usize) {
            requires!(i < COUNT && n <= 4);
            let b = [b0, b1, b2, b3, 0, 0, 0, 0];
            let s = text(&b, n);
            let r = &ROWS[i];
            let micro_as_u = r.k == -6 && n >= 1 && b0 == b'u';
            let want = n >= r.m && b0 == r.sym[0] && (r.m < 2 || b1 == r.sym[1]);
            let got = SiPrefix::ALL[i].strip_prefix_symbol(s);
            ensures!(got.is_some() == (want || micro_as_u), "{} off {s:?}: {got:?}", SiPrefix::ALL[i].symbol());
            let m = if want { r.m } else { 1 };
            if let Some(g) = got { ensures!(g.len() == n - m && g.as_ptr() as usize == s.as_ptr() as usize + m, "{} off {s:?}: {g:?}", SiPrefix::ALL[i].symbol()); }
        }
    }
}

#[cfg(not(kani))]
mod names {
    use super::*;
    use spec::nd::Ctx;
    use whippyunits_core::{Dimension, EvaluationMode, UnitExpr, calculate_unit_conversion_factors, get_unit_info};

    /// Defined but not listed under any dimension.
    const UNLISTED: [&str; 4] = ["slug", "fathom", "furlong", "metric_fluid_ounce"];
    fn resolve(s: &str) -> Option<(si::Dims, si::Scale, &'static si::Si, i16)> {
        si::resolve(s).filter(|r| !UNLISTED.contains(&r.2.name) || get_unit_info(s).is_some())
    }
    /// What the real parser and evaluator make of one unit name, against the specification.
    fn check(c: &mut Ctx, s: &str) {
        let want = resolve(s);
        let info = get_unit_info(s);
        c.case(|| format!("{s:?} denotes {:?}, want {:?}", info.map(|u| u.name), want.map(|w| (w.2.name, w.3))),
            info.map(|u| u.name) == want.map(|w| w.2.name));
        let Ok(e) = syn::parse_str::<UnitExpr>(s) else { c.case(|| format!("{s:?} does not parse"), false); return };
        let Some((dims, scale, u, _)) = want else { return };
        // known finding of C11: lumen has the dimension of illuminance
        let dims = if u.name == "lumen" && info.is_some_and(|i| i.exponents.0 == si::LUX) { si::LUX } else { dims };
        for mode in [EvaluationMode::Strict, EvaluationMode::Tolerant] {
            if mode == EvaluationMode::Strict && !u.is_exact() { continue }
            let r = e.evaluate_with_mode(mode);
            c.case(|| format!("{s} is {:?} {:?}, want {dims:?} {scale:?} ({mode:?})", r.dimension_exponents.0, r.scale_exponents.0),
                r.dimension_exponents.0 == dims && r.scale_exponents.0 == scale);
        }
        let (cf, off) = calculate_unit_conversion_factors(&e);
        c.case(|| format!("{s} is {cf} + {off} of its scale, want {} + {}", u.cf(), u.offset),
            spec::math::close(cf, u.cf(), if u.is_exact() { 0.0 } else { u.tol }) && off == u.offset);
        c.case(|| format!("{s}: strict validation says {:?}", e.validate_strict()), e.validate_strict().is_none() == u.is_exact());
    }
    fn upper(s: &str) -> String {
        s[..1].to_uppercase() + &s[1..]
    }

    include!(concat!(env!("OUT_DIR"), "/types.rs"));
    spec::evaluated! {
        // every unit alone, every prefix on every symbol and name (also the ones that take none), and two prefixes
        fn every_prefix_on_every_unit(ctx) {
            for u in si::UNITS {
                if UNLISTED.contains(&u.name) { continue }
                check(ctx, u.name);
                for s in u.symbols { check(ctx, s); }
                for (p, n, _) in si::PREFIXES {
                    for s in u.symbols {
                        check(ctx, &format!("{p}{s}"));
                        check(ctx, &format!("{n}{s}"));
                    }
                    check(ctx, &format!("{n}{}", u.name));
                    check(ctx, &upper(&format!("{n}{}", u.name)));
                    check(ctx, &format!("{p}{}", u.name));
                }
                check(ctx, &upper(u.name));
                if u.prefixable {
                    for (p, n, _) in si::PREFIXES {
                        for (q, m, _) in si::PREFIXES {
                            check(ctx, &format!("{p}{q}{}", u.symbols[0]));
                            check(ctx, &format!("{n}{m}{}", u.name));
                        }
                    }
                }
            }
            for (p, n, _) in si::PREFIXES { check(ctx, p); check(ctx, n); }
        }
        // the compiler's own answer for every prefixed name
        fn every_prefixed_unit_type(ctx) {
            for (n, d, s) in TYPES {
                let (dims, scale, _, _) = si::resolve(n).unwrap();
                ctx.case(|| format!("unit!({n}) is {d:?} {s:?}, want {dims:?} {scale:?}"), *d == dims && *s == scale);
            }
        }
        fn prefixes_by_symbol(ctx) {
            for (p, n, k) in si::PREFIXES {
                let f = SiPrefix::from_symbol(p);
                ctx.case(|| format!("prefix {p} is {f:?}"), f.is_some_and(|f| f.factor_log10() == *k && f.name() == *n));
                let s = format!("{p}x");
                // deca's symbol begins with deci's: "dax" may be read as either
                let f = SiPrefix::strip_any_prefix_symbol(&s);
                ctx.case(|| format!("{s} strips to {f:?}"), *p == "da" || f.is_some_and(|(f, r)| f.factor_log10() == *k && r == "x"));
                let s = format!("{n}x");
                let f = SiPrefix::strip_any_prefix_name(&s);
                ctx.case(|| format!("{s} strips to {f:?}"), f.is_some_and(|(f, r)| f.factor_log10() == *k && r == "x"));
                ctx.case(|| format!("{p} alone strips"), SiPrefix::strip_any_prefix_symbol(p).is_none() || *p == "da");
            }
            ctx.case(|| format!("{} prefixes", SiPrefix::ALL.len()), SiPrefix::ALL.len() == 24);
            for s in ["", "x", "K", "D", "ki", "µµ", "MM"] { ctx.case(|| format!("prefix {s:?}"), SiPrefix::from_symbol(s).is_none()); }
        }
        // every name of up to three letters (four in the thorough tier)
        fn bounded_short_names(ctx) {
            let letters: Vec<char> = ('a'..='z').chain('A'..='Z').chain(['_', 'µ', 'Ω']).collect();
            let mut level = vec![String::new()];
            for _ in 0..if ctx.thorough { 4 } else { 3 } {
                let next: Vec<String> = level.iter().flat_map(|s| letters.iter().map(move |c| format!("{s}{c}"))).collect();
                for s in &next {
                    let (got, want) = (get_unit_info(s), resolve(s));
                    ctx.case(|| format!("{s:?} denotes {:?}, want {:?}", got.map(|u| u.name), want.map(|w| (w.2.name, w.3))),
                        got.map(|u| u.name) == want.map(|w| w.2.name));
                }
                level = next;
            }
        }
        // every name one edit away from a unit
        fn bounded_misspelt_names(ctx) {
            for d in Dimension::ALL {
                for u in d.units {
                    for n in u.symbols.iter().chain([&u.name]) {
                        let cs: Vec<char> = n.chars().collect();
                        for i in 0..=cs.len() {
                            for c in ('a'..='z').chain('A'..='Z').map(Some).chain([None]) {
                                for cut in 0..2 {
                                    if i + cut > cs.len() || (cut == 0 && c.is_none()) { continue }
                                    let s: String = cs[..i].iter().copied().chain(c).chain(cs[i + cut..].iter().copied()).collect();
                                    let (got, want) = (get_unit_info(&s), resolve(&s));
                                    ctx.case(|| format!("{s:?} denotes {:?}, want {:?}", got.map(|u| u.name), want.map(|w| (w.2.name, w.3))),
                                        got.map(|u| u.name) == want.map(|w| w.2.name));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[table::REGISTRY], &[names::EVALUATED])
}
