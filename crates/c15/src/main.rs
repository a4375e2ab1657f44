//! C15: reading a quantity in a unit gives how many of the unit it is.
#![recursion_limit = "1024"]
use qx::{Qx, q};
use whippyunits_core::Dimension;

pub struct Brand;

const fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
/// Storage units per unit and offset in storage units, by the library's table (property C11 ties it to the SI).
const fn row(name: &str) -> (f64, f64) {
    let mut i = 0;
    while i < Dimension::ALL.len() {
        let u = Dimension::ALL[i].units;
        let mut j = 0;
        while j < u.len() {
            if same(u[j].name, name) { return (u[j].conversion_factor, u[j].affine_offset); }
            j += 1;
        }
        i += 1;
    }
    panic!("no such unit")
}
macro_rules! cf { ($n:literal) => {{ const C: f64 = row($n).0; C }} }
macro_rules! af { ($n:literal) => {{ const C: f64 = row($n).1; C }} }

// The factor between two scales, as its contract (property C04) leaves it: some double that depends on nothing
// but the two scales. Under the verifier it is an arbitrary `k`, returned by a stand-in that checks it is asked
// for exactly the quantity's scale and the unit's; natively it is the real factor.
#[cfg(kani)]
pub mod callee {
    pub static mut FACTOR: f64 = 0.0;
    pub static mut SCALES: [i16; 8] = [0; 8];
    #[allow(clippy::too_many_arguments)]
    pub fn contract_factor(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) -> f64 {
        unsafe {
            assert!(qx::eq8([a, b, c, d, e, f, g, h], SCALES), "scales passed to the factor computation");
            FACTOR
        }
    }
    pub fn factor(s: [i16; 8], k: f64) -> f64 {
        unsafe {
            SCALES = s;
            FACTOR = k;
        }
        k
    }
    // Likewise a rescaled integer is some value `y` (property C05 says which), of exactly the quantity given.
    use whippyunits::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Quantity, Scale};
    macro_rules! rescaled {
        ($($t:ident)*) => { $(
            pub mod $t {
                use super::*;
                pub static mut GIVEN: $t = 0;
                pub static mut RESULT: $t = 0;
                pub static mut TO: [i16; 4] = [0; 4];
                pub fn rescaled<const M: i16, const L: i16, const T: i16, const I: i16, const H: i16, const N: i16, const J: i16, const A: i16,
                    const P2: i16, const Q2: i16, const P3: i16, const Q3: i16, const P5: i16, const Q5: i16, const PI: i16, const QI: i16, B>(
                    q: Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<L>, _T<T>, _I<I>, _Θ<H>, _N<N>, _J<J>, _A<A>>, $t, B>,
                ) -> Quantity<Scale<_2<Q2>, _3<Q3>, _5<Q5>, _Pi<QI>>, Dimension<_M<M>, _L<L>, _T<T>, _I<I>, _Θ<H>, _N<N>, _J<J>, _A<A>>, $t, B> {
                    unsafe {
                        assert!(q.unsafe_value == GIVEN && qx::eq4([P2, P3, P5, PI], [1, 2, 3, 4]), "the quantity rescaled is the one read");
                        assert!(qx::eq4([Q2, Q3, Q5, QI], TO), "rescaled to the scale of the unit");
                        Quantity::new(RESULT)
                    }
                }
            }
        )* }
    }
    rescaled! { i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize }
}
#[cfg(not(kani))]
pub mod callee {
    pub fn factor(s: [i16; 8], _k: f64) -> f64 {
        whippyunits::api::aggregate_scale_factor_float(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7])
    }
}

/// Same number, or both not a number (no integer differs from itself).
#[allow(clippy::eq_op)]
fn eq<T: PartialEq + Copy>(a: T, b: T) -> bool {
    a == b || (a != a && b != b)
}
macro_rules! check {
    ($all:ident, $got:ident, $want:ident, $($what:tt)*) => {
        #[cfg(kani)]
        { $all &= eq($got, $want); }
        #[cfg(not(kani))]
        {
            spec::ensures!(eq($got, $want), "{} of {} is {:?}, want {:?}", stringify!($($what)*), spec_unit!($($what)*), $got, $want);
            $all = true;
        }
    };
}
#[cfg(not(kani))]
macro_rules! spec_unit { ($x:ident $($t:tt)*) => { $x } }
/// A quantity of the unit's dimension and some scale, read in the unit: `want` of its value on the unit's scale.
macro_rules! read {
    ($all:ident, $x:ident, $k:ident, $t:ty, $b:ty, $d:tt [$($s:literal),*], value!($($v:tt)*), |$r:ident| $want:expr) => {{
        let q = <q!($d [1, 2, 3, 4] $t, $b)>::make($x);
        let k = callee::factor([1, 2, 3, 4, $($s),*], $k);
        let got: $t = value!(q, $($v)*);
        let $r: $t = $x * (k as $t);
        let want: $t = $want;
        check!($all, got, want, $x value!($($v)*));
    }};
}
/// The same for integers, where the value on the unit's scale is the rescaling function's (property C05).
/// Natively the quantity's scale is six times the unit's, and values that overflow on the unit's scale are left out.
macro_rules! read_int {
    ($all:ident, $x:ident, $y:ident, $f:ident, $t:ident, $b:ty, $d:tt $s:tt $from:tt, value!($($v:tt)*), |$r:ident| $want:expr) => {{
        #[cfg(kani)]
        let q = <q!($d [1, 2, 3, 4] $t, $b)>::make($x);
        #[cfg(not(kani))]
        let q = <q!($d $from $t, $b)>::make($x);
        #[cfg(kani)]
        let $r: $t = unsafe {
            callee::$t::GIVEN = $x;
            callee::$t::RESULT = $y;
            callee::$t::TO = $s;
            $y
        };
        #[cfg(not(kani))]
        let $r: $t = {
            spec::requires!($x.checked_mul(6).is_some());
            let r: q!($d $s $t, $b) = $f(<q!($d $from $t, $b)>::make($x));
            r.raw()
        };
        let got: $t = value!(q, $($v)*);
        let want: $t = $want;
        check!($all, got, want, $x value!($($v)*));
    }};
}
macro_rules! all_hold {
    ($all:ident) => { spec::ensures!($all, "a quantity reads wrong") }
}

mod reading {
    use super::*;
    use whippyunits::api::*;
    use whippyunits::value;
    include!(concat!(env!("OUT_DIR"), "/reading.rs"));
}

#[cfg(not(kani))]
mod tables {
    use super::*;
    use spec::math::close;
    use whippyunits::{quantity, value};
    macro_rules! round_trip {
        ($ctx:ident, $x:expr, $u:ident, $exact:literal, $off:expr) => {{
            let x: f64 = $x;
            let r: f64 = value!(quantity!(x, $u), $u);
            // sums with an offset round to the offset's precision
            let ok = if $exact { eq(r, x) } else { (r - x).abs() <= 1e-13 * ($off as f64).abs().max(x.abs()) };
            $ctx.case(|| format!("{x:e} {} and back is {r:e}", stringify!($u)), ok);
        }};
    }
    macro_rules! convert {
        ($ctx:ident, $a:ident, $b:ident, ($fa:expr, $oa:expr), ($fb:expr, $ob:expr), $tol:expr) => {{
            for x in [1.0, -40.0, 1234.5f64] {
                let r: f64 = value!(quantity!(x, $a), $b);
                let storage = (x + $oa) * $fa;
                let want = storage / $fb - $ob;
                // sums with an offset round to the offset's precision
                let tol = if $oa != 0.0 || $ob != 0.0 { 1e-12 * (want.abs() + 1000.0) } else { $tol * want.abs() };
                $ctx.case(|| format!("{x} {} in {} is {r:e}, want {want:e}", stringify!($a), stringify!($b)), (r - want).abs() <= tol);
            }
        }};
    }
    macro_rules! compound {
        ($ctx:ident, $x:literal, ($($u:tt)*), $d:tt $from:tt $s:tt, $want:expr) => {{
            let r: f64 = value!(<q!($d $from f64, ())>::make(3.25), $($u)*);
            $ctx.case(|| format!("{} reads {r:e}, want {:e}", $x, $want), close(r, $want, 1e-12));
        }};
    }
    macro_rules! formats {
        ($ctx:ident, $xs:ident, $n:literal, $d:tt, $f:expr, $o:expr, $tol:expr) => {{
            type Si = q!($d [0, 0, 0, 0] f64, ());
            formatted_in($ctx, $xs, $n, $f, $o, $tol, |x| Si::make(x).fmt($n).to_string(), |x| format!("{:.3}", Si::make(x).fmt($n)));
            type Of600 = q!($d [3, 1, 2, 0] f64, ());
            formatted_in($ctx, $xs, $n, $f, $o, $tol, |x| Of600::make(x / 600.0).fmt($n).to_string(), |x| format!("{:.3}", Of600::make(x / 600.0).fmt($n)));
        }};
    }
    /// fmt of a quantity of `x` coherent SI units in a unit of `f` of it, offset `o`: the number, and the unit as asked for.
    fn formatted_in(ctx: &mut spec::nd::Ctx, xs: &[f64], n: &str, f: f64, o: f64, tol: f64, fmt: impl Fn(f64) -> String, fmt3: impl Fn(f64) -> String) {
        for x in xs {
            let want = x / f - o;
            let t = fmt(*x);
            let got = t.strip_suffix(n).and_then(|t| t.strip_suffix(' ')).and_then(|t| t.parse::<f64>().ok());
            let tol = tol * want.abs() + if o != 0.0 { 1e-9 } else { 0.0 };
            ctx.case(|| format!("{x:e} in {n} formats as {t:?}, want {want:e} {n}"), got.is_some_and(|g| (g - want).abs() <= tol || g == want));
            if let Some(g) = got {
                let t = fmt3(*x);
                ctx.case(|| format!("{x:e} in {n} to 3 places formats as {t:?}"), t == format!("{g:.3} {n}"));
            }
        }
    }
    include!(concat!(env!("OUT_DIR"), "/tables.rs"));
    const XS: [f64; 6] = [0.0, 1.0, -1.0, 273.15, 0.1, -4.56e7];
    spec::evaluated! {
        fn bounded_round_trips(ctx) { round_trips(ctx, &XS) }
        fn bounded_conversions(ctx) { conversions(ctx) }
        fn bounded_compound_units(ctx) { compounds(ctx) }
        fn bounded_formatting(ctx) { formatted(ctx, &XS) }
        fn bounded_formatting_refuses(ctx) {
            let q = quantity!(2.5, m);
            for u in ["s", "kg", "m^2", "1", "K", "degC", "mi^2", "m/s"] {
                let t = q.fmt(u).to_string();
                ctx.case(|| format!("a length in {u} formats as {t:?}"), t.starts_with("Error: Dimension mismatch") && !t.contains("2.5"));
            }
            for u in ["", "xyz", "m +", "kkm", "m^", "5", "meterz", "m/furlongs", "m//s"] {
                let t = q.fmt(u).to_string();
                ctx.case(|| format!("a length in {u:?} formats as {t:?}"), t.starts_with("Error") && !t.contains("2.5"));
            }
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[reading::REGISTRY], &[tables::EVALUATED])
}
