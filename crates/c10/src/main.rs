//! C10: erasing a dimensionless or angular quantity yields its true numeric value.
#![recursion_limit = "1024"]
use qx::{Qx, eq4, eq8, implements, q};

// A pure number, or a power of angle, at a given scale.
macro_rules! num { ($a:literal $s:tt $t:ty) => { q!([0, 0, 0, 0, 0, 0, 0, $a] $s $t) } }
const P53: i128 = 1 << 53;
const P24: i128 = 1 << 24;

macro_rules! clamp { ($v:expr, $t:ident) => {{
    let w = $v as i128;
    if w < 0 && <$t>::MIN == 0 as $t { 0 as $t } else if w >= <$t>::MAX as i128 && <$t>::MAX as i128 > 0 { <$t>::MAX }
    else if w <= <$t>::MIN as i128 { <$t>::MIN } else { w as $t }
}} }

// Identity scale: the number itself in the same type; in another type the same number (nearest when the
// target cannot hold it). Integers beyond 2^53 are outside this contract (known finding).
macro_rules! from_ints { ($($name:ident $s:ident [$($i:ident)*];)*) => {
    mod from_integers {
        use super::*;
        use spec::{ensures, requires};
        spec::obligations! { $(
            #[kani::solver(cvc5)]
            fn $name(v: $s) {
                let same: $s = <num!(0 [0,0,0,0] $s)>::make(v).into();
                ensures!(same == v, "{} {v} erased to {same}", stringify!($s));
                requires!(v as i128 <= P53 && v as i128 >= -P53 && (<$s>::MIN != 0 || v <= (P53 as u64).min(<$s>::MAX as u64) as $s));
                $( let got: $i = <num!(0 [0,0,0,0] $s)>::make(v).into();
                   let want = clamp!(v, $i);
                   ensures!(got == want, "{} {v} erased to {} {got}, want {want}", stringify!($s), stringify!($i)); )*
                let got: f64 = <num!(0 [0,0,0,0] $s)>::make(v).into();
                ensures!(got == v as f64, "{} {v} erased to f64 {got}", stringify!($s));
                if v as i128 <= P24 && v as i128 >= -P24 {
                    let got: f32 = <num!(0 [0,0,0,0] $s)>::make(v).into();
                    ensures!(got == v as f32, "{} {v} erased to f32 {got}", stringify!($s));
                }
            }
        )* }
    }
} }
from_ints! {
    from_i8 i8 [i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize];
    from_i16 i16 [i8 i32 i64 i128 isize u8 u16 u32 u64 u128 usize];
    from_i32 i32 [i8 i16 i64 i128 isize u8 u16 u32 u64 u128 usize];
    from_i64 i64 [i8 i16 i32 i128 isize u8 u16 u32 u64 u128 usize];
    from_i128 i128 [i8 i16 i32 i64 isize u8 u16 u32 u64 u128 usize];
    from_isize isize [i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 usize];
    from_u8 u8 [i8 i16 i32 i64 i128 isize u16 u32 u64 u128 usize];
    from_u16 u16 [i8 i16 i32 i64 i128 isize u8 u32 u64 u128 usize];
    from_u32 u32 [i8 i16 i32 i64 i128 isize u8 u16 u64 u128 usize];
    from_u64 u64 [i8 i16 i32 i64 i128 isize u8 u16 u32 u128 usize];
    from_u128 u128 [i8 i16 i32 i64 i128 isize u8 u16 u32 u64 usize];
    from_usize usize [i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128];
}
macro_rules! from_floats { ($($name:ident $s:ident $o:ident $ss:ident $so:ident;)*) => {
    mod from_floats {
        use super::*;
        use spec::{ensures, math::{same_f32, same_f64}};
        spec::obligations! { $(
            #[kani::solver(cvc5)]
            fn $name(v: $s) {
                let same: $s = <num!(0 [0,0,0,0] $s)>::make(v).into();
                ensures!($ss(same, v), "{} {v:e} erased to {same:e}", stringify!($s));
                let other: $o = <num!(0 [0,0,0,0] $s)>::make(v).into();
                ensures!($so(other, v as $o), "{} {v:e} erased to {other:e}", stringify!($s));
                from_floats!(@ v $s; i8 i16 i32 i64 isize u8 u16 u32 u64 usize i128 u128);
            }
        )* }
    }
};
(@ $v:ident $s:ident; $($i:ident)*) => { $(
    let got: $i = <num!(0 [0,0,0,0] $s)>::make($v).into();
    let want = $v as $i;
    ensures!(got == want, "{} {:e} erased to {} {got}, want {want}", stringify!($s), $v, stringify!($i));
)* } }
from_floats! { from_f32 f32 f64 same_f32 same_f64; from_f64 f64 f32 same_f64 same_f32; }

// The factor to the unit scale, as its contracts (C03, C04) leave it: see C05 and C06.
#[cfg(kani)]
#[allow(clippy::too_many_arguments)]
pub mod callee {
    pub static mut FACTOR: f64 = 0.0;
    pub static mut SCALE: [i16; 4] = [0; 4];
    pub fn contract_float(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) -> f64 {
        unsafe {
            assert!(qx::eq4([a, b, c, d], SCALE), "source scale passed to the factor computation");
            assert!(qx::eq4([e, f, g, h], [0; 4]), "target scale passed to the factor computation");
            FACTOR
        }
    }
    pub fn factor(s: [i16; 4], k: f64) -> f64 {
        unsafe { SCALE = s; FACTOR = k; }
        k
    }
    pub fn kilo(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) -> (i128, i128) {
        assert!(qx::eq8([a, b, c, d, e, f, g, h], [3, 0, 3, 0, 0, 0, 0, 0]), "scales passed to the factor computation");
        (1000, 1)
    }
    pub fn three_halves(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) -> (i128, i128) {
        assert!(qx::eq8([a, b, c, d, e, f, g, h], [-1, 1, 0, 0, 0, 0, 0, 0]), "scales passed to the factor computation");
        (3, 2)
    }
}
#[cfg(not(kani))]
pub mod callee {
    pub fn factor(s: [i16; 4], _: f64) -> f64 {
        whippyunits::api::aggregate_scale_factor_float(s[0], s[1], s[2], s[3], 0, 0, 0, 0)
    }
}

mod scaled {
    use super::*;
    use callee::factor;
    use spec::{ensures, math::{same_f32, same_f64}, requires};
    macro_rules! f { ($a:literal $s:ident -> $t:ident, $v:ident, $k:ident, $same:ident) => {
        let got: $t = <num!($a [1,2,3,4] $s)>::make($v).into();
        let want = (($v as f64) * $k) as $t;
        ensures!($same(got, want), "{} {:e} of scale {:e}, angle^{} erased to {got:e}", stringify!($s), $v as f64, $k, $a);
    } }
    fn same_i(a: i64, b: i64) -> bool { a == b }
    fn same_i32(a: i32, b: i32) -> bool { a == b }
    spec::obligations! {
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn number_f64(v: f64, k: f64) { let k = factor([1,2,3,4], k); f!(0 f64 -> f64, v, k, same_f64); }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn angle_f64(v: f64, k: f64) { let k = factor([1,2,3,4], k); f!(1 f64 -> f64, v, k, same_f64); }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn angle_powers_f64(v: f64, k: f64) { let k = factor([1,2,3,4], k); f!(-1 f64 -> f64, v, k, same_f64); f!(9 f64 -> f64, v, k, same_f64); f!(-9 f64 -> f64, v, k, same_f64); }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn number_f32(v: f32, k: f64) {
            let k = factor([1,2,3,4], k);
            let got: f32 = <num!(0 [1,2,3,4] f32)>::make(v).into();
            ensures!(same_f32(got, v * (k as f32)), "f32 {v:e} of scale {k:e} erased to {got:e}");
            let got: f32 = <num!(1 [1,2,3,4] f32)>::make(v).into();
            ensures!(same_f32(got, v * (k as f32)), "f32 {v:e} angle of scale {k:e} erased to {got:e}");
        }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn angle_f32_to_f64(v: f32, k: f64) { let k = factor([1,2,3,4], k); f!(0 f32 -> f64, v, k, same_f64); f!(1 f32 -> f64, v, k, same_f64); }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn angle_f64_to_f32(v: f64, k: f64) { let k = factor([1,2,3,4], k); f!(0 f64 -> f32, v, k, same_f32); f!(1 f64 -> f32, v, k, same_f32); }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn angle_i32_to_f64(v: i32, k: f64) { let k = factor([1,2,3,4], k); f!(0 i32 -> f64, v, k, same_f64); f!(1 i32 -> f64, v, k, same_f64); f!(2 i32 -> f64, v, k, same_f64); }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn angle_i32_to_f32(v: i32, k: f64) { let k = factor([1,2,3,4], k); f!(0 i32 -> f32, v, k, same_f32); f!(1 i32 -> f32, v, k, same_f32); }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn angle_i64_to_f64(v: i64, k: f64) { let k = factor([1,2,3,4], k); f!(0 i64 -> f64, v, k, same_f64); f!(1 i64 -> f64, v, k, same_f64); }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn number_u8_to_f64(v: u8, k: f64) { let k = factor([1,2,3,4], k); f!(0 u8 -> f64, v, k, same_f64); }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn angle_f64_to_integer(v: f64, k: f64) { let k = factor([1,2,3,4], k); f!(0 f64 -> i32, v, k, same_i32); f!(1 f64 -> i32, v, k, same_i32); f!(1 f64 -> i64, v, k, same_i); }
        // a scale that differs from unit scale on one prime only is still a scale
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_float)]
        fn each_prime_alone(v: f64, w: i32, k: f64) {
            macro_rules! axis { ($($s:tt)*) => { $(
                let k = factor($s, k);
                let got: f64 = <num!(0 $s f64)>::make(v).into();
                ensures!(same_f64(got, v * k), "f64 {v:e} of scale {} erased to {got:e}", stringify!($s));
                let got: f64 = <num!(1 $s f64)>::make(v).into();
                ensures!(same_f64(got, v * k), "f64 {v:e} angle of scale {} erased to {got:e}", stringify!($s));
                let got: f64 = <num!(0 $s i32)>::make(w).into();
                ensures!(same_f64(got, (w as f64) * k), "i32 {w} of scale {} erased to f64 {got:e}", stringify!($s));
                let got: f64 = <num!(1 $s i32)>::make(w).into();
                ensures!(same_f64(got, (w as f64) * k), "i32 {w} angle of scale {} erased to f64 {got:e}", stringify!($s));
            )* } }
            axis!([1,0,0,0] [0,1,0,0] [0,0,1,0] [0,0,0,1] [0,0,0,-1]);
        }
        #[kani::solver(z3)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor, crate::callee::kilo)]
        fn thousands_i32(v: i32) {
            requires!(v <= i32::MAX / 1000 && v >= i32::MIN / 1000);
            let got: i32 = <num!(0 [3,0,3,0] i32)>::make(v).into();
            ensures!(got == v * 1000, "{v} thousands erased to {got}");
        }
        #[kani::solver(z3)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor, crate::callee::kilo)]
        fn thousands_u64(v: u64) {
            requires!(v <= u64::MAX / 1000);
            let got: u64 = <num!(0 [3,0,3,0] u64)>::make(v).into();
            ensures!(got == v * 1000, "{v} thousands erased to {got}");
        }
        #[kani::solver(z3)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor, crate::callee::three_halves)]
        fn three_halves_i16(v: i16) {
            requires!(v <= i16::MAX / 3 && v >= i16::MIN / 3);
            let got: i16 = <num!(0 [-1,1,0,0] i16)>::make(v).into();
            ensures!(got == v * 3 / 2, "{v} three-halves erased to {got}");
            let got: i16 = <num!(-3 [-1,1,0,0] i16)>::make(v).into();
            ensures!(got == v * 3 / 2, "{v} three-halves angle^-3 erased to {got}");
        }
        #[kani::solver(z3)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor, crate::callee::three_halves)]
        fn three_halves_i64_angle(v: i64) {
            requires!(v <= 1 << 20 && v >= -(1 << 20));
            let got: i64 = <num!(2 [-1,1,0,0] i64)>::make(v).into();
            ensures!(got == v * 3 / 2, "{v} three-halves angle^2 erased to {got}");
        }
    }
}

mod compound {
    use super::*;
    use spec::{ensures, math::{same_f32, same_f64}};
    // Erasing the angle of a compound unit keeps the number, the scale and every other dimension.
    macro_rules! erase { ($v:expr, $t:ident, $same:expr; $($a:literal)*) => { $(
        let r: q!([1,2,3,4,5,6,7,0] [8,9,10,11] $t) = <q!([1,2,3,4,5,6,7,$a] [8,9,10,11] $t)>::make($v).into();
        let got = r.raw();
        ensures!($same(got, $v), "angle^{} erased from a compound unit: {got} from {}", $a, $v);
    )* } }
    fn same<T: PartialEq>(a: T, b: T) -> bool { a == b }
    spec::obligations! {
        fn every_angle_power_f64(v: f64) { erase!(v, f64, same_f64; 1 2 3 4 5 6 7 8 9 -1 -2 -3 -4 -5 -6 -7 -8 -9); }
        fn every_angle_power_f32(v: f32) { erase!(v, f32, same_f32; 1 2 3 4 5 6 7 8 9 -1 -2 -3 -4 -5 -6 -7 -8 -9); }
        fn every_angle_power_i32(v: i32) { erase!(v, i32, same; 1 2 3 4 5 6 7 8 9 -1 -2 -3 -4 -5 -6 -7 -8 -9); }
        fn every_angle_power_i64(v: i64) { erase!(v, i64, same; 1 2 3 4 5 6 7 8 9 -1 -2 -3 -4 -5 -6 -7 -8 -9); }
        fn every_angle_power_i16(v: i16) { erase!(v, i16, same; 1 2 3 4 5 6 7 8 9 -1 -2 -3 -4 -5 -6 -7 -8 -9); }
        fn every_angle_power_i128(v: i128) { erase!(v, i128, same; 1 2 3 4 5 6 7 8 9 -1 -2 -3 -4 -5 -6 -7 -8 -9); }
        fn every_angle_power_isize(v: isize) { erase!(v, isize, same; 1 2 3 4 5 6 7 8 9 -1 -2 -3 -4 -5 -6 -7 -8 -9); }
        // ... and to a pure number, in radians (unit scale): the number itself
        fn radians_to_a_number(v: f64, w: i32) {
            macro_rules! n { ($($a:literal)*) => { $(
                let got: f64 = <num!($a [0,0,0,0] f64)>::make(v).into();
                ensures!(same_f64(got, v), "rad^{} {v} erased to {got}", $a);
                let got: i32 = <num!($a [0,0,0,0] i32)>::make(w).into();
                ensures!(got == w, "rad^{} {w} erased to {got}", $a);
            )* } }
            n!(1 2 3 4 5 6 7 8 9 -1 -2 -3 -4 -5 -6 -7 -8 -9);
        }
        // the erased type is what inference finds
        fn erased_dimension_and_scale(v: f64) {
            let r: q!([1,2,3,4,5,6,7,0] [8,9,10,11] f64) = <q!([1,2,3,4,5,6,7,3] [8,9,10,11] f64)>::make(v).into();
            ensures!(eq8(qx::dims_of(&r), [1,2,3,4,5,6,7,0]) && eq4(qx::scale_of(&r), [8,9,10,11]));
        }
        // what has a dimension left does not erase
        fn dimensioned_quantities_do_not_erase() {
            macro_rules! no { ($($d:tt)*) => { $(
                ensures!(!implements!(q!($d [0,0,0,0] f64): Into<f64>), "{} erases to f64", stringify!($d));
                ensures!(!implements!(q!($d [0,0,0,0] i32): Into<i32>), "{} erases to i32", stringify!($d));
                ensures!(!implements!(q!($d [0,0,0,0] i32): Into<f64>), "{} erases to f64", stringify!($d));
                ensures!(!implements!(q!($d [0,0,0,0] f64): Into<q!([0,0,0,0,0,0,0,0] [0,0,0,0] f64)>), "{} erases to a pure number", stringify!($d));
            )* } }
            no!([1,0,0,0,0,0,0,0] [0,1,0,0,0,0,0,0] [0,0,1,0,0,0,0,0] [0,0,0,1,0,0,0,0] [0,0,0,0,1,0,0,0] [0,0,0,0,0,1,0,0] [0,0,0,0,0,0,1,0]
                [0,-1,0,0,0,0,0,0] [0,1,0,0,0,0,0,1] [0,0,-1,0,0,0,0,1] [1,2,-2,0,0,0,0,0]);
            ensures!(!implements!(q!([0,1,0,0,0,0,0,1] [0,0,0,0] f64): Into<q!([0,1,0,0,0,0,0,0] [3,0,3,0] f64)>), "erasing an angle changes the scale");
            ensures!(!implements!(q!([0,1,0,0,0,0,0,1] [0,0,0,0] f64): Into<q!([0,2,0,0,0,0,0,0] [0,0,0,0] f64)>), "erasing an angle changes the length");
            ensures!(implements!(q!([0,0,0,0,0,0,0,1] [0,0,0,0] f64): Into<f64>) && implements!(q!([0,0,0,0,0,0,0,0] [3,0,3,0] f64): Into<f64>));
        }
    }
}

#[allow(dead_code)]
mod values {
    #[cfg(not(kani))]
    use super::*;
    spec::evaluated! {
        // Every pair of numeric types, end to end against the mathematical value.
        fn bounded_every_pair_of_types(ctx) {
            use spec::nd::Nd;
            let mut g = ctx.rng();
            macro_rules! one { ($v:ident $s:ident $t:ident, $sc:tt $k:expr, $a:literal) => {{
                let exact = ($v as f64) * $k;
                let got: $t = <num!($a $sc $s)>::make($v).into();
                let ok = if stringify!($s) == stringify!($t) && <$s>::MAX as f64 != f64::INFINITY && (<$s>::MAX as f64) < 1e39 && stringify!($t) != "f32" {
                    (got as f64 - exact).abs() <= 1.0 + exact.abs() * 1e-15 // integers: within rounding toward zero
                } else {
                    let want = exact as $t;
                    spec::math::close(got as f64, want as f64, 4e-7) && (stringify!($t) == "f32" || spec::math::close(got as f64, want as f64, 1e-14) || (got as f64 - want as f64).abs() <= 1.0 && stringify!($t) != "f64")
                };
                ctx.case(|| format!("{} {} of scale {} erased to {} {got}", stringify!($s), $v, stringify!($sc), stringify!($t)), ok);
            }} }
            macro_rules! to { ($s:ident; $($t:ident)*) => {
                for _ in 0..40 {
                    let v = <$s>::sample(&mut g);
                    let small = (v as f64).abs() < 1e15 && (v as f64) * 1000.0 < <$s>::MAX as f64 / 2.0 && (v as f64) * 1000.0 > <$s>::MIN as f64 / 2.0;
                    if small {
                        $( one!(v $s $t, [0,0,0,0] 1.0, 0); one!(v $s $t, [3,0,3,0] 1000.0, 0); one!(v $s $t, [-3,0,-3,0] 0.001, 0);
                           one!(v $s $t, [1,0,0,0] 2.0, 0); one!(v $s $t, [0,1,0,0] 3.0, 0); one!(v $s $t, [0,0,1,0] 5.0, 0); )*
                    }
                }
            } }
            macro_rules! all { ($($s:ident)*) => { $( to!($s; i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64); )* } }
            all!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64);
        }
        // Every angle power at degree-like scales, for each pair of types that erases.
        fn bounded_every_angle_power(ctx) {
            let mut g = ctx.rng();
            let deg = spec::math::scale_f64([-2, -2, -1, 1]);
            macro_rules! a { ($s:ident -> $t:ident, $tol:expr; $($a:literal)*) => { $(
                for _ in 0..50 {
                    let v = (g.below(801) as f64 - 400.0) as $s;
                    let got: $t = <num!($a [-2,-2,-1,1] $s)>::make(v).into();
                    let want = (v as f64) * deg;
                    let ok = if stringify!($t).starts_with('f') { spec::math::close(got as f64, want, $tol) } else { (got as f64 - want).abs() <= 1.0 };
                    ctx.case(|| format!("{} {v} deg-scaled angle^{} erased to {} {got}, want {want}", stringify!($s), $a, stringify!($t)), ok);
                }
            )* } }
            macro_rules! p { ($($s:ident $t:ident $tol:expr;)*) => { $( a!($s -> $t, $tol; 1 2 3 4 5 6 7 8 9 -1 -2 -3 -4 -5 -6 -7 -8 -9); )* } }
            macro_rules! pi { ($($s:ident $t:ident;)*) => { $( for v in [2 as $s, 7 as $s, 80 as $s] {
                let got: ($t, $t) = (<num!(1 [0,0,0,1] $s)>::make(v).into(), <num!(0 [0,0,0,1] $s)>::make(v).into());
                let want = (v as f64) * std::f64::consts::PI;
                let ok = |x: $t| (x as f64 - want).abs() <= if stringify!($t).starts_with('f') { want * 4e-7 } else { 1.0 };
                ctx.case(|| format!("{} {v} half turns erased to {} {got:?}, want {want}", stringify!($s), stringify!($t)), ok(got.0) && ok(got.1));
            } )* } }
            pi!(f64 f64; f32 f32; f32 f64; f64 f32; i32 f32; i32 f64; i64 f32; i64 f64; f32 i32; f64 i32; f32 i64; f64 i64; i16 i16; i32 i32; i64 i64; i128 i128; isize isize;);
            p!(f64 f64 1e-14; f32 f32 4e-7; f32 f64 1e-14; f64 f32 2e-7; i32 f32 2e-7; i32 f64 1e-14; i64 f32 2e-7; i64 f64 1e-14;
               f32 i32 0.0; f64 i32 0.0; f32 i64 0.0; f64 i64 0.0; i16 i16 0.0; i32 i32 0.0; i64 i64 0.0; i128 i128 0.0; isize isize 0.0;);
        }
        // Known finding: between integer types the value goes through a double.
        fn wide_integers(ctx) {
            let v: i64 = (1 << 53) + 1;
            let got: i128 = <num!(0 [0,0,0,0] i64)>::make(v).into();
            if got == v as i128 { ctx.case(|| "i64 2^53+1 to i128".into(), true) } else {
                ctx.known(format!("the pure number 9007199254740993 (i64) erased to i128 is {got}"));
            }
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[from_integers::REGISTRY, from_floats::REGISTRY, scaled::REGISTRY, compound::REGISTRY], &[values::EVALUATED])
}
