//! C06: floating point rescaling multiplies by the factor between the scales, and nothing else.
use qx::{Qx, eq4, eq8, q};
use whippyunits::api::*;

pub struct Brand;
macro_rules! qq { ($s:tt $t:ty) => { q!([1, 2, -3, 4, -5, 6, -7, 8] $s $t, Brand) } }

// The factor between two scales, as the callee's contract (property C04) leaves it: some double that
// depends on nothing but the two scales. Under the verifier it is an arbitrary symbolic value `k`,
// returned by a stand-in that checks it is asked for exactly the declared source and target scales;
// natively it is the real factor.
#[cfg(kani)]
pub mod callee {
    pub static mut FACTOR: f64 = 0.0;
    pub static mut SCALES: [i16; 8] = [0; 8];
    #[allow(clippy::too_many_arguments)]
    pub fn contract_factor(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) -> f64 {
        unsafe {
            assert!(qx::eq8([a, b, c, d, e, f, g, h], SCALES), "scales passed to the factor computation");
            FACTOR
        }
    }
    pub fn factor(s: [i16; 8], k: f64) -> f64 {
        unsafe {
            SCALES = s;
            FACTOR = k;
        }
        k
    }
}
#[cfg(not(kani))]
pub mod callee {
    pub fn factor(s: [i16; 8], _k: f64) -> f64 {
        whippyunits::api::aggregate_scale_factor_float(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7])
    }
}
use callee::factor;

macro_rules! cases {
    ($m:ident $t:ident $f:ident $same:ident { $($name:ident [$($fr:literal),*] [$($to:literal),*];)* }) => {
        mod $m {
            use super::*;
            use spec::{ensures, math::$same};
            spec::obligations! { $(
                #[kani::solver(cvc5)]
                #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_factor)]
                fn $name(x: $t, k: f64) {
                    let k = factor([$($fr),*, $($to),*], k);
                    let r: qq!([$($to),*] $t) = $f(<qq!([$($fr),*] $t)>::make(x));
                    let (got, want) = (r.raw(), x * (k as $t));
                    ensures!($same(got, want), "{}({x:e}) by a factor of {k:e} is {got:e}, want {want:e}", stringify!($f));
                }
            )* }
        }
    };
}
macro_rules! all_cases {
    ($($m:ident $t:ident $f:ident $same:ident;)*) => { $(
        cases! { $m $t $f $same {
            distinct_exponents [1,2,3,4] [5,6,7,8];
            distinct_negative_exponents [-9,11,-13,8] [12,-14,15,-16];
            milli_to_unit [-3,0,-3,0] [0,0,0,0];
            degree_to_radian [-2,-2,-1,1] [0,0,0,0];
            minute_to_kilosecond [2,1,1,0] [3,0,3,0];
        } }
    )* };
}
all_cases! { f64_ f64 rescale_f64 same_f64; default_ f64 rescale same_f64; f32_ f32 rescale_f32 same_f32; }

mod identity {
    use super::*;
    use spec::{ensures, math::{same_f32, same_f64}};
    // Rescaling to the same scale returns the value itself, bit for bit.
    spec::obligations! {
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_factor)]
        fn identity_f64(x: f64) {
            factor([5, -6, 7, 8, 5, -6, 7, 8], 1.0); // property C04: the factor between equal scales is exactly 1
            let r: qq!([5, -6, 7, 8] f64) = rescale_f64(<qq!([5, -6, 7, 8] f64)>::make(x));
            let got = r.raw();
            ensures!(same_f64(got, x), "{got:e} from {x:e}");
        }
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_factor)]
        fn identity_f32(x: f32) {
            factor([5, -6, 7, 8, 5, -6, 7, 8], 1.0);
            let r: qq!([5, -6, 7, 8] f32) = rescale_f32(<qq!([5, -6, 7, 8] f32)>::make(x));
            let got = r.raw();
            ensures!(same_f32(got, x), "{got:e} from {x:e}");
        }
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_factor)]
        fn dimension_scale_and_brand(x: f64) {
            factor([1, 2, 3, 4, 5, 6, 7, 8], 1.0);
            let r: qq!([5, 6, 7, 8] f64) = rescale(<qq!([1, 2, 3, 4] f64)>::make(x));
            ensures!(eq8(qx::dims_of(&r), [1, 2, -3, 4, -5, 6, -7, 8]), "dimension changed by rescaling");
            ensures!(eq4(qx::scale_of(&r), [5, 6, 7, 8]), "scale not the one asked for");
        }
        // the result's dimension and brand are determined by the argument's (they are inferred here)
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_factor)]
        fn dimension_and_brand_are_inferred(x: f64, y: f32) {
            use whippyunits::quantity::{_2, _3, _5, _Pi, Quantity, Scale};
            factor([1, 2, 3, 4, 5, 6, 7, 8], 1.0);
            let r: Quantity<Scale<_2<5>, _3<6>, _5<7>, _Pi<8>>, _, f64, _> = rescale(<qq!([1, 2, 3, 4] f64)>::make(x));
            ensures!(eq8(qx::dims_of(&r), [1, 2, -3, 4, -5, 6, -7, 8]), "dimension changed by rescaling");
            let r: Quantity<Scale<_2<5>, _3<6>, _5<7>, _Pi<8>>, _, f64, _> = rescale_f64(<qq!([1, 2, 3, 4] f64)>::make(x));
            let _: qq!([5, 6, 7, 8] f64) = r;
            let r: Quantity<Scale<_2<5>, _3<6>, _5<7>, _Pi<8>>, _, f32, _> = rescale_f32(<qq!([1, 2, 3, 4] f32)>::make(y));
            ensures!(eq8(qx::dims_of(&r), [1, 2, -3, 4, -5, 6, -7, 8]), "dimension changed by rescaling");
        }
        // the macro form: same value as the function
        #[kani::solver(cvc5)]
        #[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_factor)]
        fn macro_form(x: f64, k: f64) {
            let k = factor([-3, 0, -3, 0, 0, 0, 0, 0], k);
            let r = whippyunits::rescale!(<q!([0, 1, 0, 0, 0, 0, 0, 0] [-3, 0, -3, 0] f64)>::make(x), m);
            ensures!(eq8(qx::dims_of(&r), [0, 1, 0, 0, 0, 0, 0, 0]) && eq4(qx::scale_of(&r), [0, 0, 0, 0]), "type of the macro form");
            let got = r.raw();
            ensures!(same_f64(got, x * k), "rescale!({x:e} mm, m) is {got:e}");
        }
    }
}

#[allow(dead_code)]
mod end_to_end {
    #[cfg(not(kani))]
    use super::*;
    spec::evaluated! {
        // Against the definition rather than the callee: the rescaled value is the exact product to a
        // few units in the last place, and rescaling back returns the original value to a few ulps.
        fn bounded_round_trips(ctx) {
            let mut rng = ctx.rng();
            macro_rules! go { ($($t:ident $f:ident $eps:expr, [$($fr:literal),*] [$($to:literal),*];)*) => { $({
                let s = spec::math::scale_f64([$($fr),*]) / spec::math::scale_f64([$($to),*]);
                for _ in 0..20_000 {
                    let x = (rng.below(2_000_000_001) as f64 - 1e9) as $t / 4096.0;
                    let r: qq!([$($to),*] $t) = $f(<qq!([$($fr),*] $t)>::make(x));
                    let y = r.raw();
                    let b: qq!([$($fr),*] $t) = $f(<qq!([$($to),*] $t)>::make(y));
                    let z = b.raw();
                    let ok = spec::math::close(y as f64, x as f64 * s, 8.0 * $eps) && spec::math::close(z as f64, x as f64, 16.0 * $eps);
                    ctx.case(|| format!("{} {x:e} from {:?} to {:?}: {y:e} (want {:e}), back {z:e}", stringify!($f), [$($fr),*], [$($to),*], x as f64 * s), ok);
                }
            })* } }
            let (d, s) = (f64::EPSILON, f32::EPSILON as f64);
            go! {
                f64 rescale_f64 d, [3,0,3,0] [0,0,0,0]; f64 rescale_f64 d, [0,0,0,0] [3,0,3,0];
                f64 rescale_f64 d, [-3,0,-3,0] [4,2,2,0]; f64 rescale_f64 d, [-2,-2,-1,1] [0,0,0,0];
                f64 rescale d, [-15,0,-15,0] [15,0,15,0]; f64 rescale d, [0,-2,1,0] [1,0,0,1];
                f64 rescale d, [30,0,30,0] [-30,0,-30,0]; f64 rescale d, [40,-30,20,-3] [-40,30,-20,5];
                f32 rescale_f32 s, [3,0,3,0] [0,0,0,0]; f32 rescale_f32 s, [0,0,0,0] [3,0,3,0];
                f32 rescale_f32 s, [-2,-2,-1,1] [0,0,0,0]; f32 rescale_f32 s, [0,-2,1,0] [-3,0,-3,0];
            }
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[f64_::REGISTRY, default_::REGISTRY, f32_::REGISTRY, identity::REGISTRY], &[end_to_end::EVALUATED])
}
