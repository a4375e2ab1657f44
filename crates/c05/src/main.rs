//! C05: integer rescaling is exact rational scaling, rounded toward zero.
#![recursion_limit = "512"]
use qx::{Qx, eq8, q};
use whippyunits::api::*;

/// A dimension with eight distinct exponents, and a brand, that rescaling must carry through.
pub struct Brand;
macro_rules! qq { ($s:tt $t:ty) => { q!([1, 2, -3, 4, -5, 6, -7, 8] $s $t, Brand) } }

// The rescale functions are verified against the contract of their callee: the factor between two
// scales (property C03). The stand-in checks that the caller passes exactly its own source and target
// exponents and returns the exact ratio of that contract. Natively the real callee is used.
macro_rules! factor {
    ($($name:ident [$($f:literal),*] [$($t:literal),*] $num:literal / $den:literal;)*) => { $(
        #[cfg(kani)]
        #[allow(clippy::too_many_arguments)]
        pub fn $name(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) -> (i128, i128) {
            let (w, x) = ([$($f),*], [$($t),*]);
            assert!(a == w[0] && b == w[1] && c == w[2] && d == w[3], "source scale passed to the factor computation");
            assert!(e == x[0] && f == x[1] && g == x[2] && h == x[3], "target scale passed to the factor computation");
            ($num, $den)
        }
        #[cfg(not(kani))]
        pub use whippyunits::api::aggregate_scale_factor as $name;
    )* };
}
pub mod callee {
    factor! {
        kilo_to_unit [3,0,3,0] [0,0,0,0] 1000 / 1;
        unit_to_kilo [0,0,0,0] [3,0,3,0] 1 / 1000;
        minute_to_second [2,1,1,0] [0,0,0,0] 60 / 1;
        second_to_hour [0,0,0,0] [4,2,2,0] 1 / 3600;
        five_ninths [0,-2,1,0] [0,0,0,0] 5 / 9;
        degree_to_radian [-2,-2,-1,1] [0,0,0,0] 71 / 4068;
        three_halves [-1,2,1,1] [0,1,1,1] 3 / 2;
        equal_scales [7,-3,2,-1] [7,-3,2,-1] 1 / 1;
        tera_to_unit [12,0,12,0] [0,0,0,0] 1000000000000 / 1;
        unit_to_tera [0,0,0,0] [12,0,12,0] 1 / 1000000000000;
    }
}

// One obligation per (storage type, pair of scales).
//  exact: the factor is representable and v*num fits: the result is v*num/den, rounded toward zero
//  large: v*num does not fit: the result is (v/den)*num (where that fits)
//  wide:  the factor is not representable in the type: v*num/den computed without that limit
macro_rules! cases {
    ($m:ident $t:ident $f:ident { $($kind:ident $name:ident $case:ident $solver:ident $(#[$x:meta])* [$($fr:literal),*] [$($to:literal),*] $num:literal / $den:literal;)* }) => {
        mod $m {
            use super::*;
            use spec::{ensures, requires};
            spec::obligations! {
                $(
                $(#[$x])*
                #[kani::solver($solver)]
                #[kani::stub(whippyunits::api::aggregate_scale_factor, crate::callee::$case)]
                fn $name(v: $t) {
                    let want: $t = want!($kind v $t $num / $den);
                    let r: qq!([$($to),*] $t) = $f(<qq!([$($fr),*] $t)>::make(v));
                    let got = r.raw();
                    ensures!(got == want, "{} of {v}: got {got}, want {want}", stringify!($f));
                }
                )*
            }
        }
    };
}
macro_rules! want {
    (exact $v:ident $t:ident $num:literal / $den:literal) => {{
        requires!($v <= <$t>::MAX / $num && $v >= <$t>::MIN / $num);
        ($v * $num) / $den
    }};
    (large $v:ident $t:ident $num:literal / $den:literal) => {{
        let (n, d): ($t, $t) = ($num, $den);
        requires!($v.checked_mul(n).is_none());
        let w = ($v / d).checked_mul(n);
        requires!(w.is_some());
        w.unwrap()
    }};
    (wide $v:ident $t:ident $num:literal / $den:literal) => {{
        let w: i128 = ($v as i128) * $num / $den;
        requires!(w >= <$t>::MIN as i128 && w <= <$t>::MAX as i128);
        w as $t
    }};
}
macro_rules! std_cases {
    ($($m:ident $t:ident $f:ident $(#[$x:meta])*;)*) => { $(
        cases! { $m $t $f {
            exact kilo_to_unit kilo_to_unit z3 [3,0,3,0] [0,0,0,0] 1000 / 1;
            exact unit_to_kilo unit_to_kilo z3 [0,0,0,0] [3,0,3,0] 1 / 1000;
            exact minute_to_second minute_to_second z3 [2,1,1,0] [0,0,0,0] 60 / 1;
            exact second_to_hour second_to_hour z3 [0,0,0,0] [4,2,2,0] 1 / 3600;
            exact three_halves three_halves z3 $(#[$x])* [-1,2,1,1] [0,1,1,1] 3 / 2;
            large three_halves_large three_halves z3 [-1,2,1,1] [0,1,1,1] 3 / 2;
            exact five_ninths five_ninths cadical #[cfg(thorough)] [0,-2,1,0] [0,0,0,0] 5 / 9;
            large five_ninths_large five_ninths z3 [0,-2,1,0] [0,0,0,0] 5 / 9;
            exact degree_to_radian degree_to_radian cadical #[cfg(thorough)] [-2,-2,-1,1] [0,0,0,0] 71 / 4068;
            large degree_to_radian_large degree_to_radian z3 [-2,-2,-1,1] [0,0,0,0] 71 / 4068;
            exact equal_scales equal_scales z3 [7,-3,2,-1] [7,-3,2,-1] 1 / 1;
        } }
    )* };
}
std_cases! {
    i32_ i32 rescale_i32; i64_ i64 rescale_i64 #[cfg(thorough)]; i128_ i128 rescale_i128 #[cfg(thorough)]; isize_ isize rescale_isize #[cfg(thorough)];
    u32_ u32 rescale_u32; u64_ u64 rescale_u64; u128_ u128 rescale_u128; usize_ usize rescale_usize;
}
macro_rules! mid_cases {
    ($($m:ident $t:ident $f:ident;)*) => { $(
        cases! { $m $t $f {
            exact kilo_to_unit kilo_to_unit z3 [3,0,3,0] [0,0,0,0] 1000 / 1;
            exact unit_to_kilo unit_to_kilo z3 [0,0,0,0] [3,0,3,0] 1 / 1000;
            exact minute_to_second minute_to_second z3 [2,1,1,0] [0,0,0,0] 60 / 1;
            exact second_to_hour second_to_hour z3 [0,0,0,0] [4,2,2,0] 1 / 3600;
            exact three_halves three_halves z3 [-1,2,1,1] [0,1,1,1] 3 / 2;
            large three_halves_large three_halves z3 [-1,2,1,1] [0,1,1,1] 3 / 2;
            exact five_ninths five_ninths z3 [0,-2,1,0] [0,0,0,0] 5 / 9;
            large five_ninths_large five_ninths z3 [0,-2,1,0] [0,0,0,0] 5 / 9;
            exact degree_to_radian degree_to_radian z3 [-2,-2,-1,1] [0,0,0,0] 71 / 4068;
            large degree_to_radian_large degree_to_radian z3 [-2,-2,-1,1] [0,0,0,0] 71 / 4068;
            exact equal_scales equal_scales z3 [7,-3,2,-1] [7,-3,2,-1] 1 / 1;
            wide tera_to_unit tera_to_unit z3 [12,0,12,0] [0,0,0,0] 1000000000000 / 1;
            wide unit_to_tera unit_to_tera z3 [0,0,0,0] [12,0,12,0] 1 / 1000000000000;
        } }
    )* };
}
mid_cases! { i16_ i16 rescale_i16; u16_ u16 rescale_u16; }
macro_rules! small_cases {
    ($($m:ident $t:ident $f:ident;)*) => { $(
        cases! { $m $t $f {
            wide kilo_to_unit kilo_to_unit z3 [3,0,3,0] [0,0,0,0] 1000 / 1;
            wide unit_to_kilo unit_to_kilo z3 [0,0,0,0] [3,0,3,0] 1 / 1000;
            exact minute_to_second minute_to_second z3 [2,1,1,0] [0,0,0,0] 60 / 1;
            wide second_to_hour second_to_hour z3 [0,0,0,0] [4,2,2,0] 1 / 3600;
            exact three_halves three_halves z3 [-1,2,1,1] [0,1,1,1] 3 / 2;
            large three_halves_large three_halves z3 [-1,2,1,1] [0,1,1,1] 3 / 2;
            exact five_ninths five_ninths z3 [0,-2,1,0] [0,0,0,0] 5 / 9;
            large five_ninths_large five_ninths z3 [0,-2,1,0] [0,0,0,0] 5 / 9;
            wide degree_to_radian degree_to_radian z3 [-2,-2,-1,1] [0,0,0,0] 71 / 4068;
            exact equal_scales equal_scales z3 [7,-3,2,-1] [7,-3,2,-1] 1 / 1;
        } }
    )* };
}
small_cases! { i8_ i8 rescale_i8; u8_ u8 rescale_u8; }

#[allow(dead_code)]
mod overflow {
    #[cfg(not(kani))]
    use super::*;
    spec::evaluated! {
        // A result that does not fit the storage type is never returned wrapped, whatever the build checks.
        fn bounded_overflow_is_not_returned(ctx) {
            macro_rules! t { ($($t:ident $f:ident),*) => { $(
                let mut r = ctx.rng();
                for i in 0..20_000u64 {
                    let v = if i < 300 { (i as i128 - 150) as $t } else { <$t as spec::nd::Nd>::sample(&mut r) };
                    let fits = (v as i128).checked_mul(1000).is_some_and(|p| <$t>::try_from(p).is_ok());
                    let fits = if stringify!($t) == "u128" { (v as u128).checked_mul(1000).is_some() } else { fits };
                    if !fits {
                        let p = spec::nd::panics(|| { let x: qq!([0, 0, 0, 0] $t) = $f(<qq!([3, 0, 3, 0] $t)>::make(v)); std::hint::black_box(x.raw()); });
                        ctx.case(|| format!("{} {v} * 1000 returned a value", stringify!($t)), p);
                    }
                }
            )* } }
            t!(i8 rescale_i8, i16 rescale_i16, i32 rescale_i32, i64 rescale_i64,
               i128 rescale_i128, isize rescale_isize, u8 rescale_u8, u16 rescale_u16,
               u32 rescale_u32, u64 rescale_u64, u128 rescale_u128, usize rescale_usize);
        }
    }
}

mod shape {
    use super::*;
    use spec::ensures;
    spec::obligations! {
        #[kani::stub(whippyunits::api::aggregate_scale_factor, crate::callee::equal_scales)]
        fn dimension_and_brand_are_kept(v: i32) {
            use whippyunits::quantity::{_2, _3, _5, _Pi, Quantity, Scale};
            // the result's dimension and brand are determined by the argument's (they are inferred here)
            let r: Quantity<Scale<_2<7>, _3<-3>, _5<2>, _Pi<-1>>, _, i32, _> = rescale_i32(<qq!([7, -3, 2, -1] i32)>::make(v));
            ensures!(eq8(qx::dims_of(&r), [1, 2, -3, 4, -5, 6, -7, 8]));
            let _: qq!([7, -3, 2, -1] i32) = r;
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[shape::REGISTRY, i8_::REGISTRY, i16_::REGISTRY, i32_::REGISTRY, i64_::REGISTRY, i128_::REGISTRY, isize_::REGISTRY, u8_::REGISTRY, u16_::REGISTRY, u32_::REGISTRY, u64_::REGISTRY, u128_::REGISTRY, usize_::REGISTRY], &[overflow::EVALUATED])
}
