//! C08: products, quotients and inverses carry the combined units; operations on mismatched units do
//! not type-check.
#![recursion_limit = "1024"]
use core::cmp::{PartialEq as Eq_, PartialOrd};
use core::ops::*;
use qx::{Qx, eq4, eq8, implements, q};

#[derive(Clone, PartialEq, PartialOrd)]
pub struct Red;
#[derive(Clone, PartialEq, PartialOrd)]
pub struct Blue;
pub trait Same<T> {}
impl<T> Same<T> for T {}

const fn add8(a: [i16; 8], b: [i16; 8], s: i16) -> [i16; 8] {
    let (mut r, mut i) = ([0; 8], 0);
    while i < 8 { r[i] = a[i] + s * b[i]; i += 1; }
    r
}
const fn add4(a: [i16; 4], b: [i16; 4], s: i16) -> [i16; 4] {
    let (mut r, mut i) = ([0; 4], 0);
    while i < 4 { r[i] = a[i] + s * b[i]; i += 1; }
    r
}
type Row = (&'static str, bool);
const fn first_wrong(t: &[Row]) -> &'static str {
    let mut i = 0;
    while i < t.len() {
        if !t[i].1 { return t[i].0; }
        i += 1;
    }
    ""
}
/// dimension and scale of type `O` are a +- b
const fn combined<O: Qx, A: Qx, B: Qx>(s: i16) -> bool {
    eq8(O::D, add8(A::D, B::D, s)) && eq4(O::S, add4(A::S, B::S, s))
}
/// O has exactly A's dimension and scale
const fn kept<O: Qx, A: Qx>() -> bool {
    eq8(O::D, A::D) && eq4(O::S, A::S)
}
const fn inverse<O: Qx, A: Qx>() -> bool {
    eq8(O::D, add8([0; 8], A::D, -1)) && eq4(O::S, add4([0; 4], A::S, -1))
}
macro_rules! products {
    ($t:ty, $br:ty; $([$($a:tt)*] $sa:tt . [$($b:tt)*] $sb:tt;)*) => { first_wrong(&[$(
        (concat!(stringify!([$($a)*] $sa), " * ", stringify!([$($b)*] $sb)),
         combined::<<q!([$($a)*] $sa $t, $br) as Mul<q!([$($b)*] $sb $t, $br)>>::Output, q!([$($a)*] $sa $t, $br), q!([$($b)*] $sb $t, $br)>(1)),
        (concat!(stringify!([$($a)*] $sa), " / ", stringify!([$($b)*] $sb)),
         combined::<<q!([$($a)*] $sa $t, $br) as Div<q!([$($b)*] $sb $t, $br)>>::Output, q!([$($a)*] $sa $t, $br), q!([$($b)*] $sb $t, $br)>(-1)),
        (concat!("brand or number type of ", stringify!([$($a)*] $sa), " * ", stringify!([$($b)*] $sb)),
         implements!(<<q!([$($a)*] $sa $t, $br) as Mul<q!([$($b)*] $sb $t, $br)>>::Output as Qx>::Brand: Same<$br>)
         && implements!(<<q!([$($a)*] $sa $t, $br) as Div<q!([$($b)*] $sb $t, $br)>>::Output as Qx>::Brand: Same<$br>)
         && implements!(<<q!([$($a)*] $sa $t, $br) as Mul<q!([$($b)*] $sb $t, $br)>>::Output as Qx>::T: Same<$t>)
         && implements!(<<q!([$($a)*] $sa $t, $br) as Div<q!([$($b)*] $sb $t, $br)>>::Output as Qx>::T: Same<$t>)),
        (concat!("1 / ", stringify!([$($a)*] $sa)),
         inverse::<<$t as Div<q!([$($a)*] $sa $t, $br)>>::Output, q!([$($a)*] $sa $t, $br)>()
         && implements!(<<$t as Div<q!([$($a)*] $sa $t, $br)>>::Output as Qx>::Brand: Same<$br>)),
        (concat!("number * ", stringify!([$($a)*] $sa)),
         implements!(<$t as Mul<q!([$($a)*] $sa $t, $br)>>::Output: Same<q!([$($a)*] $sa $t, $br)>)),
        (concat!(stringify!([$($a)*] $sa), " by a number"),
         implements!(<q!([$($a)*] $sa $t, $br) as Mul<$t>>::Output: Same<q!([$($a)*] $sa $t, $br)>)
         && implements!(<q!([$($a)*] $sa $t, $br) as Div<$t>>::Output: Same<q!([$($a)*] $sa $t, $br)>)
         && implements!(<q!([$($a)*] $sa $t, $br) as Rem<$t>>::Output: Same<q!([$($a)*] $sa $t, $br)>)),
        (concat!("sum, difference and remainder of ", stringify!([$($a)*] $sa)),
         implements!(<q!([$($a)*] $sa $t, $br) as Add>::Output: Same<q!([$($a)*] $sa $t, $br)>)
         && implements!(<q!([$($a)*] $sa $t, $br) as Sub>::Output: Same<q!([$($a)*] $sa $t, $br)>)
         && implements!(<q!([$($a)*] $sa $t, $br) as Rem>::Output: Same<q!([$($a)*] $sa $t, $br)>)
         && kept::<<q!([$($a)*] $sa $t, $br) as Add>::Output, q!([$($a)*] $sa $t, $br)>()),
    )*]) };
}
macro_rules! full_table { ($t:ty, $br:ty) => { products! { $t, $br;
    [1,-2,3,-4,5,-6,7,-8] [9,-10,11,-12] . [10,20,-30,-40,50,60,-70,-80] [-3,4,5,-6];
    [10,20,-30,-40,50,60,-70,-80] [-3,4,5,-6] . [1,-2,3,-4,5,-6,7,-8] [9,-10,11,-12];
    [0,0,0,0,0,0,0,0] [0,0,0,0] . [1,-2,3,-4,5,-6,7,-8] [9,-10,11,-12];
    [1,-2,3,-4,5,-6,7,-8] [9,-10,11,-12] . [1,-2,3,-4,5,-6,7,-8] [9,-10,11,-12];
    [1,-2,3,-4,5,-6,7,-8] [9,-10,11,-12] . [-1,2,-3,4,-5,6,-7,8] [-9,10,-11,12];
    [100,0,0,0,0,0,0,0] [0,0,0,0] . [99,0,0,0,0,0,0,0] [0,0,0,0];
    [0,100,0,0,0,0,0,0] [0,0,0,0] . [0,99,0,0,0,0,0,0] [0,0,0,0];
    [0,0,100,0,0,0,0,0] [0,0,0,0] . [0,0,99,0,0,0,0,0] [0,0,0,0];
    [0,0,0,100,0,0,0,0] [0,0,0,0] . [0,0,0,99,0,0,0,0] [0,0,0,0];
    [0,0,0,0,100,0,0,0] [0,0,0,0] . [0,0,0,0,99,0,0,0] [0,0,0,0];
    [0,0,0,0,0,100,0,0] [0,0,0,0] . [0,0,0,0,0,99,0,0] [0,0,0,0];
    [0,0,0,0,0,0,100,0] [0,0,0,0] . [0,0,0,0,0,0,99,0] [0,0,0,0];
    [0,0,0,0,0,0,0,100] [0,0,0,0] . [0,0,0,0,0,0,0,99] [0,0,0,0];
    [0,0,0,0,0,0,0,0] [100,0,0,0] . [0,0,0,0,0,0,0,0] [99,0,0,0];
    [0,0,0,0,0,0,0,0] [0,100,0,0] . [0,0,0,0,0,0,0,0] [0,99,0,0];
    [0,0,0,0,0,0,0,0] [0,0,100,0] . [0,0,0,0,0,0,0,0] [0,0,99,0];
    [0,0,0,0,0,0,0,0] [0,0,0,100] . [0,0,0,0,0,0,0,0] [0,0,0,99];
} } }
macro_rules! short_table { ($t:ty) => { products! { $t, Red;
    [1,-2,3,-4,5,-6,7,-8] [9,-10,11,-12] . [10,20,-30,-40,50,60,-70,-80] [-3,4,5,-6];
    [0,0,0,0,0,0,0,0] [0,0,0,0] . [0,0,0,0,0,0,0,0] [0,0,0,0];
} } }
const F64: &str = full_table!(f64, ());
const U32: &str = full_table!(u32, Red);
const I16: &str = full_table!(i16, Blue);
const OTHERS: [&str; 11] = [short_table!(f32), short_table!(i8), short_table!(i32), short_table!(i64), short_table!(i128),
    short_table!(isize), short_table!(u8), short_table!(u16), short_table!(u64), short_table!(u128), short_table!(usize)];

// ------------------------------------------------------------------------------------------------
// Nothing is implemented between A and B that would mix them.
macro_rules! unmixed {
    ($what:expr, $a:ty, $b:ty) => { (concat!("compiles although it must not: an operation between ", $what),
        !implements!($a: Add<$b>) && !implements!($b: Add<$a>) && !implements!($a: Sub<$b>) && !implements!($b: Sub<$a>)
        && !implements!($a: Rem<$b>) && !implements!($b: Rem<$a>)
        && !implements!($a: AddAssign<$b>) && !implements!($b: AddAssign<$a>)
        && !implements!($a: SubAssign<$b>) && !implements!($b: SubAssign<$a>)
        && !implements!($a: RemAssign<$b>) && !implements!($b: RemAssign<$a>)
        && !implements!($a: Eq_<$b>) && !implements!($b: Eq_<$a>)
        && !implements!($a: PartialOrd<$b>) && !implements!($b: PartialOrd<$a>)
        && !implements!($a: From<$b>) && !implements!($b: From<$a>)
        && !implements!($a: MulAssign<$b>) && !implements!($a: DivAssign<$b>)) };
}
macro_rules! no_product {
    ($what:expr, $a:ty, $b:ty) => { (concat!("compiles although it must not: a product of ", $what),
        !implements!($a: Mul<$b>) && !implements!($b: Mul<$a>) && !implements!($a: Div<$b>) && !implements!($b: Div<$a>)) };
}
macro_rules! mixed_table { ($t:ty, $u:ty) => { first_wrong(&[
    unmixed!("different masses", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([2,1,1,1,1,1,1,1] [2,2,2,2] $t)),
    unmixed!("different lengths", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,2,1,1,1,1,1,1] [2,2,2,2] $t)),
    unmixed!("different times", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,1,2,1,1,1,1,1] [2,2,2,2] $t)),
    unmixed!("different currents", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,1,1,2,1,1,1,1] [2,2,2,2] $t)),
    unmixed!("different temperatures", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,1,1,1,2,1,1,1] [2,2,2,2] $t)),
    unmixed!("different amounts", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,1,1,1,1,2,1,1] [2,2,2,2] $t)),
    unmixed!("different luminosities", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,1,1,1,1,1,2,1] [2,2,2,2] $t)),
    unmixed!("different angles", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,1,1,1,1,1,1,2] [2,2,2,2] $t)),
    unmixed!("different powers of 2", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,1,1,1,1,1,1,1] [3,2,2,2] $t)),
    unmixed!("different powers of 3", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,1,1,1,1,1,1,1] [2,3,2,2] $t)),
    unmixed!("different powers of 5", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,1,1,1,1,1,1,1] [2,2,3,2] $t)),
    unmixed!("different powers of pi", q!([1,1,1,1,1,1,1,1] [2,2,2,2] $t), q!([1,1,1,1,1,1,1,1] [2,2,2,3] $t)),
    unmixed!("a length and a time", q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t), q!([0,0,1,0,0,0,0,0] [0,0,0,0] $t)),
    unmixed!("metres and millimetres", q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t), q!([0,1,0,0,0,0,0,0] [-3,0,-3,0] $t)),
    unmixed!("a length and its inverse", q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t), q!([0,-1,0,0,0,0,0,0] [0,0,0,0] $t)),
    unmixed!("different brands", q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t, Red), q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t, Blue)),
    unmixed!("a brand and none", q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t, Red), q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t)),
    unmixed!("different number types", q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t), q!([0,1,0,0,0,0,0,0] [0,0,0,0] $u)),
    no_product!("different brands", q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t, Red), q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t, Blue)),
    no_product!("a brand and none", q!([0,0,0,0,0,0,0,0] [0,0,0,0] $t, Red), q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t)),
    no_product!("different number types", q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t), q!([0,1,0,0,0,0,0,0] [0,0,0,0] $u)),
    no_product!("a length and a number of another type", q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t), $u),
    ("a length plus a number compiles", !implements!(q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t): Add<$t>) && !implements!($t: Add<q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t)>)),
    ("a length minus a number compiles", !implements!(q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t): Sub<$t>) && !implements!($t: Sub<q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t)>)),
    ("a length compared with a number compiles", !implements!(q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t): PartialOrd<$t>) && !implements!(q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t): Eq_<$t>)
        && !implements!($t: PartialOrd<q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t)>) && !implements!($t: Eq_<q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t)>)),
    ("a number converts into a length", !implements!(q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t): From<$t>)),
    ("numbers default to a length", !implements!(q!([0,1,0,0,0,0,0,0] [0,0,0,0] $t): Deref)),
]) } }
const MIXED: [&str; 14] = [
    mixed_table!(f64, f32), mixed_table!(f32, f64), mixed_table!(i8, u8), mixed_table!(i16, i32), mixed_table!(i32, i64),
    mixed_table!(i64, f64), mixed_table!(i128, u128), mixed_table!(isize, i64), mixed_table!(u8, i8), mixed_table!(u16, u32),
    mixed_table!(u32, u64), mixed_table!(u64, u32), mixed_table!(u128, i128), mixed_table!(usize, u64)];
const UNSIGNED_NEG: bool = implements!(q!([0,1,0,0,0,0,0,0] [0,0,0,0] u8): Neg) || implements!(q!([0,1,0,0,0,0,0,0] [0,0,0,0] u64): Neg);

// Beyond -200..=200, which only the `cge` feature supports.
#[cfg(feature = "cge")]
const WIDE: &str = products! { f64, Red;
    [201,-202,203,-204,205,-206,207,-208] [209,-210,211,-212] . [1000,2000,-3000,-4000,5000,6000,-7000,-8000] [-300,400,500,-600];
    [1000,2000,-3000,-4000,5000,6000,-7000,-8000] [-300,400,500,-600] . [201,-202,203,-204,205,-206,207,-208] [209,-210,211,-212];
};
#[cfg(not(feature = "cge"))]
const WIDE: &str = "";

mod contracts {
    use super::*;
    use spec::ensures;
    fn none(t: &[&str]) -> usize {
        let mut i = 0;
        while i < t.len() {
            if !t[i].is_empty() { return i; }
            i += 1;
        }
        t.len()
    }
    spec::obligations! {
        fn products_and_quotients_f64() { ensures!(F64.is_empty(), "wrong type (f64): {}", F64); }
        fn products_and_quotients_beyond_200() { ensures!(WIDE.is_empty(), "wrong type (f64): {}", WIDE); }
        fn products_and_quotients_u32() { ensures!(U32.is_empty(), "wrong type (u32): {}", U32); }
        fn products_and_quotients_i16() { ensures!(I16.is_empty(), "wrong type (i16): {}", I16); }
        fn products_and_quotients_other_numbers() {
            let i = none(&OTHERS);
            ensures!(i == OTHERS.len(), "wrong type: {}", OTHERS[i.min(10)]);
        }
        fn mixing_is_rejected() {
            let i = none(&MIXED);
            ensures!(i == MIXED.len(), "{} (number type {})", MIXED[i.min(13)], i);
        }
        fn unsigned_quantities_have_no_negative() { ensures!(!UNSIGNED_NEG); }
        // on values: the result type of the operators is inferred, and carries the product
        fn operators_on_values(a: f64, b: f64) {
            let x = <q!([1,-2,3,-4,5,-6,7,-8] [9,-10,11,-12] f64)>::make(a) * <q!([10,20,-30,-40,50,60,-70,-80] [-3,4,5,-6] f64)>::make(b);
            ensures!(eq8(qx::dims_of(&x), [11,18,-27,-44,55,54,-63,-88]) && eq4(qx::scale_of(&x), [6,-6,16,-18]), "product");
            let x = <q!([1,-2,3,-4,5,-6,7,-8] [9,-10,11,-12] f64)>::make(a) / <q!([10,20,-30,-40,50,60,-70,-80] [-3,4,5,-6] f64)>::make(b);
            ensures!(eq8(qx::dims_of(&x), [-9,-22,33,36,-45,-66,77,72]) && eq4(qx::scale_of(&x), [12,-14,6,-6]), "quotient");
            let x = a / <q!([1,-2,3,-4,5,-6,7,-8] [9,-10,11,-12] f64)>::make(b);
            ensures!(eq8(qx::dims_of(&x), [-1,2,-3,4,-5,6,-7,8]) && eq4(qx::scale_of(&x), [-9,10,-11,12]), "inverse");
        }
        // the same with units by name
        fn named_units(a: f64) {
            use whippyunits::{quantity, unit};
            let v: unit!(m / s) = quantity!(1.0, m) / quantity!(2.0, s);
            let f: unit!(kg * m / s ^ 2) = quantity!(1.0, kg) * v / quantity!(2.0, s);
            let e: unit!(J) = f * quantity!(2.0, m);
            let p: unit!(mW) = quantity!(1.0, mN) * v;
            let w: unit!(1 / s) = a / quantity!(1.0, s);
            ensures!(eq8(qx::dims_of(&e), [1, 2, -2, 0, 0, 0, 0, 0]) && eq8(qx::dims_of(&p), [1, 2, -3, 0, 0, 0, 0, 0]) && eq8(qx::dims_of(&w), [0, 0, -1, 0, 0, 0, 0, 0]));
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[contracts::REGISTRY], &[])
}
