//! C18: declarators with preferred base units make the declared quantity, stored in those units.
#![recursion_limit = "1024"]
#![allow(macro_expanded_macro_exports_accessed_by_absolute_paths)]
use qx::Qx;
use whippyunits::define_unit_declarators;
use whippyunits_core::Dimension;

const fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
/// Storage units per unit and offset in storage units, by the library's table (property C11 ties it to the SI).
const fn row(name: &str) -> (f64, f64) {
    let mut i = 0;
    while i < Dimension::ALL.len() {
        let u = Dimension::ALL[i].units;
        let mut j = 0;
        while j < u.len() {
            if same(u[j].name, name) { return (u[j].conversion_factor, u[j].affine_offset); }
            j += 1;
        }
        i += 1;
    }
    panic!("no such unit")
}
macro_rules! cf { ($n:literal) => {{ const C: f64 = row($n).0; C }} }
macro_rules! af { ($n:literal) => {{ const C: f64 = row($n).1; C }} }

// The factor between two scales, as its contracts (C03, C04) leave it. The stand-ins check that they are
// asked for exactly the declared scale and the preferred one; natively the real functions are used.
#[cfg(kani)]
#[allow(clippy::too_many_arguments)]
pub mod callee {
    pub static mut FACTOR: f64 = 0.0;
    pub static mut RATIO: (i128, i128) = (1, 1);
    pub static mut SCALES: [i16; 8] = [0; 8];
    pub fn float(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) -> f64 {
        unsafe {
            assert!(qx::eq8([a, b, c, d, e, f, g, h], SCALES), "scales passed to the factor computation");
            FACTOR
        }
    }
    pub fn ratio(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) -> (i128, i128) {
        unsafe {
            assert!(qx::eq8([a, b, c, d, e, f, g, h], SCALES), "scales passed to the factor computation");
            RATIO
        }
    }
    pub fn factor(s: [i16; 4], t: [i16; 4], k: f64) -> f64 {
        unsafe {
            SCALES = [s[0], s[1], s[2], s[3], t[0], t[1], t[2], t[3]];
            FACTOR = if qx::eq4(s, t) { 1.0 } else { k };
            FACTOR
        }
    }
    /// Whole numbers: some ratio, agreed between caller and callee (that it is the right one is C03,
    /// what is made of it is C05).
    pub fn set_ratio(s: [i16; 4], t: [i16; 4], _: (i128, i128)) -> (i128, i128) {
        unsafe {
            SCALES = [s[0], s[1], s[2], s[3], t[0], t[1], t[2], t[3]];
            RATIO = if qx::eq4(s, t) { (1, 1) } else { (3, 1) };
            RATIO
        }
    }
}
#[cfg(not(kani))]
pub mod callee {
    pub fn factor(s: [i16; 4], t: [i16; 4], _k: f64) -> f64 {
        whippyunits::api::aggregate_scale_factor_float(s[0], s[1], s[2], s[3], t[0], t[1], t[2], t[3])
    }
    pub fn set_ratio(_: [i16; 4], _: [i16; 4], r: (i128, i128)) -> (i128, i128) { r }
}
use callee::{factor, set_ratio};

#[allow(clippy::eq_op)]
fn eq<T: PartialEq + Copy>(a: T, b: T) -> bool {
    a == b || (a != a && b != b)
}
fn typed<Q: Qx>(_: &Q, d: [i16; 8], s: [i16; 4]) -> bool {
    qx::eq8(Q::D, d) && qx::eq4(Q::S, s)
}
fn raw<Q: Qx<T = T, Brand = B>, T, B>(q: Q) -> T {
    q.raw()
}
/// `expr` has the wanted raw value, dimension, scale, storage type and brand.
macro_rules! made {
    ($all:ident, $e:expr, $want:expr, $d:expr, $s:expr, $t:ty, $b:ty) => {{
        let want: $t = $want;
        let q = $e;
        let types = typed(&q, $d, $s);
        let raw: $t = raw::<_, $t, $b>(q);
        #[cfg(kani)]
        { $all &= types && eq(raw, want); }
        #[cfg(not(kani))]
        {
            spec::ensures!(types, "{} has the wrong type", stringify!($e));
            spec::ensures!(eq(raw, want), "{} is stored as {raw:?}, want {:?}", stringify!($e), want);
            $all = true;
        }
    }};
}
/// `expr` is `x` in scale `s`, stored in scale `to`.
macro_rules! scaled {
    ($all:ident, $e:expr, $x:expr, $k:ident, $d:expr, $s:expr, $to:expr, $t:ty, $b:ty) => {{
        let f = factor($s, $to, $k);
        made!($all, $e, $x * (f as $t), $d, $to, $t, $b);
    }};
}
/// The same for whole numbers, where the product fits (other values: property C05).
macro_rules! whole {
    ($all:ident, $x:ident, $e:expr, $n:literal, $den:literal, $d:expr, $s:expr, $to:expr, $t:ty, $b:ty) => {{
        let (n, den) = set_ratio($s, $to, ($n, $den));
        let (n, den) = (n as $t, den as $t);
        if let Some(p) = <$t>::checked_mul($x, n) { made!($all, $e, p / den, $d, $to, $t, $b); }
    }};
}
macro_rules! all_hold {
    ($all:ident) => { spec::ensures!($all, "a quantity has the wrong value or type") }
}
include!(concat!(env!("OUT_DIR"), "/sets.rs"));

#[cfg(not(kani))]
mod tables {
    use super::*;
    fn alike<A: Qx<T = T, Brand = B>, T: PartialEq + Copy, B>(a: A, b: A) -> bool { eq(a.raw(), b.raw()) }
    macro_rules! literal {
        ($ctx:ident, $e:expr, $want:expr) => { $ctx.case(|| format!("{} is not {}", stringify!($e), stringify!($want)), alike($e, $want)); }
    }
    include!(concat!(env!("OUT_DIR"), "/literals.rs"));
    spec::evaluated! {
        fn bounded_literals(ctx) { literals(ctx) }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[with_short::REGISTRY, with_odd::REGISTRY, with_big::REGISTRY, with_plain::REGISTRY], &[tables::EVALUATED])
}
