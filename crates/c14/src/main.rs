//! C14: creating a quantity in a unit gives that many of the unit, whichever way it is spelt.
#![recursion_limit = "1024"]
use qx::Qx;
use whippyunits_core::Dimension;

pub struct Brand;

const fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
/// Storage units per unit and offset in storage units, by the library's table (property C11 ties it to the SI).
const fn row(name: &str) -> (f64, f64) {
    let mut i = 0;
    while i < Dimension::ALL.len() {
        let u = Dimension::ALL[i].units;
        let mut j = 0;
        while j < u.len() {
            if same(u[j].name, name) { return (u[j].conversion_factor, u[j].affine_offset); }
            j += 1;
        }
        i += 1;
    }
    panic!("no such unit")
}
macro_rules! cf { ($n:literal) => {{ const C: f64 = row($n).0; C }} }
macro_rules! af { ($n:literal) => {{ const C: f64 = row($n).1; C }} }

/// Same number, or both not a number (no integer differs from itself).
#[allow(clippy::eq_op)]
fn eq<T: PartialEq + Copy>(a: T, b: T) -> bool {
    a == b || (a != a && b != b)
}
/// The quantity's own account of itself.
fn typed<Q: Qx>(_: &Q, d: [i16; 8], s: [i16; 4]) -> bool {
    qx::eq8(Q::D, d) && qx::eq4(Q::S, s)
}
/// `expr` has the wanted raw value, dimension, scale, storage type and brand.
macro_rules! made {
    ($all:ident, $e:expr, $want:expr, $d:expr, $s:expr, $t:ty, $b:ty) => {{
        let q = $e;
        let types = typed(&q, $d, $s);
        let raw: $t = raw::<_, $t, $b>(q);
        #[cfg(kani)]
        { $all &= types && eq(raw, $want); }
        #[cfg(not(kani))]
        {
            spec::ensures!(types, "{} has the wrong type", stringify!($e));
            spec::ensures!(eq(raw, $want), "{} is stored as {raw:?}, want {:?}", stringify!($e), $want);
            $all = true;
        }
    }};
}
macro_rules! all_hold {
    ($all:ident) => { spec::ensures!($all, "a quantity has the wrong value or type") }
}
fn raw<Q: Qx<T = T, Brand = B>, T, B>(q: Q) -> T {
    q.raw()
}

mod creation {
    use super::*;
    use whippyunits::default_declarators::*;
    use whippyunits::quantity;
    include!(concat!(env!("OUT_DIR"), "/creation.rs"));
}

#[cfg(not(kani))]
mod tables {
    use super::*;
    use whippyunits::quantity;
    macro_rules! literal {
        ($ctx:ident, $e:expr, $want:expr, $d:expr, $s:expr, $t:ty) => {{
            let q = $e;
            let types = typed(&q, $d, $s);
            let raw: $t = raw::<_, $t, ()>(q);
            $ctx.case(|| format!("{} is {raw:?}, want {:?} (types: {types})", stringify!($e), $want), types && eq(raw, $want));
        }};
    }
    macro_rules! compound {
        ($ctx:ident, $x:literal, $e:expr, $want:expr, $d:expr, $s:expr) => {{
            let q = $e;
            let (d, s) = (qx::dims_of(&q).map(|x| x as i32), qx::scale_of(&q).map(|x| x as i32));
            let raw: f64 = raw::<_, f64, ()>(q);
            $ctx.case(|| format!("3.25 {} is {raw:e} of {d:?} {s:?}, want {:e} of {:?} {:?}", $x, $want, $d, $s),
                spec::math::close(raw, $want, 1e-12) && d == $d && s == $s);
        }};
    }
    include!(concat!(env!("OUT_DIR"), "/tables.rs"));
    spec::evaluated! {
        fn every_type_name_is_its_unit(ctx) {
            for (n, d, s, want_d, want_s) in TYPES {
                ctx.case(|| format!("{n} is {d:?} {s:?}, want {want_d:?} {want_s:?}"), d == want_d && s == want_s);
            }
        }
        fn bounded_literals(ctx) { literals(ctx) }
        fn bounded_compound_units(ctx) { compounds(ctx) }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[creation::REGISTRY], &[tables::EVALUATED])
}
