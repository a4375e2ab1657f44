//! C09: a generic dimension is satisfied by exactly the quantities of its dimension, at every scale.
#![recursion_limit = "1024"]
use qx::{Qx, implements, q};

const fn all(t: &[bool]) -> bool {
    let mut i = 0;
    while i < t.len() {
        if !t[i] { return false; }
        i += 1;
    }
    true
}
pub trait Same<T> {}
impl<T> Same<T> for T {}
/// `P::<Q>::OK`: whether Q satisfies the generic dimension, with itself as its unit.
macro_rules! probe {
    ($d:ident) => {
        #[allow(dead_code)]
        struct P<T>(core::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait Fallback { const OK: bool = false; }
        impl<T> Fallback for P<T> {}
        #[allow(dead_code)]
        impl<T: $d> P<T> { const OK: bool = true; }
    };
}
macro_rules! satisfies {
    ($p:ident, $d:tt $s:tt $t:ty, $want:literal) => { <$p<q!($d $s $t)>>::OK == $want };
}
include!(concat!(env!("OUT_DIR"), "/traits.rs"));

mod contracts {
    use super::*;
    use spec::{ensures, requires};
    whippyunits::dimension_traits::define_generic_dimension!(Area, Length^2);
    whippyunits::dimension_traits::define_generic_dimension!(Rate, Length / Time, Angle / Time);
    fn area<D1: Area, D2: whippyunits::dimension_traits::Length>(d1: D1, d2: D2) -> <D1 as core::ops::Mul<D2>>::Output where D1: core::ops::Mul<D2> { d1 * d2 }
    fn same<R: Rate>(r: R) -> R { r }
    const UNITS: bool = implements!(<q!([0,2,0,0,0,0,0,0] [3,0,3,0] f32) as Area>::Unit: Same<q!([0,2,0,0,0,0,0,0] [3,0,3,0] f32)>)
        && implements!(<q!([0,1,0,0,0,0,0,0] [1,2,3,4] u8) as whippyunits::dimension_traits::Length>::Unit: Same<q!([0,1,0,0,0,0,0,0] [1,2,3,4] u8)>)
        && implements!(<q!([0,0,-1,0,0,0,0,1] [1,2,3,4] i64) as Rate>::Unit: Same<q!([0,0,-1,0,0,0,0,1] [1,2,3,4] i64)>);
    spec::obligations! {
        fn every_generic_dimension(i: usize) {
            requires!(i < ROWS.len());
            ensures!(ROWS[i].1, "the generic dimension {} is satisfied by a quantity of another dimension, or not by one of its own", ROWS[i].0);
        }
        fn the_unit_is_the_quantity() { ensures!(UNITS, "the Unit of a generic dimension is another type"); }
        // code over generic dimensions works on the numbers it is given
        fn generic_code_is_exact(a: i16, b: i16) {
            requires!((a as i32 * b as i32).unsigned_abs() < 30000);
            let v = area(<q!([0,2,0,0,0,0,0,0] [-6,0,-6,0] i16)>::make(a), <q!([0,1,0,0,0,0,0,0] [3,0,3,0] i16)>::make(b));
            ensures!(qx::eq8(qx::dims_of(&v), [0,3,0,0,0,0,0,0]) && qx::eq4(qx::scale_of(&v), [-3,0,-3,0]), "unit of a generic product");
            ensures!(v.raw() == a * b, "generic {a} * {b}");
            ensures!(same(<q!([0,0,-1,0,0,0,0,1] [0,0,0,0] i16)>::make(a)).raw() == a);
        }
    }
}
#[cfg(not(kani))]
mod programs {
    spec::evaluated! {
        fn bounded_rejected_programs(ctx) {
            let bad = ["Lenght", "Foo / Time", "Length * Foo", "(Mass * Foo)^2", "2 * Length", "0", "m", "meter", "Length Time", "Length +Time", "Length^x", "Length^", "Length /", "* Length",
                       "(Length", "Length^1.5", "length", "L^40000", "L^2u8", "Foo2", "L2x", "\"Length\""];
            let ok = ["Length", "L", "L2", "θ2 / θ", "M.L2/T^2", "1 / Time", "1", "Length, Time", "Energy / (Mass * Length)", "Cd3"];
            let lines: Vec<(String, bool)> = bad.iter().map(|x| (x, false)).chain(ok.iter().map(|x| (x, true)))
                .map(|(x, ok)| (format!("whippyunits::dimension_traits::define_generic_dimension!(X, {});", x.replace('\n', " ")), ok)).collect();
            for (l, ok) in spec::reject::verdicts("c09", &lines) {
                let want = lines.iter().find(|x| x.0 == l).unwrap().1;
                ctx.case(|| format!("`{l}` {}", if ok { "compiles" } else { "does not compile" }), ok == want);
            }
            // what a generic function refuses
            let f = "whippyunits::dimension_traits::define_generic_dimension!(V, Length / Time); fn f<T: V>(_: T) {} use whippyunits::quantity;";
            let lines: Vec<(String, bool)> = [("quantity!(1.0, m/s)", true), ("quantity!(1, km/h, i32)", true), ("quantity!(1.0, mi/h)", true), ("quantity!(1.0, m)", false), ("quantity!(1.0, s/m)", false),
                ("quantity!(1.0, m/s^2)", false), ("1.0", false), ("quantity!(1.0, rad/s)", false)].iter().map(|(x, ok)| (format!("{f} f({x});"), *ok)).collect();
            for (l, ok) in spec::reject::verdicts("c09", &lines) {
                let want = lines.iter().find(|x| x.0 == l).unwrap().1;
                ctx.case(|| format!("`{l}` {}", if ok { "compiles" } else { "does not compile" }), ok == want);
            }
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[contracts::REGISTRY], &[programs::EVALUATED])
}
