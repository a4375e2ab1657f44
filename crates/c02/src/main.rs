//! C02: type-level exponent arithmetic is integer arithmetic on -200..=200.
#![cfg_attr(feature = "cge", feature(generic_const_exprs))]
use core::ops::{Add, Neg, Sub};
use qx::{eq8, implements};
use whippyunits_core::dimension_exponents::*;
use whippyunits_core::num::{N, Num};
#[cfg(not(feature = "cge"))]
use whippyunits_core::num::{__AsTypenum, __IntoNum};

#[macro_use]
mod ranges;

fn val<T: Num>(_: T) -> i16 {
    T::N
}
#[cfg(not(feature = "cge"))]
type Repr<const X: i16> = <N<X> as __AsTypenum>::Repr;

mod type_integers {
    use super::*;
    use spec::ensures;
    // Each table is a list of (operand, operand, type-level result, integer result); the results are
    // computed by the trait resolution the real operators go through, then compared in one obligation.
    pub type Row = (i16, i16, i16, i16);
    pub const fn first_wrong(t: &[Row]) -> Option<Row> {
        let mut i = 0;
        while i < t.len() {
            if t[i].2 != t[i].3 { return Some(t[i]); }
            i += 1;
        }
        None
    }
    pub const fn half(n: i16) -> i16 { n / 2 }
    pub const fn rest(n: i16) -> i16 { n - n / 2 }
    const fn edge(n: i16) -> i16 { if n >= 0 { 200 } else { -200 } }
    macro_rules! add { ($a:expr, $b:expr) => {
        ($a, $b, <<N<{$a}> as Add<N<{$b}>>>::Output as Num>::N, $a + $b)
    } }
    macro_rules! sub { ($a:expr, $b:expr) => {
        ($a, $b, <<N<{$a}> as Sub<N<{$b}>>>::Output as Num>::N, $a - $b)
    } }
    // Every result n from a pair of inputs, so that every entry of the way back is exercised.
    macro_rules! sum_all { ($($n:expr),*) => { first_wrong(&[$(add!(half($n), rest($n))),*]) } }
    macro_rules! diff_all { ($($n:expr),*) => { first_wrong(&[$(sub!(half($n), -rest($n))),*]) } }
    macro_rules! sum_edges { ($($n:expr),*) => { first_wrong(&[$(
        add!($n, -$n), add!($n, 0), add!(0, $n), add!($n, edge($n)), add!(edge($n), -$n), add!($n, 7)),*]) } }
    macro_rules! diff_edges { ($($n:expr),*) => { first_wrong(&[$(
        sub!($n, $n), sub!($n, 0), sub!(0, $n), sub!($n, -edge($n)), sub!(edge($n), $n), sub!($n, 7)),*]) } }
    macro_rules! neg_all { ($($n:expr),*) => { first_wrong(&[$(($n, 0, <<N<{$n}> as Neg>::Output as Num>::N, -$n)),*]) } }
    const SUMS: Option<Row> = results!(sum_all);
    const DIFFS: Option<Row> = results!(diff_all);
    const SUM_EDGES: Option<Row> = inputs!(sum_edges);
    const DIFF_EDGES: Option<Row> = inputs!(diff_edges);
    const NEGS: Option<Row> = inputs!(neg_all);
    spec::obligations! {
        fn every_sum_value() { ensures!(SUMS.is_none(), "wrong sum (a, b, got, want) {:?}", SUMS); }
        fn every_difference_value() { ensures!(DIFFS.is_none(), "wrong difference (a, b, got, want) {:?}", DIFFS); }
        fn sums_at_the_edges() { ensures!(SUM_EDGES.is_none(), "wrong sum (a, b, got, want) {:?}", SUM_EDGES); }
        fn differences_at_the_edges() { ensures!(DIFF_EDGES.is_none(), "wrong difference (a, b, got, want) {:?}", DIFF_EDGES); }
        fn every_negation() { ensures!(NEGS.is_none(), "wrong negation (a, _, got, want) {:?}", NEGS); }
        // the value-level operators return the type the trait promises
        fn operators_on_values() {
            ensures!(val(N::<200> + N::<-199>) == 1 && val(N::<-200> - N::<-3>) == -197 && val(-N::<-200>) == 200);
        }
    }
}

// Without `cge`: the integers go through the typenum crate.
#[cfg(not(feature = "cge"))]
mod representation {
    use super::*;
    use super::type_integers::{Row, first_wrong, half, rest};
    use spec::ensures;
    macro_rules! repr_in { ($($n:expr),*) => { first_wrong(&[$(($n, 0, <Repr<{$n}> as typenum::Integer>::I64 as i16, $n)),*]) } }
    macro_rules! into_all { ($($n:expr),*) => { first_wrong(&[$(
        ($n, 0, <<<Repr<{half($n)}> as Add<Repr<{rest($n)}>>>::Output as __IntoNum>::Num as Num>::N, $n)),*]) } }
    const REPR: Option<Row> = inputs!(repr_in);
    const INTO: Option<Row> = results!(into_all);
    spec::obligations! {
        fn representation_of_every_input() { ensures!(REPR.is_none(), "wrong representation {:?}", REPR); }
        fn every_result_comes_back() { ensures!(INTO.is_none(), "wrong integer for representation {:?}", INTO); }
        // what lies outside the supported range is rejected by the compiler, not wrapped
        fn outside_the_range_is_rejected() {
            ensures!(!implements!(N<201>: Add<N<0>>), "201 + 0 compiles");
            ensures!(!implements!(N<0>: Add<N<201>>), "0 + 201 compiles");
            ensures!(!implements!(N<-201>: Sub<N<0>>), "-201 - 0 compiles");
            ensures!(!implements!(N<0>: Sub<N<-201>>), "0 - -201 compiles");
            ensures!(!implements!(N<201>: Neg), "-(201) compiles");
            ensures!(!implements!(N<32767>: Neg), "-(32767) compiles");
            ensures!(implements!(N<200>: Neg) && implements!(N<200>: Add<N<200>>) && implements!(N<-200>: Sub<N<200>>));
        }
    }
}

// With `cge`: the whole range of i16.
#[cfg(feature = "cge")]
mod whole_range {
    use super::*;
    use super::type_integers::{Row, first_wrong};
    use spec::ensures;
    macro_rules! add { ($($a:expr, $b:expr;)*) => { first_wrong(&[$(
        ($a, $b, <<N<{$a}> as Add<N<{$b}>>>::Output as Num>::N, $a + $b),
        ($b, $a, <<N<{$b}> as Add<N<{$a}>>>::Output as Num>::N, $a + $b)),*]) } }
    macro_rules! sub { ($($a:expr, $b:expr;)*) => { first_wrong(&[$(
        ($a, $b, <<N<{$a}> as Sub<N<{$b}>>>::Output as Num>::N, $a - $b)),*]) } }
    macro_rules! neg { ($($a:expr;)*) => { first_wrong(&[$(
        ($a, 0, <<N<{$a}> as Neg>::Output as Num>::N, -($a))),*]) } }
    const SUMS: Option<Row> = add! { 201, 0; 201, 200; 201, 201; 401, 1; -201, -200; -401, 401; 255, 1; 256, 256; 1000, -999;
        16384, 16383; 32767, 0; 32766, 1; 32767, -32767; 32767, -32768; -32768, 0; -32767, -1; -16384, -16384; 12345, 6789; -20000, 12345; };
    const DIFFS: Option<Row> = sub! { 201, 0; 0, 201; 201, -200; -201, 200; 401, 401; 256, 512; 32767, 32767; 32767, 0; 0, 32767; -1, 32767;
        -32768, 0; -32768, -1; -32768, -32768; -1, -32768; 16383, -16384; 12345, -6789; -20000, 12345; };
    const NEGS: Option<Row> = neg! { 201; -201; 401; -401; 255; 256; -256; 12345; -12345; 32767; -32767; };
    spec::obligations! {
        fn sums() { ensures!(SUMS.is_none(), "wrong sum (a, b, got, want) {:?}", SUMS); }
        fn differences() { ensures!(DIFFS.is_none(), "wrong difference (a, b, got, want) {:?}", DIFFS); }
        fn negations() { ensures!(NEGS.is_none(), "wrong negation (a, _, got, want) {:?}", NEGS); }
    }
}

mod type_dimensions {
    use super::*;
    use spec::ensures;
    macro_rules! te { ($($t:tt)*) => { <whippyunits_core::dimension_exponents!([$($t)*])>::new() } }
    // all eight axes with distinct values, so that a swapped axis shows
    macro_rules! pair { ($a:ident, $b:ident) => {
        let $a = te!(1, -2, 3, -4, 5, -6, 7, -8);
        let $b = te!(10, 20, -30, -40, 50, 60, -70, -80);
    } }
    spec::obligations! {
        fn product_of_dimensions() {
            pair!(a, b);
            ensures!(eq8((a + b).value().0, [11, 18, -27, -44, 55, 54, -63, -88]), "a * b");
            pair!(a, b);
            ensures!(eq8((b + a).value().0, [11, 18, -27, -44, 55, 54, -63, -88]), "b * a");
        }
        fn quotient_of_dimensions() {
            pair!(a, b);
            ensures!(eq8((a - b).value().0, [-9, -22, 33, 36, -45, -66, 77, 72]), "a / b");
            pair!(a, b);
            ensures!(eq8((b - a).value().0, [9, 22, -33, -36, 45, 66, -77, -72]), "b / a");
        }
        fn exponents_are_in_axis_order() {
            let a = te!(1, -2, 3, -4, 5, -6, 7, -8);
            ensures!(eq8(a.value().0, [1, -2, 3, -4, 5, -6, 7, -8]), "value {:?}", a.value().0);
            ensures!(!a.is_zero() && Zero::new().is_zero());
        }
        // each axis alone, at the ends of the supported range
        fn every_axis_is_independent() {
            macro_rules! one { ($e:expr; $a:expr, $b:expr, $c:expr, $d:expr, $f:expr, $g:expr, $h:expr, $i:expr) => {
                let (p, q) = (te!({200 * $a}, {200 * $b}, {200 * $c}, {200 * $d}, {200 * $f}, {200 * $g}, {200 * $h}, {200 * $i}),
                              te!({-199 * $a}, {-199 * $b}, {-199 * $c}, {-199 * $d}, {-199 * $f}, {-199 * $g}, {-199 * $h}, {-199 * $i}));
                ensures!(eq8((p + q).value().0, [$a, $b, $c, $d, $f, $g, $h, $i]), "product on axis {}", $e);
                let (p, q) = (te!({200 * $a}, {200 * $b}, {200 * $c}, {200 * $d}, {200 * $f}, {200 * $g}, {200 * $h}, {200 * $i}),
                              te!({199 * $a}, {199 * $b}, {199 * $c}, {199 * $d}, {199 * $f}, {199 * $g}, {199 * $h}, {199 * $i}));
                ensures!(eq8((p - q).value().0, [$a, $b, $c, $d, $f, $g, $h, $i]), "quotient on axis {}", $e);
            } }
            one!(0; 1, 0, 0, 0, 0, 0, 0, 0);
            one!(1; 0, 1, 0, 0, 0, 0, 0, 0);
            one!(2; 0, 0, 1, 0, 0, 0, 0, 0);
            one!(3; 0, 0, 0, 1, 0, 0, 0, 0);
            one!(4; 0, 0, 0, 0, 1, 0, 0, 0);
            one!(5; 0, 0, 0, 0, 0, 1, 0, 0);
            one!(6; 0, 0, 0, 0, 0, 0, 1, 0);
            one!(7; 0, 0, 0, 0, 0, 0, 0, 1);
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    #[cfg(not(feature = "cge"))]
    use representation::REGISTRY as OTHER;
    #[cfg(feature = "cge")]
    use whole_range::REGISTRY as OTHER;
    spec::nd::main_with(&[type_integers::REGISTRY, OTHER, type_dimensions::REGISTRY], &[])
}
