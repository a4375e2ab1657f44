//! C07: arithmetic and comparison of quantities is the arithmetic and comparison of the bare numbers.
#![recursion_limit = "512"]
use qx::{Qx, q};

// One quantity type with pairwise distinct dimension and scale exponents.
macro_rules! qt { ($t:ty) => { q!([1, 2, -3, 4, -5, 6, -7, 8] [-9, 10, 11, -12] $t) } }
// Another one, for products and quotients.
macro_rules! rt { ($t:ty) => { q!([2, -1, 1, 3, 4, -6, 5, -7] [3, 4, -5, 6] $t) } }

macro_rules! ints {
    ($($m:ident $t:ident { $($neg:tt)* };)*) => { $(
        mod $m {
            use super::*;
            use core::cmp::Ordering;
            use spec::{ensures, requires};
            type Q = qt!($t);
            type R = rt!($t);
            fn q(v: $t) -> Q { Q::make(v) }
            fn r(v: $t) -> R { R::make(v) }
            spec::obligations! {
                #[kani::solver(z3)]
                fn add(a: $t, b: $t) {
                    let w = a.checked_add(b);
                    requires!(w.is_some());
                    let w = w.unwrap();
                    let got = (q(a) + q(b)).raw();
                    ensures!(got == w, "{a} + {b} = {got}");
                    let mut x = q(a);
                    x += q(b);
                    let got = x.raw();
                    ensures!(got == w, "{a} += {b} gives {got}");
                }
                #[kani::solver(z3)]
                fn sub(a: $t, b: $t) {
                    let w = a.checked_sub(b);
                    requires!(w.is_some());
                    let w = w.unwrap();
                    let got = (q(a) - q(b)).raw();
                    ensures!(got == w, "{a} - {b} = {got}");
                    let mut x = q(a);
                    x -= q(b);
                    let got = x.raw();
                    ensures!(got == w, "{a} -= {b} gives {got}");
                }
                #[kani::solver(z3)]
                fn mul(a: $t, b: $t) {
                    let w = a.checked_mul(b);
                    requires!(w.is_some());
                    let w = w.unwrap();
                    let got = (q(a) * r(b)).raw();
                    ensures!(got == w, "quantity {a} * quantity {b} = {got}");
                    let got = (q(a) * b).raw();
                    ensures!(got == w, "quantity {a} * {b} = {got}");
                    let mut x = q(a);
                    x *= b;
                    let got = x.raw();
                    ensures!(got == w, "{a} *= {b} gives {got}");
                }
                #[kani::solver(z3)]
                fn scalar_mul(a: $t, b: $t) {
                    let w = a.checked_mul(b);
                    requires!(w.is_some());
                    let w = w.unwrap();
                    let got = (a * q(b)).raw();
                    ensures!(got == w, "{a} * quantity {b} = {got}");
                }
                #[kani::solver(z3)]
                fn div(a: $t, b: $t) {
                    let w = a.checked_div(b);
                    requires!(w.is_some());
                    let w = w.unwrap();
                    let got = (q(a) / r(b)).raw();
                    ensures!(got == w, "quantity {a} / quantity {b} = {got}");
                    let got = (q(a) / b).raw();
                    ensures!(got == w, "quantity {a} / {b} = {got}");
                    let mut x = q(a);
                    x /= b;
                    let got = x.raw();
                    ensures!(got == w, "{a} /= {b} gives {got}");
                }
                #[kani::solver(z3)]
                fn scalar_div(a: $t, b: $t) {
                    let w = a.checked_div(b);
                    requires!(w.is_some());
                    let w = w.unwrap();
                    let got = (a / q(b)).raw();
                    ensures!(got == w, "{a} / quantity {b} = {got}");
                }
                #[kani::solver(z3)]
                fn rem(a: $t, b: $t) {
                    let w = a.checked_rem(b);
                    requires!(w.is_some());
                    let w = w.unwrap();
                    let got = (q(a) % q(b)).raw();
                    ensures!(got == w, "quantity {a} % quantity {b} = {got}");
                    let got = (q(a) % b).raw();
                    ensures!(got == w, "quantity {a} % {b} = {got}");
                    let mut x = q(a);
                    x %= b;
                    let got = x.raw();
                    ensures!(got == w, "{a} %= {b} gives {got}");
                    let mut x = q(a);
                    x %= q(b);
                    let got = x.raw();
                    ensures!(got == w, "{a} %= quantity {b} gives {got}");
                }
                #[kani::solver(z3)]
                fn compare(a: $t, b: $t) {
                    ensures!((q(a) == q(b)) == (a == b), "{a} == {b}");
                    ensures!((q(a) != q(b)) == (a != b), "{a} != {b}");
                    ensures!((q(a) < q(b)) == (a < b), "{a} < {b}");
                    ensures!((q(a) <= q(b)) == (a <= b), "{a} <= {b}");
                    ensures!((q(a) > q(b)) == (a > b), "{a} > {b}");
                    ensures!((q(a) >= q(b)) == (a >= b), "{a} >= {b}");
                    let o = if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal };
                    ensures!(q(a).partial_cmp(&q(b)) == Some(o), "ordering of {a} and {b}");
                }
                #[kani::solver(z3)]
                fn copies(a: $t) {
                    let x = q(a);
                    let y = x;
                    let z = Clone::clone(&x);
                    ensures!(x.raw() == a && y.raw() == a && z.raw() == a, "copy of {a}");
                    ensures!(size_of::<Q>() == size_of::<$t>() && align_of::<Q>() == align_of::<$t>(), "a quantity is as large as its number");
                }
                $($neg)*
            }
        }
    )* };
}
macro_rules! signed {
    ($($m:ident $t:ident;)*) => { ints! { $(
        $m $t {
            #[kani::solver(z3)]
            fn neg(a: $t) {
                let w = a.checked_neg();
                requires!(w.is_some());
                let got = (-q(a)).raw();
                ensures!(got == w.unwrap(), "-({a}) = {got}");
            }
        };
    )* } };
}
signed! { i8_ i8; i16_ i16; i32_ i32; i64_ i64; i128_ i128; isize_ isize; }
ints! { u8_ u8 {}; u16_ u16 {}; u32_ u32 {}; u64_ u64 {}; u128_ u128 {}; usize_ usize {}; }

macro_rules! floats {
    ($($m:ident $t:ident $same:ident;)*) => { $(
        mod $m {
            use super::*;
            use core::cmp::Ordering;
            use spec::{ensures, math::$same as same};
            type Q = qt!($t);
            type R = rt!($t);
            fn q(v: $t) -> Q { Q::make(v) }
            fn r(v: $t) -> R { R::make(v) }
            spec::obligations! {
                #[kani::solver(cvc5)]
                fn add(a: $t, b: $t) {
                    let got = (q(a) + q(b)).raw();
                    ensures!(same(got, a + b), "{a:e} + {b:e} = {got:e}");
                    let mut x = q(a);
                    x += q(b);
                    let got = x.raw();
                    ensures!(same(got, a + b), "{a:e} += {b:e} gives {got:e}");
                }
                #[kani::solver(cvc5)]
                fn sub(a: $t, b: $t) {
                    let got = (q(a) - q(b)).raw();
                    ensures!(same(got, a - b), "{a:e} - {b:e} = {got:e}");
                    let mut x = q(a);
                    x -= q(b);
                    let got = x.raw();
                    ensures!(same(got, a - b), "{a:e} -= {b:e} gives {got:e}");
                }
                #[kani::solver(cvc5)]
                fn mul(a: $t, b: $t) {
                    let got = (q(a) * r(b)).raw();
                    ensures!(same(got, a * b), "quantity {a:e} * quantity {b:e} = {got:e}");
                    let got = (q(a) * b).raw();
                    ensures!(same(got, a * b), "quantity {a:e} * {b:e} = {got:e}");
                }
                #[kani::solver(cvc5)]
                fn mul_assign(a: $t, b: $t) {
                    let mut x = q(a);
                    x *= b;
                    let got = x.raw();
                    ensures!(same(got, a * b), "{a:e} *= {b:e} gives {got:e}");
                }
                #[kani::solver(cvc5)]
                fn scalar_mul(a: $t, b: $t) {
                    let got = (a * q(b)).raw();
                    ensures!(same(got, a * b), "{a:e} * quantity {b:e} = {got:e}");
                }
                #[kani::solver(cvc5)]
                fn div(a: $t, b: $t) {
                    let got = (q(a) / r(b)).raw();
                    ensures!(same(got, a / b), "quantity {a:e} / quantity {b:e} = {got:e}");
                    let got = (q(a) / b).raw();
                    ensures!(same(got, a / b), "quantity {a:e} / {b:e} = {got:e}");
                }
                #[kani::solver(cvc5)]
                fn div_assign(a: $t, b: $t) {
                    let mut x = q(a);
                    x /= b;
                    let got = x.raw();
                    ensures!(same(got, a / b), "{a:e} /= {b:e} gives {got:e}");
                }
                #[kani::solver(cvc5)]
                fn scalar_div(a: $t, b: $t) {
                    let got = (a / q(b)).raw();
                    ensures!(same(got, a / b), "{a:e} / quantity {b:e} = {got:e}");
                }
                #[kani::solver(cvc5)]
                fn neg(a: $t) {
                    let got = (-q(a)).raw();
                    ensures!(same(got, -a), "-({a:e}) = {got:e}");
                }
                #[kani::solver(cvc5)]
                fn compare(a: $t, b: $t) {
                    ensures!((q(a) == q(b)) == (a == b), "{a:e} == {b:e}");
                    ensures!((q(a) != q(b)) == (a != b), "{a:e} != {b:e}");
                    ensures!((q(a) < q(b)) == (a < b), "{a:e} < {b:e}");
                    ensures!((q(a) <= q(b)) == (a <= b), "{a:e} <= {b:e}");
                    ensures!((q(a) > q(b)) == (a > b), "{a:e} > {b:e}");
                    ensures!((q(a) >= q(b)) == (a >= b), "{a:e} >= {b:e}");
                    let o = if a < b { Some(Ordering::Less) } else if a > b { Some(Ordering::Greater) } else if a == b { Some(Ordering::Equal) } else { None };
                    ensures!(q(a).partial_cmp(&q(b)) == o, "ordering of {a:e} and {b:e}");
                }
                fn copies(a: $t) {
                    let x = q(a);
                    let y = x;
                    let z = Clone::clone(&x);
                    ensures!(same(x.raw(), a) && same(y.raw(), a) && same(z.raw(), a), "copy of {a:e}");
                    ensures!(size_of::<Q>() == size_of::<$t>() && align_of::<Q>() == align_of::<$t>(), "a quantity is as large as its number");
                }
            }
        }
    )* };
}
floats! { f32_ f32 same_f32; f64_ f64 same_f64; }

#[allow(dead_code)]
mod beyond {
    #[cfg(not(kani))]
    use super::*;
    spec::evaluated! {
        // The back ends have no floating point remainder: the remainder of floats is sampled.
        fn bounded_float_remainder(ctx) {
            use spec::nd::Nd;
            let mut g = ctx.rng();
            macro_rules! go { ($t:ident $same:ident) => {
                for _ in 0..300_000 {
                    let (a, b) = (<$t>::sample(&mut g), <$t>::sample(&mut g));
                    let w = a % b;
                    let q = |v: $t| <qt!($t)>::make(v);
                    let mut x = q(a);
                    x %= b;
                    let mut y = q(a);
                    y %= q(b);
                    let ok = spec::math::$same((q(a) % q(b)).raw(), w) && spec::math::$same((q(a) % b).raw(), w)
                        && spec::math::$same(x.raw(), w) && spec::math::$same(y.raw(), w);
                    ctx.case(|| format!("{a:e} % {b:e}"), ok);
                }
            } }
            go!(f32 same_f32);
            go!(f64 same_f64);
        }
        // Overflow and division by zero are not swallowed: the operation panics exactly when the bare
        // one does (in builds with overflow checks).
        fn bounded_overflow_panics_like_the_number(ctx) {
            use spec::nd::{Nd, panics};
            use std::hint::black_box as bb;
            let mut g = ctx.rng();
            macro_rules! go { ($($t:ident),*) => { $(
                for _ in 0..400 {
                    let (a, b) = (bb(<$t>::sample(&mut g)), bb(<$t>::sample(&mut g)));
                    let q = |v: $t| <qt!($t)>::make(v);
                    let mut one = |n: &str, p: bool, f: &dyn Fn()| { let s = panics(f); ctx.case(|| format!("{a} {n} {b} ({}): panics {s}, bare {p}", stringify!($t)), s == p) };
                    one("+", a.checked_add(b).is_none(), &|| { bb((q(a) + q(b)).raw()); });
                    one("-", a.checked_sub(b).is_none(), &|| { bb((q(a) - q(b)).raw()); });
                    one("*", a.checked_mul(b).is_none(), &|| { bb((q(a) * b).raw()); });
                    one("* quantity", a.checked_mul(b).is_none(), &|| { bb((q(a) * q(b)).raw()); });
                    one("/", a.checked_div(b).is_none(), &|| { bb((q(a) / b).raw()); });
                    one("% quantity", a.checked_rem(b).is_none(), &|| { bb((q(a) % q(b)).raw()); });
                    one("scalar /", a.checked_div(b).is_none(), &|| { bb((a / q(b)).raw()); });
                }
            )* } }
            go!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[
        i8_::REGISTRY, i16_::REGISTRY, i32_::REGISTRY, i64_::REGISTRY, i128_::REGISTRY, isize_::REGISTRY,
        u8_::REGISTRY, u16_::REGISTRY, u32_::REGISTRY, u64_::REGISTRY, u128_::REGISTRY, usize_::REGISTRY,
        f32_::REGISTRY, f64_::REGISTRY,
    ], &[beyond::EVALUATED])
}
