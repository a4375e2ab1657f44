//! C01: exponent vectors of dimensions and scales form an exact integer algebra.
use qx::{eq4, eq8};
use whippyunits_core::dimension_exponents::*;
use whippyunits_core::scale_exponents::ScaleExponents;

#[allow(dead_code)]
fn add_ok(a: i16, b: i16) -> bool { a.checked_add(b).is_some() }
#[allow(dead_code)]
fn mul_ok(a: i16, b: i16) -> bool { a.checked_mul(b).is_some() }

mod dims {
    use super::*;
    use spec::{ensures, requires};
    spec::obligations! {
        fn dim_power(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16, k: i16) {
            let v = [a, b, c, d, e, f, g, h];
            requires!(v.iter().all(|x| mul_ok(*x, k)));
            let r = (DynDimensionExponents(v) * k).0;
            ensures!(eq8(r, [a * k, b * k, c * k, d * k, e * k, f * k, g * k, h * k]),
                "({v:?})^{k} has exponents {r:?}");
        }
        fn dim_product(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16,
                       a2: i16, b2: i16, c2: i16, d2: i16, e2: i16, f2: i16, g2: i16, h2: i16) {
            requires!(add_ok(a, a2) && add_ok(b, b2) && add_ok(c, c2) && add_ok(d, d2)
                && add_ok(e, e2) && add_ok(f, f2) && add_ok(g, g2) && add_ok(h, h2));
            let r = (DynDimensionExponents([a, b, c, d, e, f, g, h])
                + DynDimensionExponents([a2, b2, c2, d2, e2, f2, g2, h2])).0;
            ensures!(eq8(r, [a + a2, b + b2, c + c2, d + d2, e + e2, f + f2, g + g2, h + h2]),
                "product of dimensions has exponents {r:?}");
        }
        fn dim_product_type_level_rhs(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) {
            requires!(add_ok(a, -5) && add_ok(b, 6) && add_ok(c, -7) && add_ok(d, 8)
                && add_ok(e, -9) && add_ok(f, 10) && add_ok(g, -11) && add_ok(h, 12));
            let rhs = <whippyunits_core::dimension_exponents!([-5, 6, -7, 8, -9, 10, -11, 12])>::new();
            let r = (DynDimensionExponents([a, b, c, d, e, f, g, h]) + rhs).0;
            ensures!(eq8(r, [a - 5, b + 6, c - 7, d + 8, e - 9, f + 10, g - 11, h + 12]),
                "product with a type-level dimension has exponents {r:?}");
        }
        fn dim_inverse(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) {
            let v = [a, b, c, d, e, f, g, h];
            requires!(v.iter().all(|x| *x != i16::MIN));
            let r = (-DynDimensionExponents(v)).0;
            ensures!(eq8(r, [-a, -b, -c, -d, -e, -f, -g, -h]), "inverse of {v:?} is {r:?}");
            // a dimension times its inverse is dimensionless
            ensures!((DynDimensionExponents(v) + DynDimensionExponents(r)).is_zero(), "{v:?} * 1/{v:?} is not dimensionless");
        }
        fn dim_is_dimensionless(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) {
            let v = [a, b, c, d, e, f, g, h];
            let z = a == 0 && b == 0 && c == 0 && d == 0 && e == 0 && f == 0 && g == 0 && h == 0;
            ensures!(DynDimensionExponents(v).is_zero() == z, "is_zero({v:?})");
            ensures!(eq8(DynDimensionExponents(v).value().0, v), "value({v:?})");
        }
        // equality of dimensions is equality on every axis
        fn dim_equality(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16,
                        a2: i16, b2: i16, c2: i16, d2: i16, e2: i16, f2: i16, g2: i16, h2: i16) {
            let (x, y) = ([a, b, c, d, e, f, g, h], [a2, b2, c2, d2, e2, f2, g2, h2]);
            ensures!((DynDimensionExponents(x) == DynDimensionExponents(y)) == eq8(x, y), "{x:?} == {y:?}");
        }
        // basis recognition: the eight unit vectors, and only their positions
        fn dim_basis(i: u8) {
            requires!(i < 8);
            let mut v = [0i16; 8];
            v[i as usize] = 1;
            let b = DimensionBasis::ALL[i as usize];
            ensures!(eq8(b.exponents().0, v), "basis {i} has exponents {:?}", b.exponents().0);
            ensures!(DynDimensionExponents(v).as_basis() == Some(b), "basis of {v:?}");
        }
        fn dim_basis_constants() {
            ensures!(eq8(DynDimensionExponents::ZERO.0, [0; 8]));
            ensures!(eq8(DynDimensionExponents::MASS.0, [1, 0, 0, 0, 0, 0, 0, 0]));
            ensures!(eq8(DynDimensionExponents::LENGTH.0, [0, 1, 0, 0, 0, 0, 0, 0]));
            ensures!(eq8(DynDimensionExponents::TIME.0, [0, 0, 1, 0, 0, 0, 0, 0]));
            ensures!(eq8(DynDimensionExponents::CURRENT.0, [0, 0, 0, 1, 0, 0, 0, 0]));
            ensures!(eq8(DynDimensionExponents::TEMPERATURE.0, [0, 0, 0, 0, 1, 0, 0, 0]));
            ensures!(eq8(DynDimensionExponents::AMOUNT.0, [0, 0, 0, 0, 0, 1, 0, 0]));
            ensures!(eq8(DynDimensionExponents::LUMINOSITY.0, [0, 0, 0, 0, 0, 0, 1, 0]));
            ensures!(eq8(DynDimensionExponents::ANGLE.0, [0, 0, 0, 0, 0, 0, 0, 1]));
        }
    }
}

mod scales {
    use super::*;
    use spec::{ensures, requires};
    spec::obligations! {
        fn scale_product(a: i16, b: i16, c: i16, d: i16, a2: i16, b2: i16, c2: i16, d2: i16) {
            requires!(add_ok(a, a2) && add_ok(b, b2) && add_ok(c, c2) && add_ok(d, d2));
            let r = ScaleExponents([a, b, c, d]).mul(ScaleExponents([a2, b2, c2, d2])).0;
            ensures!(eq4(r, [a + a2, b + b2, c + c2, d + d2]), "scale product {r:?}");
        }
        fn scale_power(a: i16, b: i16, c: i16, d: i16, k: i16) {
            requires!(mul_ok(a, k) && mul_ok(b, k) && mul_ok(c, k) && mul_ok(d, k));
            let r = ScaleExponents([a, b, c, d]).scalar_exp(k).0;
            ensures!(eq4(r, [a * k, b * k, c * k, d * k]), "scale power {r:?}");
        }
        fn scale_inverse(a: i16, b: i16, c: i16, d: i16) {
            requires!(a != i16::MIN && b != i16::MIN && c != i16::MIN && d != i16::MIN);
            let s = ScaleExponents([a, b, c, d]);
            ensures!(eq4(s.neg().0, [-a, -b, -c, -d]), "inverse {:?}", s.neg().0);
            ensures!(s.mul(s.neg()) == ScaleExponents::IDENTITY, "a scale times its inverse is not 1");
            // neg is scalar_exp(-1)
            ensures!(s.neg() == s.scalar_exp(-1));
        }
        // every constructor denotes its base to the power: 6 = 2*3 and 10 = 2*5 in prime exponents
        fn scale_constructors(k: i16) {
            ensures!(eq4(ScaleExponents::IDENTITY.0, [0, 0, 0, 0]));
            ensures!(eq4(ScaleExponents::_2(k).0, [k, 0, 0, 0]), "2^{k}");
            ensures!(eq4(ScaleExponents::_3(k).0, [0, k, 0, 0]), "3^{k}");
            ensures!(eq4(ScaleExponents::_5(k).0, [0, 0, k, 0]), "5^{k}");
            ensures!(eq4(ScaleExponents::_Pi(k).0, [0, 0, 0, k]), "pi^{k}");
            ensures!(eq4(ScaleExponents::_6(k).0, [k, k, 0, 0]), "6^{k}");
            ensures!(eq4(ScaleExponents::_10(k).0, [k, 0, k, 0]), "10^{k}");
        }
        // log10 answers exactly on powers of ten
        fn scale_log10(a: i16, b: i16, c: i16, d: i16) {
            let r = ScaleExponents([a, b, c, d]).log10();
            if a == c && b == 0 && d == 0 {
                ensures!(r == Some(a), "log10 of 10^{a} is {r:?}");
            } else {
                ensures!(r.is_none(), "log10 of a non power of ten is {r:?}");
            }
        }
        fn scale_equality(a: i16, b: i16, c: i16, d: i16, a2: i16, b2: i16, c2: i16, d2: i16) {
            let (x, y) = ([a, b, c, d], [a2, b2, c2, d2]);
            ensures!((ScaleExponents(x) == ScaleExponents(y)) == eq4(x, y), "{x:?} == {y:?}");
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[dims::REGISTRY, scales::REGISTRY], &[])
}
