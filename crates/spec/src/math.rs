//! The mathematics of prime-exponent scales: 2^a 3^b 5^c pi^d.

/// `base^e` or None when it does not fit `i128`.
pub const fn ipow(base: i128, e: u32) -> Option<i128> {
    let mut r: i128 = 1;
    let mut i = 0;
    while i < e {
        match r.checked_mul(base) {
            Some(x) => r = x,
            None => return None,
        }
        i += 1;
    }
    Some(r)
}

/// The exact ratio, in lowest terms, of the scale `2^a 3^b 5^c (355/113)^d`; None when the numerator
/// or denominator (before cancellation of 5s between 5^c and 355^d) does not fit `i128`.
/// 355 = 5 * 71 and 113 is prime, so the only possible common factors are powers of 5.
pub fn ratio(a: i32, b: i32, c: i32, d: i32) -> Option<(i128, i128)> {
    let mut num: i128 = 1;
    let mut den: i128 = 1;
    let mut mul = |base: i128, e: i32| -> Option<()> {
        let p = ipow(base, e.unsigned_abs())?;
        if e >= 0 {
            num = num.checked_mul(p)?;
        } else {
            den = den.checked_mul(p)?;
        }
        Some(())
    };
    mul(2, a)?;
    mul(3, b)?;
    mul(5, c)?;
    if d != 0 {
        let p = ipow(355, d.unsigned_abs())?;
        let q = ipow(113, d.unsigned_abs())?;
        let (p, q) = if d > 0 { (p, q) } else { (q, p) };
        num = num.checked_mul(p)?;
        den = den.checked_mul(q)?;
    }
    while num % 5 == 0 && den % 5 == 0 {
        num /= 5;
        den /= 5;
    }
    Some((num, den))
}

/// Double-double arithmetic (about 31 significant digits): the reference for float factors.
#[derive(Clone, Copy, Debug)]
pub struct Dd(pub f64, pub f64);

fn two_sum(a: f64, b: f64) -> Dd {
    let s = a + b;
    let bb = s - a;
    Dd(s, (a - (s - bb)) + (b - bb))
}
fn two_prod(a: f64, b: f64) -> Dd {
    let p = a * b;
    Dd(p, a.mul_add(b, -p))
}
impl Dd {
    pub fn from(a: f64) -> Dd {
        Dd(a, 0.0)
    }
    pub fn mul(self, o: Dd) -> Dd {
        let p = two_prod(self.0, o.0);
        two_sum(p.0, p.1 + self.0 * o.1 + self.1 * o.0)
    }
    pub fn add(self, o: Dd) -> Dd {
        let s = two_sum(self.0, o.0);
        two_sum(s.0, s.1 + self.1 + o.1)
    }
    pub fn div(self, o: Dd) -> Dd {
        let q1 = self.0 / o.0;
        let r = self.add(o.mul(Dd::from(-q1)));
        let q2 = r.0 / o.0;
        let r2 = r.add(o.mul(Dd::from(-q2)));
        let q3 = r2.0 / o.0;
        two_sum(q1, q2).add(Dd::from(q3))
    }
    pub fn powi(self, e: i32) -> Dd {
        let mut r = Dd::from(1.0);
        for _ in 0..e.unsigned_abs() {
            r = r.mul(self);
        }
        if e < 0 { Dd::from(1.0).div(r) } else { r }
    }
    pub fn f(self) -> f64 {
        self.0 + self.1
    }
}
pub const PI_DD: Dd = Dd(3.141592653589793, 1.2246467991473532e-16);

/// 2^a 3^b 5^c pi^d, correctly to well below 1e-28 relative (magnitudes within f64 range).
pub fn scale_dd(s: [i32; 4]) -> Dd {
    Dd::from(2.0)
        .powi(s[0])
        .mul(Dd::from(3.0).powi(s[1]))
        .mul(Dd::from(5.0).powi(s[2]))
        .mul(PI_DD.powi(s[3]))
}
pub fn scale_f64(s: [i16; 4]) -> f64 {
    // interleave 2s and 5s to stay within range for large powers of ten
    scale_dd([s[0] as i32, s[1] as i32, s[2] as i32, s[3] as i32]).f()
}

/// `|got - want| <= tol * |want|`, with equality required for non-finite and zero `want`.
pub fn close(got: f64, want: f64, tol: f64) -> bool {
    if want.is_nan() {
        return got.is_nan();
    }
    if want.is_infinite() || want == 0.0 {
        return got == want;
    }
    (got - want).abs() <= tol * want.abs()
}

/// Same value, treating every NaN as equal (the payload of a NaN is not specified by the language).
pub fn same_f64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn same_f32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
