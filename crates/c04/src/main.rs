//! C04: the floating point factor between two scales is accurate, and exact where it can be.
use whippyunits::api::aggregate_scale_factor_float;
#[cfg(not(kani))]
use spec::math::{Dd, PI_DD, close};

mod wiring {
    use super::*;
    use spec::{ensures, math::same_f64, requires};
    // Abstract power tables under the verifier; the real ones natively (to replay counterexamples).
    #[cfg(kani)]
    mod callee {
        fn t(e: i32) -> f64 { if e == 0 { 1.0 } else { e as f64 + 0.5 } }
        pub fn contract_pow2_float(e: i32) -> f64 { t(e) }
        pub fn contract_pow3_float(e: i32) -> f64 { t(e) }
        pub fn contract_pow5_float(e: i32) -> f64 { t(e) }
        pub fn contract_pow_pi_float(e: i32) -> f64 { t(e) }
    }
    #[cfg(not(kani))]
    mod callee {
        pub use whippyunits::scale_conversion::{pow2_float as contract_pow2_float, pow3_float as contract_pow3_float,
            pow5_float as contract_pow5_float, pow_pi_float as contract_pow_pi_float};
    }
    use callee::*;
    // Modular: with the table entry of one axis abstract, the factor of (from, to) is exactly the table
    // entry of (from - to), for all scale exponents.
    spec::obligations! {
        #[kani::stub(whippyunits::scale_conversion::pow2_float, contract_pow2_float)]
        fn difference_on_axis_two(from: i16, to: i16) {
            requires!(from.checked_sub(to).is_some());
            let got = aggregate_scale_factor_float(from, 0, 0, 0, to, 0, 0, 0);
            ensures!(same_f64(got, contract_pow2_float(from as i32 - to as i32)), "factor of 2^{from} and 2^{to}: {got}");
        }
        #[kani::stub(whippyunits::scale_conversion::pow3_float, contract_pow3_float)]
        fn difference_on_axis_three(from: i16, to: i16) {
            requires!(from.checked_sub(to).is_some());
            let got = aggregate_scale_factor_float(0, from, 0, 0, 0, to, 0, 0);
            ensures!(same_f64(got, contract_pow3_float(from as i32 - to as i32)), "factor of 3^{from} and 3^{to}: {got}");
        }
        #[kani::stub(whippyunits::scale_conversion::pow5_float, contract_pow5_float)]
        fn difference_on_axis_five(from: i16, to: i16) {
            requires!(from.checked_sub(to).is_some());
            let got = aggregate_scale_factor_float(0, 0, from, 0, 0, 0, to, 0);
            ensures!(same_f64(got, contract_pow5_float(from as i32 - to as i32)), "factor of 5^{from} and 5^{to}: {got}");
        }
        #[kani::stub(whippyunits::scale_conversion::pow_pi_float, contract_pow_pi_float)]
        fn difference_on_axis_pi(from: i16, to: i16) {
            requires!(from.checked_sub(to).is_some());
            let got = aggregate_scale_factor_float(0, 0, 0, from, 0, 0, 0, to);
            ensures!(same_f64(got, contract_pow_pi_float(from as i32 - to as i32)), "factor of pi^{from} and pi^{to}: {got}");
        }
        // equal scales: the factor is exactly 1, whatever the exponents
        #[kani::stub(whippyunits::scale_conversion::pow2_float, contract_pow2_float)]
        #[kani::stub(whippyunits::scale_conversion::pow3_float, contract_pow3_float)]
        #[kani::stub(whippyunits::scale_conversion::pow5_float, contract_pow5_float)]
        #[kani::stub(whippyunits::scale_conversion::pow_pi_float, contract_pow_pi_float)]
        fn identity_is_exactly_one(a: i16, b: i16, c: i16, d: i16) {
            let got = aggregate_scale_factor_float(a, b, c, d, a, b, c, d);
            ensures!(got == 1.0, "factor between equal scales is {got}");
        }
    }
}

#[cfg(not(kani))]
const TOL: f64 = 1e-13;
#[cfg(not(kani))]
fn agg(v: [i32; 4], to: [i16; 4]) -> f64 {
    aggregate_scale_factor_float(
        (to[0] as i32 + v[0]) as i16, (to[1] as i32 + v[1]) as i16,
        (to[2] as i32 + v[2]) as i16, (to[3] as i32 + v[3]) as i16,
        to[0], to[1], to[2], to[3],
    )
}

#[allow(dead_code)]
mod factor {
    #[cfg(not(kani))]
    use super::*;
    #[cfg(not(kani))]
    fn table(base: Dd, n: i32) -> Vec<Dd> {
        (-n..=n).map(|e| base.powi(e)).collect()
    }
    spec::evaluated! {
        // Every net exponent vector with |e| <= 100 (8 for pi): within TOL of the exact factor, and
        // exactly it when it is a whole number below 2^53.
        fn every_factor(ctx) {
            let (t2, t3, t5, tp) = (table(Dd::from(2.0), 100), table(Dd::from(3.0), 100), table(Dd::from(5.0), 100), table(PI_DD, 8));
            let jobs: Vec<(i32, i32)> = (-8..=8).flat_map(|d| (-100..=100).map(move |c| (d, c))).collect();
            let next = std::sync::atomic::AtomicUsize::new(0);
            let out: Vec<(u64, Vec<String>)> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..8).map(|_| s.spawn(|| {
                    let (mut n, mut bad) = (0u64, vec![]);
                    while let Some(&(d, c)) = jobs.get(next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) {
                        let cd = t5[(c + 100) as usize].mul(tp[(d + 8) as usize]);
                        for b in -100..=100i32 {
                            let bcd = cd.mul(t3[(b + 100) as usize]);
                            for a in -100..=100i32 {
                                let want = bcd.mul(t2[(a + 100) as usize]).f();
                                let got = agg([a, b, c, d], [0; 4]);
                                n += 1;
                                let exact = d == 0 && a >= 0 && b >= 0 && c >= 0 && want <= 9007199254740992.0;
                                if (if exact { got != want } else { !close(got, want, TOL) }) && bad.len() < 20 {
                                    bad.push(format!("2^{a} 3^{b} 5^{c} pi^{d}: got {got:e}, want {want:e}"));
                                }
                            }
                        }
                    }
                    (n, bad)
                })).collect();
                hs.into_iter().map(|h| h.join().unwrap_or((0, vec!["panicked".into()]))).collect()
            });
            for (n, bad) in out {
                ctx.cases += n;
                ctx.fails.extend(bad);
            }
        }
        // Each axis alone far beyond the tables, up to the range of f64.
        fn every_axis_to_the_limits(ctx) {
            for (axis, base, lim) in [(0, Dd::from(2.0), 1000), (1, Dd::from(3.0), 640), (2, Dd::from(5.0), 438), (3, PI_DD, 610)] {
                for e in -lim..=lim {
                    let mut v = [0; 4];
                    v[axis] = e;
                    let want = base.powi(e).f();
                    ctx.run(|| format!("axis {axis} exponent {e}"), || {
                        let got = agg(v, [0; 4]);
                        if close(got, want, TOL) { Ok(()) } else { Err(format!("got {got:e}, want {want:e}")) }
                    });
                }
            }
        }
        // Powers of ten between SI prefixes: exact upwards, correctly rounded downwards (to 10^22).
        fn powers_of_ten(ctx) {
            for k in -60..=60i32 {
                let want: f64 = format!("1e{k}").parse().unwrap();
                let got = agg([k, 0, k, 0], [0; 4]);
                let ok = if k.abs() <= 22 { got == want } else { close(got, want, 1e-14) };
                ctx.case(|| format!("10^{k}: got {got:e}"), ok);
            }
        }
        fn bounded_only_the_difference_matters(ctx) {
            let mut r = ctx.rng();
            for _ in 0..(if ctx.thorough { 5_000_000 } else { 500_000 }) {
                let v = [r.below(201) as i32 - 100, r.below(201) as i32 - 100, r.below(201) as i32 - 100, r.below(17) as i32 - 8];
                let to = [(); 4].map(|_| r.below(20001) as i16 - 10000);
                let (got, want) = (agg(v, to), agg(v, [0; 4]));
                ctx.case(|| format!("{v:?} from base {to:?}: {got:e}, from 0: {want:e}"), got.to_bits() == want.to_bits());
                // reciprocal
                let back = agg(v.map(|e| -e), to);
                ctx.case(|| format!("{v:?} there and back: {got:e} * {back:e}"), close(got * back, 1.0, 2.0 * TOL));
            }
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[wiring::REGISTRY], &[factor::EVALUATED])
}
