//! C03: the rational factor between two scales is exact and in lowest terms.
use spec::math::ratio;
use whippyunits::api::aggregate_scale_factor;
use whippyunits::scale_conversion::{pow_pi, pow2, pow3, pow5, reduce_rational};

/// The documented range of the conversion tables.
const MAX2: i32 = 100;
const MAX3: i32 = 80;
const MAX5: i32 = 54;
const MAXPI: i32 = 8;

mod tables {
    use super::*;
    use spec::{ensures, requires};
    #[allow(dead_code)]
    fn in_table(e: i16, max: i32) -> bool { cfg!(kani) || (e as i32 >= -max && e as i32 <= max) }
    // Abstract callees under the verifier; the real ones natively (to replay counterexamples).
    #[cfg(kani)]
    mod callee {
        pub fn contract_reduce(n: i128, d: i128) -> (i128, i128) { (n, d) }
        pub fn contract_pow2(e: i32) -> (i128, i128) { (3 + e as i128, 5 - e as i128) }
        pub fn contract_pow3(e: i32) -> (i128, i128) { if e == 0 { (1, 1) } else { (3 + e as i128, 5 - e as i128) } }
        pub fn contract_pow5(e: i32) -> (i128, i128) { if e == 0 { (1, 1) } else { (3 + e as i128, 5 - e as i128) } }
        pub fn contract_pow_pi(e: i32) -> (i128, i128) { if e == 0 { (1, 1) } else { (3 + e as i128, 5 - e as i128) } }
    }
    #[cfg(not(kani))]
    mod callee {
        pub use whippyunits::scale_conversion::{pow2 as contract_pow2, pow3 as contract_pow3, pow5 as contract_pow5, pow_pi as contract_pow_pi};
    }
    use callee::*;
    // Inductive contracts of the power tables: b^0 = 1, b^(e+1) = b * b^e, b^-e = 1 / b^e.
    spec::obligations! {
        #[kani::solver(z3)]
        fn pow2_table(e: i32) {
            requires!(e >= 0 && e <= MAX2);
            ensures!(pow2(e) == (1i128 << e, 1), "2^{e} = {:?}", pow2(e));
            ensures!(pow2(-e) == (1, 1i128 << e), "2^-{e} = {:?}", pow2(-e));
        }
        #[kani::solver(z3)]
        fn pow3_table(e: i32) {
            requires!(e >= 0 && e < MAX3);
            let (n, d) = pow3(e);
            ensures!(d == 1 && pow3(e + 1) == (n * 3, 1), "3^{} = {:?}", e + 1, pow3(e + 1));
            ensures!(pow3(0) == (1, 1) && pow3(-e) == (1, n), "3^-{e} = {:?}", pow3(-e));
            ensures!(pow3(-e - 1) == (1, n * 3), "3^{} = {:?}", -e - 1, pow3(-e - 1));
        }
        #[kani::solver(z3)]
        fn pow5_table(e: i32) {
            requires!(e >= 0 && e < MAX5);
            let (n, d) = pow5(e);
            ensures!(d == 1 && pow5(e + 1) == (n * 5, 1), "5^{} = {:?}", e + 1, pow5(e + 1));
            ensures!(pow5(0) == (1, 1) && pow5(-e) == (1, n), "5^-{e} = {:?}", pow5(-e));
            ensures!(pow5(-e - 1) == (1, n * 5), "5^{} = {:?}", -e - 1, pow5(-e - 1));
        }
        #[kani::solver(z3)]
        fn pow_pi_table(e: i32) {
            requires!(e >= 0 && e < MAXPI);
            let (n, d) = pow_pi(e);
            ensures!(pow_pi(0) == (1, 1));
            ensures!(pow_pi(e + 1) == (n * 355, d * 113), "pi^{} = {:?}", e + 1, pow_pi(e + 1));
            ensures!(pow_pi(-e) == (d, n), "pi^-{e} = {:?}", pow_pi(-e));
            ensures!(pow_pi(-e - 1) == (d * 113, n * 355), "pi^{} = {:?}", -e - 1, pow_pi(-e - 1));
        }
        // Modular: with the table entry of one axis abstract and the reduction the identity on coprime
        // pairs, the factor of (from, to) is the table entry of (from - to), for all scale exponents.
        #[kani::stub(whippyunits::scale_conversion::reduce_rational, contract_reduce)]
        #[kani::stub(whippyunits::scale_conversion::pow2, contract_pow2)]
        #[kani::solver(z3)]
        fn difference_on_axis_two(from: i16, to: i16) {
            requires!(from.checked_sub(to).is_some() && in_table(from - to, MAX2));
            let got = aggregate_scale_factor(from, 0, 0, 0, to, 0, 0, 0);
            let want = contract_pow2(from as i32 - to as i32);
            ensures!(got == want, "factor of exponents {from} and {to}: {got:?}, the power table says {want:?}");
        }
        #[kani::stub(whippyunits::scale_conversion::reduce_rational, contract_reduce)]
        #[kani::stub(whippyunits::scale_conversion::pow3, contract_pow3)]
        #[kani::solver(z3)]
        fn difference_on_axis_three(from: i16, to: i16) {
            requires!(from.checked_sub(to).is_some() && in_table(from - to, MAX3));
            let got = aggregate_scale_factor(0, from, 0, 0, 0, to, 0, 0);
            let want = contract_pow3(from as i32 - to as i32);
            ensures!(got == want, "factor of exponents {from} and {to}: {got:?}, the power table says {want:?}");
        }
        #[kani::stub(whippyunits::scale_conversion::reduce_rational, contract_reduce)]
        #[kani::stub(whippyunits::scale_conversion::pow5, contract_pow5)]
        #[kani::solver(z3)]
        fn difference_on_axis_five(from: i16, to: i16) {
            requires!(from.checked_sub(to).is_some() && in_table(from - to, MAX5));
            let got = aggregate_scale_factor(0, 0, from, 0, 0, 0, to, 0);
            let want = contract_pow5(from as i32 - to as i32);
            ensures!(got == want, "factor of exponents {from} and {to}: {got:?}, the power table says {want:?}");
        }
        #[kani::stub(whippyunits::scale_conversion::reduce_rational, contract_reduce)]
        #[kani::stub(whippyunits::scale_conversion::pow_pi, contract_pow_pi)]
        #[kani::solver(z3)]
        fn difference_on_axis_pi(from: i16, to: i16) {
            requires!(from.checked_sub(to).is_some() && in_table(from - to, MAXPI));
            let got = aggregate_scale_factor(0, 0, 0, from, 0, 0, 0, to);
            let want = contract_pow_pi(from as i32 - to as i32);
            ensures!(got == want, "factor of exponents {from} and {to}: {got:?}, the power table says {want:?}");
        }
    }
}

#[cfg(not(kani))]
fn agg(v: [i32; 4], to: [i16; 4]) -> (i128, i128) {
    aggregate_scale_factor(
        (to[0] as i32 + v[0]) as i16, (to[1] as i32 + v[1]) as i16,
        (to[2] as i32 + v[2]) as i16, (to[3] as i32 + v[3]) as i16,
        to[0], to[1], to[2], to[3],
    )
}

#[cfg(not(kani))]
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a as i128
}

#[allow(dead_code)]
mod factor {
    #[cfg(not(kani))]
    use super::*;
    spec::evaluated! {
        // Every net exponent vector of the supported range whose ratio fits 128 bits.
        fn every_ratio(ctx) {
            let jobs: Vec<(i32, i32)> = (-MAXPI..=MAXPI).flat_map(|d| (-MAX5..=MAX5).map(move |c| (d, c))).collect();
            let next = std::sync::atomic::AtomicUsize::new(0);
            let out: Vec<(u64, Vec<String>)> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..8).map(|_| s.spawn(|| {
                    let (mut n, mut bad) = (0u64, vec![]);
                    while let Some(&(d, c)) = jobs.get(next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) {
                        for b in -MAX3..=MAX3 {
                            // 2^a only doubles numerator or denominator: the odd part is computed once
                            let Some((on, od)) = ratio(0, b, c, d) else { continue };
                            for a in -MAX2..=MAX2 {
                                if ratio(a, b, c, d).is_none() { continue }
                                let want = if a >= 0 { (on << a, od) } else { (on, od << -a) };
                                n += 1;
                                let got = agg([a, b, c, d], [0; 4]);
                                if got != want && bad.len() < 20 {
                                    bad.push(format!("2^{a} 3^{b} 5^{c} pi^{d}: got {got:?}, exactly {want:?}"));
                                }
                            }
                        }
                    }
                    (n, bad)
                })).collect();
                hs.into_iter().map(|h| h.join().unwrap_or((0, vec!["panicked on a representable ratio".into()]))).collect()
            });
            for (n, bad) in out {
                ctx.cases += n;
                ctx.fails.extend(bad);
            }
        }
        // Outside the representable range the conversion must stop rather than produce a wrong factor.
        fn unrepresentable_ratios_are_rejected(ctx) {
            for axis in 0..4 {
                let lim = [127, 81, 55, 16][axis];
                for e in [lim, lim + 1, lim + 40, 500, -lim, -lim - 1, -500, 3000, -3000] {
                    let mut v = [0; 4];
                    v[axis] = e;
                    ctx.case(|| format!("axis {axis} exponent {e} gave a factor"), spec::nd::panics(|| { std::hint::black_box(agg(v, [0; 4])); }));
                }
            }
        }
        // Only the difference between the scales matters.
        fn bounded_only_the_difference_matters(ctx) {
            let mut r = ctx.rng();
            let n = if ctx.thorough { 3_000_000 } else { 300_000 };
            for _ in 0..n {
                let v = [r.below(81) as i32 - 40, r.below(41) as i32 - 20, r.below(41) as i32 - 20, r.below(9) as i32 - 4];
                let Some(want) = ratio(v[0], v[1], v[2], v[3]) else { continue };
                let to = [(); 4].map(|_| r.below(20001) as i16 - 10000);
                ctx.run(|| format!("ratio {v:?} from base {to:?}"), || {
                    let got = agg(v, to);
                    if got == want { Ok(()) } else { Err(format!("got {got:?}, exactly {want:?}")) }
                });
            }
        }
        // Reduction itself, on every pair of small integers and on random wide ones.
        fn bounded_reduction_to_lowest_terms(ctx) {
            let check = |ctx: &mut spec::nd::Ctx, n: i128, d: i128| ctx.run(|| format!("{n}/{d}"), || {
                let g = gcd(n, d);
                let got = reduce_rational(n, d);
                if got == (n / g, d / g) { Ok(()) } else { Err(format!("reduced to {got:?}")) }
            });
            let m = if ctx.thorough { 2000 } else { 700 };
            for n in -m..=m {
                for d in 1..=m {
                    if n != 0 { check(ctx, n, d) }
                }
            }
            let mut r = ctx.rng();
            for _ in 0..200_000 {
                let g = r.below(1 << 20) as i128 + 1;
                let n = ((r.next() as i128) << r.below(40)) * 3 + 1;
                let d = (r.next() >> r.below(40)) as i128 + 1;
                check(ctx, n.wrapping_mul(g) >> 8 | 1, d.wrapping_mul(g) | 1);
            }
        }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[tables::REGISTRY], &[factor::EVALUATED])
}
