//! C04: one rotation, three views.
use ark_poly::{
    univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain,
    Polynomial, UVPolynomial,
};
use zero_over_k::oracles::fixed::FixedProverOracle;
use zero_over_k::oracles::instance::InstanceProverOracle;
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::{ConcreteOracle, Instantiable, QuerySetProvider};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zok_harness::*;

type D = GeneralEvaluationDomain<Fr>;

fn shift(k: usize, minus: bool, n: usize) -> usize {
    if minus {
        (n - k % n) % n
    } else {
        k % n
    }
}
fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(4);
    for &n in &[1usize, 2, 4, 8, 16, 64] {
        let domain = D::new(n).unwrap();
        let omegas: Vec<Fr> = domain.elements().collect();
        let w = domain.element(1);
        for &scale in &[1usize, 2, 4, 8, 16, 32] {
            if n * scale > 256 {
                continue;
            }
            let ext = D::new(n * scale).unwrap();
            let evals: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut rng)).collect();
            let poly = DensePolynomial::from_coefficients_slice(&domain.ifft(&evals));
            let mut wit = WitnessProverOracle::new("w", poly.clone(), &evals, false);
            let mut ins = InstanceProverOracle::new("i", poly.clone(), &evals);
            let mut fix = FixedProverOracle::new("f", poly.clone(), &evals);
            let r0 = guard(|| (wit.query_in_coset(0, Rotation::curr()).is_err(), fix.query_in_coset(0, Rotation::next()).is_err()));
            r.check("no extended values, no coset query", matches!(r0, Ok((true, true))), || format!("n={}", n));
            wit.compute_extended_evals(&ext);
            ins.compute_extended_evals(&ext);
            fix.compute_extended_evals(&ext);
            let fix2 = FixedProverOracle::from_evals_and_domains("f2".into(), &evals, &domain, &ext);
            let g = Fr::multiplicative_generator();
            for k in [0usize, 1, 2, 3, n - 1, n, n + 1, 2 * n, 2 * n + 1, 3 * n - 1, 5 * n + 3] {
                for minus in [false, true] {
                    let rot = Rotation::new(k, if minus { Sign::Minus } else { Sign::Plus });
                    let s = shift(k, minus, n);
                    let inp = |i: usize| format!("domain of {} rows, extended by {}, rotation {}{}, index {}", n, scale, if minus { "-" } else { "+" }, k, i);
                    for i in 0..n {
                        let o = guard(|| {
                            (
                                wit.query_at_omega_in_original_domain(i, rot),
                                ins.query_at_omega_in_original_domain(i, rot),
                                fix.query_at_omega_in_original_domain(i, rot),
                            )
                        });
                        let want = evals[(i + s) % n];
                        r.check("row view", matches!(o, Ok((a, b, c)) if a == want && b == want && c == want), || inp(i));
                    }
                    for j in 0..n * scale {
                        let p = g * ext.element(j) * w.pow([s as u64]);
                        let want = poly.evaluate(&p);
                        let o = guard(|| {
                            [
                                wit.query_in_coset(j, rot).ok(),
                                ins.query_in_coset(j, rot).ok(),
                                fix.query_in_coset(j, rot).ok(),
                                fix2.query_in_coset(j, rot).ok(),
                            ]
                        });
                        r.check("coset view", matches!(o, Ok(v) if v.iter().all(|x| *x == Some(want))), || inp(j));
                    }
                    let x = Fr::rand(&mut rng);
                    let want = x * w.pow([s as u64]);
                    let o = guard(|| (rot.compute_evaluation_point(x, &omegas), rot.get_point_info("xi", x, &omegas).1));
                    r.check("opening point", matches!(o, Ok((a, b)) if a == want && b == want), || inp(0));
                    let mut wv = WitnessVerifierOracle::<Fr, KZG>::new("w", false);
                    wit.register_rotation(rot);
                    wv.register_rotation(rot);
                    let q = guard(|| wv.get_query_set("xi", x, &omegas));
                    r.check("opening set of the verifier's column", matches!(q, Ok(q) if q.len() == 1 && q.iter().all(|(l, (_, p))| l == "w" && *p == want)), || inp(0));
                }
            }
            let x = Fr::rand(&mut rng);
            let q = guard(|| wit.get_query_set("xi", x, &omegas));
            if let Ok(q) = q {
                let mut got: Vec<Fr> = q.iter().map(|(_, (_, p))| *p).collect();
                got.sort();
                let mut want: Vec<Fr> = wit
                    .get_queried_rotations()
                    .iter()
                    .map(|t| t.compute_evaluation_point(x, &omegas))
                    .collect();
                want.sort();
                got.dedup();
                want.dedup();
                r.check("opening set of a column", got == want, || format!("n={}", n));
            } else {
                r.check("opening set of a column: panics", false, || format!("n={}", n));
            }
            // Lagrange form
            let l = domain.evaluate_all_lagrange_coefficients(x);
            let v = guard(|| ins.query_in_evals_form(&l));
            r.check("Lagrange form", matches!(v, Ok(v) if v == poly.evaluate(&x)), || format!("n={}", n));
        }
    }
    // tall columns: every shift, a few rows
    for &(n, scale) in &[(512usize, 2usize), (2048, 1), (1 << 16, 1)] {
        let domain = D::new(n).unwrap();
        let ext = D::new(n * scale).unwrap();
        let omegas: Vec<Fr> = domain.elements().collect();
        let evals: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut rng)).collect();
        let poly = DensePolynomial::from_coefficients_slice(&domain.ifft(&evals));
        let mut wit = WitnessProverOracle::new("w", poly.clone(), &evals, false);
        let mut ins = InstanceProverOracle::new("i", poly.clone(), &evals);
        let mut fix = FixedProverOracle::new("f", poly.clone(), &evals);
        wit.compute_extended_evals(&ext);
        ins.compute_extended_evals(&ext);
        fix.compute_extended_evals(&ext);
        let coset = ext.coset_fft(&poly);
        let ks: Vec<usize> = if n <= 512 { (0..2 * n + 3).collect() } else { (0..300).map(|_| rng.gen_range(0..3 * n)).collect() };
        for k in ks {
            for minus in [false, true] {
                let rot = Rotation::new(k, if minus { Sign::Minus } else { Sign::Plus });
                let s = shift(k, minus, n);
                let inp = |i: usize| format!("domain of {} rows, extended by {}, rotation {}{}, index {}", n, scale, if minus { "-" } else { "+" }, k, i);
                for i in [0, 1, rng.gen_range(0..n), n - 2, n - 1] {
                    let o = guard(|| {
                        (
                            wit.query_at_omega_in_original_domain(i, rot),
                            ins.query_at_omega_in_original_domain(i, rot),
                            fix.query_at_omega_in_original_domain(i, rot),
                        )
                    });
                    let want = evals[(i + s) % n];
                    r.check("row view", matches!(o, Ok((a, b, c)) if a == want && b == want && c == want), || inp(i));
                }
                let m = n * scale;
                for j in [0, 1, rng.gen_range(0..m), m - 2, m - 1] {
                    let want = coset[(j + s * scale) % m];
                    let o = guard(|| [wit.query_in_coset(j, rot).ok(), ins.query_in_coset(j, rot).ok(), fix.query_in_coset(j, rot).ok()]);
                    r.check("coset view", matches!(o, Ok(v) if v.iter().all(|x| *x == Some(want))), || inp(j));
                }
                let x = Fr::rand(&mut rng);
                let want = x * omegas[s];
                let o = guard(|| (rot.compute_evaluation_point(x, &omegas), rot.get_point_info("xi", x, &omegas).1));
                r.check("opening point", matches!(o, Ok((a, b)) if a == want && b == want), || inp(0));
            }
        }
    }
    let c = Rotation::curr();
    let ok = {
        let om: Vec<Fr> = D::new(8).unwrap().elements().collect();
        let x = Fr::from(7u64);
        c.compute_evaluation_point(x, &om) == x
            && Rotation::next().compute_evaluation_point(x, &om) == x * om[1]
            && Rotation::prev().compute_evaluation_point(x, &om) == x * om[7]
    };
    r.check("current, next and previous", ok, || "n=8".into());
    r.note("domains of 512, 2048 and 65536 rows at sampled shifts and indices; domains of 1..64 rows, extension 1..32, shifts up to 5n+3 in both directions, every index");
    r.finish()
}
