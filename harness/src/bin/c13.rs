//! C13: commitment arithmetic mirrors polynomial arithmetic.
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_poly::{univariate::DensePolynomial, UVPolynomial};
use ark_poly_commit::{kzg10, LabeledPolynomial, PCRandomness, PolynomialCommitment};
use zero_over_k::commitment::{HomomorphicCommitment, KZG10Commitment};
use zok_harness::sys::keys;
use zok_harness::*;

type P = DensePolynomial<Fr>;
type Com = KZG10Commitment<Bls12_381>;
type Rd = kzg10::Randomness<Fr, P>;
type CK = <KZG as PolynomialCommitment<Fr, P>>::CommitterKey;
type G1 = <Bls12_381 as PairingEngine>::G1Projective;

/// the polynomial without leading zeros
fn canon(p: P) -> P {
    P::from_coefficients_vec(p.coeffs)
}
/// the commitment to p hidden by q, straight from the key
fn commits(ck: &CK, p: &P, q: &P) -> Com {
    let mut acc = G1::zero();
    for (c, g) in p.coeffs.iter().zip(&ck.powers_of_g) {
        acc += g.mul(*c);
    }
    for (c, g) in q.coeffs.iter().zip(&ck.powers_of_gamma_g) {
        acc += g.mul(*c);
    }
    kzg10::Commitment(acc.into_affine())
}
fn poly(rng: &mut ChaChaRng, kind: usize) -> P {
    match kind % 5 {
        0 => P::from_coefficients_vec(vec![]),
        1 => P::from_coefficients_vec(vec![Fr::rand(rng)]),
        2 => P::from_coefficients_vec(vec![Fr::zero(), Fr::zero(), Fr::one()]),
        _ => P::rand(1 + (rng.next_u64() % 12) as usize, rng),
    }
}
fn scalar(rng: &mut ChaChaRng, kind: usize) -> Fr {
    match kind % 6 {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => -Fr::one(),
        3 => Fr::from(2u64),
        _ => Fr::rand(rng),
    }
}
fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(13);
    let (ck, _) = keys::<KZG>(16, 5);
    let rd = |q: &P| {
        let mut x = Rd::empty();
        x.blinding_polynomial = q.clone();
        x
    };
    let none = P::from_coefficients_vec(vec![]);
    for t in 0..r.n(60, 600) {
        let hiding = t % 2 == 0;
        let lp = |p: &P| LabeledPolynomial::new("p".into(), p.clone(), None, if hiding { Some(1) } else { None });
        let (p1, p2) = (poly(&mut rng, t / 2), poly(&mut rng, t / 3));
        let (cs, rs) = KZG::commit(&ck, &[lp(&p1), lp(&p2)], Some(&mut rng)).unwrap();
        let (c1, c2) = (cs[0].commitment().clone(), cs[1].commitment().clone());
        let (q1, q2) = (rs[0].blinding_polynomial.clone(), rs[1].blinding_polynomial.clone());
        let s = scalar(&mut rng, t);
        let inp = || format!("case {}: polynomials of {} and {} coefficients, scalar {}, hiding {}", t, p1.coeffs.len(), p2.coeffs.len(), s, hiding);
        r.check("a commitment is what the key makes of polynomial and randomness", c1 == commits(&ck, &p1, &q1) && c2 == commits(&ck, &p2, &q2), inp);
        let got = guard(|| KZG::scale_com(&c1, s));
        r.check("a scaled commitment commits to the scaled polynomial", got == Ok(commits(&ck, &(&p1 * s), &(&q1 * s))), inp);
        let got = guard(|| KZG::add(&c1, &c2));
        r.check("a sum of commitments commits to the sum", got == Ok(commits(&ck, &(&p1 + &p2), &(&q1 + &q2))), inp);
        let got = guard(|| KZG::neg_com(&c1));
        r.check("a negated commitment commits to the negated polynomial", got == Ok(commits(&ck, &(&p1 * -Fr::one()), &(&q1 * -Fr::one()))), inp);
        let got = guard(|| KZG::scale_rand(&rd(&q1), s).blinding_polynomial);
        r.check("scaled randomness", got == Ok(&q1 * s), inp);
        let got = guard(|| KZG::add_rands(&rd(&q1), &rd(&q2)).blinding_polynomial);
        r.check("added randomness", got == Ok(&q1 + &q2), inp);
        let got = guard(|| {
            let mut a = rd(&q1);
            KZG::add_assign_rand(&mut a, &rd(&q2));
            a.blinding_polynomial
        });
        r.check("randomness added in place", got == Ok(&q1 + &q2), inp);
        // randomness of any two lengths
        let (b1, b2) = (poly(&mut rng, t / 5), poly(&mut rng, t));
        for (b1, b2) in [(&b1, &b2), (&q1, &b2), (&b1, &q2), (&b1, &(&none - &b1))] {
            let inp = || format!("case {}: randomness of {} and {} coefficients, scalar {}", t, b1.coeffs.len(), b2.coeffs.len(), s);
            let got = guard(|| KZG::add_rands(&rd(b1), &rd(b2)).blinding_polynomial);
            r.check("added randomness of two lengths", got.map(canon) == Ok(canon(b1 + b2)), inp);
            let got = guard(|| {
                let mut a = rd(b1);
                KZG::add_assign_rand(&mut a, &rd(b2));
                a.blinding_polynomial
            });
            r.check("randomness of two lengths added in place", got.map(canon) == Ok(canon(b1 + b2)), inp);
            let got = guard(|| KZG::scale_rand(&rd(b1), s).blinding_polynomial);
            r.check("scaled randomness of any length", got.map(canon) == Ok(canon(b1 * s)), inp);
        }
        let z = commits(&ck, &none, &none);
        r.check("the commitment of nothing", guard(KZG::zero_comm) == Ok(z.clone()), inp);
        r.check("zero is zero", guard(|| KZG::is_zero(&z)) == Ok(true), inp);
        let d = KZG::add(&c1, &KZG::neg_com(&c1));
        r.check("a difference with itself is zero", guard(|| KZG::is_zero(&d)) == Ok(true), inp);
        r.check("zero test", guard(|| KZG::is_zero(&c1)) == Ok(c1 == z), inp);
        r.check("equality test", guard(|| KZG::eq_cm(&c1, &c2)) == Ok(c1 == c2), inp);
        r.check("equality with itself", guard(|| KZG::eq_cm(&c1, &c1.clone())) == Ok(true), inp);
        let n = KZG::neg_com(&c1);
        r.check("a commitment and its negation differ", guard(|| KZG::eq_cm(&c1, &n)) == Ok(c1 == z), inp);
        // combinations
        let k = t % 7;
        let ps: Vec<P> = (0..k).map(|i| poly(&mut rng, t + i)).collect();
        let lps: Vec<_> = ps.iter().map(lp).collect();
        let (mut cs, mut qs) = (vec![], vec![]);
        if k > 0 {
            let (c, q) = KZG::commit(&ck, &lps, Some(&mut rng)).unwrap();
            cs = c.iter().map(|c| c.commitment().clone()).collect();
            qs = q.iter().map(|q| q.blinding_polynomial.clone()).collect();
        }
        let ss: Vec<Fr> = (0..k).map(|i| scalar(&mut rng, t / 7 + i)).collect();
        let (mut p, mut q) = (none.clone(), none.clone());
        for i in 0..k {
            p = &p + &(&ps[i] * ss[i]);
            q = &q + &(&qs[i] * ss[i]);
        }
        let got = guard(|| KZG::msm(&cs, &ss));
        r.check("a combination of commitments commits to the combination", got == Ok(commits(&ck, &p, &q)), || {
            format!("case {}: {} terms with scalars {:?}, hiding {}", t, k, ss.iter().map(|s| s.to_string()).collect::<Vec<_>>(), hiding)
        });
    }
    r.finish()
}
