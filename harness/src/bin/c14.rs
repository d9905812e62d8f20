//! C14: a column keeps and reports exactly what was put into it.
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_poly::{
    univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain,
    Polynomial, UVPolynomial,
};
use ark_poly_commit::LabeledCommitment;
use std::collections::BTreeSet;
use zero_over_k::commitment::KZG10Commitment;
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::instance::*;
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;
use zok_harness::*;

type D = GeneralEvaluationDomain<Fr>;
type Com = KZG10Commitment<Bls12_381>;
fn com(k: u64) -> Com {
    ark_poly_commit::kzg10::Commitment(
        <Bls12_381 as PairingEngine>::G1Affine::prime_subgroup_generator()
            .mul(Fr::from(k))
            .into_affine(),
    )
}
fn rots(rng: &mut ChaChaRng, k: usize) -> Vec<Rotation> {
    (0..k)
        .map(|_| Rotation::new(rng.gen_range(0..6), if rng.gen() { Sign::Plus } else { Sign::Minus }))
        .collect()
}
/// everything a prover column reports
fn prover<O: Instantiable<Fr>>(
    r: &mut Report, o: &O, label: &str, p: &DensePolynomial<Fr>, e: &[Fr],
    rot: &BTreeSet<Rotation>, ext: Option<&[Fr]>, hide: bool, what: &str, rng: &mut ChaChaRng,
) {
    let x = Fr::rand(rng);
    let g = guard(|| {
        let l = o.to_labeled();
        o.get_label() == label
            && o.polynomial() == p
            && o.evals() == e
            && o.get_queried_rotations() == rot
            && o.query(&x).ok() == Some(p.evaluate(&x))
            && o.get_extended_coset_evals().ok().map(|v| &v[..]) == ext
            && l.label() == label
            && l.polynomial() == p
            && l.degree_bound().is_none()
            && l.is_hiding() == hide
            && o.get_degree(e.len()) == e.len() - 1
    });
    r.check(what, matches!(g, Ok(true)), || format!("column {} of {} rows, {} rotations", label, e.len(), rot.len()));
}
fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(14);
    for t in 0..r.n(60, 400) {
        let n = 1usize << (t % 5);
        let domain = D::new(n).unwrap();
        let ext = D::new(n << (t % 3)).unwrap();
        let other = D::new(n << 3).unwrap();
        let evals: Vec<Fr> = match t % 4 {
            0 => vec![Fr::zero(); n],
            1 => (0..n).map(|i| Fr::from(i as u64)).collect(),
            _ => (0..n).map(|_| Fr::rand(&mut rng)).collect(),
        };
        let poly = DensePolynomial::from_coefficients_slice(&domain.ifft(&evals));
        let label = format!("col{}", t);
        let cos = ext.coset_fft(&poly);
        let rr = rots(&mut rng, t % 7);
        let perm = t % 2 == 0;
        macro_rules! prover_col {
            ($mk:expr, $hide:expr) => {{
                let mut o = $mk;
                let mut set = BTreeSet::new();
                prover(&mut r, &o, &label, &poly, &evals, &set, None, $hide, "as built", &mut rng);
                for x in &rr {
                    o.register_rotation(*x);
                    set.insert(*x);
                    prover(&mut r, &o, &label, &poly, &evals, &set, None, $hide, "after a rotation", &mut rng);
                }
                let copy = o.clone();
                o.compute_extended_evals(&other);
                let far = other.coset_fft(&poly);
                prover(&mut r, &o, &label, &poly, &evals, &set, Some(&far), $hide, "after other extended values", &mut rng);
                o.compute_extended_evals(&ext);
                prover(&mut r, &o, &label, &poly, &evals, &set, Some(&cos), $hide, "after the extended values", &mut rng);
                prover(&mut r, &copy, &label, &poly, &evals, &set, None, $hide, "the copy stays", &mut rng);
                let copy = o.clone();
                let more = Rotation::new(50, Sign::Plus);
                o.register_rotation(more);
                prover(&mut r, &copy, &label, &poly, &evals, &set, Some(&cos), $hide, "the copy is complete and stays", &mut rng);
                set.insert(more);
                prover(&mut r, &o, &label, &poly, &evals, &set, Some(&cos), $hide, "after all", &mut rng);
            }};
        }
        let w = WitnessProverOracle::new(label.clone(), poly.clone(), &evals, perm);
        r.check("copy flag", w.should_include_in_copy() == perm && w.clone().should_include_in_copy() == perm, || label.clone());
        prover_col!(WitnessProverOracle::new(label.clone(), poly.clone(), &evals, perm), true);
        prover_col!(InstanceProverOracle::new(label.clone(), poly.clone(), &evals), false);
        prover_col!(FixedProverOracle::new(label.clone(), poly.clone(), &evals), false);
        let f = guard(|| FixedProverOracle::from_evals_and_domains(label.clone(), &evals, &domain, &ext));
        if let Ok(f) = f {
            prover(&mut r, &f, &label, &poly, &evals, &BTreeSet::new(), Some(&cos), false, "built from rows", &mut rng);
        } else {
            r.check("built from rows", false, || label.clone());
        }

        // verifier side
        let c = com(t as u64 + 1);
        macro_rules! verifier_col {
            ($mk:expr, $start:expr) => {{
                let mut o = $mk;
                let start: Option<Com> = $start;
                r.check("label", o.get_label() == label, || label.clone());
                r.check("commitment as built", o.get_commitment().ok() == start.as_ref(), || label.clone());
                let mut known: Vec<(Fr, Fr)> = vec![];
                for x in &rr {
                    o.register_rotation(*x);
                }
                let set: BTreeSet<Rotation> = rr.iter().cloned().collect();
                for k in 0..6u64 {
                    let p = if k == 4 { known[1].0 } else { Fr::rand(&mut rng) };
                    let v = Fr::rand(&mut rng);
                    let before = o.clone();
                    let absent = k != 4;
                    r.check("an unregistered point is refused", before.query(&p).is_err() == absent, || label.clone());
                    o.register_eval_at_challenge(p, v);
                    known.retain(|(q, _)| *q != p);
                    known.push((p, v));
                    r.check("the copy stays", before.query(&p).ok() != Some(v), || label.clone());
                    for (q, u) in &known {
                        r.check("a registered evaluation is reported", o.query(q).ok() == Some(*u), || label.clone());
                        r.check("nor a neighbour", o.query(&(*q + Fr::one())).is_err(), || label.clone());
                    }
                    if k == 2 {
                        let before = o.clone();
                        o.register_commitment(c.clone());
                        r.check("the copy's commitment stays", before.get_commitment().ok() == start.as_ref(), || label.clone());
                    }
                    if k == 3 {
                        o = o.clone();
                    }
                    if k >= 2 {
                        r.check("registered commitment", o.get_commitment().ok() == Some(&c), || label.clone());
                    }
                    r.check("rotations and label kept", *o.get_queried_rotations() == set && o.get_label() == label, || label.clone());
                }
                o.register_commitment(com(77));
                r.check("latest commitment", o.get_commitment().ok() == Some(&com(77)), || label.clone());
                r.check("degree", o.get_degree(n) == n - 1, || label.clone());
            }};
        }
        let w = WitnessVerifierOracle::<Fr, KZG>::new(label.clone(), perm);
        r.check("copy flag", w.should_include_in_copy() == perm && w.clone().should_include_in_copy() == perm, || label.clone());
        verifier_col!(WitnessVerifierOracle::<Fr, KZG>::new(label.clone(), perm), None);
        verifier_col!(FixedVerifierOracle::<Fr, KZG>::new(label.clone(), None), None);
        verifier_col!(FixedVerifierOracle::<Fr, KZG>::new(label.clone(), Some(com(5))), Some(com(5)));
        let lc = LabeledCommitment::new(label.clone(), com(6), None);
        verifier_col!(FixedVerifierOracle::<Fr, KZG>::from_labeled_commitment(&lc), Some(com(6)));
        verifier_col!(FixedVerifierOracle::<Fr, KZG>::from_commitment(lc.clone()), Some(com(6)));
        let mut iv = InstanceVerifierOracle::new(label.clone(), poly.clone());
        for x in &rr {
            iv.register_rotation(*x);
        }
        let x = Fr::rand(&mut rng);
        r.check(
            "public column",
            iv.get_label() == label
                && iv.query(&x).ok() == Some(poly.evaluate(&x))
                && *iv.get_queried_rotations() == rr.iter().cloned().collect::<BTreeSet<_>>()
                && iv.get_degree(n) == n - 1,
            || label.clone(),
        );
    }
    // preprocessed columns: what was given, plus the extended values and the
    // rotation at which the verifier always opens the permutation columns
    let (ck, vk) = zok_harness::sys::keys::<zok_harness::ideal::Ideal>(256, 1);
    for t in 0..r.n(8, 60) {
        let sh = zok_harness::sys::Shape { n: 8, blind: 4, inputs: 3, copied: t % 3, gates: 1 + t % 2, degree: 2 + t % 3, looks: 0, width: 1, instances: 0, free: false, max_rot: 1 };
        let sy = zok_harness::sys::generate(&mut rng, &sh);
        let s = match zok_harness::sys::setup::<zok_harness::ideal::Ideal>(&sy, &ck, &vk) {
            Ok(s) => s,
            Err(_) => continue,
        };
        let ext = s.pvk.index_info.extended_coset_domain;
        let domain = D::new(8).unwrap();
        let mut cols = |rng: &mut ChaChaRng, name: &str, k: usize| -> Vec<FixedProverOracle<Fr>> {
            (0..k)
                .map(|i| {
                    let evals: Vec<Fr> = (0..8).map(|_| if t % 4 == 0 { Fr::zero() } else { Fr::rand(rng) }).collect();
                    let p = DensePolynomial::from_coefficients_slice(&domain.ifft(&evals));
                    let mut o = FixedProverOracle::new(format!("{}{}", name, i), p, &evals);
                    for x in rots(rng, i % 3) {
                        o.register_rotation(x);
                    }
                    if i % 2 == 1 {
                        o.compute_extended_evals(&D::new(8).unwrap());
                    }
                    o
                })
                .collect()
        };
        let (f, p, x) = (cols(&mut rng, "f", t % 4), cols(&mut rng, "s", t % 3), cols(&mut rng, "t", (t + 1) % 4));
        let q = cols(&mut rng, "q", 1).pop().unwrap();
        let pre = zero_over_k::data_structures::ProverPreprocessedInput::<Fr, KZG>::new(&f, &p, &x, &q, &s.pvk.index_info);
        r.check("as many columns as were given", pre.fixed_oracles.len() == f.len() && pre.permutation_oracles.len() == p.len() && pre.table_oracles.len() == x.len(), || format!("preprocessed {} {} {}", f.len(), p.len(), x.len()));
        r.check("empty randomness for every fixed column", pre.empty_rands_for_fixed.len() == f.len() + p.len() + x.len() + 1 && pre.empty_rands_for_fixed.iter().all(|x| x.blinding_polynomial.coeffs.is_empty()), || format!("preprocessed {} {} {}", f.len(), p.len(), x.len()));
        let qs = [q];
        let all = f.iter().zip(&pre.fixed_oracles).map(|(a, b)| (a, b, false))
            .chain(p.iter().zip(&pre.permutation_oracles).map(|(a, b)| (a, b, true)))
            .chain(x.iter().zip(&pre.table_oracles).map(|(a, b)| (a, b, false)))
            .chain(qs.iter().map(|a| (a, &pre.q_blind, true)));
        for (a, b, curr) in all {
            let mut set = a.get_queried_rotations().clone();
            if curr {
                set.insert(Rotation::curr());
            }
            let cos = ext.coset_fft(a.polynomial());
            prover(&mut r, b, &a.get_label(), a.polynomial(), a.evals(), &set, Some(&cos), false, "preprocessed", &mut rng);
        }
        let vcols = |name: &str, k: usize| -> Vec<FixedVerifierOracle<Fr, KZG>> {
            (0..k).map(|i| FixedVerifierOracle::new(format!("{}{}", name, i), Some(com(i as u64 + k as u64 * 10)))).collect()
        };
        let same = |a: &[FixedVerifierOracle<Fr, KZG>], b: &[FixedVerifierOracle<Fr, KZG>]| {
            a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| a.get_label() == b.get_label() && a.get_commitment().ok() == b.get_commitment().ok() && a.get_queried_rotations() == b.get_queried_rotations())
        };
        let (f, x, p, q) = (vcols("f", t % 4), vcols("t", (t + 1) % 4), vcols("s", t % 3), FixedVerifierOracle::new("q", Some(com(99))));
        let pre = zero_over_k::data_structures::VerifierPreprocessedInput::<Fr, KZG>::new(f.clone(), x.clone(), p.clone(), q.clone());
        for pre in [&pre, &pre.clone()] {
            r.check("the verifier's preprocessed columns", same(&pre.fixed_oracles, &f) && same(&pre.table_oracles, &x) && same(&pre.permutation_oracles, &p) && same(std::slice::from_ref(&pre.q_blind), std::slice::from_ref(&q)), || format!("{} {} {}", f.len(), x.len(), p.len()));
        }
        let pre = zero_over_k::data_structures::VerifierPreprocessedInput::<Fr, KZG>::new_wo_blind(f.clone(), x.clone(), p.clone());
        r.check("the verifier's preprocessed columns without blinder", same(&pre.fixed_oracles, &f) && same(&pre.table_oracles, &x) && same(&pre.permutation_oracles, &p) && pre.q_blind.get_commitment().ok() == Some(&ark_poly_commit::kzg10::Commitment(<Bls12_381 as PairingEngine>::G1Affine::zero())), || format!("{} {} {}", f.len(), x.len(), p.len()));
    }
    r.note("columns of 1..16 rows (zero, structured and random), up to 6 rotations, registrations in sequence with copies taken in between");
    r.finish()
}
