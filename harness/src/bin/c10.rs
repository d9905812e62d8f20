//! C10: batched openings accept exactly the claimed evaluations
use ark_ff::to_bytes;
use ark_poly::{EvaluationDomain, Polynomial, UVPolynomial};
use ark_poly_commit::{LabeledPolynomial, PolynomialCommitment};
use std::collections::BTreeSet;
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::multiproof::piop::Multiopen;
use zero_over_k::multiproof::Proof;
use zero_over_k::oracles::traits::{CommittedOracle, ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::rng::FiatShamirRng;
use zok_harness::ideal::*;
use zok_harness::sys::*;
use zok_harness::*;
#[path = "../common/linear.rs"]
mod linear;
use linear::*;

struct Case<PC: HomomorphicCommitment<Fr>> {
    n: usize,
    xi: Fr,
    polys: Vec<Poly>,
    rots: Vec<BTreeSet<i64>>,
    cms: Vec<PC::Commitment>,
    rands: Vec<PC::Randomness>,
}
fn pt(n: usize, xi: Fr, r: i64) -> Fr {
    xi * D::new(n).unwrap().element(r.rem_euclid(n as i64) as usize)
}
fn dup<PC: HomomorphicCommitment<Fr>>(p: &Proof<Fr, PC>) -> Proof<Fr, PC> {
    Proof { q_evals: p.q_evals.clone(), f_commit: p.f_commit.clone(), opening_proof: p.opening_proof.clone() }
}
fn case<PC: HomomorphicCommitment<Fr>>(rng: &mut ChaChaRng, ck: &PC::CommitterKey, hide: bool, big: bool) -> Case<PC> {
    // now and then one large group, or many groups
    let n = if big { 16 } else { [4usize, 8, 16][pick(rng, 3)] };
    let k = if big { 9 + pick(rng, 12) } else { 1 + pick(rng, 7) };
    let sets = if !big { 1 + pick(rng, k.min(4)) } else if pick(rng, 2) == 0 { 1 } else { k };
    let lim = (n as i64) / 2 - 1;
    let fam: Vec<BTreeSet<i64>> = (0..sets)
        .map(|i| {
            if i == 0 && pick(rng, 2) == 0 {
                return [0].into();
            }
            // many groups are all different
            let size = if big && sets > 1 { 2 } else { pick(rng, 4) };
            (0..size).map(|_| pick(rng, 2 * lim as usize + 1) as i64 - lim).collect()
        })
        .collect();
    let polys: Vec<Poly> = (0..k)
        .map(|_| match pick(rng, 8) {
            0 => Poly::from_coefficients_vec(vec![Fr::rand(rng)]),
            1 => Poly::from_coefficients_vec(vec![]),
            _ => Poly::rand(n - 1, rng),
        })
        .collect();
    let rots = (0..k).map(|i| if sets == k { fam[i].clone() } else { fam[pick(rng, sets)].clone() }).collect();
    let lab: Vec<LabeledPolynomial<Fr, Poly>> = polys
        .iter()
        .enumerate()
        .map(|(i, p)| LabeledPolynomial::new(format!("p{}", i), p.clone(), None, if hide && i % 2 == 0 { Some(1) } else { None }))
        .collect();
    let (c, rands) = PC::commit(ck, &lab, Some(rng)).map_err(|_| "commit").unwrap();
    Case { n, xi: Fr::rand(rng), polys, rots, cms: c.iter().map(|c| c.commitment().clone()).collect(), rands }
}
fn proof<PC: HomomorphicCommitment<Fr>, T: FiatShamirRng>(c: &Case<PC>, ck: &PC::CommitterKey, rng: &mut ChaChaRng) -> Result<Proof<Fr, PC>, String> {
    let os: Vec<WitnessProverOracle<Fr>> = c
        .polys
        .iter()
        .zip(&c.rots)
        .enumerate()
        .map(|(i, (p, r))| {
            let mut o = WitnessProverOracle::new(format!("p{}", i), p.clone(), &[], false);
            r.iter().for_each(|x| o.register_rotation(rot(*x)));
            o
        })
        .collect();
    let refs: Vec<&dyn Instantiable<Fr>> = os.iter().map(|o| o as &dyn Instantiable<Fr>).collect();
    let mut fs = T::initialize(&to_bytes![&c.xi].unwrap());
    match guard(|| Multiopen::<Fr, PC, T>::prove(ck, &refs, &c.rands, c.xi, c.n, &mut fs, rng)) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(format!("error {:?}", e)),
        Err(e) => Err(format!("panic {}", e)),
    }
}
/// the values claimed for each polynomial at each of its rotations
type Claims = Vec<Vec<(i64, Fr)>>;
fn truth<PC: HomomorphicCommitment<Fr>>(c: &Case<PC>) -> Claims {
    c.polys.iter().zip(&c.rots).map(|(p, r)| r.iter().map(|x| (*x, p.evaluate(&pt(c.n, c.xi, *x)))).collect()).collect()
}
fn verify<PC: HomomorphicCommitment<Fr>, T: FiatShamirRng>(c: &Case<PC>, vk: &PC::VerifierKey, cms: &[PC::Commitment], cl: &Claims, p: Proof<Fr, PC>) -> Result<(), String> {
    let os: Vec<WitnessVerifierOracle<Fr, PC>> = cms
        .iter()
        .zip(cl)
        .enumerate()
        .map(|(i, (m, v))| {
            let mut o = WitnessVerifierOracle::new(format!("p{}", i), false);
            o.register_commitment(m.clone());
            v.iter().for_each(|(x, e)| {
                o.register_rotation(rot(*x));
                o.register_eval_at_challenge(pt(c.n, c.xi, *x), *e);
            });
            o
        })
        .collect();
    let refs: Vec<&dyn CommittedOracle<Fr, PC>> = os.iter().map(|o| o as &dyn CommittedOracle<Fr, PC>).collect();
    let mut fs = T::initialize(&to_bytes![&c.xi].unwrap());
    match guard(|| Multiopen::<Fr, PC, T>::verify(vk, p, &refs, c.xi, c.n, &mut fs)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("error {:?}", e)),
        Err(e) => Err(format!("panic {}", e)),
    }
}
fn tamper<PC: HomomorphicCommitment<Fr>, T: FiatShamirRng>(r: &mut Report, rng: &mut ChaChaRng, c: &Case<PC>, vk: &PC::VerifierKey, p: &Proof<Fr, PC>, other: &dyn Fn(&mut ChaChaRng, &PC::Commitment) -> PC::Commitment) {
    let t = truth(c);
    let desc = |m: String| format!("{} polynomials on {} rows opened at {:?}: {}", c.polys.len(), c.n, c.rots, m);
    let res = verify::<PC, T>(c, vk, &c.cms, &t, dup(p));
    r.check("a true batched opening is refused", res.is_ok(), || desc(format!("{:?}", res)));
    let mut bad = |r: &mut Report, what: String, cms: &[PC::Commitment], cl: &Claims, q: Proof<Fr, PC>| {
        let res = verify::<PC, T>(c, vk, cms, cl, q);
        r.check("a false batched opening is accepted", res.is_err(), || desc(what.clone()));
        r.check("a false batched opening makes verification panic", !matches!(&res, Err(e) if e.starts_with("panic")), || desc(format!("{} {:?}", what, res)));
    };
    for i in 0..t.len() {
        for j in 0..t[i].len() {
            let mut u = t.clone();
            u[i][j].1 += Fr::rand(rng);
            bad(r, format!("evaluation {} of polynomial {} replaced", j, i), &c.cms, &u, dup(p));
        }
        let mut m = c.cms.clone();
        m[i] = other(rng, &c.cms[i]);
        bad(r, format!("commitment {} replaced", i), &m, &t, dup(p));
        // other opening points, with true values
        let lim = (c.n as i64) / 2 - 1;
        for x in -lim..=lim {
            let mut u = t.clone();
            let deg = c.polys[i].degree();
            if c.rots[i].contains(&x) {
                // constants are opened anywhere by any batch
                u[i].retain(|e| e.0 != x);
            } else {
                u[i].push((x, c.polys[i].evaluate(&pt(c.n, c.xi, x))));
            }
            if deg >= 3 && (c.polys.iter().zip(&c.rots).any(|(q, ro)| ro == &c.rots[i] && q.degree() > 0 && q != &c.polys[i]) || true) {
                let set: BTreeSet<i64> = u[i].iter().map(|e| e.0).collect();
                if set.len() > deg || c.rots[i].len() > deg {
                    continue;
                }
                bad(r, format!("polynomial {} claimed at {:?} instead", i, set), &c.cms, &u, dup(p));
            }
        }
    }
    // two claims off by amounts that cancel
    for _ in 0..3 {
        let (i, j) = (pick(rng, t.len()), pick(rng, t.len()));
        if t[i].is_empty() || t[j].is_empty() {
            continue;
        }
        let d = Fr::rand(rng);
        let mut u = t.clone();
        let (a, b) = (pick(rng, t[i].len()), pick(rng, t[j].len()));
        if (i, a) == (j, b) {
            continue;
        }
        u[i][a].1 += d;
        u[j][b].1 -= d;
        bad(r, format!("evaluations {} of polynomial {} and {} of {} off by opposite amounts", a, i, b, j), &c.cms, &u, dup(p));
    }
    let mut q = dup(p);
    q.q_evals.push(Fr::rand(rng));
    bad(r, "a batched evaluation added".into(), &c.cms, &t, q);
    let mut q = dup(p);
    q.q_evals.pop();
    bad(r, "a batched evaluation dropped".into(), &c.cms, &t, q);
    for i in 0..p.q_evals.len() {
        let mut q = dup(p);
        q.q_evals[i] += Fr::rand(rng);
        bad(r, format!("batched evaluation {} replaced", i), &c.cms, &t, q);
    }
    let mut q = dup(p);
    q.f_commit = other(rng, &p.f_commit);
    bad(r, "the commitment to the batch quotient replaced".into(), &c.cms, &t, q);
}
fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(10);
    let (ck, vk) = keys::<Ideal>(64, 1);
    for trial in 0..r.n(120, 1500) {
        let mut c = case::<Ideal>(&mut rng, &ck, true, trial % 20 == 13);
        if c.rots.iter().all(|x| x.is_empty()) {
            c.rots[0] = [0].into();
        }
        let desc = |m: String| format!("{} polynomials on {} rows opened at {:?}: {}", c.polys.len(), c.n, c.rots, m);
        take_log();
        let p = match proof::<Ideal, Rec>(&c, &ck, &mut rng) {
            Ok(p) => p,
            Err(e) => {
                r.check("a batched opening cannot be made", false, || desc(e.clone()));
                continue;
            }
        };
        take_log();
        let other = |rng: &mut ChaChaRng, c: &Cm| Ideal::add(c, &Cm { p: vec![Fr::rand(rng), Fr::rand(rng)], b: vec![] });
        tamper::<Ideal, Rec>(&mut r, &mut rng, &c, &vk, &p, &other);
        take_log();
        // the combination: weights of the commitments in the claim
        fix_challenges(Some(5));
        let p = proof::<Ideal, Rec>(&c, &ck, &mut rng);
        let plog = take_log();
        let t = truth(&c);
        if let Ok(p) = p {
            let _ = verify::<Ideal, Rec>(&c, &vk, &c.cms, &t, dup(&p));
            let vlog = take_log();
            r.check("prover and verifier draw different challenges", challenges(&plog) == challenges(&vlog) && challenges(&plog).len() == 4, || desc(String::new()));
            let chs = challenges(&vlog);
            if chs.len() == 4 {
                let (x1, x2, x3, x4) = (chs[0], chs[1], chs[2], chs[3]);
                let k = c.polys.len();
                // random constants as commitments: the claim is their weighted sum
                let mut rows = vec![];
                let mut rhs = vec![];
                for _ in 0..k {
                    let m: Vec<Cm> = (0..k).map(|_| Cm { p: vec![Fr::rand(&mut rng)], b: vec![] }).collect();
                    let mut q = dup(&p);
                    q.f_commit = Cm::default();
                    CLAIM.with(|l| *l.borrow_mut() = None);
                    let _ = verify::<Ideal, Rec>(&c, &vk, &m, &t, q);
                    if let Some(cl) = CLAIM.with(|l| l.borrow().clone()) {
                        rows.push(m.iter().map(|c| c.p[0]).collect());
                        rhs.push(cl.cm.p.first().copied().unwrap_or(Fr::zero()));
                        r.check("the claim is opened at another point than the challenge", cl.point == x3, || desc(String::new()));
                    }
                }
                if rows.len() == k {
                    if let Some(wt) = solve(rows, rhs) {
                        let mut seen = BTreeSet::new();
                        let mut group: std::collections::BTreeMap<BTreeSet<i64>, usize> = Default::default();
                        for i in 0..k {
                            let mut f = None;
                            'o: for a in 1..=k {
                                for b in 0..k {
                                    if wt[i] == x4.pow([a as u64]) * x1.pow([b as u64]) {
                                        f = Some((a, b));
                                        break 'o;
                                    }
                                }
                            }
                            r.check("a commitment's weight is not a power of the second times a power of the first challenge", f.is_some(), || desc(format!("polynomial {}", i)));
                            if let Some((a, b)) = f {
                                r.check("two commitments share a weight", seen.insert((a, b)), || desc(format!("polynomial {} has powers {} and {}", i, a, b)));
                                let g = *group.entry(c.rots[i].clone()).or_insert(a);
                                r.check("polynomials opened at the same points are not in one group", g == a, || desc(format!("polynomial {}", i)));
                            }
                        }
                        let mut ga: Vec<usize> = group.values().copied().collect();
                        ga.sort();
                        r.check("the groups are not weighted by the consecutive powers", ga == (1..=ga.len()).collect::<Vec<_>>(), || desc(format!("{:?}", group)));
                        // what each claimed evaluation weighs
                        let base = {
                            CLAIM.with(|l| *l.borrow_mut() = None);
                            let _ = verify::<Ideal, Rec>(&c, &vk, &c.cms, &t, dup(&p));
                            CLAIM.with(|l| l.borrow().clone()).map(|c| c.value)
                        };
                        if let Some(base) = base {
                            let mut x2s: std::collections::BTreeMap<BTreeSet<i64>, usize> = Default::default();
                            for i in 0..k {
                                for j in 0..t[i].len() {
                                    let mut u = t.clone();
                                    u[i][j].1 += Fr::one();
                                    CLAIM.with(|l| *l.borrow_mut() = None);
                                    let _ = verify::<Ideal, Rec>(&c, &vk, &c.cms, &u, dup(&p));
                                    if let Some(cl) = CLAIM.with(|l| l.borrow().clone()) {
                                        let pts: Vec<Fr> = t[i].iter().map(|e| pt(c.n, c.xi, e.0)).collect();
                                        let mut lag = Fr::one();
                                        let mut van = Fr::one();
                                        for (m, q) in pts.iter().enumerate() {
                                            van *= x3 - q;
                                            if m != j {
                                                lag *= (x3 - q) * (pts[j] - q).inverse().unwrap();
                                            }
                                        }
                                        let a = group[&c.rots[i]];
                                        let w1 = wt[i] * x4.pow([a as u64]).inverse().unwrap();
                                        let d = -(cl.value - base) * van * (lag * w1).inverse().unwrap();
                                        let e = (0..k).find(|e| x2.pow([*e as u64]) == d);
                                        r.check("a claimed evaluation is not weighed like its polynomial", e.is_some(), || desc(format!("evaluation {} of polynomial {}", j, i)));
                                        if let Some(e) = e {
                                            let g = *x2s.entry(c.rots[i].clone()).or_insert(e);
                                            r.check("the evaluations of one group have different weights", g == e, || desc(format!("polynomial {}", i)));
                                        }
                                    }
                                }
                            }
                            let v: Vec<usize> = x2s.values().copied().collect();
                            let sv: BTreeSet<usize> = v.iter().copied().collect();
                            r.check("two groups share a weight", v.len() == sv.len(), || desc(format!("{:?}", x2s)));
                        }
                    }
                }
            }
        }
        fix_challenges(None);
        take_log();
    }
    let (ck, vk) = keys::<KZG>(32, 1);
    for _ in 0..r.n(1, 20) {
        let c = case::<KZG>(&mut rng, &ck, true, false);
        match proof::<KZG, FS>(&c, &ck, &mut rng) {
            Ok(p) => {
                let other = |rng: &mut ChaChaRng, c: &<KZG as PolynomialCommitment<Fr, Poly>>::Commitment| KZG::add(c, &KZG::scale_com(&ark_poly_commit::kzg10::Commitment(ark_ec_gen()), Fr::rand(rng)));
                tamper::<KZG, FS>(&mut r, &mut rng, &c, &vk, &p, &other)
            }
            Err(e) => r.check("a batched opening cannot be made", false, || e.clone()),
        }
    }
    r.note("1-7 polynomials on 4-16 rows in 1-4 families of 0-3 rotations, and 9-20 polynomials in one family or many; every claim, commitment and batched value replaced; weights of the opened claim solved for");
    r.finish()
}
fn ark_ec_gen() -> ark_bls12_381::G1Affine {
    use ark_ec::AffineCurve;
    ark_bls12_381::G1Affine::prime_subgroup_generator()
}
