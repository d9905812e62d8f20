//! C06: the permutation argument against its description.
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use zero_over_k::data_structures::PermutationInfo;
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;
use zero_over_k::permutation::PermutationArgument;
use zok_harness::ideal::Ideal;
use zok_harness::spec::*;
use zok_harness::sys::{at, at_special, pick, rot};
use zok_harness::*;

type D = GeneralEvaluationDomain<Fr>;
type P = DensePolynomial<Fr>;

fn wcol(l: String, d: &D, e: &D, ev: &[Fr]) -> WitnessProverOracle<Fr> {
    let mut o = WitnessProverOracle::new(l, P::from_coefficients_slice(&d.ifft(ev)), ev, true);
    o.compute_extended_evals(e);
    o
}
fn fcol(l: String, d: &D, e: &D, ev: &[Fr]) -> FixedProverOracle<Fr> {
    let mut o = FixedProverOracle::new(l, P::from_coefficients_slice(&d.ifft(ev)), ev);
    o.compute_extended_evals(e);
    o
}
fn unit(n: usize, i: usize) -> Vec<Fr> {
    (0..n).map(|j| if i == j { Fr::one() } else { Fr::zero() }).collect()
}

fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(6);
    for t in 0..r.n(400, 4000) {
        // now and then a domain larger than any the tests use
        let n = if t % 40 == 7 { [32usize, 64, 128, 256][(t / 40) % 4] } else { [4usize, 8, 16][t % 3] };
        let scale = [2usize, 4, 8][(t / 3) % 3];
        let m = 1 + pick(&mut rng, 9);
        let u = 1 + pick(&mut rng, n - 1);
        let cols = scale - 1;
        let d = D::new(n).unwrap();
        let e = D::new(n * scale).unwrap();
        let deltas: Vec<Fr> = (0..m).map(|_| Fr::rand(&mut rng)).collect();
        let info = PermutationInfo { u, deltas: deltas.clone() };
        let arg = PermutationArgument::new(scale, &info);
        let k = (m + cols - 1) / cols;
        let inp = || format!("{} rows, {} usable, {} columns, {} per chunk, seed trial {}", n, u, m, cols, t);
        r.check("number of accumulators", arg.number_of_z_polys(m) == k, &inp);
        r.check("number of constraint weights", arg.number_of_alphas(k) == 2 * k + 1, &inp);
        if t % 7 == 0 {
            r.check("no accumulator without copied columns", arg.number_of_z_polys(0) == 0, &inp);
        }
        // a permutation of the cells of the first u rows and values that respect it
        let mut sig: Vec<(usize, usize)> = (0..m * u).map(|c| (c / u, c % u)).collect();
        for i in (1..sig.len()).rev() {
            if pick(&mut rng, 3) > 0 {
                sig.swap(i, pick(&mut rng, i + 1));
            }
        }
        let mut w: Vec<Vec<Fr>> = (0..m).map(|_| (0..n).map(|_| Fr::rand(&mut rng)).collect()).collect();
        let mut seen = vec![false; m * u];
        for c in 0..m * u {
            let v = w[c / u][c % u];
            let mut x = c;
            while !seen[x] {
                seen[x] = true;
                w[x / u][x % u] = v;
                x = sig[x].0 * u + sig[x].1;
            }
        }
        let sg: Vec<Vec<Fr>> = (0..m)
            .map(|c| {
                (0..n)
                    .map(|i| {
                        if i < u {
                            let (c2, i2) = sig[c * u + i];
                            deltas[c2] * d.element(i2)
                        } else {
                            Fr::rand(&mut rng)
                        }
                    })
                    .collect()
            })
            .collect();
        let (beta, gamma) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
        let ws: Vec<_> = w.iter().enumerate().map(|(i, v)| wcol(format!("w{}", i), &d, &e, v)).collect();
        let wr: Vec<_> = ws.iter().collect();
        let ss: Vec<_> = sg.iter().enumerate().map(|(i, v)| fcol(format!("s{}", i), &d, &e, v)).collect();
        match guard(|| arg.construct_agg_polys(&wr, &ss, beta, gamma, &d, &e, &mut rng)) {
            Err(p) => r.check(&format!("accumulators of honest columns are built ({})", p), false, &inp),
            Ok(zs) => {
                r.check("one accumulator per chunk", zs.len() == k, &inp);
                for c in 0..zs.len().min(k) {
                    let z = zs[c].evals().clone();
                    let ok = z.len() == n && z[0] == if c == 0 { Fr::one() } else { zs[c - 1].evals()[u] };
                    r.check("an accumulator starts at one, or where the one before ended", ok, &inp);
                    let mut rec = z.len() == n;
                    for i in 0..u {
                        let (mut l, mut q) = (z[i + 1], z[i]);
                        for j in c * cols..((c + 1) * cols).min(m) {
                            l *= w[j][i] + beta * sg[j][i] + gamma;
                            q *= w[j][i] + beta * deltas[j] * d.element(i) + gamma;
                        }
                        rec &= l == q;
                    }
                    r.check("an accumulator follows the recurrence on the usable rows", rec, &inp);
                    let same = (0..n).all(|i| zs[c].polynomial().evaluate(&d.element(i)) == z[i])
                        && zs[c].polynomial().degree() < n
                        && zs[c].get_extended_coset_evals().ok() == Some(&e.coset_fft(zs[c].polynomial()));
                    r.check("its polynomial takes these values", same, &inp);
                    let mut rots = vec![rot(0), rot(1)];
                    if c + 1 != k {
                        rots.push(rot(u as i64));
                    }
                    let got = zs[c].get_queried_rotations();
                    r.check(
                        "it is opened here, one row on and, but for the last, u rows on",
                        rots.iter().all(|x| got.contains(x)) && got.iter().all(|x| rots.contains(x)),
                        &inp,
                    );
                }
                r.check("the last accumulator ends in one", zs.last().map(|z| z.evals()[u]) == Some(Fr::one()), &inp);
            }
        }
        // arbitrary columns: the constraint is the same polynomial of whatever the columns hold
        let zev: Vec<Vec<Fr>> = (0..k).map(|_| (0..n).map(|_| Fr::rand(&mut rng)).collect()).collect();
        let mut zev = zev;
        let (mut ws, mut ss) = (ws, ss);
        let mut wev = w.clone();
        if pick(&mut rng, 3) == 0 {
            // constant accumulators, columns that stay in place
            let fixed_to = pick(&mut rng, m + 1);
            for z in zev.iter_mut() {
                if pick(&mut rng, 3) > 0 {
                    *z = vec![at_special(&mut rng, Fr::one()); n];
                }
            }
            for j in 0..m {
                if j < fixed_to {
                    let v: Vec<Fr> = (0..n).map(|i| deltas[j] * d.element(i)).collect();
                    ss[j] = fcol(format!("s{}", j), &d, &e, &v);
                }
                if pick(&mut rng, 3) == 0 {
                    wev[j] = vec![at_special(&mut rng, Fr::zero()); n];
                    ws[j] = wcol(format!("w{}", j), &d, &e, &wev[j]);
                }
            }
        }
        let wr: Vec<_> = ws.iter().collect();
        let zs: Vec<_> = zev.iter().enumerate().map(|(i, v)| wcol(format!("z{}", i), &d, &e, v)).collect();
        let qv: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut rng)).collect();
        let qb = fcol("q".into(), &d, &e, &qv);
        let l0p = P::from_coefficients_slice(&d.ifft(&unit(n, 0)));
        let lup = P::from_coefficients_slice(&d.ifft(&unit(n, u)));
        let (l0, lu) = (e.coset_fft(&l0p), e.coset_fft(&lup));
        let al: Vec<Fr> = (0..2 * k + 1).map(|_| Fr::rand(&mut rng)).collect();
        let g = Fr::multiplicative_generator();
        for i in 0..e.size() {
            // every point of a small coset, some of a large one
            if e.size() > 128 && pick(&mut rng, e.size() / 24) > 0 {
                continue;
            }
            let x = g * e.element(i);
            let ev = |p: &P, y: Fr| p.evaluate(&y);
            let pa = PermAt {
                l0: ev(&l0p, x),
                lu: ev(&lup, x),
                qb: ev(qb.polynomial(), x),
                w: ws.iter().map(|o| ev(o.polynomial(), x)).collect(),
                s: ss.iter().map(|o| ev(o.polynomial(), x)).collect(),
                d: deltas.clone(),
                z: zs.iter().map(|o| ev(o.polynomial(), x)).collect(),
                zn: zs.iter().map(|o| ev(o.polynomial(), x * d.element(1))).collect(),
                zu: zs.iter().map(|o| ev(o.polynomial(), x * d.element(u))).collect(),
                beta,
                gamma,
                x,
                cols,
            };
            let want = weigh(&pa.terms(), &al);
            let got = guard(|| {
                arg.instantiate_argument_at_omega_i(
                    &l0, &lu, &qb, &wr, &ss, &zs, i, e.element(i), beta, gamma, &d, &al,
                )
            });
            r.check(
                "the prover's constraint is the specified polynomial of the columns",
                matches!(got, Ok(Ok(v)) if v == want),
                || format!("{}, coset point {}", inp(), i),
            );
        }
        // the verifier: arbitrary recorded values
        let xi = Fr::rand(&mut rng);
        let mut pa = PermAt { d: deltas.clone(), beta, gamma, x: xi, cols, ..Default::default() };
        pa.l0 = Fr::rand(&mut rng);
        pa.lu = Fr::rand(&mut rng);
        pa.qb = Fr::rand(&mut rng);
        // now and then values with which some of the terms vanish or agree
        let special = pick(&mut rng, 3) == 0;
        let fixed_to = pick(&mut rng, m + 1);
        if special {
            pa.l0 = at_special(&mut rng, pa.l0);
            pa.lu = at_special(&mut rng, pa.lu);
            pa.qb = at_special(&mut rng, pa.qb);
        }
        let mut q = FixedVerifierOracle::<Fr, Ideal>::new("q", None);
        q.register_eval_at_challenge(xi, pa.qb);
        let mut wv = vec![];
        let mut sv = vec![];
        for j in 0..m {
            let (mut a, mut b) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
            if special {
                a = at_special(&mut rng, a);
                b = if j < fixed_to { deltas[j] * xi } else { at_special(&mut rng, b) };
            }
            let mut o = WitnessVerifierOracle::<Fr, Ideal>::new(format!("w{}", j), true);
            o.register_eval_at_challenge(xi, a);
            pa.w.push(a);
            wv.push(o);
            let mut o = FixedVerifierOracle::<Fr, Ideal>::new(format!("s{}", j), None);
            o.register_eval_at_challenge(xi, b);
            pa.s.push(b);
            sv.push(o);
        }
        let mut zv = vec![];
        for c in 0..k {
            let mut o = WitnessVerifierOracle::<Fr, Ideal>::new(format!("z{}", c), false);
            let mut v: Vec<Fr> = (0..3).map(|_| Fr::rand(&mut rng)).collect();
            if special {
                v = v.into_iter().map(|x| at_special(&mut rng, x)).collect();
                if pick(&mut rng, 2) == 0 {
                    v[1] = v[0];
                }
            }
            o.register_eval_at_challenge(xi, v[0]);
            o.register_eval_at_challenge(xi * d.element(1), v[1]);
            let vu = if u == 1 { v[1] } else { v[2] };
            if c + 1 != k {
                o.register_eval_at_challenge(xi * d.element(u), vu);
            }
            pa.z.push(v[0]);
            pa.zn.push(v[1]);
            pa.zu.push(vu);
            zv.push(o);
        }
        let wvr: Vec<_> = wv.iter().collect();
        let want = weigh(&pa.terms(), &al);
        let got = guard(|| arg.open_argument(pa.l0, pa.lu, &q, &zv, &sv, &wvr, beta, gamma, &d, xi, &al));
        r.check(
            "the verifier's opening is the specified polynomial of the opened values",
            matches!(got, Ok(Ok(v)) if v == want),
            &inp,
        );
        // a value that was not opened is an error
        let fresh = WitnessVerifierOracle::<Fr, Ideal>::new("w", true);
        let mut w2 = wvr.clone();
        let miss = pick(&mut rng, m);
        w2[miss] = &fresh;
        let got = guard(|| arg.open_argument(pa.l0, pa.lu, &q, &zv, &sv, &w2, beta, gamma, &d, xi, &al));
        r.check("a column that was not opened is an error", matches!(got, Ok(Err(_))), &inp);
        let _ = at;
    }
    r.finish();
}
