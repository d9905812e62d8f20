//! C07: compression and the subset argument, on both sides.
#[path = "../common/look.rs"]
mod look;
#[path = "../common/tp.rs"]
mod tp;
use ark_poly::{EvaluationDomain, Polynomial, UVPolynomial};
use zero_over_k::lookup::subset_equality::SubsetEqualityArgument;
use zero_over_k::lookup::LookupArgument;
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::instance::*;
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;
use zok_harness::ideal::*;
use zok_harness::spec::*;
use zok_harness::sys::*;
use zok_harness::*;

fn wcol(l: &str, d: &D, e: &D, ev: &[Fr]) -> WitnessProverOracle<Fr> {
    let mut o = WitnessProverOracle::new(l, Poly::from_coefficients_slice(&d.ifft(ev)), ev, false);
    o.compute_extended_evals(e);
    o
}
fn unit(n: usize, i: usize) -> Vec<Fr> {
    (0..n).map(|j| if i == j { Fr::one() } else { Fr::zero() }).collect()
}

fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(7);
    let (ck, vk) = keys::<Ideal>(2048, 1);
    let b = Shape { n: 8, blind: 4, inputs: 3, copied: 0, gates: 1, degree: 2, looks: 1, width: 1, instances: 1, free: false, max_rot: 1 };
    let shapes = [
        b.clone(),
        Shape { width: 2, looks: 2, ..b.clone() },
        Shape { width: 3, max_rot: 3, instances: 2, ..b.clone() },
        Shape { n: 16, blind: 3, width: 4, max_rot: 2, inputs: 5, ..b.clone() },
        Shape { n: 4, blind: 2, width: 2, max_rot: 1, ..b.clone() },
        Shape { n: 16, blind: 8, width: 2, looks: 3, copied: 2, ..b.clone() },
        // larger than any domain the tests use
        Shape { n: 32, blind: 5, width: 2, ..b.clone() },
        Shape { n: 64, blind: 9, width: 1, max_rot: 20, ..b.clone() },
        Shape { n: 128, blind: 3, width: 2, looks: 2, max_rot: 40, ..b.clone() },
    ];
    let g = Fr::multiplicative_generator();
    for rep in 0..r.n(60, 600) {
        for (k, sh) in shapes.iter().enumerate() {
            if sh.n > 16 && rep % 8 != 3 {
                continue;
            }
            let s = generate(&mut rng, sh);
            let (n, u) = (s.n, s.u);
            let inp = || format!("shape {} ({}), trial {}", k, s.what, rep);
            let st = match setup::<Ideal>(&s, &ck, &vk) {
                Ok(x) => x,
                Err(m) => {
                    r.check(&format!("circuit is indexed ({})", m), false, &inp);
                    continue;
                }
            };
            let d = s.domain();
            let e = st.pvk.index_info.extended_coset_domain;
            for l in 0..s.looks.len() {
                let theta = Fr::rand(&mut rng);
                // ---- compression on the prover's side
                let mut rec = RecRng::new(rng.next_u64());
                let four = match look::columns(&st, l, theta, &mut rec) {
                    Ok(x) => x,
                    Err(m) => {
                        r.check(&format!("columns of a satisfied lookup are built ({})", m), false, &inp);
                        continue;
                    }
                };
                let (ar, sr) = (look::input_rows(&st, l, theta), look::table_rows(&st, l, theta));
                r.check("the compressed input is the weighted sum on every row", four.0.evals() == &ar, &inp);
                r.check("the compressed table is the weighted sum on every row", four.1.evals() == &sr, &inp);
                let poly = |ev: &[Fr]| s.poly(ev);
                let ev_at = |k: K, c: usize, x: Fr, rt: i64| -> Fr {
                    let sh = d.element(rt.rem_euclid(n as i64) as usize);
                    poly(&s.cols(k)[c].ev).evaluate(&(x * sh))
                };
                let wsum = |f: &dyn Fn(usize) -> Fr, m: usize| -> Fr { (0..m).map(|j| f(j) * powers(theta, m)[j]).sum() };
                let lk = &s.looks[l];
                let m = lk.exprs.len();
                let mut okc = true;
                let (ac, sc) = (four.0.get_extended_coset_evals().ok().cloned(), four.1.get_extended_coset_evals().ok().cloned());
                okc &= ac.as_ref().map_or(false, |v| v.len() == e.size()) && sc.as_ref().map_or(false, |v| v.len() == e.size());
                if okc {
                    for _ in 0..4 {
                        let i = pick(&mut rng, e.size());
                        let x = g * e.element(i);
                        let wa = wsum(&|j| lk.exprs[j].eval(&|k, c, rt| ev_at(k, c, x, rt)), m);
                        let ws = wsum(
                            &|j| {
                                let (t, rt) = lk.tabs[j];
                                poly(&s.tab[t].ev).evaluate(&(x * d.element(rt.rem_euclid(n as i64) as usize)))
                            },
                            m,
                        );
                        okc &= ac.as_ref().unwrap()[i] == wa && sc.as_ref().unwrap()[i] == ws;
                    }
                }
                r.check("the compressed columns are the weighted sums on the extended coset", okc, &inp);
                r.check(
                    "a compressed column's polynomial takes its row values",
                    (0..n).all(|i| {
                        four.0.polynomial().evaluate(&d.element(i)) == ar[i] && four.1.polynomial().evaluate(&d.element(i)) == sr[i]
                    }),
                    &inp,
                );
                let pr: Vec<_> = four.2.get_queried_rotations().iter().cloned().collect();
                r.check(
                    "a' is opened here and one row back, s' here",
                    pr.len() == 2 && pr.contains(&rot(0)) && pr.contains(&rot(-1))
                        && four.3.get_queried_rotations().iter().cloned().collect::<Vec<_>>() == vec![rot(0)],
                    &inp,
                );
                // arrangement
                let (ap, sp) = (four.2.evals(), four.3.evals());
                let arranged = ap.len() == n && sp.len() == n
                    && (0..u).all(|i| ap[i] == sp[i] || (i > 0 && ap[i] == ap[i - 1]));
                r.check("arranged columns sit side by side on the usable rows", arranged, &inp);
                let fits = [&four.2, &four.3].iter().all(|o| {
                    (0..n).all(|i| o.polynomial().evaluate(&d.element(i)) == o.evals()[i])
                        && o.get_extended_coset_evals().ok() == Some(&e.coset_fft(o.polynomial()))
                });
                r.check("arranged columns have the polynomial of their row values", fits, &inp);
                // ---- running product
                let (beta, gamma) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
                match guard(|| SubsetEqualityArgument::construct_agg_poly(&four, beta, gamma, l, u, &d, &e, &mut rng)) {
                    Err(m) => r.check(&format!("running product of a satisfied lookup is built ({})", m), false, &inp),
                    Ok(z) => {
                        let zv = z.evals();
                        let mut ok = zv.len() == n && zv[0].is_one() && zv[u].is_one();
                        for i in 0..u.min(zv.len().saturating_sub(1)) {
                            ok &= zv[i + 1] * (ap[i] + beta) * (sp[i] + gamma) == zv[i] * (ar[i] + beta) * (sr[i] + gamma);
                        }
                        r.check("the running product starts and ends in one and follows its recurrence", ok, &inp);
                        ok = (0..n).all(|i| z.polynomial().evaluate(&d.element(i)) == zv[i])
                            && z.get_extended_coset_evals().ok() == Some(&e.coset_fft(z.polynomial()));
                        r.check("the running product has the polynomial of its row values", ok, &inp);
                        let zr: Vec<_> = z.get_queried_rotations().iter().cloned().collect();
                        r.check("the running product is opened here and one row on", zr.len() == 2 && zr.contains(&rot(0)) && zr.contains(&rot(1)), &inp);
                    }
                }
                // ---- prover's constraint on arbitrary columns
                let rv = |rng: &mut ChaChaRng| -> Vec<Fr> {
                    let v: Vec<Fr> = (0..n).map(|_| Fr::rand(rng)).collect();
                    match pick(rng, 6) {
                        0 => vec![at_special(rng, v[0]); n],
                        1 => v.into_iter().map(|x| at_special(rng, x)).collect(),
                        _ => v,
                    }
                };
                let five: Vec<WitnessProverOracle<Fr>> =
                    ["a", "s", "ap", "sp", "z"].iter().map(|l| { let v = rv(&mut rng); wcol(l, &d, &e, &v) }).collect();
                let z = five[4].clone();
                let lo = (five[0].clone(), five[1].clone(), five[2].clone(), five[3].clone());
                let qv = rv(&mut rng);
                let mut qb = FixedProverOracle::new("q", Poly::from_coefficients_slice(&d.ifft(&qv)), &qv);
                qb.compute_extended_evals(&e);
                let l0p = poly(&unit(n, 0));
                let lup = poly(&unit(n, u));
                let (l0, lu) = (e.coset_fft(&l0p), e.coset_fft(&lup));
                let al: Vec<Fr> = (0..5).map(|_| Fr::rand(&mut rng)).collect();
                for _ in 0..6 {
                    let i = pick(&mut rng, e.size());
                    let x = g * e.element(i);
                    let w = d.element(1);
                    let la = LookAt {
                        l0: l0p.evaluate(&x),
                        lu: lup.evaluate(&x),
                        qb: qb.polynomial().evaluate(&x),
                        a: lo.0.polynomial().evaluate(&x),
                        s: lo.1.polynomial().evaluate(&x),
                        ap: lo.2.polynomial().evaluate(&x),
                        apb: lo.2.polynomial().evaluate(&(x * w.inverse().unwrap())),
                        sp: lo.3.polynomial().evaluate(&x),
                        z: z.polynomial().evaluate(&x),
                        zn: z.polynomial().evaluate(&(x * w)),
                        beta,
                        gamma,
                    };
                    let t = la.terms();
                    let got = guard(|| LookupArgument::instantiate_argument_at_omega_i(&l0, &lu, &qb, &lo, &z, beta, gamma, i, &al));
                    r.check(
                        "the prover's constraint is the specified polynomial of the columns",
                        matches!(got, Ok(Ok(v)) if v == weigh(&t, &al)),
                        || format!("{}, coset point {}", inp(), i),
                    );
                    let got = guard(|| SubsetEqualityArgument::instantiate_argument_at_omega_i(&l0, &lu, &qb, &lo, &z, beta, gamma, i, &al[..3]));
                    r.check(
                        "the prover's subset constraint is the specified polynomial of the columns",
                        matches!(got, Ok(Ok(v)) if v == weigh(&t[..3], &al)),
                        || format!("{}, coset point {}", inp(), i),
                    );
                }
                // ---- the verifier: arbitrary opened values
                let xi = Fr::rand(&mut rng);
                let w = d.element(1);
                // now and then values with which some of the terms vanish
                let special = pick(&mut rng, 3) == 0;
                let mut f = || {
                    let v = Fr::rand(&mut rng);
                    if special { at_special(&mut rng, v) } else { v }
                };
                let la = LookAt { l0: f(), lu: f(), qb: f(), a: f(), s: f(), ap: f(), apb: f(), sp: f(), z: f(), zn: f(), beta, gamma };
                let wo = |l: &str, at: Vec<(Fr, Fr)>| {
                    let mut o = WitnessVerifierOracle::<Fr, Ideal>::new(l, false);
                    for (p, v) in at {
                        o.register_eval_at_challenge(p, v);
                    }
                    o
                };
                let lv = (
                    wo("a", vec![(xi, la.a)]),
                    wo("s", vec![(xi, la.s)]),
                    wo("ap", vec![(xi, la.ap), (xi * w.inverse().unwrap(), la.apb)]),
                    wo("sp", vec![(xi, la.sp)]),
                );
                let zv = wo("z", vec![(xi, la.z), (xi * w, la.zn)]);
                let mut q = FixedVerifierOracle::<Fr, Ideal>::new("q", None);
                q.register_eval_at_challenge(xi, la.qb);
                let t = la.terms();
                let got = guard(|| LookupArgument::open_argument(&la.l0, la.lu, &q, &lv, &zv, beta, gamma, &xi, &d, &al));
                r.check("the verifier's opening is the specified polynomial of the opened values", matches!(got, Ok(Ok(v)) if v == weigh(&t, &al)), &inp);
                let got = guard(|| SubsetEqualityArgument::open_argument(&la.l0, la.lu, &q, &lv, &zv, beta, gamma, &xi, &d, &al[..3]));
                r.check("the verifier's subset opening is the specified polynomial of the opened values", matches!(got, Ok(Ok(v)) if v == weigh(&t[..3], &al)), &inp);
                // ---- compression on the verifier's side
                let omegas: Vec<Fr> = d.elements().collect();
                let mut vals: Vec<((u8, usize, i64), Fr)> = vec![];
                let mut val = |k: u8, c: usize, rt: i64| -> Fr {
                    let key = (k, c, rt.rem_euclid(n as i64));
                    if let Some((_, v)) = vals.iter().find(|(q, _)| *q == key) {
                        return *v;
                    }
                    let v = if k == 1 {
                        poly(&s.ins[c].ev).evaluate(&(xi * d.element(key.2 as usize)))
                    } else {
                        Fr::rand(&mut rng)
                    };
                    vals.push((key, v));
                    v
                };
                let kk = |k: K| match k {
                    K::W => 0u8,
                    K::I => 1,
                    K::X => 2,
                };
                let mut qs = vec![];
                for ex in &lk.exprs {
                    ex.qs(&mut qs);
                }
                for (k, c, rt) in &qs {
                    val(kk(*k), *c, *rt);
                }
                for (t, rt) in &lk.tabs {
                    val(3, *t, *rt);
                }
                let wa = wsum(&|j| lk.exprs[j].eval(&|k, c, rt| vals.iter().find(|(q, _)| *q == (kk(k), c, rt.rem_euclid(n as i64))).unwrap().1), m);
                let ws = wsum(&|j| vals.iter().find(|(q, _)| *q == (3, lk.tabs[j].0, lk.tabs[j].1.rem_euclid(n as i64))).unwrap().1, m);
                let mut wv = st.wver.clone();
                let mut fv = st.vpi.fixed_oracles.clone();
                let mut tv = st.vpi.table_oracles.clone();
                for ((k, c, rt), v) in &vals {
                    let p = xi * d.element(*rt as usize);
                    match k {
                        0 => { wv[*c].register_eval_at_challenge(p, *v); }
                        2 => { fv[*c].register_eval_at_challenge(p, *v); }
                        3 => { tv[*c].register_eval_at_challenge(p, *v); }
                        _ => {}
                    }
                }
                let run = |wv: &[WitnessVerifierOracle<Fr, Ideal>], fv: &[FixedVerifierOracle<Fr, Ideal>], tv: &[FixedVerifierOracle<Fr, Ideal>]| {
                    let wm = look::names(wv.iter().map(|o| o.get_label()).collect());
                    let im = look::names(st.iver.iter().map(|o| o.get_label()).collect());
                    let fm = look::names(fv.iter().map(|o| o.get_label()).collect());
                    let tm = look::names(tv.iter().map(|o| o.get_label()).collect());
                    guard(|| {
                        LookupArgument::construct_a_and_s_unpermuted_polys_verifier(
                            &wm, &im, &fm, &tm, wv, &st.iver, fv, tv, l,
                            st.vlooks[l].get_expressions().unwrap(),
                            st.vlooks[l].get_table_queries().unwrap(),
                            theta, xi, &omegas,
                        )
                    })
                };
                let got = run(&wv, &fv, &tv);
                let ok = match &got {
                    Ok(Ok((a, s))) => a.query(&xi).ok() == Some(wa) && s.query(&xi).ok() == Some(ws),
                    _ => false,
                };
                r.check("the verifier's compressed values are the weighted sums of the opened values", ok, &inp);
                // a table value that was not opened is an error
                let miss = lk.tabs[pick(&mut rng, m)].0;
                let mut tv2 = tv.clone();
                tv2[miss] = FixedVerifierOracle::new(s.tab[miss].name.clone(), None);
                let got = run(&wv, &fv, &tv2);
                r.check("a table column that was not opened is an error", matches!(got, Ok(Err(_))), &inp);
            }
        }
    }
    // a value outside the table must not be arranged
    for rep in 0..r.n(40, 300) {
        let sh = &shapes[rep % shapes.len()];
        let mut s = generate(&mut rng, sh);
        let l = pick(&mut rng, s.looks.len());
        let j = pick(&mut rng, s.looks[l].exprs.len());
        // the witness column solved for is the last one of its expression
        let name = format!("l{}_{}", l, j);
        let c = s.wit.iter().position(|x| x.name == name).unwrap();
        let row = pick(&mut rng, s.n);
        s.wit[c].ev[row] += Fr::rand(&mut rng);
        if !s.broken().iter().any(|b| b.starts_with(&format!("lookup {} ", l))) {
            continue;
        }
        let inp = || format!("shape {} with column {} row {} changed, trial {}", s.what, name, row, rep);
        if let Ok(st) = setup::<Ideal>(&s, &ck, &vk) {
            let mut rec = RecRng::new(rng.next_u64());
            let theta = Fr::rand(&mut rng);
            r.check("columns of an unsatisfied lookup are not built", look::columns(&st, l, theta, &mut rec).is_err(), &inp);
        }
    }
    r.note("9 circuit shapes with 1 to 3 lookups of 1 to 4 columns, rotations up to 40 either way, 4 to 128 rows");
    r.finish();
}
