//! C16: rows past the usable ones hold fresh randomness, the others what the
//! argument prescribes.
#[path = "../common/tp.rs"]
mod tp;
#[path = "../common/look.rs"]
mod look;
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use zero_over_k::data_structures::PermutationInfo;
use zero_over_k::lookup::subset_equality::SubsetEqualityArgument;
use zero_over_k::oracles::fixed::FixedProverOracle;
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::WitnessProverOracle;
use zero_over_k::permutation::PermutationArgument;
use zok_harness::ideal::*;
use zok_harness::sys::*;
use zok_harness::*;

/// every one of `vals` is an element the source gave out, each its own
fn fresh(vals: &[Fr], drawn: &[Fr]) -> bool {
    let mut left = drawn.to_vec();
    vals.iter().all(|v| match left.iter().position(|x| x == v) {
        Some(i) => {
            left.swap_remove(i);
            true
        }
        None => false,
    })
}

fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(16);
    for t in 0..r.n(300, 3000) {
        let n = [4usize, 8, 16][t % 3];
        let scale = [2usize, 4, 8][(t / 3) % 3];
        let m = 1 + pick(&mut rng, 7);
        let u = 1 + pick(&mut rng, n - 1);
        let d = D::new(n).unwrap();
        let e = D::new(n * scale).unwrap();
        let inp = || format!("permutation argument, {} rows, {} usable, {} columns, extension {}, trial {}", n, u, m, scale, t);
        let deltas: Vec<Fr> = (0..m).map(|_| Fr::rand(&mut rng)).collect();
        let arg = PermutationArgument::new(scale, &PermutationInfo { u, deltas: deltas.clone() });
        // identical columns, cells permuted by shifting rows and columns
        let v: Vec<Fr> = vec![Fr::rand(&mut rng); u];
        let (mut ws, mut ss) = (vec![], vec![]);
        let s0 = pick(&mut rng, u.max(1));
        for c in 0..m {
            let mut ev = v.clone();
            while ev.len() < n {
                ev.push(Fr::rand(&mut rng));
            }
            ws.push(WitnessProverOracle::new(format!("w{}", c), Poly::from_coefficients_slice(&d.ifft(&ev)), &ev, true));
            let sv: Vec<Fr> = (0..n)
                .map(|i| if i < u { deltas[(c + 1) % m] * d.element((i + s0) % u) } else { Fr::rand(&mut rng) })
                .collect();
            ss.push(FixedProverOracle::new(format!("s{}", c), Poly::from_coefficients_slice(&d.ifft(&sv)), &sv));
        }
        let wr: Vec<_> = ws.iter().collect();
        let (beta, gamma) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
        let mut rec = RecRng::new(rng.next_u64());
        let zs = match guard(|| arg.construct_agg_polys(&wr, &ss, beta, gamma, &d, &e, &mut rec)) {
            Ok(z) => z,
            Err(p) => {
                r.check(&format!("honest columns are accepted ({})", p), false, &inp);
                continue;
            }
        };
        let drawn = field_stream(&rec.given);
        let mut tail = vec![];
        for z in &zs {
            let ev = z.evals();
            r.check("a running product has a value on every row", ev.len() == n, &inp);
            if ev.len() == n {
                tail.extend_from_slice(&ev[u + 1..]);
                let on: Vec<Fr> = (0..n).map(|i| z.polynomial().evaluate(&d.element(i))).collect();
                r.check("the polynomial of a running product takes its row values, blinding included", &on == ev, &inp);
            }
        }
        r.check("rows past the usable ones hold distinct fresh random elements (permutation)", fresh(&tail, &drawn), &inp);
        // usable rows are determined by the argument alone
        let mut rec2 = RecRng::new(rng.next_u64());
        let zs2 = guard(|| arg.construct_agg_polys(&wr, &ss, beta, gamma, &d, &e, &mut rec2)).unwrap_or_default();
        let same = zs2.len() == zs.len()
            && zs.iter().zip(&zs2).all(|(a, b)| a.evals().len() == n && b.evals().len() == n && a.evals()[..=u] == b.evals()[..=u]);
        r.check("the usable rows of a running product do not depend on the randomness", same, &inp);
        let mut ok = true;
        for (c, z) in zs.iter().enumerate() {
            let z = z.evals();
            let cols = scale - 1;
            ok &= z[0] == if c == 0 { Fr::one() } else { zs[c - 1].evals()[u] };
            for i in 0..u {
                let (mut l, mut q) = (z[i + 1], z[i]);
                for j in c * cols..((c + 1) * cols).min(m) {
                    l *= ws[j].evals()[i] + beta * ss[j].evals()[i] + gamma;
                    q *= ws[j].evals()[i] + beta * deltas[j] * d.element(i) + gamma;
                }
                ok &= l == q;
            }
        }
        r.check("the usable rows of a running product hold what the argument prescribes", ok, &inp);
    }
    let (ck, vk) = keys::<Ideal>(512, 1);
    for (k, sh) in tp::shapes().iter().enumerate() {
        for rep in 0..r.n(6, 40) {
            let s = generate(&mut rng, sh);
            let (n, u) = (s.n, s.u);
            let inp = || format!("shape {} ({}), trial {}", k, s.what, rep);
            let st = match setup::<Ideal>(&s, &ck, &vk) {
                Ok(x) => x,
                Err(m) => {
                    r.check(&format!("circuit is indexed ({})", m), false, &inp);
                    continue;
                }
            };
            let d = s.domain();
            // lookups, called directly
            for l in 0..s.looks.len() {
                let theta = Fr::rand(&mut rng);
                let seed = rng.next_u64();
                let mut runs = vec![];
                for q in 0..2 {
                    let mut rec = RecRng::new(seed + q);
                    match look::columns(&st, l, theta, &mut rec) {
                        Ok(x) => runs.push((x, field_stream(&rec.given))),
                        Err(m) => r.check(&format!("lookup columns of a satisfied lookup are built ({})", m), false, &inp),
                    }
                }
                if runs.len() < 2 {
                    continue;
                }
                let ((_, _, ap, sp), drawn) = &runs[0];
                let ((_, _, ap2, sp2), _) = &runs[1];
                let len = [ap, sp, ap2, sp2].iter().all(|o| o.evals().len() == n);
                r.check("an arranged lookup column has a value on every row", len, &inp);
                if !len {
                    continue;
                }
                let mut tail = ap.evals()[u..].to_vec();
                tail.extend_from_slice(&sp.evals()[u..]);
                r.check("rows past the usable ones hold distinct fresh random elements (arranged lookup columns)", fresh(&tail, drawn), &inp);
                r.check(
                    "the usable rows of arranged lookup columns do not depend on the randomness",
                    ap.evals()[..u] == ap2.evals()[..u] && sp.evals()[..u] == sp2.evals()[..u],
                    &inp,
                );
                let sorted = |v: &[Fr]| {
                    let mut v = v.to_vec();
                    v.sort();
                    v
                };
                r.check(
                    "the usable rows of arranged lookup columns hold the compressed values",
                    sorted(&ap.evals()[..u]) == sorted(&look::input_rows(&st, l, theta)[..u])
                        && sorted(&sp.evals()[..u]) == sorted(&look::table_rows(&st, l, theta)[..u]),
                    &inp,
                );
                let (beta, gamma) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
                let mut rec = RecRng::new(rng.next_u64());
                let e = st.pvk.index_info.extended_coset_domain;
                let z = guard(|| SubsetEqualityArgument::construct_agg_poly(&runs[0].0, beta, gamma, l, u, &d, &e, &mut rec));
                match z {
                    Err(m) => r.check(&format!("running product of a satisfied lookup is built ({})", m), false, &inp),
                    Ok(z) => {
                        let drawn = field_stream(&rec.given);
                        let zv = z.evals();
                        r.check(
                            "rows past the usable ones hold distinct fresh random elements (lookup running product)",
                            zv.len() == n && fresh(&zv[u + 1..], &drawn),
                            &inp,
                        );
                        let (a, sx) = (runs[0].0 .0.evals(), runs[0].0 .1.evals());
                        let ok = zv.len() == n
                            && zv[0].is_one()
                            && (0..u).all(|i| {
                                zv[i + 1] * (ap.evals()[i] + beta) * (sp.evals()[i] + gamma)
                                    == zv[i] * (a[i] + beta) * (sx[i] + gamma)
                            });
                        r.check("the usable rows of a lookup running product hold what the argument prescribes", ok, &inp);
                    }
                }
            }
            // inside a proof
            let mut rec = RecRng::new(rng.next_u64());
            take_log();
            let proof = match tp::prove::<Ideal, Rec, _>(&st, &mut rec) {
                Ok(p) => p,
                Err(m) => {
                    r.check(&format!("a satisfied circuit is proved ({})", m), false, &inp);
                    continue;
                }
            };
            let drawn = field_stream(&rec.given);
            let rows = |c: &Cm| -> Vec<Fr> {
                let p = Poly::from_coefficients_slice(&c.p);
                (0..n).map(|i| p.evaluate(&d.element(i))).collect()
            };
            let mut tail = vec![];
            for c in proof.z_commitments.iter().chain(&proof.lookup_z_commitments) {
                tail.extend_from_slice(&rows(c)[u + 1..]);
            }
            for c in &proof.lookup_commitments {
                tail.extend_from_slice(&rows(c)[u..]);
            }
            r.check("all blinded rows of a proof hold distinct fresh random elements", fresh(&tail, &drawn), &inp);
            r.check("blinding does not change acceptance", tp::verify::<Ideal, Rec>(&st, proof) == Ok(()), &inp);
        }
    }
    r.note("domains of 4 to 16 rows, up to 7 copied columns, extension factors 2, 4 and 8; 17 circuit shapes");
    r.finish();
}
