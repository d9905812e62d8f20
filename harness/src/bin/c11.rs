//! C11: interpolation bases, vanishing polynomials, coset values.
use ark_poly::{EvaluationDomain, Polynomial};
use zero_over_k::multiproof::poly::{construct_lagrange_basis, construct_vanishing};
use zero_over_k::verif_hook::compute_vanishing_poly_over_coset;
use zok_harness::sys::{generate, keys, setup, D};
use zok_harness::*;

#[path = "../common/tp.rs"]
#[allow(dead_code)]
mod tp;

fn show(p: &[Fr]) -> String {
    format!("points {:?}", p.iter().map(|x| x.to_string()).collect::<Vec<_>>())
}
fn one(r: &mut Report, pts: &[Fr], extra: &[Fr]) {
    let inp = || show(pts);
    match guard(|| construct_lagrange_basis(pts)) {
        Err(m) => r.check(&format!("a basis is constructed ({})", m), false, inp),
        Ok(b) => {
            r.check("one basis polynomial per point", b.len() == pts.len(), inp);
            let mut deg = true;
            let mut val = true;
            for (i, l) in b.iter().enumerate() {
                deg &= l.coeffs.len() <= pts.len() && l.degree() < pts.len().max(1);
                for (j, x) in pts.iter().enumerate() {
                    val &= l.evaluate(x) == if i == j { Fr::one() } else { Fr::zero() };
                }
            }
            r.check("a basis polynomial has degree below the number of points", deg, inp);
            r.check("a basis polynomial is one at its point, zero at the others", val, inp);
            // between the points as well: the same values as the formula
            for x in extra {
                let mut ok = true;
                for (i, l) in b.iter().enumerate() {
                    let mut v = Fr::one();
                    for (j, y) in pts.iter().enumerate() {
                        if i != j {
                            v *= (*x - y) * (pts[i] - y).inverse().unwrap();
                        }
                    }
                    ok &= l.evaluate(x) == v;
                }
                r.check("a basis polynomial between the points", ok, inp);
            }
        }
    }
    match guard(|| construct_vanishing(pts)) {
        Err(m) => r.check(&format!("a vanishing polynomial is constructed ({})", m), false, inp),
        Ok(v) => {
            r.check("the vanishing polynomial has one root per point", v.coeffs.len() == pts.len() + 1, inp);
            r.check("the vanishing polynomial is monic", v.coeffs.last() == Some(&Fr::one()), inp);
            for x in pts.iter().chain(extra) {
                let w: Fr = pts.iter().map(|p| *x - p).product();
                r.check("the vanishing polynomial's values", v.evaluate(x) == w, inp);
            }
        }
    }
}
fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(11);
    let special = [Fr::zero(), Fr::one(), -Fr::one(), Fr::multiplicative_generator()];
    for k in 0..r.n(10, 18) {
        for t in 0..r.n(12, 60) {
            let mut p: Vec<Fr> = vec![];
            let d = D::new(64).unwrap();
            let x = Fr::rand(&mut rng);
            while p.len() < k {
                let y = match t % 4 {
                    0 => Fr::rand(&mut rng),
                    1 => x * d.element(rng.gen_range(0..64)),
                    2 => d.element(rng.gen_range(0..64)),
                    _ => {
                        if p.len() < special.len() {
                            special[p.len()]
                        } else {
                            Fr::from(1000 + p.len() as u64)
                        }
                    }
                };
                if !p.contains(&y) {
                    p.push(y);
                }
            }
            let e: Vec<Fr> = (0..3).map(|_| Fr::rand(&mut rng)).chain([Fr::zero(), Fr::one()]).collect();
            one(&mut r, &p, &e);
        }
    }
    let g = Fr::multiplicative_generator();
    for log in 1..r.n(7, 10) {
        let m = 1usize << log;
        let d = D::new(m).unwrap();
        for k in (0..m).filter(|k| *k < 12 || k.is_power_of_two() || *k == m - 1) {
            let inp = || format!("domain of {} elements, exponent {}", m, k);
            let v = guard(|| compute_vanishing_poly_over_coset::<Fr, D>(d, k as u64));
            let want: Vec<Fr> = (0..m).map(|i| (g * d.element(i)).pow([k as u64]) - Fr::one()).collect();
            r.check("x^k - 1 on the coset, in order", v == Ok(want), inp);
        }
    }
    // the inverses an index holds
    let (ck, pvk) = keys::<ideal::Ideal>(4096, 1);
    for (si, sh) in tp::shapes().iter().enumerate() {
        for seed in 0..r.n(2, 8) as u64 {
            let sys = generate(&mut r.rng(1000 + 100 * si as u64 + seed), sh);
            if let Ok(st) = setup::<ideal::Ideal>(&sys, &ck, &pvk) {
                for (who, vk) in [("prover", &st.pvk), ("verifier", &st.vvk)] {
                    let ext = vk.index_info.extended_coset_domain;
                    let inv = &vk.zh_inverses_over_coset;
                    let ok = inv.len() == ext.size()
                        && (0..ext.size()).all(|i| inv[i] * st.zh.evaluate(&(g * ext.element(i))) == Fr::one());
                    r.check("the inverses of the vanishing polynomial on the extended coset", ok, || {
                        format!("{} index of {} ({} rows)", who, sys.what, sys.n)
                    });
                }
            }
        }
    }
    r.finish()
}
