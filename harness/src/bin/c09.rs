//! C09: the quotient is sized to fit and is the exact division
#[path = "../common/tp.rs"]
mod tp;
#[path = "../common/terms.rs"]
mod terms;
use ark_poly::{EvaluationDomain, Polynomial};
use terms::*;
use tp::*;
use zok_harness::ideal::*;
use zok_harness::spec::*;
use zok_harness::sys::*;
use zok_harness::*;

fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(9);
    let (ck, vk) = keys::<Ideal>(256, 1);
    let mut refused = 0;
    for k in 0..r.n(800, 8000) {
        let list = shapes();
        let mut sh = list[k % list.len()].clone();
        if k >= list.len() {
            sh.degree = 1 + pick(&mut rng, 8);
            sh.gates = 1 + pick(&mut rng, 5);
            sh.n = [4, 8, 8, 16, 32][pick(&mut rng, 5)];
            sh.blind = 2 + pick(&mut rng, sh.n / 2);
            if k % 40 == 39 {
                // a far larger extension than the tests use
                sh.degree = 9 + pick(&mut rng, 24);
                sh.n = [4, 8][pick(&mut rng, 2)];
                sh.blind = 2;
                sh.inputs = 2;
                sh.copied = sh.copied.min(2);
            }
            // two rotations of a column that denote one shift are refused
            sh.max_rot = sh.max_rot.min(sh.n as i64 / 2 - 1);
        }
        let mut sys = generate(&mut rng, &sh);
        if sh.free {
            // any set of rows may be left out
            for g in 0..sys.gates.len() {
                let o = sys.wit.iter().position(|w| w.name == format!("o{}", g)).unwrap();
                for i in 0..sys.n {
                    let e = sys.gates[g].eval(&|k, c, r| sys.val(k, c, i, r));
                    sys.wit[o].ev[i] += e;
                }
            }
            sys.free = (0..sys.n).filter(|_| pick(&mut rng, 4) == 0).collect();
            for i in sys.free.clone() {
                let o = sys.wit.iter().position(|w| w.name == "o0").unwrap();
                sys.wit[o].ev[i] += Fr::rand(&mut rng);
            }
        }
        // the vanishing polynomial is known up to a factor
        if k % 4 == 3 {
            sys.zh_by = Fr::rand(&mut rng);
        }
        let (n, zd) = (sys.n, sys.zh_deg());
        let gd = sys.gates.iter().map(|g| g.deg(n - 1)).max().unwrap_or(0);
        let input = |m: String| format!("circuit {} (rows left out {:?}): {}", sys.what, sys.free, m);
        let st = match setup::<Ideal>(&sys, &ck, &vk) {
            Ok(s) => s,
            Err(e) => {
                refused += 1;
                r.check("a circuit with room for its quotient is refused", gd < zd || gd - zd + 1 <= n / 2, || input(e.clone()));
                continue;
            }
        };
        let ix = &st.pvk.index_info;
        let ext = ix.extended_coset_domain;
        r.check("the constraints have a lower degree than the vanishing polynomial and are not refused", gd >= zd, || input(format!("{} {}", gd, zd)));
        r.check("the quotient degree is below the degree of the gates after division", ix.quotient_degree + zd >= gd, || {
            input(format!("quotient degree {} gates {} vanishing {}", ix.quotient_degree, gd, zd))
        });
        let m = sys.copied().len();
        let f = ext.size() / n;
        let mut need = gd.saturating_sub(zd);
        if m > 0 {
            need = need.max((n - 1) * (2 + (f - 1).min(m)) - zd);
        }
        if !sys.looks.is_empty() {
            need = need.max(4 * (n - 1) - zd);
        }
        r.check("the extended domain is not a multiple of the domain", ext.size() % n == 0 && f >= 1, || input(format!("{}", ext.size())));
        r.check("the extended domain has no room for the quotient", ext.size() > need, || {
            input(format!("extended size {} for a quotient of degree up to {}", ext.size(), need))
        });
        let g = Fr::multiplicative_generator();
        for v in [&st.pvk, &st.vvk] {
            let z = &v.zh_inverses_over_coset;
            r.check("wrong number of inverse vanishing values", z.len() == ext.size(), || input(format!("{} of {}", z.len(), ext.size())));
            for i in 0..z.len().min(ext.size()) {
                let x = g * ext.element(i);
                r.check("an inverse vanishing value is wrong", (z[i] * st.zh.evaluate(&x)).is_one(), || {
                    input(format!("index {} of {}, extension factor {}", i, z.len(), f))
                });
            }
        }
        r.check(
            "prover and verifier size the quotient differently",
            st.vvk.index_info.extended_coset_domain.size() == ext.size() && st.vvk.index_info.quotient_degree == ix.quotient_degree,
            || input(String::new()),
        );
        let seed = rng.next_u64();
        take_log();
        let pr = prove::<Ideal, Rec, _>(&st, &mut RecRng::new(seed));
        let log = take_log();
        let p = match pr {
            Ok(p) => p,
            Err(e) => {
                r.check("proving a satisfied circuit fails", false, || input(e.clone()));
                continue;
            }
        };
        if let Some(c) = ch(&log) {
            let cx = ctx(&st, &p);
            r.check("wrong number of quotient pieces", cx.chunks == f, || input(format!("{} pieces, factor {}", cx.chunks, f)));
            if let Some(w) = cx.weights(&c, &mut rng) {
                r.check(
                    "the quotient pieces do not recombine to the combined constraints divided by the vanishing polynomial",
                    cx.identity(&c, &w, &mut rng),
                    || input(format!("seed {}", seed)),
                );
                let mut q = p.clone();
                let ok = (0..cx.chunks).all(|i| cx.polys[&S::Q(i)].coeffs.len() <= n && q.quotient_chunk_commitments[i].p.len() <= n);
                r.check("a quotient piece is longer than the domain", ok, || input(String::new()));
            }
        }
        let res = verify::<Ideal, Rec>(&st, p);
        r.check("the proof of a satisfied circuit is refused", res.is_ok(), || input(format!("seed {}: {:?}", seed, res)));
        take_log();
    }
    r.note(&format!("circuits of 4 to 32 rows, gates of differing degrees 1 to 32, any set of unconstrained rows, vanishing polynomials with any leading coefficient; {} refused as too small", refused));
    r.finish()
}
