//! C08: every constraint has its own power of the batching challenge
#[path = "../common/tp.rs"]
mod tp;
#[path = "../common/terms.rs"]
mod terms;
use ark_poly::Polynomial;
use std::collections::BTreeMap;
use terms::*;
use tp::*;
use zok_harness::ideal::*;
use zok_harness::spec::*;
use zok_harness::sys::*;
use zok_harness::*;

fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(8);
    let (ck, vk) = keys::<Ideal>(256, 1);
    let rounds = r.n(20, 200);
    for round in 0..rounds {
        for sh in shapes() {
            let mut sh = sh.clone();
            if round > 0 {
                sh.gates = if round % 5 == 1 { 5 + pick(&mut rng, 8) } else { 1 + pick(&mut rng, 4) };
            }
            let sys = generate(&mut rng, &sh);
            let st = match setup::<Ideal>(&sys, &ck, &vk) {
                Ok(s) => s,
                Err(e) => {
                    r.check("indexing a circuit within the limits fails", false, || format!("{} {}", sys.what, e));
                    continue;
                }
            };
            let seed = rng.next_u64();
            fix_challenges(Some(seed));
            take_log();
            let pr = prove::<Ideal, Rec, _>(&st, &mut RecRng::new(seed));
            let log = take_log();
            let p = match pr {
                Ok(p) => p,
                Err(e) => {
                    r.check("proving a satisfied circuit fails", false, || format!("{} {}", sys.what, e));
                    continue;
                }
            };
            let c = match ch(&log) {
                Some(c) => c,
                None => continue,
            };
            let cx = ctx(&st, &p);
            let k = {
                let x = Fr::rand(&mut rng);
                cx.terms(&|s, q| cx.at(s, q, x), &c, x).len()
            };
            let w = match cx.weights(&c, &mut rng) {
                Some(w) => w,
                None => {
                    r.note("a circuit with linearly dependent constraints was skipped");
                    continue;
                }
            };
            let input = |m: String| format!("circuit {} seed {}: {}", sys.what, seed, m);
            // the prover
            let ex: Vec<Option<usize>> = w.iter().map(|x| exponent(*x, c.alpha, 2 * k + 8)).collect();
            r.check(
                "the prover's quotient does not weigh every constraint by a power of the challenge",
                ex.iter().all(|e| e.is_some()) && cx.identity(&c, &w, &mut rng),
                || input(format!("exponents of the {} constraints (gates, copy, lookups): {:?}", k, ex)),
            );
            let mut seen = BTreeMap::new();
            for (i, e) in ex.iter().enumerate() {
                if let Some(e) = e {
                    let prev = seen.insert(*e, i);
                    r.check("two constraints share one weight in the prover's quotient", prev.is_none(), || {
                        input(format!("constraints {:?} and {} both have power {}", prev, i, e))
                    });
                }
            }
            // the verifier, on values that satisfy nothing
            let m = match meaning(&cx, &p, &c) {
                Ok(m) => m,
                Err(e) => {
                    r.check("a claimed evaluation is not the evaluation of a column", false, || input(e.clone()));
                    continue;
                }
            };
            for _ in 0..r.n(2, 6) {
                let mut q = p.clone();
                let mut val: BTreeMap<(S, i64), Fr> = BTreeMap::new();
                let special = pick(&mut rng, 3) == 0;
                for (s, (col, rt)) in &m {
                    let v = Fr::rand(&mut rng);
                    let v = if special { at_special(&mut rng, v) } else { v };
                    *cell(&mut q, *s) = v;
                    val.insert((*col, *rt), v);
                }
                let get = |s: S, rt: i64| {
                    let rt = rt.rem_euclid(cx.n as i64);
                    match s {
                        S::I(_) => cx.at(s, rt, c.xi),
                        _ => val.get(&(s, rt)).copied().unwrap_or_else(|| cx.at(s, rt, c.xi)),
                    }
                };
                let tot = weigh(&cx.terms(&get, &c, c.xi), &w);
                let zh = st.zh.evaluate(&c.xi);
                let rest = cx.t_at(&|i| if i == 0 { Fr::zero() } else { get(S::Q(i), 0) }, c.xi);
                let t0 = tot * zh.inverse().unwrap() - rest;
                let s0 = match m.iter().find(|(_, v)| v.0 == S::Q(0)) {
                    Some((s, _)) => *s,
                    None => break,
                };
                *cell(&mut q, s0) = t0;
                let res = verify::<Ideal, Rec>(&st, q.clone());
                r.check(
                    "the verifier's combined constraint is not the prover's",
                    !matches!(&res, Err(e) if e.contains("QuotientNotZero")),
                    || input(format!("evaluations drawn at random, first quotient piece solved for: {:?}", res)),
                );
                *cell(&mut q, s0) = t0 + Fr::rand(&mut rng);
                let res = verify::<Ideal, Rec>(&st, q.clone());
                r.check(
                    "the verifier accepts a combined constraint that does not hold",
                    matches!(&res, Err(e) if e.contains("QuotientNotZero")),
                    || input(format!("evaluations drawn at random, first quotient piece wrong: {:?}", res)),
                );
            }
            fix_challenges(None);
            take_log();
        }
    }
    r.note("circuits: 17 shapes with 1-12 gates, 0-6 copied columns, 0-2 lookups; weights solved for from the committed quotient, verifier compared on random evaluations");
    r.finish()
}
