//! C15: every value the verifier uses is checked at the point where it is used
#[path = "../common/tp.rs"]
mod tp;
#[path = "../common/terms.rs"]
mod terms;
use ark_poly::Polynomial;
use std::collections::BTreeMap;
use terms::*;
use tp::*;
use zok_harness::ideal::*;
use zok_harness::spec::*;
use zok_harness::sys::*;
use zok_harness::*;

fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(15);
    let (ck, vk) = keys::<Ideal>(256, 1);
    let rounds = r.n(3, 30);
    for _round in 0..rounds {
        for sh in shapes() {
            let sys = generate(&mut rng, &sh);
            let st = match setup::<Ideal>(&sys, &ck, &vk) {
                Ok(s) => s,
                Err(e) => {
                    r.check("indexing a circuit within the limits fails", false, || format!("{} {}", sys.what, e));
                    continue;
                }
            };
            let seed = rng.next_u64();
            fix_challenges(Some(seed));
            take_log();
            let pr = prove::<Ideal, Rec, _>(&st, &mut RecRng::new(seed));
            let log = take_log();
            let p = match pr {
                Ok(p) => p,
                Err(e) => {
                    r.check("proving a satisfied circuit fails", false, || format!("{} {}", sys.what, e));
                    continue;
                }
            };
            let c = match ch(&log) {
                Some(c) => c,
                None => continue,
            };
            let cx = ctx(&st, &p);
            let input = |m: String| format!("circuit {} seed {}: {}", sys.what, seed, m);
            let w = match cx.weights(&c, &mut rng) {
                Some(w) => w,
                None => continue,
            };
            let m = match meaning(&cx, &p, &c) {
                Ok(m) => m,
                Err(e) => {
                    r.check("a claimed evaluation is not the evaluation of a column", false, || input(e.clone()));
                    continue;
                }
            };
            r.check("the honest proof is refused", verify::<Ideal, Rec>(&st, p.clone()).is_ok(), || input(String::new()));
            // what the constraints read
            let used = std::cell::RefCell::new(vec![]);
            cx.terms(
                &|s, rt| {
                    let rt = rt.rem_euclid(cx.n as i64);
                    used.borrow_mut().push((s, rt));
                    cx.at(s, rt, c.xi)
                },
                &c,
                c.xi,
            );
            let have: std::collections::BTreeSet<(S, i64)> = m.values().copied().collect();
            for u in used.borrow().iter() {
                r.check(
                    "a constraint reads a value no claimed evaluation carries",
                    matches!(u.0, S::I(_)) || have.contains(u) || m.len() < slots(&p).len(),
                    || input(format!("{:?}", u)),
                );
            }
            if m.len() < slots(&p).len() {
                r.note("a proof with two equal evaluations was skipped");
                continue;
            }
            let s0 = match m.iter().find(|(_, v)| v.0 == S::Q(0)) {
                Some((s, _)) => *s,
                None => continue,
            };
            // the claim the opening is asked for is affine in the claimed evaluations: find its weights
            let all: Vec<Slot> = m.keys().copied().collect();
            let zh = st.zh.evaluate(&c.xi);
            let mut attempt = |rng: &mut ChaChaRng, which: &[Slot]| {
                let mut q = p.clone();
                for s in which {
                    *cell(&mut q, *s) = Fr::rand(rng);
                }
                let vals: BTreeMap<(S, i64), Fr> = m.iter().map(|(s, k)| (*k, *cell(&mut q, *s))).collect();
                let get = |s: S, rt: i64| {
                    let rt = rt.rem_euclid(cx.n as i64);
                    vals.get(&(s, rt)).copied().unwrap_or_else(|| cx.at(s, rt, c.xi))
                };
                let tot = weigh(&cx.terms(&get, &c, c.xi), &w);
                let rest = cx.t_at(&|i| if i == 0 { Fr::zero() } else { get(S::Q(i), 0) }, c.xi);
                *cell(&mut q, s0) = tot * zh.inverse().unwrap() - rest;
                CLAIM.with(|l| *l.borrow_mut() = None);
                let res = verify::<Ideal, Rec>(&st, q.clone());
                (q, res, CLAIM.with(|l| l.borrow().clone()))
            };
            // one value at a time: consistent with the constraints, false for the column
            let mut stuck = false;
            for s in &all {
                if *s == s0 {
                    continue;
                }
                let (_, res, claim) = attempt(&mut rng, &[*s]);
                r.check("a false evaluation that satisfies the constraints is not refused by the opening", res.is_err(), || {
                    input(format!("{}[{}] ({:?}) replaced: {:?}", PARTS[s.part], s.index, m[s], res))
                });
                r.check(
                    "a false evaluation makes the constraint check fail although the constraints hold on it",
                    claim.is_some(),
                    || input(format!("{}[{}] ({:?}) replaced: {:?}", PARTS[s.part], s.index, m[s], res)),
                );
                stuck |= claim.is_none();
            }
            if stuck {
                continue;
            }
            let mut rows = vec![];
            let mut rhs = vec![];
            for _ in 0..all.len() + 1 {
                let (mut q, _, claim) = attempt(&mut rng, &all);
                if let Some(cl) = claim {
                    let mut row: Vec<Fr> = all.iter().map(|s| *cell(&mut q, *s)).collect();
                    row.push(Fr::one());
                    rows.push(row);
                    rhs.push(cl.value);
                }
            }
            if rows.len() == all.len() + 1 {
                if let Some(k) = solve(rows, rhs) {
                    for (i, s) in all.iter().enumerate() {
                        r.check("a claimed evaluation is not part of the batch that is opened", !k[i].is_zero(), || {
                            input(format!("{}[{}] ({:?})", PARTS[s.part], s.index, m[s]))
                        });
                    }
                    // a column's commitment is opened: the true values are the only ones that fit
                    let mut q = p.clone();
                    let v: Fr = all.iter().zip(&k).map(|(s, k)| *cell(&mut q, *s) * k).sum::<Fr>() + k[all.len()];
                    CLAIM.with(|l| *l.borrow_mut() = None);
                    let res = verify::<Ideal, Rec>(&st, p.clone());
                    let cl = CLAIM.with(|l| l.borrow().clone());
                    r.check(
                        "the opened claim is not one combination of the claimed evaluations",
                        cl.map_or(false, |c| c.value == v),
                        || input(format!("{:?}", res)),
                    );
                }
            }
            // public inputs are the verifier's own: other ones are refused although the transcript is the same
            for i in 0..sys.ins.len() {
                let mut s2 = sys.clone();
                let row = pick(&mut rng, sys.n);
                s2.ins[i].ev[row] += Fr::one();
                let read = used.borrow().iter().any(|(s, _)| *s == S::I(i));
                if let Ok(mut st2) = setup::<Ideal>(&s2, &ck, &vk) {
                    st2.wver = st.wver.clone();
                    let res = verify::<Ideal, Rec>(&st2, p.clone());
                    r.check("a proof is accepted for other public inputs", !read || res.is_err(), || {
                        input(format!("public input column {} row {} changed", i, row))
                    });
                }
            }
            fix_challenges(None);
            take_log();
        }
    }
    r.note("each claimed evaluation of 17 circuit shapes replaced by a random one with the constraint identity kept; weights of the opened claim solved for");
    r.finish()
}
