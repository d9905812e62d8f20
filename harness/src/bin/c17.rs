//! C17: malformed proofs are refused, without panics
#[path = "../common/tp.rs"]
mod tp;
#[path = "../common/terms.rs"]
mod terms;
use ark_poly::Polynomial;
use std::collections::BTreeMap;
use terms::*;
use tp::*;
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::rng::FiatShamirRng;
use zok_harness::ideal::*;
use zok_harness::spec::*;
use zok_harness::sys::*;
use zok_harness::*;

/// one way of damaging a list
fn damage<T: Clone>(v: &mut Vec<T>, how: usize, rng: &mut ChaChaRng, fresh: &mut dyn FnMut(&mut ChaChaRng) -> T) -> Option<String> {
    let n = v.len();
    Some(match how {
        0 if n > 0 => {
            v.pop();
            "last element dropped".into()
        }
        1 if n > 0 => {
            v.remove(0);
            "first element dropped".into()
        }
        2 if n > 0 => {
            let x = v[n - 1].clone();
            v.push(x);
            "last element repeated".into()
        }
        3 => {
            let x = fresh(rng);
            v.push(x);
            "an element added".into()
        }
        4 if n > 0 => {
            v.clear();
            "emptied".into()
        }
        5 => {
            for _ in 0..7 {
                let x = fresh(rng);
                v.push(x);
            }
            "seven elements added".into()
        }
        6 if n > 1 => {
            let (i, j) = (pick(rng, n), pick(rng, n));
            v.swap(i, j);
            format!("elements {} and {} exchanged", i, j)
        }
        7 if n > 0 => {
            let i = pick(rng, n);
            v[i] = fresh(rng);
            format!("element {} replaced", i)
        }
        8 if n > 0 => {
            for i in 0..n {
                v[i] = fresh(rng);
            }
            "every element replaced".into()
        }
        9 => {
            let x = fresh(rng);
            v.insert(0, x);
            "an element put in front".into()
        }
        _ => return None,
    })
}
const HOW: usize = 10;
fn trials<PC: HomomorphicCommitment<Fr>>(
    p: &TPProof<Fr, PC>,
    rng: &mut ChaChaRng,
    cm: &mut dyn FnMut(&mut ChaChaRng) -> PC::Commitment,
    pf: &mut dyn FnMut(&mut ChaChaRng) -> PC::Proof,
) -> Vec<(String, TPProof<Fr, PC>)> {
    let mut out = vec![];
    let mut fe = |rng: &mut ChaChaRng| match pick(rng, 4) {
        0 => Fr::zero(),
        1 => Fr::one(),
        _ => Fr::rand(rng),
    };
    for h in 0..HOW {
        macro_rules! go {
            ($f:expr, $name:expr, $fresh:expr) => {{
                let mut q = dup(p);
                if let Some(s) = damage(&mut ($f)(&mut q), h, rng, $fresh) {
                    out.push((format!("{}: {}", $name, s), q));
                }
            }};
        }
        macro_rules! vecs {
            ($($field:ident),* ; $fresh:expr) => {$({
                let mut q = dup(p);
                if let Some(s) = damage(&mut q.$field, h, rng, $fresh) {
                    out.push((format!("{}: {}", stringify!($field), s), q));
                }
            })*};
        }
        vecs!(witness_commitments, lookup_commitments, lookup_z_commitments, z_commitments, quotient_chunk_commitments; cm);
        vecs!(witness_evals, fixed_oracle_evals, table_oracle_evals, permutation_oracle_evals, lookup_evals, lookup_z_evals, z_evals, quotient_chunks_evals; &mut fe);
        let mut q = dup(p);
        if let Some(s) = damage(&mut q.multiopen_proof.q_evals, h, rng, &mut fe) {
            out.push((format!("q_evals: {}", s), q));
        }
        // commitments and evaluations together, so that simple count checks agree
        macro_rules! pair {
            ($a:ident, $b:ident) => {{
                let mut q = dup(p);
                let x = damage(&mut q.$a, h, rng, cm);
                let y = damage(&mut q.$b, h, rng, &mut fe);
                if x.is_some() || y.is_some() {
                    out.push((format!("{} {:?}, {} {:?}", stringify!($a), x, stringify!($b), y), q));
                }
            }};
        }
        pair!(witness_commitments, witness_evals);
        pair!(z_commitments, z_evals);
        pair!(lookup_z_commitments, lookup_z_evals);
        pair!(lookup_commitments, lookup_evals);
        pair!(quotient_chunk_commitments, quotient_chunks_evals);
    }
    // claims of nothing at all, and of the same value everywhere
    for v in [Fr::zero(), Fr::one()] {
        macro_rules! flat {
            ($($field:ident),*) => {$({
                let mut q = dup(p);
                if q.$field.iter().any(|x| *x != v) {
                    for x in q.$field.iter_mut() {
                        *x = v;
                    }
                    out.push((format!("{}: every element {}", stringify!($field), v), q));
                }
            })*};
        }
        flat!(witness_evals, fixed_oracle_evals, table_oracle_evals, permutation_oracle_evals, lookup_evals, lookup_z_evals, z_evals, quotient_chunks_evals);
        let mut q = dup(p);
        if q.multiopen_proof.q_evals.iter().any(|x| *x != v) {
            for x in q.multiopen_proof.q_evals.iter_mut() {
                *x = v;
            }
            out.push((format!("q_evals: every element {}", v), q));
        }
    }
    let mut q = dup(p);
    q.q_blind_eval = fe(rng);
    out.push(("q_blind_eval replaced".into(), q));
    let mut q = dup(p);
    q.multiopen_proof.f_commit = cm(rng);
    out.push(("f_commit replaced".into(), q));
    let mut q = dup(p);
    q.multiopen_proof.opening_proof = pf(rng);
    out.push(("opening_proof replaced".into(), q));
    let mut q = dup(p);
    q.witness_commitments.clear();
    q.witness_evals.clear();
    q.fixed_oracle_evals.clear();
    q.table_oracle_evals.clear();
    q.permutation_oracle_evals.clear();
    q.lookup_commitments.clear();
    q.lookup_z_commitments.clear();
    q.lookup_evals.clear();
    q.lookup_z_evals.clear();
    q.z_commitments.clear();
    q.z_evals.clear();
    q.quotient_chunk_commitments.clear();
    q.quotient_chunks_evals.clear();
    q.multiopen_proof.q_evals.clear();
    out.push(("everything emptied".into(), q));
    out
}
fn one<PC: HomomorphicCommitment<Fr> + 'static, T: FiatShamirRng>(
    r: &mut Report,
    st: &Setup<PC>,
    p: &TPProof<Fr, PC>,
    seed: u64,
    rng: &mut ChaChaRng,
    cm: &mut dyn FnMut(&mut ChaChaRng) -> PC::Commitment,
    pf: &mut dyn FnMut(&mut ChaChaRng) -> PC::Proof,
) {
    let honest = ser(p);
    r.check("the honest proof is refused", verify::<PC, T>(st, dup(p)).is_ok(), || st.sys.what.clone());
    for (what, q) in trials(p, rng, cm, pf) {
        if ser(&q) == honest {
            continue;
        }
        let res = verify::<PC, T>(st, q);
        let input = || format!("circuit {} seed {}: {}: {:?}", st.sys.what, seed, what, res);
        r.check("a malformed proof is accepted", res.is_err(), input);
        r.check("verification of a malformed proof panics", !matches!(&res, Err(e) if e.starts_with("panic")), input);
    }
}
fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(17);
    let (ck, vk) = keys::<Ideal>(256, 1);
    for _ in 0..r.n(2, 30) {
        for sh in shapes() {
            let sys = generate(&mut rng, &sh);
            let st = match setup::<Ideal>(&sys, &ck, &vk) {
                Ok(s) => s,
                Err(_) => continue,
            };
            let seed = rng.next_u64();
            for fixed in [None, Some(seed)] {
                fix_challenges(fixed);
                take_log();
                let p = match prove::<Ideal, Rec, _>(&st, &mut RecRng::new(seed)) {
                    Ok(p) => p,
                    Err(_) => continue,
                };
                let log = take_log();
                let mut cm = |rng: &mut ChaChaRng| Cm { p: (0..1 + pick(rng, 6)).map(|_| Fr::rand(rng)).collect(), b: vec![] };
                let mut pf = |rng: &mut ChaChaRng| Op { b: Fr::rand(rng) };
                one::<Ideal, Rec>(&mut r, &st, &p, seed, &mut rng, &mut cm, &mut pf);
                // malformed in the openings only: the combined constraint is kept
                if fixed.is_some() {
                    if let Some(c) = ch(&log) {
                        let cx = ctx(&st, &p);
                        if let (Some(w), Ok(m)) = (cx.weights(&c, &mut rng), meaning(&cx, &p, &c)) {
                            let s0 = m.iter().find(|(_, v)| v.0 == S::Q(0)).map(|(s, _)| *s);
                            if let (Some(s0), true) = (s0, m.len() == slots(&p).len()) {
                                for h in 0..HOW {
                                    let mut q = p.clone();
                                    let mut vals = BTreeMap::new();
                                    for (s, k) in &m {
                                        if pick(&mut rng, 2) == 0 {
                                            *cell(&mut q, *s) = Fr::rand(&mut rng);
                                        }
                                        vals.insert(*k, *cell(&mut q, *s));
                                    }
                                    let get = |s: S, rt: i64| {
                                        let rt = rt.rem_euclid(cx.n as i64);
                                        vals.get(&(s, rt)).copied().unwrap_or_else(|| cx.at(s, rt, c.xi))
                                    };
                                    let tot = weigh(&cx.terms(&get, &c, c.xi), &w);
                                    let rest = cx.t_at(&|i| if i == 0 { Fr::zero() } else { get(S::Q(i), 0) }, c.xi);
                                    *cell(&mut q, s0) = tot * st.zh.evaluate(&c.xi).inverse().unwrap() - rest;
                                    let mut fe = |rng: &mut ChaChaRng| Fr::rand(rng);
                                    let what = damage(&mut q.multiopen_proof.q_evals, h, &mut rng, &mut fe);
                                    let res = verify::<Ideal, Rec>(&st, q);
                                    let input = || format!("circuit {} seed {}: random evaluations that satisfy the constraints, q_evals {:?}: {:?}", sys.what, seed, what, res);
                                    r.check("a malformed proof is accepted", res.is_err(), input);
                                    r.check("verification of a malformed proof panics", !matches!(&res, Err(e) if e.starts_with("panic")), input);
                                }
                            }
                        }
                    }
                }
                fix_challenges(None);
                take_log();
            }
        }
    }
    // the same with the real commitment scheme
    let (ck, vk) = keys::<KZG>(128, 1);
    let sel: Vec<usize> = if r.thorough { (0..shapes().len()).collect() } else { vec![11] };
    for i in sel {
        let sys = generate(&mut rng, &shapes()[i]);
        if let Ok(st) = setup::<KZG>(&sys, &ck, &vk) {
            if let Ok(p) = prove::<KZG, FS, _>(&st, &mut rng.clone()) {
                let pool = p.witness_commitments.clone();
                let op = p.multiopen_proof.opening_proof.clone();
                let mut cm = |rng: &mut ChaChaRng| pool[pick(rng, pool.len())].clone();
                let mut pf = |rng: &mut ChaChaRng| {
                    let mut o = op.clone();
                    o.random_v = Some(Fr::rand(rng));
                    o
                };
                one::<KZG, FS>(&mut r, &st, &p, 0, &mut rng, &mut cm, &mut pf);
            }
        }
    }
    r.note("every part of proofs of 17 circuit shapes shortened, lengthened, reordered and replaced, ten ways each");
    r.finish()
}
