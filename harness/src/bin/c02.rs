//! C02: gates and lookups resolve to the columns they were assigned.
use ark_poly::{univariate::DensePolynomial, UVPolynomial};
use std::collections::BTreeSet;
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::instance::*;
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::virtual_expression::VirtualExpression as VE;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zok_harness::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Q {
    kind: u8,
    i: usize,
    r: Rotation,
}
fn ty(k: u8) -> OracleType {
    match k {
        0 => OracleType::Witness,
        1 => OracleType::Instance,
        _ => OracleType::Fixed,
    }
}
impl Q {
    fn v(&self) -> VirtualQuery {
        VirtualQuery::new(self.i, self.r, ty(self.kind))
    }
}
fn show(kind: &OracleType, label: &str, r: &Rotation) -> String {
    let k = match kind {
        OracleType::Witness => "W",
        OracleType::Instance => "I",
        OracleType::Fixed => "F",
    };
    format!("{}<{}@{:?}>", k, label, r)
}
type L = Vec<Vec<String>>; // labels of the columns of each kind
fn want_q(q: &Q, l: &L) -> String {
    show(&ty(q.kind), &l[q.kind as usize][q.i], &q.r)
}
/// a random formula; what it must become
fn gen(rng: &mut ChaChaRng, d: usize, n: &[usize; 3], l: &L, used: &mut Vec<Q>) -> (VE<Fr>, String) {
    let k = if d == 0 { rng.gen_range(0..4) } else { rng.gen_range(0..9) };
    match k {
        0 => {
            let c = Fr::from(rng.gen_range(0..9u64));
            (VE::Constant(c), format!("{}", c))
        }
        1 | 2 | 3 => {
            let q = rq(rng, n);
            used.push(q);
            let s = want_q(&q, l);
            (q.v().into(), s)
        }
        4 => {
            let (a, s) = gen(rng, d - 1, n, l, used);
            (-a, format!("-({})", s))
        }
        5 => {
            let (a, s) = gen(rng, d - 1, n, l, used);
            let (b, t) = gen(rng, d - 1, n, l, used);
            (a + b, format!("({} + {})", s, t))
        }
        6 => {
            let (a, s) = gen(rng, d - 1, n, l, used);
            let (b, t) = gen(rng, d - 1, n, l, used);
            (a - b, format!("({} + -({}))", s, t))
        }
        7 => {
            let (a, s) = gen(rng, d - 1, n, l, used);
            let (b, t) = gen(rng, d - 1, n, l, used);
            (a * b, format!("({} * {})", s, t))
        }
        _ => {
            let (a, s) = gen(rng, d - 1, n, l, used);
            let c = Fr::from(rng.gen_range(0..9u64));
            (a * c, format!("({} scaled {})", s, c))
        }
    }
}
fn rq(rng: &mut ChaChaRng, n: &[usize; 3]) -> Q {
    let r = Rotation::new(rng.gen_range(0..5), if rng.gen() { Sign::Plus } else { Sign::Minus });
    loop {
        let kind = rng.gen_range(0..3u8);
        if n[kind as usize] > 0 {
            return Q { kind, i: rng.gen_range(0..n[kind as usize]), r };
        }
    }
}
fn got(e: &Expression<Fr>) -> String {
    e.evaluate(
        &|c: Fr| format!("{}", c),
        &|q: &OracleQuery| show(&q.oracle_type, &q.label, &q.rotation),
        &|a: String| format!("-({})", a),
        &|a: String, b: String| format!("({} + {})", a, b),
        &|a: String, b: String| format!("({} * {})", a, b),
        &|a: String, c: Fr| format!("({} scaled {})", a, c),
    )
}
fn rots_of<O: ConcreteOracle<Fr>>(o: &[O]) -> Vec<BTreeSet<Rotation>> {
    o.iter().map(|o| o.get_queried_rotations().clone()).collect()
}
fn names<O: ConcreteOracle<Fr>>(o: &[O]) -> Vec<String> {
    o.iter().map(|o| o.get_label()).collect()
}
fn evals(rng: &mut ChaChaRng) -> (DensePolynomial<Fr>, Vec<Fr>) {
    (
        DensePolynomial::rand(3, rng),
        (0..4).map(|_| Fr::rand(rng)).collect(),
    )
}
fn label(kind: usize, j: usize, style: usize) -> String {
    match style {
        // equal names in different kinds, and names that sort differently
        0 => format!("c{}", j),
        1 => format!("{}{}", ["w", "i", "f", "t"][kind], 9 - j),
        _ => format!("{}_{}", j, ["w", "i", "f", "t"][kind]),
    }
}

macro_rules! case {
    ($r:expr, $rng:expr, $n:expr, $nt:expr, $l:expr, $side:expr, $w:expr, $i:expr, $f:expr, $t:expr) => {{
        let (r, rng) = (&mut *$r, &mut *$rng);
        let (n, l): ([usize; 3], L) = ($n, $l.clone());
        let mut w = $w;
        let mut i = $i;
        let mut f = $f;
        let mut t = $t;
        for o in w.iter_mut() {
            for _ in 0..rng.gen_range(0..2) {
                o.register_rotation(Rotation::new(rng.gen_range(0..9), Sign::Plus));
            }
        }
        let before = [rots_of(&w), rots_of(&i), rots_of(&f)];
        let tbefore = rots_of(&t);
        // a gate
        let mut used = vec![];
        let (ve, want) = gen(rng, 4, &n, &l, &mut used);
        // declared references may be more than those used
        for _ in 0..rng.gen_range(0..3) {
            used.push(rq(rng, &n));
        }
        let inp = || format!("{} columns {:?}, formula {}, references {:?}", $side, n, want, used);
        let mut vo = GenericVO::<Fr>::init((ve, used.iter().map(|q| q.v()).collect()));
        r.check("a gate is an error before configuration", vo.get_expression().is_err(), || inp());
        if r.run("configuring a gate", || inp(), || vo.configure(&mut w, &mut i, &mut f)).is_some() {
            let g = vo.get_expression().map(got);
            r.check("a gate becomes the formula over its columns", g.as_deref() == Ok(&want[..]), || {
                format!("{}; got {:?}", inp(), g)
            });
        }
        let mut want_r = before.clone();
        for q in &used {
            want_r[q.kind as usize][q.i].insert(q.r);
        }
        let after = [rots_of(&w), rots_of(&i), rots_of(&f)];
        r.check("exactly the gate's rotations are registered", after == want_r, || {
            format!("{}; registered {:?}, wanted {:?}", inp(), after, want_r)
        });
        r.check("a gate leaves the tables alone", rots_of(&t) == tbefore, || inp());
        // a lookup
        let before = after;
        let mut used = vec![];
        let mut ves = vec![];
        let mut wants = vec![];
        for _ in 0..rng.gen_range(1..4) {
            let (v, s) = gen(rng, 2, &n, &l, &mut used);
            ves.push(v);
            wants.push(s);
        }
        let tq: Vec<Q> = (0..rng.gen_range(1..4))
            .map(|_| {
                let mut q = rq(rng, &n);
                q.kind = if rng.gen_range(0..12) == 0 { rng.gen_range(0..2) } else { 2 };
                q.i = rng.gen_range(0..$nt);
                q
            })
            .collect();
        let inp = || {
            format!("{} columns {:?}, {} tables, lookup {:?}, references {:?}, tables {:?}", $side, n, $nt, wants, used, tq)
        };
        let mut lk = GenericLookupVO::<Fr>::init((
            ves,
            used.iter().map(|q| q.v()).collect(),
            tq.iter().map(|q| q.v()).collect(),
        ));
        r.check(
            "a lookup is an error before configuration",
            lk.get_expressions().is_err() && lk.get_table_queries().is_err(),
            || inp(),
        );
        let fine = tq.iter().all(|q| q.kind == 2);
        if let Some(res) = r.run("configuring a lookup", || inp(), || lk.configure(&mut w, &mut i, &mut f, &mut t)) {
            r.check("a lookup is refused iff a table reference is not to a fixed column", res.is_ok() == fine, || inp());
        }
        if fine {
            let g: Option<Vec<String>> = lk.get_expressions().ok().map(|e| e.iter().map(got).collect());
            r.check("a lookup becomes its formulas over its columns", g.as_ref() == Some(&wants), || {
                format!("{}; got {:?}", inp(), g)
            });
            let g: Option<Vec<String>> = lk
                .get_table_queries()
                .ok()
                .map(|e| e.iter().map(|q| show(&q.oracle_type, &q.label, &q.rotation)).collect());
            let want: Vec<String> = tq.iter().map(|q| show(&OracleType::Fixed, &l[3][q.i], &q.r)).collect();
            r.check("table references stay in order", g == Some(want), || format!("{}; got {:?}", inp(), g));
            let mut want_t = tbefore.clone();
            for q in &tq {
                want_t[q.i].insert(q.r);
            }
            r.check("exactly the table rotations are registered", rots_of(&t) == want_t, || {
                format!("{}; registered {:?}", inp(), rots_of(&t))
            });
        }
        let mut want_r = before.clone();
        for q in &used {
            want_r[q.kind as usize][q.i].insert(q.r);
        }
        let after = [rots_of(&w), rots_of(&i), rots_of(&f)];
        r.check("exactly the lookup's rotations are registered", after == want_r, || {
            format!("{}; registered {:?}, wanted {:?}", inp(), after, want_r)
        });
        let ls = vec![names(&w), names(&i), names(&f), names(&t)];
        r.check("labels are unchanged", ls == l, || inp());
    }};
}
fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(2);
    for t in 0..r.n(400, 4000) {
        let n = [1 + rng.gen_range(0..3), rng.gen_range(0..3), rng.gen_range(0..4)];
        let nt = 1 + rng.gen_range(0..3usize);
        let l: L = [n[0], n[1], n[2], nt]
            .iter()
            .enumerate()
            .map(|(k, c)| (0..*c).map(|j| label(k, j, t % 3)).collect())
            .collect();
        if t % 2 == 0 {
            let mut ev = || evals(&mut rng);
            let w: Vec<_> = l[0].iter().map(|s| { let (p, e) = ev(); WitnessProverOracle::new(s.clone(), p, &e, false) }).collect();
            let i: Vec<_> = l[1].iter().map(|s| { let (p, e) = ev(); InstanceProverOracle::new(s.clone(), p, &e) }).collect();
            let f: Vec<_> = l[2].iter().map(|s| { let (p, e) = ev(); FixedProverOracle::new(s.clone(), p, &e) }).collect();
            let tb: Vec<_> = l[3].iter().map(|s| { let (p, e) = ev(); FixedProverOracle::new(s.clone(), p, &e) }).collect();
            case!(&mut r, &mut rng, n, nt, l, "prover", w, i, f, tb);
        } else {
            let w: Vec<_> = l[0].iter().map(|s| WitnessVerifierOracle::<Fr, KZG>::new(s.clone(), false)).collect();
            let i: Vec<_> = l[1].iter().map(|s| InstanceVerifierOracle::new(s.clone(), evals(&mut rng).0)).collect();
            let f: Vec<_> = l[2].iter().map(|s| FixedVerifierOracle::<Fr, KZG>::new(s.clone(), None)).collect();
            let tb: Vec<_> = l[3].iter().map(|s| FixedVerifierOracle::<Fr, KZG>::new(s.clone(), None)).collect();
            case!(&mut r, &mut rng, n, nt, l, "verifier", w, i, f, tb);
        }
    }
    // more columns, larger rotations; the same gate and lookup configured again on other columns
    for t in 0..r.n(60, 400) {
        let n = [1 + rng.gen_range(0..40), rng.gen_range(0..20), rng.gen_range(0..40)];
        let nt = 1 + rng.gen_range(0..20usize);
        let lists: Vec<L> = (0..2)
            .map(|s| {
                [n[0], n[1], n[2], nt]
                    .iter()
                    .enumerate()
                    .map(|(k, c)| (0..*c).map(|j| format!("{}{}{}", ["x", "y"][(s + t) % 2], ["w", "i", "f", "t"][k], j)).collect())
                    .collect()
            })
            .collect();
        let (mut used, mut used2) = (vec![], vec![]);
        let mut r1 = rng.clone();
        let (ve, w0) = gen(&mut rng, 4, &n, &lists[0], &mut used);
        let (_, w1) = gen(&mut r1, 4, &n, &lists[1], &mut used2);
        let far = Rotation::new(rng.gen_range(0..70000), if rng.gen() { Sign::Plus } else { Sign::Minus });
        let last = Q { kind: 0, i: n[0] - 1, r: far };
        used.push(last);
        let q = rq(&mut rng, &n);
        let mut vo = GenericVO::<Fr>::init((ve, used.iter().map(|q| q.v()).collect()));
        let tq = Q { kind: 2, i: rng.gen_range(0..nt), r: far };
        let mut lk = GenericLookupVO::<Fr>::init((vec![q.v().into()], vec![q.v()], vec![tq.v(), tq.v()]));
        for (l, want) in [(&lists[0], &w0), (&lists[1], &w1)] {
            let mut w: Vec<_> = l[0].iter().map(|s| WitnessVerifierOracle::<Fr, KZG>::new(s.clone(), false)).collect();
            let mut i: Vec<_> = l[1].iter().map(|s| InstanceVerifierOracle::new(s.clone(), evals(&mut rng).0)).collect();
            let mut f: Vec<_> = l[2].iter().map(|s| FixedVerifierOracle::<Fr, KZG>::new(s.clone(), None)).collect();
            let mut tb: Vec<_> = l[3].iter().map(|s| FixedVerifierOracle::<Fr, KZG>::new(s.clone(), None)).collect();
            let inp = || format!("columns {:?} and {} tables named {}.., formula {}, references {:?}, lookup {:?} in {:?}", n, nt, l[0][0], want, used, q, tq);
            r.run("configuring a gate", || inp(), || vo.configure(&mut w, &mut i, &mut f));
            r.check("a gate becomes the formula over the columns it was given", vo.get_expression().map(got).as_deref() == Ok(&want[..]), || inp());
            let mut want_r: Vec<Vec<BTreeSet<Rotation>>> = n.iter().map(|c| vec![BTreeSet::new(); *c]).collect();
            for q in &used {
                want_r[q.kind as usize][q.i].insert(q.r);
            }
            r.check("exactly the gate's rotations are registered", vec![rots_of(&w), rots_of(&i), rots_of(&f)] == want_r, || inp());
            let ok = r.run("configuring a lookup", || inp(), || lk.configure(&mut w, &mut i, &mut f, &mut tb)).map_or(false, |x| x.is_ok());
            let g: Option<Vec<String>> = lk.get_expressions().ok().map(|e| e.iter().map(got).collect());
            r.check("a lookup becomes its formulas over the columns it was given", ok && g == Some(vec![want_q(&q, l)]), || inp());
            let g: Option<Vec<String>> =
                lk.get_table_queries().ok().map(|e| e.iter().map(|q| show(&q.oracle_type, &q.label, &q.rotation)).collect());
            let want = show(&OracleType::Fixed, &l[3][tq.i], &tq.r);
            r.check("table references stay in order, repeated ones too", g == Some(vec![want.clone(), want]), || inp());
            want_r[q.kind as usize][q.i].insert(q.r);
            let mut want_t = vec![BTreeSet::new(); nt];
            want_t[tq.i].insert(tq.r);
            r.check("exactly the lookup's rotations are registered", vec![rots_of(&w), rots_of(&i), rots_of(&f)] == want_r && rots_of(&tb) == want_t, || inp());
        }
    }
    r.note("60 (thorough: 400) gates and lookups over up to 40 columns, rotations up to 70000, configured twice on columns of other names");
    r.note("400 (thorough: 4000) random gates and lookups of depth at most 4 over at most 3 columns of each kind and 3 tables, rotations up to 4 either way, prover and verifier columns, several naming schemes");
    r.finish()
}
