//! C03: built-in gates evaluate to their documented relation.
use ark_poly::{univariate::DensePolynomial, UVPolynomial};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::instance::*;
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::precompiled::logic::{Delta, DeltaXorAnd};
use zero_over_k::vo::precompiled::mul::PrecompiledMul;
use zero_over_k::vo::precompiled::plonk_arith::{PlonkArith4, PrecompiledPlonkArith};
use zero_over_k::vo::precompiled::rescue::PrecompiledRescue;
use zero_over_k::vo::precompiled::PrecompiledVO;
use zero_over_k::vo::precompiled_lookups::simple_1_arith::PrecompiledSimple1ArithLookup;
use zero_over_k::vo::precompiled_lookups::simple_3_arith::PrecompiledSimple3ArithLookup;
use zero_over_k::vo::precompiled_lookups::PrecompiledLookupVO;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zok_harness::*;

const N: usize = 8;
type Key = (u8, String, Rotation);
fn key(q: &OracleQuery) -> Key {
    let k = match q.oracle_type {
        OracleType::Witness => 0,
        OracleType::Instance => 1,
        OracleType::Fixed => 2,
    };
    (k, q.label.clone(), q.rotation)
}
struct Cols {
    w: Vec<WitnessProverOracle<Fr>>,
    i: Vec<InstanceProverOracle<Fr>>,
    f: Vec<FixedProverOracle<Fr>>,
    t: Vec<FixedProverOracle<Fr>>,
}
fn cols() -> Cols {
    let p = DensePolynomial::from_coefficients_vec(vec![]);
    Cols {
        w: (0..N).map(|j| WitnessProverOracle::new(format!("w{}", j), p.clone(), &[], false)).collect(),
        i: (0..N).map(|j| InstanceProverOracle::new(format!("i{}", j), p.clone(), &[])).collect(),
        f: (0..N).map(|j| FixedProverOracle::new(format!("f{}", j), p.clone(), &[])).collect(),
        t: (0..N).map(|j| FixedProverOracle::new(format!("t{}", j), p.clone(), &[])).collect(),
    }
}
fn registered(c: &Cols) -> BTreeSet<Key> {
    let mut s = BTreeSet::new();
    for o in &c.w {
        for r in o.get_queried_rotations() {
            s.insert((0, o.get_label(), *r));
        }
    }
    for o in &c.i {
        for r in o.get_queried_rotations() {
            s.insert((1, o.get_label(), *r));
        }
    }
    for o in &c.f {
        for r in o.get_queried_rotations() {
            s.insert((2, o.get_label(), *r));
        }
    }
    s
}
fn k(kind: u8, j: usize, r: Rotation) -> Key {
    (kind, format!("{}{}", ["w", "i", "f"][kind as usize], j), r)
}
fn ev(e: &Expression<Fr>, env: &BTreeMap<Key, Fr>, used: &RefCell<BTreeSet<Key>>) -> Result<Fr, ()> {
    let op = |f: fn(Fr, Fr) -> Fr| move |a: Result<Fr, ()>, b: Result<Fr, ()>| Ok(f(a?, b?));
    e.evaluate(
        &|c: Fr| Ok(c),
        &|q: &OracleQuery| {
            used.borrow_mut().insert(key(q));
            env.get(&key(q)).copied().ok_or(())
        },
        &|a: Result<Fr, ()>| a.map(|a| -a),
        &op(|a, b| a + b),
        &op(|a, b| a * b),
        &|a: Result<Fr, ()>, c: Fr| a.map(|a| a * c),
    )
}
/// the values of a row: w(j), w next(j), i(j), f(j)
struct Row {
    env: BTreeMap<Key, Fr>,
}
impl Row {
    fn w(&self, j: usize) -> Fr {
        self.env[&k(0, j, Rotation::curr())]
    }
    fn wn(&self, j: usize) -> Fr {
        self.env[&k(0, j, Rotation::next())]
    }
    fn i(&self, j: usize) -> Fr {
        self.env[&k(1, j, Rotation::curr())]
    }
    fn f(&self, j: usize) -> Fr {
        self.env[&k(2, j, Rotation::curr())]
    }
}
fn row(rng: &mut ChaChaRng, small: bool) -> Row {
    let mut env = BTreeMap::new();
    for kind in 0..3 {
        for j in 0..N {
            for r in [Rotation::curr(), Rotation::next(), Rotation::prev()] {
                let v = if small {
                    Fr::from(rng.gen_range(0..4u64)) - Fr::from(rng.gen_range(0..2u64))
                } else {
                    Fr::rand(rng)
                };
                env.insert(k(kind, j, r), v);
            }
        }
    }
    Row { env }
}
fn gate<G: PrecompiledVO<Fr>>(r: &mut Report, name: &str, want: impl Fn(&Row) -> Fr, refs: &[Key]) {
    let mut c = cols();
    let mut vo = GenericVO::<Fr>::init(G::get_expr_and_queries());
    if r.run(name, || name.into(), || vo.configure(&mut c.w, &mut c.i, &mut c.f)).is_none() {
        return;
    }
    let e = vo.get_expression().unwrap().clone();
    let mut rng = r.rng(3);
    let used = RefCell::new(BTreeSet::new());
    for t in 0..r.n(200, 5000) {
        let row = row(&mut rng, t % 2 == 0);
        let g = ev(&e, &row.env, &used);
        let w = want(&row);
        r.check(&format!("{} is its documented relation", name), g == Ok(w), || {
            format!("{:?}; got {:?}, the relation is {:?}", row.env.iter().map(|(k, v)| format!("{:?}={}", k, v)).collect::<Vec<_>>(), g.map(|x| x.to_string()), w.to_string())
        });
    }
    let reg = registered(&c);
    let used = used.into_inner();
    r.check(&format!("{} declares what it reads", name), reg == used, || format!("declared {:?}, read {:?}", reg, used));
    let refs: BTreeSet<Key> = refs.iter().cloned().collect();
    r.check(&format!("{} reads its columns", name), used == refs, || format!("read {:?}", used));
}
fn lookup<G: PrecompiledLookupVO<Fr>>(r: &mut Report, name: &str, n: usize) {
    let mut c = cols();
    let mut vo = GenericLookupVO::<Fr>::init(G::get_expressions_and_queries());
    let ok = r.run(name, || name.into(), || vo.configure(&mut c.w, &mut c.i, &mut c.f, &mut c.t));
    if !matches!(ok, Some(Ok(()))) {
        r.check(&format!("{} can be configured", name), false, || name.into());
        return;
    }
    let es = vo.get_expressions().unwrap().to_vec();
    let tq = vo.get_table_queries().unwrap().to_vec();
    let mut rng = r.rng(33);
    let used = RefCell::new(BTreeSet::new());
    for _ in 0..r.n(50, 500) {
        let row = row(&mut rng, false);
        let g: Vec<_> = es.iter().map(|e| ev(e, &row.env, &used)).collect();
        let w: Vec<_> = (0..n).map(|j| Ok(row.w(j))).collect();
        r.check(&format!("{} looks up the tuple of its columns", name), g == w, || format!("{} expressions", es.len()));
    }
    r.check(&format!("{} declares what it reads", name), registered(&c) == used.into_inner(), || name.into());
    let t: Vec<_> = tq.iter().map(|q| (q.label.clone(), q.rotation)).collect();
    let w: Vec<_> = (0..n).map(|j| (format!("t{}", j), Rotation::curr())).collect();
    r.check(&format!("{} uses the table columns in order", name), t == w, || format!("{:?}", t));
    let regs: Vec<BTreeSet<Rotation>> = c.t.iter().map(|o| o.get_queried_rotations().clone()).collect();
    let wr: Vec<BTreeSet<Rotation>> = (0..N).map(|j| if j < n { BTreeSet::from([Rotation::curr()]) } else { BTreeSet::new() }).collect();
    r.check(&format!("{} declares its table columns", name), regs == wr, || name.into());
}
fn main() {
    let mut r = Report::new();
    let c = Rotation::curr();
    let w = |j| k(0, j, c);
    let i = |j| k(1, j, c);
    let f = |j| k(2, j, c);
    let u = |x: u64| Fr::from(x);
    gate::<PrecompiledPlonkArith>(
        &mut r,
        "PrecompiledPlonkArith",
        |x| x.f(0) * x.w(0) * x.w(1) + x.f(1) * x.w(0) + x.f(2) * x.w(1) + x.f(3) * x.w(2) + x.f(4) + x.i(0),
        &[f(0), f(1), f(2), f(3), f(4), i(0), w(0), w(1), w(2)],
    );
    gate::<PlonkArith4>(
        &mut r,
        "PlonkArith4",
        |x| x.f(0) * x.w(0) * x.w(1) + x.f(1) * x.w(0) + x.f(2) * x.w(1) + x.f(3) * x.w(3) + x.f(4) * x.w(2) + x.f(5) + x.i(0),
        &[f(0), f(1), f(2), f(3), f(4), f(5), i(0), w(0), w(1), w(2), w(3)],
    );
    gate::<PrecompiledMul>(&mut r, "PrecompiledMul", |x| x.w(0) * x.w(1) - x.i(0), &[w(0), w(1), i(0)]);
    gate::<PrecompiledRescue>(
        &mut r,
        "PrecompiledRescue",
        |x| (0..4).map(|j| x.f(j) * x.w(j).pow([5u64])).sum::<Fr>() - x.w(4),
        &[f(0), f(1), f(2), f(3), w(0), w(1), w(2), w(3), w(4)],
    );
    gate::<Delta>(
        &mut r,
        "Delta",
        |x| {
            let d = x.wn(0) - u(4) * x.w(0);
            (u(1) - x.f(0)) * d * (d - u(1)) * (d - u(2)) * (d - u(3))
        },
        &[f(0), w(0), k(0, 0, Rotation::next())],
    );
    gate::<DeltaXorAnd>(
        &mut r,
        "DeltaXorAnd",
        |x| {
            let (a, b, p, d) = (x.w(0), x.w(1), x.w(2), x.w(3));
            let g = p * (p * (u(4) * p - u(18) * (a + b) + u(81)) + u(18) * (a * a + b * b) - u(81) * (a + b) + u(83));
            x.f(0) * (u(9) * d - u(3) * (a + b)) + u(3) * (a + b + d) - u(2) * g
        },
        &[f(0), w(0), w(1), w(2), w(3)],
    );
    // the logic gate on all two-bit inputs
    {
        let mut cs = cols();
        let mut vo = GenericVO::<Fr>::init(DeltaXorAnd::get_expr_and_queries());
        vo.configure(&mut cs.w, &mut cs.i, &mut cs.f);
        let e = vo.get_expression().unwrap().clone();
        let used = RefCell::new(BTreeSet::new());
        let mut rng = r.rng(34);
        for and in [true, false] {
            for a in 0..4u64 {
                for b in 0..4u64 {
                    for d in 0..5u64 {
                        let mut rw = row(&mut rng, false);
                        rw.env.insert(w(0), u(a));
                        rw.env.insert(w(1), u(b));
                        rw.env.insert(w(2), u(a * b));
                        let dv = if d == 4 { Fr::rand(&mut rng) } else { u(d) };
                        rw.env.insert(w(3), dv);
                        rw.env.insert(f(0), if and { u(1) } else { -u(1) });
                        let z = ev(&e, &rw.env, &used) == Ok(u(0));
                        let right = dv == u(if and { a & b } else { a ^ b });
                        r.check("the logic gate holds exactly for AND and XOR", z == right, || format!("and {} a {} b {} d {}", and, a, b, dv));
                    }
                }
            }
        }
    }
    lookup::<PrecompiledSimple1ArithLookup<Fr>>(&mut r, "PrecompiledSimple1ArithLookup", 1);
    lookup::<PrecompiledSimple3ArithLookup<Fr>>(&mut r, "PrecompiledSimple3ArithLookup", 3);
    r.note("200 (thorough: 5000) random rows per gate, half of them of small values; all two-bit inputs of the logic gate");
    r.finish()
}
