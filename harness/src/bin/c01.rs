//! C01: expressions denote polynomials; evaluation and degree respect it.
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::piop::error::Error as PiopError;
use ark_poly::univariate::DensePolynomial;
use zero_over_k::oracles::instance::InstanceVerifierOracle;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::virtual_expression::VirtualExpression;
use zok_harness::*;

/// what the harness itself says an expression is
#[derive(Clone, Debug)]
enum Tree {
    Const(u64),
    Var(usize),
    Neg(Box<Tree>),
    Add(Box<Tree>, Box<Tree>),
    Sub(Box<Tree>, Box<Tree>),
    Mul(Box<Tree>, Box<Tree>),
    Scale(Box<Tree>, u64),
}
use Tree::*;

const VARS: usize = 5;
fn query(i: usize) -> OracleQuery {
    let (l, r, t) = match i {
        0 => ("a", Rotation::curr(), OracleType::Witness),
        1 => ("a", Rotation::next(), OracleType::Witness),
        2 => ("a", Rotation::curr(), OracleType::Fixed),
        3 => ("b", Rotation::prev(), OracleType::Instance),
        _ => ("b", Rotation::new(2, Sign::Minus), OracleType::Witness),
    };
    OracleQuery {
        label: l.to_string(),
        rotation: r,
        oracle_type: t,
    }
}
fn index(q: &OracleQuery) -> usize {
    for i in 0..VARS {
        let k = query(i);
        if k.label == q.label
            && k.rotation == q.rotation
            && std::mem::discriminant(&k.oracle_type)
                == std::mem::discriminant(&q.oracle_type)
        {
            return i;
        }
    }
    panic!("unknown query")
}
fn gen(rng: &mut ChaChaRng, d: usize) -> Tree {
    let k = if d == 0 { rng.gen_range(0..2) } else { rng.gen_range(0..7) };
    let mut sub = || Box::new(gen(rng, d - 1));
    match k {
        2 => Neg(sub()),
        3 => Add(sub(), sub()),
        4 => Sub(sub(), sub()),
        5 => Mul(sub(), sub()),
        6 => {
            let s = sub();
            Scale(s, rng.gen_range(0..7))
        }
        0 => Const(rng.gen_range(0..5)),
        _ => Var(rng.gen_range(0..VARS)),
    }
}
fn build(t: &Tree) -> Expression<Fr> {
    match t {
        Const(c) => Expression::Constant(Fr::from(*c)),
        Var(i) => query(*i).into(),
        Neg(a) => -build(a),
        Add(a, b) => build(a) + build(b),
        Sub(a, b) => build(a) - build(b),
        Mul(a, b) => build(a) * build(b),
        Scale(a, c) => build(a) * Fr::from(*c),
    }
}
fn vbuild(t: &Tree) -> VirtualExpression<Fr> {
    match t {
        Const(c) => VirtualExpression::Constant(Fr::from(*c)),
        Var(i) => VirtualQuery::new(*i, Rotation::curr(), OracleType::Witness).into(),
        Neg(a) => -vbuild(a),
        Add(a, b) => vbuild(a) + vbuild(b),
        Sub(a, b) => vbuild(a) - vbuild(b),
        Mul(a, b) => vbuild(a) * vbuild(b),
        Scale(a, c) => vbuild(a) * Fr::from(*c),
    }
}
fn value(t: &Tree, env: &[Fr]) -> Fr {
    match t {
        Const(c) => Fr::from(*c),
        Var(i) => env[*i],
        Neg(a) => -value(a, env),
        Add(a, b) => value(a, env) + value(b, env),
        Sub(a, b) => value(a, env) - value(b, env),
        Mul(a, b) => value(a, env) * value(b, env),
        Scale(a, c) => value(a, env) * Fr::from(*c),
    }
}
fn degree(t: &Tree, d: &[usize]) -> usize {
    match t {
        Const(_) => 0,
        Var(i) => d[*i],
        Neg(a) | Scale(a, _) => degree(a, d),
        Add(a, b) | Sub(a, b) => degree(a, d).max(degree(b, d)),
        Mul(a, b) => degree(a, d) + degree(b, d),
    }
}

fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(1);
    // all trees of depth <= 2 over a few leaves, then random deeper ones
    let leaves = vec![Const(0), Const(3), Var(0), Var(1), Var(3)];
    let mut small = leaves.clone();
    for a in &leaves {
        small.push(Neg(Box::new(a.clone())));
        small.push(Scale(Box::new(a.clone()), 5));
        for b in &leaves {
            let p = || (Box::new(a.clone()), Box::new(b.clone()));
            small.push({ let (x, y) = p(); Add(x, y) });
            small.push({ let (x, y) = p(); Sub(x, y) });
            small.push({ let (x, y) = p(); Mul(x, y) });
        }
    }
    let mut trees = small.clone();
    for a in &small {
        trees.push(Neg(Box::new(a.clone())));
        trees.push(Scale(Box::new(a.clone()), 2));
        for b in leaves.iter() {
            let p = || (Box::new(a.clone()), Box::new(b.clone()));
            trees.push({ let (x, y) = p(); Add(x, y) });
            trees.push({ let (x, y) = p(); Sub(x, y) });
            trees.push({ let (x, y) = p(); Sub(y, x) });
            trees.push({ let (x, y) = p(); Mul(x, y) });
        }
    }
    for d in 3..9 {
        for _ in 0..r.n(300, 4000) {
            trees.push(gen(&mut rng, d));
        }
    }
    for t in &trees {
        let inp = || format!("{:?}", t);
        let env: Vec<Fr> = (0..VARS).map(|_| Fr::rand(&mut rng)).collect();
        let degs: Vec<usize> =
            (0..VARS).map(|_| rng.gen_range(0..9)).collect();
        let e = build(t);
        // plain field values
        let v = r.run("evaluate", inp, || {
            e.evaluate(
                &|c| c,
                &|q| env[index(q)],
                &|x: Fr| -x,
                &|x: Fr, y: Fr| x + y,
                &|x: Fr, y: Fr| x * y,
                &|x: Fr, s: Fr| x * s,
            )
        });
        if let Some(v) = v {
            r.check("evaluate = value of the polynomial", v == value(t, &env), inp);
        }
        // the operators on references, resolved
        let cols: Vec<InstanceVerifierOracle<Fr>> =
            (0..VARS).map(|i| InstanceVerifierOracle::new(format!("{}", i), DensePolynomial { coeffs: vec![] })).collect();
        let v = r.run("resolve", inp, || {
            vbuild(t).to_expression(&cols, &cols, &cols).evaluate(
                &|c| c,
                &|q| env[q.label.parse::<usize>().unwrap()],
                &|x: Fr| -x,
                &|x: Fr, y: Fr| x + y,
                &|x: Fr, y: Fr| x * y,
                &|x: Fr, s: Fr| x * s,
            )
        });
        if let Some(v) = v {
            r.check("operators on references denote the field operations", v == value(t, &env), inp);
        }
        // a backend with effects that can be told apart: the free algebra
        let f = r.run("evaluate", inp, || {
            e.evaluate(
                &|c: Fr| format!("c{}", c),
                &|q| format!("v{}", index(q)),
                &|x: String| format!("(-{})", x),
                &|x: String, y: String| format!("({}+{})", x, y),
                &|x: String, y: String| format!("({}*{})", x, y),
                &|x: String, s: Fr| format!("({}.{})", x, s),
            )
        });
        if let Some(f) = f {
            // every operand appears: re-evaluating the printed term is done
            // through the same algebra, so compare with the structure
            r.check("evaluate is a homomorphism", f == print(&e), inp);
        }
        let d = r.run("degree", inp, || e.degree(&|q| Ok(degs[index(q)])));
        if let Some(d) = d {
            r.check(
                "degree = degree of the polynomial",
                matches!(d, Ok(x) if x == degree(t, &degs)),
                inp,
            );
        }
        // a query without a degree is an error
        let bad = rng.gen_range(0..VARS);
        let d = r.run("degree", inp, || {
            e.degree(&|q| {
                if index(q) == bad {
                    Err(PiopError::MissingWitnessOracle("x".into()))
                } else {
                    Ok(degs[index(q)])
                }
            })
        });
        if let Some(d) = d {
            r.check("degree of an unknown query is an error",
                d.is_err() == uses(t, bad), inp);
        }
    }
    r.note("expression trees: all of depth <= 1 and a family of depth 2 over 5 leaves, random up to depth 8");
    r.finish()
}
fn uses(t: &Tree, v: usize) -> bool {
    match t {
        Const(_) => false,
        Var(i) => *i == v,
        Neg(a) | Scale(a, _) => uses(a, v),
        Add(a, b) | Sub(a, b) | Mul(a, b) => uses(a, v) || uses(b, v),
    }
}
fn print(e: &Expression<Fr>) -> String {
    match e {
        Expression::Constant(c) => format!("c{}", c),
        Expression::Oracle(q) => format!("v{}", index(q)),
        Expression::Negated(a) => format!("(-{})", print(a)),
        Expression::Sum(a, b) => format!("({}+{})", print(a), print(b)),
        Expression::Product(a, b) => format!("({}*{})", print(a), print(b)),
        Expression::Scaled(a, s) => format!("({}.{})", print(a), s),
    }
}
