verus! {
// d is the degree of e when every query has a degree the closure may return
pub open spec fn degrel<O: Fn(&OracleQuery) -> Result<usize, Error>>(e: Expression, o: &O, d: nat) -> bool decreases e {
    match e {
        Expression::Constant(c) => d == 0,
        Expression::Oracle(q) => exists|r: Result<usize, Error>| #[trigger] o.ensures((&q,), r) && r is Ok && r->Ok_0 == d,
        Expression::Negated(a) => degrel(*a, o, d),
        Expression::Sum(a, b) => exists|x: usize, y: usize| degrel(*a, o, x as nat) && degrel(*b, o, y as nat)
            && d == #[trigger] nmax(x, y),
        Expression::Product(a, b) => exists|x: usize, y: usize| degrel(*a, o, x as nat) && degrel(*b, o, y as nat)
            && d == #[trigger] (x + y),
        Expression::Scaled(a, c) => degrel(*a, o, d),
    }
}
pub open spec fn size(e: Expression) -> nat decreases e {
    match e {
        Expression::Constant(c) => 1,
        Expression::Oracle(q) => 1,
        Expression::Negated(a) => size(*a) + 1,
        Expression::Sum(a, b) => size(*a) + size(*b),
        Expression::Product(a, b) => size(*a) + size(*b),
        Expression::Scaled(a, c) => size(*a) + 1,
    }
}
// a bound on the degrees of the queried oracles, in a universally
// quantified environment
pub uninterp spec fn dmax() -> nat;

impl Expression {
@fn src/vo/expression.rs Expression::degree
@spec
    requires
        forall|q: &OracleQuery| #[trigger] oracle_fn.requires((q,)),
        forall|q: &OracleQuery, r: Result<usize, Error>| #[trigger] oracle_fn.ensures((q,), r) && r is Ok ==> r->Ok_0 <= dmax(),
        size(*self) * dmax() <= usize::MAX,
    ensures
        r is Ok ==> degrel(*self, oracle_fn, r->Ok_0 as nat),
        r is Err ==> exists|q: &OracleQuery, x: Result<usize, Error>| #[trigger] oracle_fn.ensures((q,), x) && x is Err,
        r is Ok ==> r->Ok_0 <= size(*self) * dmax(),
    decreases self
@start
    assert(forall|a: nat, b: nat, d: nat| #[trigger] ((a + b) * d) == a * d + b * d) by(nonlinear_arith);
    assert(forall|a: nat, d: nat| a >= 0 ==> #[trigger] (a * d) >= 0) by(nonlinear_arith);
    assert(1 * dmax() == dmax());
    assert(0 * dmax() == 0);
@end
}

pub open spec fn degs(e: Expression, d: spec_fn(OracleQuery) -> nat) -> nat decreases e {
    match e {
        Expression::Constant(c) => 0,
        Expression::Oracle(q) => d(q),
        Expression::Negated(a) => degs(*a, d),
        Expression::Sum(a, b) => if degs(*a, d) >= degs(*b, d) { degs(*a, d) } else { degs(*b, d) },
        Expression::Product(a, b) => degs(*a, d) + degs(*b, d),
        Expression::Scaled(a, c) => degs(*a, d),
    }
}
pub proof fn degrel_degs<O: Fn(&OracleQuery) -> Result<usize, Error>>(e: Expression, o: &O, d: spec_fn(OracleQuery) -> nat, n: nat)
    requires degrel(e, o, n),
        forall|q: OracleQuery, r: Result<usize, Error>| #[trigger] o.ensures((&q,), r) && r is Ok ==> r->Ok_0 == d(q),
    ensures n == degs(e, d)
    decreases e
{
    match e {
        Expression::Constant(c) => {}
        Expression::Oracle(q) => {}
        Expression::Negated(a) => { degrel_degs(*a, o, d, n); }
        Expression::Sum(a, b) => {
            let (x, y) = choose|x: usize, y: usize| degrel(*a, o, x as nat) && degrel(*b, o, y as nat) && n == #[trigger] nmax(x, y);
            degrel_degs(*a, o, d, x as nat); degrel_degs(*b, o, d, y as nat);
        }
        Expression::Product(a, b) => {
            let (x, y) = choose|x: usize, y: usize| degrel(*a, o, x as nat) && degrel(*b, o, y as nat) && n == #[trigger] (x + y);
            degrel_degs(*a, o, d, x as nat); degrel_degs(*b, o, d, y as nat);
        }
        Expression::Scaled(a, c) => { degrel_degs(*a, o, d, n); }
    }
}
}
