verus! {
@item src/oracles/query.rs OracleType
@item src/oracles/query.rs OracleQuery
@item src/vo/expression.rs Expression
// the polynomial an expression denotes, for any assignment of the queries
pub open spec fn meaning(e: Expression, env: spec_fn(OracleQuery) -> real) -> real decreases e {
    match e {
        Expression::Constant(c) => c@,
        Expression::Oracle(q) => env(q),
        Expression::Negated(a) => -meaning(*a, env),
        Expression::Sum(a, b) => meaning(*a, env) + meaning(*b, env),
        Expression::Product(a, b) => meaning(*a, env) * meaning(*b, env),
        Expression::Scaled(a, c) => meaning(*a, env) * c@,
    }
}
// r is the value of e in the algebra whose operations are the closures
pub open spec fn interp<T, C: Fn(F) -> T, O: Fn(&OracleQuery) -> T, N: Fn(T) -> T, S: Fn(T, T) -> T, P: Fn(T, T) -> T, K: Fn(T, F) -> T>(
    e: Expression, c: &C, o: &O, n: &N, s: &S, p: &P, k: &K, r: T) -> bool decreases e {
    match e {
        Expression::Constant(x) => c.ensures((x,), r),
        Expression::Oracle(q) => o.ensures((&q,), r),
        Expression::Negated(a) => exists|x: T| interp(*a, c, o, n, s, p, k, x) && #[trigger] n.ensures((x,), r),
        Expression::Sum(a, b) => exists|x: T, y: T| interp(*a, c, o, n, s, p, k, x) && interp(*b, c, o, n, s, p, k, y) && #[trigger] s.ensures((x, y), r),
        Expression::Product(a, b) => exists|x: T, y: T| interp(*a, c, o, n, s, p, k, x) && interp(*b, c, o, n, s, p, k, y) && #[trigger] p.ensures((x, y), r),
        Expression::Scaled(a, f) => exists|x: T| interp(*a, c, o, n, s, p, k, x) && #[trigger] k.ensures((x, f), r),
    }
}
// when the closures are the field operations (exactly, or inside Ok) the
// value is the meaning
pub proof fn interp_meaning<C: Fn(F) -> F, O: Fn(&OracleQuery) -> F, N: Fn(F) -> F, S: Fn(F, F) -> F, P: Fn(F, F) -> F, K: Fn(F, F) -> F>(
    e: Expression, env: spec_fn(OracleQuery) -> real, c: &C, o: &O, n: &N, s: &S, p: &P, k: &K, r: F)
    requires
        interp(e, c, o, n, s, p, k, r),
        forall|x: F, y: F| #[trigger] c.ensures((x,), y) ==> y@ == x@,
        forall|q: OracleQuery, y: F| #[trigger] o.ensures((&q,), y) ==> y@ == env(q),
        forall|x: F, y: F| #[trigger] n.ensures((x,), y) ==> y@ == -x@,
        forall|x: F, z: F, y: F| #[trigger] s.ensures((x, z), y) ==> y@ == x@ + z@,
        forall|x: F, z: F, y: F| #[trigger] p.ensures((x, z), y) ==> y@ == x@ * z@,
        forall|x: F, z: F, y: F| #[trigger] k.ensures((x, z), y) ==> y@ == x@ * z@,
    ensures r@ == meaning(e, env)
    decreases e
{
    match e {
        Expression::Constant(x) => {}
        Expression::Oracle(q) => {}
        Expression::Negated(a) => {
            let x = choose|x: F| interp(*a, c, o, n, s, p, k, x) && #[trigger] n.ensures((x,), r);
            interp_meaning(*a, env, c, o, n, s, p, k, x);
        }
        Expression::Sum(a, b) => {
            let (x, y) = choose|x: F, y: F| interp(*a, c, o, n, s, p, k, x) && interp(*b, c, o, n, s, p, k, y) && #[trigger] s.ensures((x, y), r);
            interp_meaning(*a, env, c, o, n, s, p, k, x);
            interp_meaning(*b, env, c, o, n, s, p, k, y);
        }
        Expression::Product(a, b) => {
            let (x, y) = choose|x: F, y: F| interp(*a, c, o, n, s, p, k, x) && interp(*b, c, o, n, s, p, k, y) && #[trigger] p.ensures((x, y), r);
            interp_meaning(*a, env, c, o, n, s, p, k, x);
            interp_meaning(*b, env, c, o, n, s, p, k, y);
        }
        Expression::Scaled(a, f) => {
            let x = choose|x: F| interp(*a, c, o, n, s, p, k, x) && #[trigger] k.ensures((x, f), r);
            interp_meaning(*a, env, c, o, n, s, p, k, x);
        }
    }
}
pub open spec fn uses(e: Expression, q: OracleQuery) -> bool decreases e {
    match e {
        Expression::Constant(c) => false,
        Expression::Oracle(p) => p == q,
        Expression::Negated(a) => uses(*a, q),
        Expression::Sum(a, b) => uses(*a, q) || uses(*b, q),
        Expression::Product(a, b) => uses(*a, q) || uses(*b, q),
        Expression::Scaled(a, c) => uses(*a, q),
    }
}
impl Expression {
@fn src/vo/expression.rs Expression::evaluate
@spec
    requires
        forall|q: OracleQuery| uses(*self, q) ==> #[trigger] oracle_fn.requires((&q,)),
        forall|f: F| #[trigger] constant_fn.requires((f,)),
        forall|t: T| #[trigger] negated_fn.requires((t,)),
        forall|t: T, u: T| #[trigger] sum_fn.requires((t, u)),
        forall|t: T, u: T| #[trigger] product_fn.requires((t, u)),
        forall|t: T, f: F| #[trigger] scaled_fn.requires((t, f)),
    ensures interp(*self, constant_fn, oracle_fn, negated_fn, sum_fn, product_fn, scaled_fn, r),
    decreases self
@end
}
}
