verus! {
pub assume_specification<T, E, U, G: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (x: Result<T, E>, f: G) -> (r: Result<U, E>)
    requires x is Ok ==> f.requires((x->Ok_0,))
    ensures x is Ok ==> f.ensures((x->Ok_0,), r), x is Err ==> r is Err && r->Err_0 == x->Err_0;
#[verifier::opaque]
pub open spec fn stepped<T, C: Fn(&T) -> Option<T>>(s: Seq<T>, f: C) -> bool { forall|i: int| 0 < i < s.len() ==> f.ensures((&s[i - 1],), Some(#[trigger] s[i])) }
pub fn vsuccessors<T: Copy, C: Fn(&T) -> Option<T>>(first: Option<T>, f: C, n: usize) -> (r: Vec<T>)
    requires forall|t: T| #[trigger] f.requires((&t,))
    ensures
        r@.len() <= n,
        r@.len() > 0 ==> first == Some(r@[0]),
        stepped(r@, f),
        r@.len() == 0 ==> n == 0 || first is None,
        0 < r@.len() < n ==> f.ensures((&r@.last(),), None),
{
    let mut v: Vec<T> = Vec::new();
    let mut next = first;
    proof { reveal(stepped); }
    while v.len() < n
        invariant
            v@.len() <= n,
            v@.len() > 0 ==> first == Some(v@[0]),
            v@.len() == 0 ==> next == first,
            v@.len() > 0 ==> f.ensures((&v@.last(),), next),
            forall|i: int| 0 < i < v@.len() ==> f.ensures((&v@[i - 1],), Some(#[trigger] v@[i])),
            forall|t: T| #[trigger] f.requires((&t,)),
        decreases n - v@.len()
    {
        match next {
            Some(x) => {
                next = f(&x);
                v.push(x);
            }
            None => { proof { reveal(stepped); } return v; }
        }
    }
    v
}
// powers of x from the first on
pub open spec fn is_pows(s: Seq<F>, x: real) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j])@ == rpow(x, j as nat) }
pub proof fn pows_from_steps(s: Seq<F>, x: real)
    requires s.len() > 0 ==> s[0]@ == 1real, forall|j: int| 0 < j < s.len() ==> (#[trigger] s[j])@ == s[j - 1]@ * x
    ensures is_pows(s, x)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|j: int| 0 < j < t.len() implies (#[trigger] t[j])@ == t[j - 1]@ * x by { assert(t[j] == s[j]); assert(t[j - 1] == s[j - 1]); }
        pows_from_steps(t, x);
        assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j])@ == rpow(x, j as nat) by {
            if j < t.len() { assert(t[j] == s[j]); }
            else if j > 0 {
                assert(t[j - 1] == s[j - 1]);
                let y = rpow(x, (j - 1) as nat);
                assert(y * x == x * y) by(nonlinear_arith);
            }
        }
    }
}
pub open spec fn ratio(x: real) -> bool { true }
pub broadcast proof fn pows_by_steps<C: Fn(&F) -> Option<F>>(s: Seq<F>, f: C, x: real)
    requires #[trigger] stepped(s, f), #[trigger] ratio(x), s.len() > 0 ==> s[0]@ == 1real,
        forall|t: F, r: Option<F>| #[trigger] f.ensures((&t,), r) ==> r is Some && r.unwrap()@ == t@ * x
    ensures is_pows(s, x)
{
    reveal(stepped);
    pows_from_steps(s, x);
}
// n consecutive powers of x from the k-th on
pub open spec fn pw(x: real, k: nat, n: nat) -> Seq<F> { Seq::new(n, |j: int| fe(rpow(x, (k + j) as nat))) }
pub open spec fn from_power(x: real, k: nat) -> bool { true }
pub broadcast proof fn pw_by_steps<C: Fn(&F) -> Option<F>>(s: Seq<F>, f: C, x: real, k: nat)
    requires #[trigger] stepped(s, f), #[trigger] from_power(x, k), s.len() > 0 ==> s[0]@ == rpow(x, k),
        forall|t: F, r: Option<F>| #[trigger] f.ensures((&t,), r) ==> r is Some && r.unwrap()@ == t@ * x
    ensures s == pw(x, k, s.len())
{
    reveal(stepped);
    pw_from_steps(s, x, k);
}
pub proof fn pw_from_steps(s: Seq<F>, x: real, k: nat)
    requires s.len() > 0 ==> s[0]@ == rpow(x, k), forall|j: int| 0 < j < s.len() ==> (#[trigger] s[j])@ == s[j - 1]@ * x
    ensures s == pw(x, k, s.len())
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|j: int| 0 < j < t.len() implies (#[trigger] t[j])@ == t[j - 1]@ * x by { assert(t[j] == s[j]); assert(t[j - 1] == s[j - 1]); }
        pw_from_steps(t, x, k);
        let p = pw(x, k, s.len());
        assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] == p[j] by {
            if j < t.len() { assert(t[j] == s[j]); assert(pw(x, k, t.len())[j] == p[j]); f_ext(s[j], p[j]); }
            else if j > 0 {
                assert(t[j - 1] == s[j - 1]);
                assert(pw(x, k, t.len())[j - 1] == fe(rpow(x, (k + j - 1) as nat)));
                let y = rpow(x, (k + j - 1) as nat);
                assert(y * x == x * y) by(nonlinear_arith);
                f_ext(s[j], p[j]);
            } else { f_ext(s[j], p[j]); }
        }
        assert(s =~= p);
    } else { assert(s =~= pw(x, k, 0)); }
}
// a way to read columns: which queries have an answer, and the answers
pub open spec fn reading(env: spec_fn(OracleQuery) -> real, res: spec_fn(OracleQuery) -> bool) -> bool { true }
pub open spec fn answered(e: Expression, res: spec_fn(OracleQuery) -> bool) -> bool decreases e {
    match e {
        Expression::Constant(c) => true,
        Expression::Oracle(q) => res(q),
        Expression::Negated(a) => answered(*a, res),
        Expression::Sum(a, b) => answered(*a, res) && answered(*b, res),
        Expression::Product(a, b) => answered(*a, res) && answered(*b, res),
        Expression::Scaled(a, c) => answered(*a, res),
    }
}
pub open spec fn okv(r: Result<F, PiopError>) -> real { r->Ok_0@ }
pub open spec fn lifts_un<N: Fn(Result<F, PiopError>) -> Result<F, PiopError>>(n: &N) -> bool {
    forall|x: Result<F, PiopError>, y: Result<F, PiopError>| #[trigger] n.ensures((x,), y) ==> (y is Ok <==> x is Ok) && (y is Ok ==> okv(y) == -okv(x))
}
pub open spec fn lifts_add<S: Fn(Result<F, PiopError>, Result<F, PiopError>) -> Result<F, PiopError>>(s: &S) -> bool {
    forall|x: Result<F, PiopError>, z: Result<F, PiopError>, y: Result<F, PiopError>| #[trigger] s.ensures((x, z), y) ==> (y is Ok <==> x is Ok && z is Ok) && (y is Ok ==> okv(y) == okv(x) + okv(z))
}
pub open spec fn lifts_mul<S: Fn(Result<F, PiopError>, Result<F, PiopError>) -> Result<F, PiopError>>(s: &S) -> bool {
    forall|x: Result<F, PiopError>, z: Result<F, PiopError>, y: Result<F, PiopError>| #[trigger] s.ensures((x, z), y) ==> (y is Ok <==> x is Ok && z is Ok) && (y is Ok ==> okv(y) == okv(x) * okv(z))
}
pub open spec fn lifts_scale<K: Fn(Result<F, PiopError>, F) -> Result<F, PiopError>>(k: &K) -> bool {
    forall|x: Result<F, PiopError>, z: F, y: Result<F, PiopError>| #[trigger] k.ensures((x, z), y) ==> (y is Ok <==> x is Ok) && (y is Ok ==> okv(y) == okv(x) * z@)
}
pub open spec fn lifts_const<C: Fn(F) -> Result<F, PiopError>>(c: &C) -> bool {
    forall|x: F, y: Result<F, PiopError>| #[trigger] c.ensures((x,), y) ==> y is Ok && okv(y) == x@
}
pub open spec fn reads<O: Fn(&OracleQuery) -> Result<F, PiopError>>(o: &O, env: spec_fn(OracleQuery) -> real, res: spec_fn(OracleQuery) -> bool) -> bool {
    forall|q: OracleQuery, y: Result<F, PiopError>| #[trigger] o.ensures((&q,), y) ==> (y is Ok <==> res(q)) && (y is Ok ==> okv(y) == env(q))
}
// an expression evaluated with the field operations inside Ok is its
// meaning, and fails exactly when a query has no answer
pub broadcast proof fn interp_ok<C: Fn(F) -> Result<F, PiopError>, O: Fn(&OracleQuery) -> Result<F, PiopError>, N: Fn(Result<F, PiopError>) -> Result<F, PiopError>,
    S: Fn(Result<F, PiopError>, Result<F, PiopError>) -> Result<F, PiopError>, P: Fn(Result<F, PiopError>, Result<F, PiopError>) -> Result<F, PiopError>, K: Fn(Result<F, PiopError>, F) -> Result<F, PiopError>>(
    e: Expression, env: spec_fn(OracleQuery) -> real, res: spec_fn(OracleQuery) -> bool, c: &C, o: &O, n: &N, s: &S, p: &P, k: &K, r: Result<F, PiopError>)
    requires
        #[trigger] interp(e, c, o, n, s, p, k, r), #[trigger] reading(env, res),
        lifts_const(c), reads(o, env, res), lifts_un(n), lifts_add(s), lifts_mul(p), lifts_scale(k),
    ensures
        r is Ok <==> answered(e, res),
        r is Ok ==> okv(r) == meaning(e, env),
    decreases e
{
    match e {
        Expression::Constant(x) => {}
        Expression::Oracle(q) => {}
        Expression::Negated(a) => {
            let x = choose|x: Result<F, PiopError>| interp(*a, c, o, n, s, p, k, x) && #[trigger] n.ensures((x,), r);
            interp_ok(*a, env, res, c, o, n, s, p, k, x);
        }
        Expression::Sum(a, b) => {
            let (x, y) = choose|x: Result<F, PiopError>, y: Result<F, PiopError>| interp(*a, c, o, n, s, p, k, x) && interp(*b, c, o, n, s, p, k, y) && #[trigger] s.ensures((x, y), r);
            interp_ok(*a, env, res, c, o, n, s, p, k, x);
            interp_ok(*b, env, res, c, o, n, s, p, k, y);
        }
        Expression::Product(a, b) => {
            let (x, y) = choose|x: Result<F, PiopError>, y: Result<F, PiopError>| interp(*a, c, o, n, s, p, k, x) && interp(*b, c, o, n, s, p, k, y) && #[trigger] p.ensures((x, y), r);
            interp_ok(*a, env, res, c, o, n, s, p, k, x);
            interp_ok(*b, env, res, c, o, n, s, p, k, y);
        }
        Expression::Scaled(a, f) => {
            let x = choose|x: Result<F, PiopError>| interp(*a, c, o, n, s, p, k, x) && #[trigger] k.ensures((x, f), r);
            interp_ok(*a, env, res, c, o, n, s, p, k, x);
        }
    }
}
// sum_{j<k} meaning(e_j) x^j
pub open spec fn comb(es: Seq<Expression>, env: spec_fn(OracleQuery) -> real, x: real, k: nat) -> real decreases k {
    if k == 0 { 0real } else { comb(es, env, x, (k - 1) as nat) + meaning(es[k - 1], env) * rpow(x, (k - 1) as nat) }
}
pub open spec fn all_answered(es: Seq<Expression>, res: spec_fn(OracleQuery) -> bool, k: nat) -> bool {
    forall|j: int| 0 <= j < k ==> answered(#[trigger] es[j], res)
}
} // verus!
