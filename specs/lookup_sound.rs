verus! {
// ------------------------------------------------ what the terms establish
// prod_i (s_i + b)
pub open spec fn sprod(s: Seq<F>, b: real) -> real decreases s.len() {
    if s.len() == 0 { 1real } else { sprod(s.drop_last(), b) * (s.last()@ + b) }
}
pub proof fn sprod_remove(s: Seq<F>, j: int, b: real)
    requires 0 <= j < s.len()
    ensures sprod(s, b) == sprod(s.remove(j), b) * (s[j]@ + b)
    decreases s.len()
{
    if j == s.len() - 1 {
        assert(s.remove(j) =~= s.drop_last());
    } else {
        sprod_remove(s.drop_last(), j, b);
        assert(s.remove(j).drop_last() =~= s.drop_last().remove(j));
        assert(s.remove(j).last() == s.last());
        let x = sprod(s.drop_last().remove(j), b);
        let y = s[j]@ + b;
        let z = s.last()@ + b;
        assert((x * y) * z == (x * z) * y) by(nonlinear_arith);
    }
}
// the same values in another order have the same product
pub proof fn sprod_order(x: Seq<F>, y: Seq<F>, b: real)
    requires x.to_multiset() =~= y.to_multiset()
    ensures sprod(x, b) == sprod(y, b), x.len() == y.len()
    decreases x.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(x.len() == x.to_multiset().len() && y.len() == y.to_multiset().len());
    if x.len() > 0 {
        let v = x.last();
        assert(x.contains(v));
        assert(x.to_multiset().count(v) > 0);
        assert(y.to_multiset().count(v) > 0);
        assert(y.contains(v));
        let j = choose|j: int| 0 <= j < y.len() && y[j] == v;
        assert(x.drop_last() =~= x.remove(x.len() - 1));
        assert(x.drop_last().to_multiset() =~= x.to_multiset().remove(v));
        assert(y.remove(j).to_multiset() =~= y.to_multiset().remove(v));
        sprod_order(x.drop_last(), y.remove(j), b);
        sprod_remove(y, j, b);
    }
}
pub proof fn pair_is_products(a: Seq<F>, s: Seq<F>, b: real, g: real, k: nat)
    requires k <= a.len(), k <= s.len()
    ensures pair_prod(a, s, b, g, k) == sprod(a.subrange(0, k as int), b) * sprod(s.subrange(0, k as int), g)
    decreases k
{
    if k > 0 {
        let k1 = (k - 1) as nat;
        pair_is_products(a, s, b, g, k1);
        assert(a.subrange(0, k as int).drop_last() =~= a.subrange(0, k1 as int));
        assert(s.subrange(0, k as int).drop_last() =~= s.subrange(0, k1 as int));
        let p = sprod(a.subrange(0, k1 as int), b);
        let q = sprod(s.subrange(0, k1 as int), g);
        let x = a[k - 1]@ + b;
        let y = s[k - 1]@ + g;
        assert((p * q) * (x * y) == (p * x) * (q * y)) by(nonlinear_arith);
    }
}
// Completeness: an arrangement has the products construct_agg_poly's
// contract asks for (so its z ends in one).
pub proof fn arranged_products(a: Seq<F>, s: Seq<F>, ap: Seq<F>, sp: Seq<F>, b: real, g: real, u: nat)
    requires u <= a.len(), u <= s.len(), u <= ap.len(), u <= sp.len(),
        arranged(a.subrange(0, u as int), s.subrange(0, u as int), ap.subrange(0, u as int), sp.subrange(0, u as int)),
    ensures pair_prod(a, s, b, g, u) == pair_prod(ap, sp, b, g, u)
{
    pair_is_products(a, s, b, g, u);
    pair_is_products(ap, sp, b, g, u);
    sprod_order(a.subrange(0, u as int), ap.subrange(0, u as int), b);
    sprod_order(s.subrange(0, u as int), sp.subrange(0, u as int), g);
}
// Soundness: a column of values on the rows on which all five terms vanish.
// (l0, lu and q are one on row 0, on row u and on the rows after u, and zero
// elsewhere; the constraints are indexed as in subset_value/lookup_value.)
pub struct LookRows { pub a: spec_fn(int) -> real, pub s: spec_fn(int) -> real, pub ap: spec_fn(int) -> real, pub sp: spec_fn(int) -> real, pub z: spec_fn(int) -> real }
pub open spec fn unit(b: bool) -> real { if b { 1real } else { 0real } }
pub open spec fn row_at(c: LookRows, i: int, u: nat, beta: real, gamma: real) -> LookAt {
    LookAt { l0: unit(i == 0), lu: unit(i == u), q: unit(i > u), a: (c.a)(i), s: (c.s)(i), ap: (c.ap)(i), sp: (c.sp)(i), app: (c.ap)(i - 1), z: (c.z)(i), zn: (c.z)(i + 1), beta: beta, gamma: gamma }
}
pub open spec fn term1(p: LookAt) -> real { p.l0 * (1real - p.z) }
pub open spec fn term2(p: LookAt) -> real { (1real - (p.lu + p.q)) * (p.zn * (p.ap + p.beta) * (p.sp + p.gamma) - p.z * (p.a + p.beta) * (p.s + p.gamma)) }
pub open spec fn term3(p: LookAt) -> real { p.lu * (p.z * p.z - p.z) }
pub open spec fn term4(p: LookAt) -> real { p.l0 * (p.ap - p.sp) }
pub open spec fn term5(p: LookAt) -> real { (1real - (p.lu + p.q)) * (p.ap - p.sp) * (p.ap - p.app) }
// the value the two sides compute is the combination of the five terms
pub proof fn value_is_terms(p: LookAt, a: Seq<F>)
    ensures lookup_value(p, a) == a[0]@ * term1(p) + a[1]@ * term2(p) + a[2]@ * term3(p) + a[3]@ * term4(p) + a[4]@ * term5(p)
{
    let x = 1real - p.z; let y = p.z * p.z - p.z; let d = p.ap - p.sp; let e = p.ap - p.app; let m = 1real - (p.lu + p.q);
    assert((a[0]@ * p.l0) * x == a[0]@ * (p.l0 * x)) by(nonlinear_arith);
    assert((a[2]@ * p.lu) * y == a[2]@ * (p.lu * y)) by(nonlinear_arith);
    assert((a[3]@ * p.l0) * d == a[3]@ * (p.l0 * d)) by(nonlinear_arith);
    assert(((a[4]@ * m) * d) * e == a[4]@ * ((m * d) * e)) by(nonlinear_arith);
}
pub open spec fn rows_vanish(c: LookRows, i: int, u: nat, beta: real, gamma: real) -> bool {
    let p = row_at(c, i, u, beta, gamma);
    term1(p) == 0real && term2(p) == 0real && term3(p) == 0real && term4(p) == 0real && term5(p) == 0real
}
pub open spec fn fprod(x: spec_fn(int) -> real, y: spec_fn(int) -> real, b: real, g: real, k: nat) -> real decreases k {
    if k == 0 { 1real } else { fprod(x, y, b, g, (k - 1) as nat) * ((x(k - 1) + b) * (y(k - 1) + g)) }
}
pub open spec fn found(c: LookRows, i: int) -> bool { exists|j: int| 0 <= j <= i && #[trigger] (c.sp)(j) == (c.ap)(i) }
pub proof fn found_all(c: LookRows, u: nat, beta: real, gamma: real, i: int)
    requires 0 <= i < u, forall|j: int| 0 <= j <= u ==> #[trigger] rows_vanish(c, j, u, beta, gamma)
    ensures found(c, i)
    decreases i
{
    assert(rows_vanish(c, i, u, beta, gamma));
    let p = row_at(c, i, u, beta, gamma);
    let d = p.ap - p.sp;
    let e = p.ap - p.app;
    if i == 0 {
        assert(d == 0real) by(nonlinear_arith) requires p.l0 * d == 0real, p.l0 == 1real;
        assert((c.sp)(0) == (c.ap)(0));
    } else {
        found_all(c, u, beta, gamma, i - 1);
        let m = 1real - (p.lu + p.q);
        assert(m == 1real);
        assert(d == 0real || e == 0real) by(nonlinear_arith) requires (m * d) * e == 0real, m == 1real;
        if d == 0real { assert((c.sp)(i) == (c.ap)(i)); }
        else {
            let j = choose|j: int| 0 <= j <= i - 1 && #[trigger] (c.sp)(j) == (c.ap)(i - 1);
            assert((c.sp)(j) == (c.ap)(i));
        }
    }
}
pub proof fn running(c: LookRows, u: nat, beta: real, gamma: real, k: nat)
    requires k <= u, forall|j: int| 0 <= j <= u ==> #[trigger] rows_vanish(c, j, u, beta, gamma)
    ensures (c.z)(k as int) * fprod(c.ap, c.sp, beta, gamma, k) == fprod(c.a, c.s, beta, gamma, k)
    decreases k
{
    if k == 0 {
        assert(rows_vanish(c, 0, u, beta, gamma));
        let x = 1real - (c.z)(0);
        let l = row_at(c, 0, u, beta, gamma).l0;
        assert(x == 0real) by(nonlinear_arith) requires l * x == 0real, l == 1real;
    } else {
        running(c, u, beta, gamma, (k - 1) as nat);
        assert(rows_vanish(c, k - 1, u, beta, gamma));
        let p = row_at(c, k - 1, u, beta, gamma);
        let m = 1real - (p.lu + p.q);
        let x = p.ap + beta; let y = p.sp + gamma; let x0 = p.a + beta; let y0 = p.s + gamma;
        let t = (p.zn * x) * y - (p.z * x0) * y0;
        assert(t == 0real) by(nonlinear_arith) requires m * t == 0real, m == 1real;
        let q = fprod(c.ap, c.sp, beta, gamma, (k - 1) as nat);
        let q0 = fprod(c.a, c.s, beta, gamma, (k - 1) as nat);
        assert(p.zn * (q * (x * y)) == ((p.zn * x) * y) * q) by(nonlinear_arith);
        assert(((p.z * x0) * y0) * q == (p.z * q) * (x0 * y0)) by(nonlinear_arith);
    }
}
// Every value of a' is a value of s', and unless some a+beta or s+gamma is
// zero, (a, s) and (a', s') agree in the two products taken at (beta, gamma).
pub proof fn lookup_sound(c: LookRows, u: nat, beta: real, gamma: real)
    requires forall|j: int| 0 <= j <= u ==> #[trigger] rows_vanish(c, j, u, beta, gamma)
    ensures
        forall|i: int| 0 <= i < u ==> #[trigger] found(c, i),
        fprod(c.a, c.s, beta, gamma, u) == 0real || fprod(c.a, c.s, beta, gamma, u) == fprod(c.ap, c.sp, beta, gamma, u),
{
    assert forall|i: int| 0 <= i < u implies #[trigger] found(c, i) by { found_all(c, u, beta, gamma, i); }
    running(c, u, beta, gamma, u);
    assert(rows_vanish(c, u as int, u, beta, gamma));
    let z = (c.z)(u as int);
    let y = z * z - z;
    let l = row_at(c, u as int, u, beta, gamma).lu;
    assert(y == 0real) by(nonlinear_arith) requires l * y == 0real, l == 1real;
    assert(z == 0real || z == 1real) by(nonlinear_arith) requires z * z - z == 0real;
    let q = fprod(c.ap, c.sp, beta, gamma, u);
    assert(z == 0real ==> z * q == 0real) by(nonlinear_arith);
    assert(z == 1real ==> z * q == q) by(nonlinear_arith);
}
} // verus!
