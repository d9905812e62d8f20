verus! {
// ------------------------------------------------- interpolation is unique
// the sum from its lowest coefficient
pub proof fn psum_first(c: Seq<F>, x: real)
    requires c.len() > 0
    ensures psum(c, x) == c[0]@ + x * psum(c.drop_first(), x)
    decreases c.len()
{
    let t = c.drop_first();
    if c.len() == 1 {
        assert(t =~= Seq::<F>::empty());
        assert(c.drop_last() =~= Seq::<F>::empty());
        assert(rpow(x, 0) == 1real);
        assert(c[0]@ * 1real == c[0]@ && x * 0real == 0real) by(nonlinear_arith);
    } else {
        let d = c.drop_last();
        psum_first(d, x);
        assert(d.drop_first() =~= t.drop_last());
        assert(t.last() == c.last());
        let (k, u, p) = (c.last()@, psum(t.drop_last(), x), rpow(x, (c.len() - 2) as nat));
        assert(rpow(x, (c.len() - 1) as nat) == x * p);
        assert(k * (x * p) == x * (k * p)) by(nonlinear_arith);
        assert(x * (u + k * p) == x * u + x * (k * p)) by(nonlinear_arith);
    }
}
pub open spec fn divides_at(c: Seq<F>, q: Seq<F>, a: real, x: real) -> bool { psum(c, x) == psum(c, a) + (x - a) * psum(q, x) }
// division by x - a
pub proof fn psum_divide(c: Seq<F>, a: real) -> (q: Seq<F>)
    requires c.len() > 0
    ensures q.len() == c.len() - 1, forall|x: real| #[trigger] divides_at(c, q, a, x)
    decreases c.len()
{
    let t = c.drop_first();
    if c.len() == 1 {
        assert forall|x: real| #[trigger] divides_at(c, t, a, x) by {
            psum_first(c, x); psum_first(c, a);
            assert(t =~= Seq::<F>::empty());
            assert(x * 0real == 0real && a * 0real == 0real && (x - a) * 0real == 0real) by(nonlinear_arith);
        }
        t
    } else {
        let u = psum_divide(t, a);
        let q = seq![fe(psum(t, a))] + u;
        assert forall|x: real| #[trigger] divides_at(c, q, a, x) by {
            psum_first(c, x); psum_first(c, a); psum_first(q, x);
            assert(q.drop_first() =~= u);
            assert(divides_at(t, u, a, x));
            let (ta, ux, c0) = (psum(t, a), psum(u, x), c[0]@);
            assert(c0 + x * (ta + (x - a) * ux) == c0 + a * ta + (x - a) * (ta + x * ux)) by(nonlinear_arith);
        }
        q
    }
}
pub proof fn psum_roots(c: Seq<F>, pts: Seq<F>)
    requires c.len() <= pts.len(), distinct(pts), forall|i: int| 0 <= i < pts.len() ==> psum(c, (#[trigger] pts[i])@) == 0real
    ensures forall|x: real| #[trigger] psum(c, x) == 0real
    decreases c.len()
{
    if c.len() > 0 {
        let a = pts.last()@;
        let q = psum_divide(c, a);
        let r = pts.drop_last();
        assert(psum(c, a) == 0real) by { assert(pts[pts.len() - 1] == pts.last()); }
        assert forall|i: int| 0 <= i < r.len() implies psum(q, (#[trigger] r[i])@) == 0real by {
            let x = r[i]@;
            assert(r[i] == pts[i]);
            assert(psum(c, pts[i]@) == 0real);
            assert(divides_at(c, q, a, x));
            assert(pts[i]@ != pts[pts.len() - 1]@);
            let (d, y) = (x - a, psum(q, x));
            assert(y == 0real) by(nonlinear_arith) requires d * y == 0real, d != 0real;
        }
        assert(distinct(r)) by {
            assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies (#[trigger] r[i])@ != (#[trigger] r[j])@ by { assert(r[i] == pts[i] && r[j] == pts[j]); }
        }
        psum_roots(q, r);
        assert forall|x: real| #[trigger] psum(c, x) == 0real by {
            assert(divides_at(c, q, a, x));
            let d = x - a;
            assert(d * 0real == 0real) by(nonlinear_arith);
        }
    }
}
pub open spec fn coef(c: Seq<F>, i: int) -> real { if 0 <= i < c.len() { c[i]@ } else { 0real } }
pub open spec fn minus(a: Seq<F>, b: Seq<F>, n: nat) -> Seq<F> { Seq::new(n, |i: int| fe(coef(a, i) - coef(b, i))) }
pub proof fn psum_minus(a: Seq<F>, b: Seq<F>, n: nat, x: real)
    ensures psum(minus(a, b, n), x) == psum(a.take(if n < a.len() { n as int } else { a.len() as int }), x) - psum(b.take(if n < b.len() { n as int } else { b.len() as int }), x)
    decreases n
{
    if n == 0 {
        assert(a.take(0) =~= Seq::<F>::empty() && b.take(0) =~= Seq::<F>::empty());
    } else {
        let m = (n - 1) as nat;
        psum_minus(a, b, m, x);
        assert(minus(a, b, n).drop_last() =~= minus(a, b, m));
        let p = rpow(x, m);
        let (ca, cb) = (coef(a, m as int), coef(b, m as int));
        assert((ca - cb) * p == ca * p - cb * p) by(nonlinear_arith);
        assert(0real * p == 0real) by(nonlinear_arith);
        if n <= a.len() { assert(a.take(n as int).drop_last() =~= a.take(m as int)); }
        if n <= b.len() { assert(b.take(n as int).drop_last() =~= b.take(m as int)); }
    }
}
// two polynomials shorter than the number of points they agree on are equal
pub proof fn same_poly(a: Seq<F>, b: Seq<F>, pts: Seq<F>)
    requires a.len() <= pts.len(), b.len() <= pts.len(), distinct(pts), forall|i: int| 0 <= i < pts.len() ==> psum(a, (#[trigger] pts[i])@) == psum(b, pts[i]@)
    ensures forall|x: real| #[trigger] psum(a, x) == psum(b, x)
{
    let d = minus(a, b, pts.len());
    assert(a.take(a.len() as int) =~= a && b.take(b.len() as int) =~= b);
    assert forall|i: int| 0 <= i < pts.len() implies psum(d, (#[trigger] pts[i])@) == 0real by { psum_minus(a, b, pts.len(), pts[i]@); }
    psum_roots(d, pts);
    assert forall|x: real| #[trigger] psum(a, x) == psum(b, x) by { psum_minus(a, b, pts.len(), x); assert(psum(d, x) == 0real); }
}
// the product over the points does not depend on their order
pub proof fn vanish_take(p: Seq<F>, n: nat, x: real)
    requires n <= p.len()
    ensures vanish(p, n, x) == vanish(p.take(n as int), n, x)
    decreases n
{
    if n > 0 {
        vanish_take(p, (n - 1) as nat, x);
        vanish_take(p.take(n as int), (n - 1) as nat, x);
        assert(p.take(n as int).take(n - 1) =~= p.take(n - 1));
    }
}
pub proof fn vanish_remove(p: Seq<F>, j: int, x: real)
    requires 0 <= j < p.len()
    ensures vanish(p, p.len(), x) == vanish(p.remove(j), (p.len() - 1) as nat, x) * (x - p[j]@)
    decreases p.len()
{
    let m = (p.len() - 1) as nat;
    if j == m {
        vanish_take(p, m, x);
        assert(p.take(m as int) =~= p.remove(j));
    } else {
        let t = p.drop_last();
        vanish_take(p, m, x);
        assert(p.take(m as int) =~= t);
        vanish_remove(t, j, x);
        let r = p.remove(j);
        vanish_take(r, (m - 1) as nat, x);
        assert(r.take(m - 1) =~= t.remove(j));
        assert(r[m - 1] == p[m as int]);
        let (v, a, b) = (vanish(t.remove(j), (m - 1) as nat, x), x - p[j]@, x - p[m as int]@);
        assert((v * a) * b == (v * b) * a) by(nonlinear_arith);
    }
}
pub open spec fn among(p: Seq<F>, y: real) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i])@ == y }
pub proof fn vanish_same(p: Seq<F>, q: Seq<F>, x: real)
    requires distinct(p), distinct(q), p.len() == q.len(), forall|y: real| #[trigger] among(p, y) ==> among(q, y)
    ensures vanish(p, p.len(), x) == vanish(q, q.len(), x)
    decreases p.len()
{
    if p.len() > 0 {
        let m = (p.len() - 1) as nat;
        let y = p[m as int]@;
        assert(among(p, y));
        let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j])@ == y;
        vanish_remove(p, m as int, x);
        vanish_remove(q, j, x);
        let (a, b) = (p.remove(m as int), q.remove(j));
        assert forall|z: real| #[trigger] among(a, z) implies among(b, z) by {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == z;
            assert(a[i] == p[i]);
            assert(among(p, z));
            assert(p[i]@ != p[m as int]@);
            let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k])@ == z;
            assert(k != j);
            if k < j { assert(b[k] == q[k]); } else { assert(b[k - 1] == q[k]); }
        }
        assert(distinct(a)) by { assert forall|i: int, k: int| 0 <= i < a.len() && 0 <= k < a.len() && i != k implies (#[trigger] a[i])@ != (#[trigger] a[k])@ by { assert(a[i] == p[i] && a[k] == p[k]); } }
        assert(distinct(b)) by { assert forall|i: int, k: int| 0 <= i < b.len() && 0 <= k < b.len() && i != k implies (#[trigger] b[i])@ != (#[trigger] b[k])@ by {
            let (i2, k2) = (if i < j { i } else { i + 1 }, if k < j { k } else { k + 1 });
            assert(b[i] == q[i2] && b[k] == q[k2]); } }
        vanish_same(a, b, x);
    }
}
} // verus!
