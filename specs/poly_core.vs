verus! {
pub open spec fn distinct(p: Seq<F>) -> bool {
    forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j ==> (#[trigger] p[i])@ != (#[trigger] p[j])@
}
// the product of (x - p_k) for k < n
pub open spec fn vanish(p: Seq<F>, n: nat, x: real) -> real decreases n {
    if n == 0 { 1real } else { vanish(p, (n - 1) as nat, x) * (x - p[n - 1]@) }
}
// it is zero exactly at the points
pub proof fn vanish_roots(p: Seq<F>, n: nat, x: real)
    requires n <= p.len()
    ensures vanish(p, n, x) == 0real <==> exists|i: int| 0 <= i < n && (#[trigger] p[i])@ == x
    decreases n
{
    if n > 0 {
        vanish_roots(p, (n - 1) as nat, x);
        let a = vanish(p, (n - 1) as nat, x);
        let b = x - p[n - 1]@;
        assert(a * b == 0real <==> a == 0real || b == 0real) by(nonlinear_arith);
        if b == 0real { assert(p[n - 1]@ == x); }
        if a == 0real {
            let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] p[i])@ == x;
            assert(p[i]@ == x && i < n);
        }
    }
}
pub proof fn one_poly(x: real)
    ensures psum(seq![fe(1real)], x) == 1real
{
    reveal_with_fuel(psum, 2);
    assert(seq![fe(1real)].drop_last() =~= Seq::<F>::empty());
    assert(1real * rpow(x, 0) == 1real) by { assert(rpow(x, 0) == 1real); }
}
pub proof fn linear_poly(c: Seq<F>, x: real)
    requires c.len() == 2
    ensures psum(c, x) == c[0]@ + c[1]@ * x
{
    reveal_with_fuel(psum, 3);
    reveal_with_fuel(rpow, 3);
    assert(c.drop_last().drop_last() =~= Seq::<F>::empty());
    assert(c.drop_last().last() == c[0]);
    assert(c[0]@ * 1real == c[0]@ && x * 1real == x) by(nonlinear_arith);
}
pub open spec fn factor(l: DensePolynomial, l0: DensePolynomial, e: real, c: real) -> bool {
    forall|x: real| #[trigger] l.at(x) == l0.at(x) * ((x - e) * c)
}
pub broadcast proof fn small_polys(c: Seq<F>, x: real)
    ensures
        #![trigger psum(c, x)]
        c.len() == 1 && c[0]@ == 1real ==> psum(c, x) == 1real,
        c.len() == 2 && c[1]@ == 1real ==> psum(c, x) == x + c[0]@,
        c.len() == 2 ==> psum(c, x) == c[0]@ + c[1]@ * x,
{
    if c.len() == 1 && c[0]@ == 1real { assert(c =~= seq![fe(1real)]); one_poly(x); }
    if c.len() == 2 {
        linear_poly(c, x);
        if c[1]@ == 1real { assert(1real * x == x) by(nonlinear_arith); }
    }
}

pub proof fn either_order(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
@fn src/multiproof/poly.rs construct_vanishing
@spec
    ensures
        forall|x: real| #[trigger] r.at(x) == vanish(evaulation_domain@, evaulation_domain@.len(), x),
        r.coeffs@.len() == evaulation_domain@.len() + 1,
        r.lead() == 1real,
@start
    broadcast use small_polys;
@loop 0
    invariant
        forall|x: real| #[trigger] v_h.at(x) == vanish(evaulation_domain@, __i0 as nat, x),
        v_h.coeffs@.len() == __i0 + 1,
        v_h.lead() == 1real,
@loopstart 0
    let ghost before = v_h;
@loopend 0
    proof {
        let pt = evaulation_domain@[__i0 as int]@;
        assert forall|x: real| #[trigger] v_h.at(x) == vanish(evaulation_domain@, (__i0 + 1) as nat, x) by {
            assert(before.at(x) == vanish(evaulation_domain@, __i0 as nat, x));
            either_order(before.at(x), x - pt);
        }
    }
@end

@fn src/multiproof/poly.rs construct_lagrange_basis
@spec
    requires distinct(evaluation_domain@)
    ensures
        r@.len() == evaluation_domain@.len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).coeffs@.len() == evaluation_domain@.len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).at(evaluation_domain@[i]@) == 1real,
        forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && i != j ==> #[trigger] r@[i].at(evaluation_domain@[j]@) == 0real,
@start
    broadcast use small_polys;
@beforeloop 0
    let ghost _ty: Seq<DensePolynomial> = bases@;
@loop 0
    invariant
        bases@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] bases@[i]).coeffs@.len() == evaluation_domain@.len(),
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] bases@[i]).at(evaluation_domain@[i]@) == 1real,
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < evaluation_domain@.len() && i != j ==> #[trigger] bases@[i].at(evaluation_domain@[j]@) == 0real,
@loop 1
    invariant
        bases@.len() == __i0,
        l_i.coeffs@.len() == 1 + __i1 - (if __i1 > __i0 { 1int } else { 0 }),
        l_i.at(evaluation_domain@[__i0 as int]@) == 1real,
        forall|j: int| 0 <= j < __i1 && j != __i0 ==> l_i.at((#[trigger] evaluation_domain@[j])@) == 0real,
@loopstart 1
    let ghost l0 = l_i;
@loopend 1
    proof {
        let p = evaluation_domain@;
        let (i, k) = (__i0 as int, __i1 as int);
        if k != i {
            let d = p[i]@ - p[k]@;
            // l_i(x) = l0(x) * ((x - p_k) * c) with c (p_i - p_k) = 1
            assert(exists|c: real| #[trigger] is_inv(c, d) && factor(l_i, l0, p[k]@, c));
            let c = choose|c: real| #[trigger] is_inv(c, d) && factor(l_i, l0, p[k]@, c);
            assert(l_i.at(p[i]@) == l0.at(p[i]@) * ((p[i]@ - p[k]@) * c));
            assert(1real * (d * c) == 1real) by(nonlinear_arith) requires c * d == 1real;
            assert forall|j: int| 0 <= j < k + 1 && j != i implies l_i.at((#[trigger] p[j])@) == 0real by {
                let x = p[j]@;
                assert(l_i.at(x) == l0.at(x) * ((x - p[k]@) * c));
                let t = (x - p[k]@) * c;
                if j < k { assert(l0.at(x) == 0real); assert(0real * t == 0real) by(nonlinear_arith); }
                else { assert(0real * c == 0real) by(nonlinear_arith); assert(l0.at(x) * 0real == 0real) by(nonlinear_arith); }
            }
        }
    }
@end
}
