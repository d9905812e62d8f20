verus! {
impl F {
    // exponents as little-endian limbs; only single-limb exponents are read
    #[verifier::external_body]
    pub fn pow(&self, e: [u64; 4]) -> (r: F) ensures e@[1] == 0 && e@[2] == 0 && e@[3] == 0 ==> r@ == rpow(self@, e@[0] as nat) { unimplemented!() }
}
// the i-th element of the coset of a domain
pub open spec fn coset_elem(d: GeneralEvaluationDomain, i: nat) -> real { coset_shift() * rpow(d.w(), i) }
pub proof fn coset_power(g: real, w: real, k: nat, i: nat)
    ensures rpow(g * rpow(w, i), k) == rpow(g, k) * rpow(w, k * i)
    decreases k
{
    if k == 0 { assert(0 * i == 0); assert(1real * 1real == 1real) by(nonlinear_arith); }
    else {
        let j = (k - 1) as nat;
        coset_power(g, w, j, i);
        assert(k * i == j * i + i) by(nonlinear_arith) requires k == j + 1;
        rpow_add(w, j * i, i);
        let (a, b, c, t) = (rpow(g, j), rpow(w, j * i), rpow(w, i), rpow(w, k * i));
        assert((g * c) * (a * b) == (g * a) * t) by(nonlinear_arith) requires t == b * c;
    }
}
pub proof fn rpow_one_exp(w: real) ensures rpow(w, 1) == w
{ reveal_with_fuel(rpow, 3); assert(w * 1real == w) by(nonlinear_arith); }
@map D => GeneralEvaluationDomain
@fn src/util.rs compute_vanishing_poly_over_coset strip=D collect0=Vec<F>
@spec
    requires domain.n() > poly_degree, poly_degree * domain.n() <= u64::MAX,
    ensures
        r@.len() == domain.n(),
        // x^d - 1 at the i-th element of the coset, in order
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == rpow(coset_elem(domain, i as nat), poly_degree as nat) - 1real,
@loop 0
    invariant
        __n0 == domain.n(),
        __v0@.len() == __i0,
        forall|i: int| 0 <= i < __v0@.len() ==> (#[trigger] __v0@[i])@ == rpow(coset_elem(domain, i as nat), poly_degree as nat) - 1real,
@loopstart 0
    proof {
        assert(poly_degree * __i0 <= poly_degree * domain.n()) by(nonlinear_arith) requires __i0 <= domain.n();
        coset_power(coset_shift(), domain.w(), poly_degree as nat, __i0 as nat);
        rpow_one_exp(domain.w());
    }
@end
}
