@include prelude.rs
@include prelude_pow.rs
@include prelude_poly.rs
@include prelude_polyops.rs
@map Self::Commitment => Commitment
@map Self::Randomness => Randomness
@map E::Fr => F
@map <E::Fr as PrimeField>::into_repr => F::into_repr
@map Self::Randomness::empty => Randomness::empty
@map E::Fr::one => F::one
@map E::G1Affine::zero => G1Affine::zero
@map ark_poly_commit::kzg10::Commitment::<E> => Commitment
verus! {
// A group element is its ghost discrete logarithm; the group operations are
// ark-ec's and assumed.
pub struct G1Affine { pub v: Ghost<real> }
impl View for G1Affine { type V = real; open spec fn view(&self) -> real { self.v@ } }
pub struct G1Projective { pub v: Ghost<real> }
impl View for G1Projective { type V = real; open spec fn view(&self) -> real { self.v@ } }
pub open spec fn ga(x: real) -> G1Affine { G1Affine { v: Ghost(x) } }
impl Copy for G1Affine {}
impl Clone for G1Affine { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for G1Projective {}
impl Clone for G1Projective { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl AddSpecImpl<G1Affine> for G1Affine {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: G1Affine) -> bool { true }
    open spec fn add_spec(self, rhs: G1Affine) -> G1Affine { ga(self@ + rhs@) }
}
impl Add for G1Affine { type Output = G1Affine; fn add(self, rhs: G1Affine) -> (r: G1Affine) { G1Affine { v: Ghost(self@ + rhs@) } } }
impl AddSpecImpl<G1Projective> for G1Projective {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: G1Projective) -> bool { true }
    open spec fn add_spec(self, rhs: G1Projective) -> G1Projective { G1Projective { v: Ghost(self@ + rhs@) } }
}
impl Add for G1Projective { type Output = G1Projective; fn add(self, rhs: G1Projective) -> (r: G1Projective) { G1Projective { v: Ghost(self@ + rhs@) } } }
impl SubSpecImpl<G1Projective> for G1Projective {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: G1Projective) -> bool { true }
    open spec fn sub_spec(self, rhs: G1Projective) -> G1Projective { G1Projective { v: Ghost(self@ - rhs@) } }
}
impl Sub for G1Projective { type Output = G1Projective; fn sub(self, rhs: G1Projective) -> (r: G1Projective) { G1Projective { v: Ghost(self@ - rhs@) } } }
impl NegSpecImpl for G1Affine {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> G1Affine { ga(-self@) }
}
impl Neg for G1Affine { type Output = G1Affine; fn neg(self) -> (r: G1Affine) { G1Affine { v: Ghost(-self@) } } }
impl NegSpecImpl for G1Projective {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> G1Projective { G1Projective { v: Ghost(-self@) } }
}
impl Neg for G1Projective { type Output = G1Projective; fn neg(self) -> (r: G1Projective) { G1Projective { v: Ghost(-self@) } } }
impl G1Affine {
    #[verifier::external_body]
    pub fn zero() -> (r: Self) ensures r@ == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r <==> self@ == 0real { unimplemented!() }
    pub fn mul(&self, s: F) -> (r: G1Projective) ensures r@ == self@ * s@ { G1Projective { v: Ghost(self@ * s@) } }
    pub fn into_projective(&self) -> (r: G1Projective) ensures r@ == self@ { G1Projective { v: Ghost(self@) } }
}
impl G1Projective {
    #[verifier::external_body]
    pub fn zero() -> (r: Self) ensures r@ == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r <==> self@ == 0real { unimplemented!() }
    pub fn into_affine(&self) -> (r: G1Affine) ensures r@ == self@ { G1Affine { v: Ghost(self@) } }
}
impl PartialEq for G1Affine {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) ensures r <==> self@ == o@ { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for G1Affine {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl vstd::std_specs::convert::FromSpecImpl<G1Projective> for G1Affine {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: G1Projective) -> G1Affine { ga(e@) }
}
impl From<G1Projective> for G1Affine { fn from(e: G1Projective) -> (r: G1Affine) { G1Affine { v: Ghost(e@) } } }
pub struct Repr { pub v: Ghost<real> }
impl F {
    pub fn into_repr(&self) -> (r: Repr) ensures r.v@ == self@ { Repr { v: Ghost(self@) } }
}
// sum_{i<k} s_i p_i
pub open spec fn lin(p: Seq<real>, s: Seq<real>, k: nat) -> real decreases k {
    if k == 0 { 0real } else { lin(p, s, (k - 1) as nat) + p[k - 1] * s[k - 1] }
}
pub open spec fn least(a: nat, b: nat) -> nat { if a < b { a } else { b } }
pub struct VariableBaseMSM;
impl VariableBaseMSM {
    #[verifier::external_body]
    pub fn multi_scalar_mul(p: &[G1Affine], s: &[Repr]) -> (r: G1Projective)
        ensures r@ == lin(p@.map_values(|x: G1Affine| x@), s@.map_values(|x: Repr| x.v@), least(p@.len(), s@.len()))
    { unimplemented!() }
}
pub struct Commitment(pub G1Affine);
impl Clone for Commitment { fn clone(&self) -> (r: Self) ensures r == *self { Commitment(self.0) } }
impl Copy for Commitment {}
pub struct Randomness { pub blinding_polynomial: DensePolynomial }
impl Clone for Randomness {
    fn clone(&self) -> (r: Self) ensures r == *self { Randomness { blinding_polynomial: self.blinding_polynomial.clone() } }
}
impl Randomness {
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures forall|x: real| #[trigger] r.blinding_polynomial.at(x) == 0real { unimplemented!() }
}
pub open spec fn is_rsum(r: Randomness, a: Randomness, b: Randomness) -> bool { is_psum(r.blinding_polynomial, a.blinding_polynomial, b.blinding_polynomial) }
pub uninterp spec fn rsum(a: Randomness, b: Randomness) -> Randomness;
pub broadcast axiom fn rsum_adds(a: Randomness, b: Randomness)
    ensures is_rsum(#[trigger] rsum(a, b), a, b);
impl AddSpecImpl<Randomness> for Randomness {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Randomness) -> bool { true }
    open spec fn add_spec(self, rhs: Randomness) -> Randomness { rsum(self, rhs) }
}
impl Add<Randomness> for Randomness { type Output = Randomness; #[verifier::external_body] fn add(self, rhs: Randomness) -> (r: Randomness) { unimplemented!() } }
impl<'a> AddSpecImpl<&'a Randomness> for Randomness {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'a Randomness) -> bool { true }
    open spec fn add_spec(self, rhs: &'a Randomness) -> Randomness { rsum(self, *rhs) }
}
impl<'a> Add<&'a Randomness> for Randomness { type Output = Randomness; #[verifier::external_body] fn add(self, rhs: &'a Randomness) -> (r: Randomness) { unimplemented!() } }
pub open spec fn points(c: Seq<Commitment>) -> Seq<real> { c.map_values(|x: Commitment| x.0@) }
pub open spec fn values(s: Seq<F>) -> Seq<real> { s.map_values(|x: F| x@) }
pub struct KZG10;
impl KZG10 {
@fn src/commitment.rs HomomorphicCommitment@KZG10::msm collect0=Vec<Repr> collect1=Vec<G1Affine>
@spec
    ensures r.0@ == lin(points(commitments@), values(scalars@), least(commitments@.len(), scalars@.len())),
@loop 0
    invariant __n0 == scalars@.len(), __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i]).v@ == scalars@[i]@,
@loop 1
    invariant __n1 == commitments@.len(), __v1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> #[trigger] __v1@[i] == commitments@[i].0,
@beforetail
    proof {
        assert(points_repr@.map_values(|x: G1Affine| x@) =~= points(commitments@));
        assert(scalars_repr@.map_values(|x: Repr| x.v@) =~= values(scalars@));
    }
@end
@fn src/commitment.rs HomomorphicCommitment@KZG10::neg_com
@spec
    ensures r.0@ == -c.0@,
@beforetail
    proof { assert(c.0@ * (-1real) == -c.0@) by(nonlinear_arith); }
@end
@fn src/commitment.rs HomomorphicCommitment@KZG10::scale_com
@spec
    ensures r.0@ == commitment.0@ * scalar@,
@end
@fn src/commitment.rs HomomorphicCommitment@KZG10::add
@spec
    ensures r.0@ == c1.0@ + c2.0@,
@end
@fn src/commitment.rs HomomorphicCommitment@KZG10::zero_comm
@spec
    ensures r.0@ == 0real,
@end
@fn src/commitment.rs HomomorphicCommitment@KZG10::is_zero
@spec
    ensures r <==> c.0@ == 0real,
@end
@fn src/commitment.rs HomomorphicCommitment@KZG10::eq_cm
@spec
    ensures r <==> c1.0@ == c2.0@,
@end
@fn src/commitment.rs HomomorphicCommitment@KZG10::scale_rand
@spec
    ensures forall|x: real| #[trigger] r.blinding_polynomial.at(x) == randomness.blinding_polynomial.at(x) * scalar@,
@end
@fn src/commitment.rs HomomorphicCommitment@KZG10::add_rands
@spec
    ensures forall|x: real| #[trigger] r.blinding_polynomial.at(x) == a.blinding_polynomial.at(x) + b.blinding_polynomial.at(x),
@start
    broadcast use rsum_adds;
@end
@fn src/commitment.rs HomomorphicCommitment@KZG10::add_assign_rand opassign=method
@spec
    ensures forall|x: real| #[trigger] final(a).blinding_polynomial.at(x) == old(a).blinding_polynomial.at(x) + b.blinding_polynomial.at(x),
@end
}
// Assumed (ark-poly-commit): with g and h the two generators and t the
// trapdoor, the commitment to p hidden by q is p(t) g + q(t) h.
pub open spec fn commits(c: real, p: DensePolynomial, q: DensePolynomial, t: real, h: real) -> bool { c == p.at(t) + q.at(t) * h }
// Commitments mirror the arithmetic: what the operations return commits to
// the same operation on the polynomials with the same on the randomness.
pub proof fn scaled(c: real, p: DensePolynomial, q: DensePolynomial, p2: DensePolynomial, q2: DensePolynomial, s: real, t: real, h: real)
    requires commits(c, p, q, t, h), forall|x: real| #[trigger] p2.at(x) == p.at(x) * s, forall|x: real| #[trigger] q2.at(x) == q.at(x) * s,
    ensures commits(c * s, p2, q2, t, h)
{
    let (a, b) = (p.at(t), q.at(t));
    assert((a + b * h) * s == a * s + (b * s) * h) by(nonlinear_arith);
}
pub proof fn summed(c: real, p: DensePolynomial, q: DensePolynomial, d: real, p2: DensePolynomial, q2: DensePolynomial, p3: DensePolynomial, q3: DensePolynomial, t: real, h: real)
    requires commits(c, p, q, t, h), commits(d, p2, q2, t, h), forall|x: real| #[trigger] p3.at(x) == p.at(x) + p2.at(x), forall|x: real| #[trigger] q3.at(x) == q.at(x) + q2.at(x),
    ensures commits(c + d, p3, q3, t, h)
{
    let (a, b) = (q.at(t), q2.at(t));
    assert((a + b) * h == a * h + b * h) by(nonlinear_arith);
}
// a combination of commitments commits to the combination
pub open spec fn comb_at(p: Seq<DensePolynomial>, s: Seq<real>, x: real, k: nat) -> real decreases k {
    if k == 0 { 0real } else { comb_at(p, s, x, (k - 1) as nat) + p[k - 1].at(x) * s[k - 1] }
}
pub proof fn combined(c: Seq<real>, s: Seq<real>, p: Seq<DensePolynomial>, q: Seq<DensePolynomial>, t: real, h: real, k: nat)
    requires k <= c.len(), k <= s.len(), k <= p.len(), k <= q.len(), forall|i: int| 0 <= i < k ==> #[trigger] commits(c[i], p[i], q[i], t, h)
    ensures lin(c, s, k) == comb_at(p, s, t, k) + comb_at(q, s, t, k) * h
    decreases k
{
    if k > 0 {
        let j = (k - 1) as nat;
        combined(c, s, p, q, t, h, j);
        assert(commits(c[k - 1], p[k - 1], q[k - 1], t, h));
        let (a, b, x) = (p[k - 1].at(t), q[k - 1].at(t), s[k - 1]);
        let (y, z) = (comb_at(p, s, t, j), comb_at(q, s, t, j));
        assert((a + b * h) * x == a * x + (b * x) * h) by(nonlinear_arith);
        assert((z + b * x) * h == z * h + (b * x) * h) by(nonlinear_arith);
    } else {
        assert(0real * h == 0real) by(nonlinear_arith);
    }
}
}
fn main() {}
