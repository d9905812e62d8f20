verus! {
// ark-poly's arithmetic on dense polynomials: pointwise on values, and the
// usual degrees and leading coefficients (a field has no zero divisors)
impl DensePolynomial {
    pub open spec fn lead(&self) -> real { if self.coeffs@.len() == 0 { 0real } else { self.coeffs@.last()@ } }
}
// a product of polynomials, wherever it is read
pub open spec fn is_prod(r: DensePolynomial, a: DensePolynomial, b: DensePolynomial) -> bool {
    &&& forall|x: real| #[trigger] r.at(x) == a.at(x) * b.at(x)
    &&& forall|d: GeneralEvaluationDomain, i: int| #[trigger] r.row(d, i) == a.row(d, i) * b.row(d, i)
    &&& forall|d: GeneralEvaluationDomain, i: int| #[trigger] r.on_coset(d, i) == a.on_coset(d, i) * b.on_coset(d, i)
    &&& a.coeffs@.len() > 0 && b.coeffs@.len() > 0 ==> r.coeffs@.len() == a.coeffs@.len() + b.coeffs@.len() - 1 && r.lead() == a.lead() * b.lead()
    &&& a.coeffs@.len() == 0 || b.coeffs@.len() == 0 ==> r.coeffs@.len() == 0
}
pub open spec fn is_scaled(r: DensePolynomial, a: DensePolynomial, s: real) -> bool {
    &&& forall|x: real| #[trigger] r.at(x) == a.at(x) * s
    &&& forall|d: GeneralEvaluationDomain, i: int| #[trigger] r.row(d, i) == a.row(d, i) * s
    &&& forall|d: GeneralEvaluationDomain, i: int| #[trigger] r.on_coset(d, i) == a.on_coset(d, i) * s
    &&& s != 0real ==> r.coeffs@.len() == a.coeffs@.len() && r.lead() == a.lead() * s
    &&& s == 0real ==> r.coeffs@.len() == 0
}
pub open spec fn is_psum(r: DensePolynomial, a: DensePolynomial, b: DensePolynomial) -> bool {
    &&& forall|x: real| #[trigger] r.at(x) == a.at(x) + b.at(x)
    &&& forall|d: GeneralEvaluationDomain, i: int| #[trigger] r.row(d, i) == a.row(d, i) + b.row(d, i)
    &&& forall|d: GeneralEvaluationDomain, i: int| #[trigger] r.on_coset(d, i) == a.on_coset(d, i) + b.on_coset(d, i)
    &&& r.coeffs@.len() <= if a.coeffs@.len() >= b.coeffs@.len() { a.coeffs@.len() } else { b.coeffs@.len() }
}
impl DensePolynomial {
    #[verifier::external_body]
    pub fn mul_ref(&self, rhs: &DensePolynomial) -> (r: DensePolynomial) ensures is_prod(r, *self, *rhs) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_val(&self, rhs: F) -> (r: DensePolynomial) ensures is_scaled(r, *self, rhs@), r == poly_scaled(*self, rhs@) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_ref(&self, rhs: &DensePolynomial) -> (r: DensePolynomial) ensures is_psum(r, *self, *rhs) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_assign(&mut self, rhs: &DensePolynomial) ensures is_psum(*final(self), *old(self), *rhs) { unimplemented!() }
}
// the operators, on values and references alike
pub uninterp spec fn poly_scaled(a: DensePolynomial, s: real) -> DensePolynomial;
pub uninterp spec fn poly_sum(a: DensePolynomial, b: DensePolynomial) -> DensePolynomial;
#[verifier::external_body]
pub broadcast proof fn poly_scaled_is(a: DensePolynomial, s: real) ensures is_scaled(#[trigger] poly_scaled(a, s), a, s) { unimplemented!() }
#[verifier::external_body]
pub broadcast proof fn poly_sum_is(a: DensePolynomial, b: DensePolynomial) ensures is_psum(#[trigger] poly_sum(a, b), a, b) { unimplemented!() }
pub broadcast group poly_ops { poly_scaled_is, poly_sum_is }
impl<'a> MulSpecImpl<F> for &'a DensePolynomial {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> DensePolynomial { poly_scaled(*self, rhs@) }
}
impl<'a> Mul<F> for &'a DensePolynomial { type Output = DensePolynomial; #[verifier::external_body] fn mul(self, rhs: F) -> (r: DensePolynomial) { unimplemented!() } }
impl<'a> AddSpecImpl<&'a DensePolynomial> for DensePolynomial {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'a DensePolynomial) -> bool { true }
    open spec fn add_spec(self, rhs: &'a DensePolynomial) -> DensePolynomial { poly_sum(self, *rhs) }
}
impl<'a> Add<&'a DensePolynomial> for DensePolynomial { type Output = DensePolynomial; #[verifier::external_body] fn add(self, rhs: &'a DensePolynomial) -> (r: DensePolynomial) { unimplemented!() } }
impl AddSpecImpl<DensePolynomial> for DensePolynomial {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: DensePolynomial) -> bool { true }
    open spec fn add_spec(self, rhs: DensePolynomial) -> DensePolynomial { poly_sum(self, rhs) }
}
impl Add<DensePolynomial> for DensePolynomial { type Output = DensePolynomial; #[verifier::external_body] fn add(self, rhs: DensePolynomial) -> (r: DensePolynomial) { unimplemented!() } }
} // verus!
