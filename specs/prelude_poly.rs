verus! {
// ----------------------------------------------------------- polynomials
// Assumed (ark-poly): the arithmetic of dense polynomials, evaluation, and
// the transforms between coefficients and values on a domain or its coset.
pub open spec fn psum(c: Seq<F>, x: real) -> real decreases c.len() {
    if c.len() == 0 { 0real } else { psum(c.drop_last(), x) + c.last()@ * rpow(x, (c.len() - 1) as nat) }
}
#[verifier::ext_equal]
pub struct DensePolynomial { pub coeffs: Vec<F> }
impl Clone for DensePolynomial {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl DensePolynomial {
    pub open spec fn at(&self, x: real) -> real { psum(self.coeffs@, x) }
    pub open spec fn deg(&self) -> nat { if self.coeffs@.len() == 0 { 0 } else { (self.coeffs@.len() - 1) as nat } }
    // the value on the i-th element of a domain / of its coset
    pub uninterp spec fn row(&self, d: GeneralEvaluationDomain, i: int) -> real;
    pub uninterp spec fn on_coset(&self, d: GeneralEvaluationDomain, i: int) -> real;
    #[verifier::external_body]
    pub fn evaluate(&self, x: &F) -> (r: F) ensures r@ == self.at(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn degree(&self) -> (r: usize) ensures r == self.deg() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_coefficients_slice(c: &[F]) -> (r: Self)
        ensures forall|x: real| #[trigger] r.at(x) == psum(c@, x),
            forall|d: GeneralEvaluationDomain, i: int| #[trigger] r.row(d, i) == row_of(c@, d, i),
            forall|d: GeneralEvaluationDomain, i: int| #[trigger] r.on_coset(d, i) == coset_of(c@, d, i),
            r.coeffs@.len() <= c@.len(),
            r.deg() < c@.len() || c@.len() == 0,
            c@.len() > 0 && c@.last()@ != 0real ==> r.coeffs@ == c@,
            trimmed(r.coeffs@, c@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_coefficients_vec(c: Vec<F>) -> (r: Self)
        ensures forall|x: real| #[trigger] r.at(x) == psum(c@, x),
            forall|d: GeneralEvaluationDomain, i: int| #[trigger] r.row(d, i) == row_of(c@, d, i),
            forall|d: GeneralEvaluationDomain, i: int| #[trigger] r.on_coset(d, i) == coset_of(c@, d, i),
            r.coeffs@.len() <= c@.len(),
            c@.len() > 0 && c@.last()@ != 0real ==> r.coeffs@ == c@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Self) ensures r == poly_zero(), forall|x: real| #[trigger] r.at(x) == 0real, r.coeffs@.len() == 0 { unimplemented!() }
}
pub uninterp spec fn poly_zero() -> DensePolynomial;
// coefficients without the zeros of highest degree
pub open spec fn trimmed(t: Seq<F>, c: Seq<F>) -> bool {
    t.len() <= c.len() && (forall|i: int| 0 <= i < t.len() ==> t[i] == #[trigger] c[i]) && (forall|i: int| t.len() <= i < c.len() ==> (#[trigger] c[i])@ == 0real)
}
pub uninterp spec fn row_of(c: Seq<F>, d: GeneralEvaluationDomain, i: int) -> real;
pub uninterp spec fn coset_of(c: Seq<F>, d: GeneralEvaluationDomain, i: int) -> real;

#[verifier::external_body]
pub struct GeneralEvaluationDomain { x: u8 }
impl Copy for GeneralEvaluationDomain {}
impl Clone for GeneralEvaluationDomain {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl GeneralEvaluationDomain {
    pub uninterp spec fn n(&self) -> nat;
    pub uninterp spec fn w(&self) -> real;
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == self.n(), r > 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn element(&self, i: usize) -> (r: F) ensures r@ == rpow(self.w(), i as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn ifft(&self, e: &[F]) -> (r: Vec<F>)
        ensures r@.len() == self.n(),
            e@.len() == self.n() ==> forall|i: int| 0 <= i < self.n() ==> #[trigger] row_of(r@, *self, i) == e@[i]@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn coset_fft(&self, p: &DensePolynomial) -> (r: Vec<F>)
        ensures r@.len() == self.n(),
            p.coeffs@.len() <= self.n() ==> forall|i: int| 0 <= i < self.n() ==> (#[trigger] r@[i])@ == p.on_coset(*self, i)
    { unimplemented!() }
}
} // verus!
