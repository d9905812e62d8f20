verus! {
// ark-poly: domains exist for every size up to a power of two that the field
// determines; their size is the next power of two
pub open spec fn pow2(n: nat) -> bool decreases n { n == 1 || (n > 1 && n % 2 == 0 && pow2(n / 2)) }
pub uninterp spec fn max_domain() -> nat;
pub uninterp spec fn domain_of(k: nat) -> GeneralEvaluationDomain;
impl GeneralEvaluationDomain {
    #[verifier::external_body]
    pub fn new(k: usize) -> (r: Option<Self>)
        ensures k <= max_domain() ==> r is Some,
            r is Some ==> r.unwrap() == domain_of(k as nat) && pow2(r.unwrap().n()) && r.unwrap().n() >= k && (k > 0 ==> r.unwrap().n() < 2 * k)
    { unimplemented!() }
    // the elements in order: w^0, w^1, ...
    #[verifier::external_body]
    pub fn elements(&self) -> (r: Elements) ensures r.d() == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Elements { x: u8 }
impl Elements {
    pub uninterp spec fn d(&self) -> GeneralEvaluationDomain;
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<F>) ensures r@.len() == self.d().n(), r@.len() > 0, is_powers(r@, self.d().w()) { unimplemented!() }
}
} // verus!
