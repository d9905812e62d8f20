verus! {
// a commitment is known by the polynomial-like value it stands for
#[verifier::external_body]
pub struct PC_Commitment { x: u8 }
impl PC_Commitment {
    // the group element, by its logarithm
    pub uninterp spec fn v(&self) -> real;
}
impl Clone for PC_Commitment {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct LabeledCommitment { x: u8 }
impl LabeledCommitment {
    pub uninterp spec fn l(&self) -> Seq<char>;
    pub uninterp spec fn c(&self) -> PC_Commitment;
    #[verifier::external_body]
    pub fn label(&self) -> (r: &String) ensures r@ == self.l() { unimplemented!() }
    #[verifier::external_body]
    pub fn commitment(&self) -> (r: &PC_Commitment) ensures *r == self.c() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(l: String, c: PC_Commitment, d: Option<usize>) -> (r: Self) ensures r.l() == l@, r.c() == c { unimplemented!() }
}
} // verus!
