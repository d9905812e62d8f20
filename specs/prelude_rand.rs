verus! {
// the prover's source of randomness, by what has been drawn from it
#[verifier::external_body]
pub struct ZkRng { x: u8 }
impl ZkRng { pub uninterp spec fn drawn(&self) -> Seq<real>; }
pub uninterp spec fn coset_shift() -> real;
impl VRng for ZkRng { open spec fn drew(a: Self, b: Self, x: real) -> bool { b.drawn() == a.drawn().push(x) } }
impl F {
    #[verifier::external_body]
    pub fn multiplicative_generator() -> (r: F) ensures r@ == coset_shift() { unimplemented!() }
}
} // verus!
