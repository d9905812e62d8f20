verus! {
// derived in the source
impl Clone for WitnessProverOracle {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
}
verus! {
}
