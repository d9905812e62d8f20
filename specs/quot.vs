@include prelude.rs
@include prelude_pow.rs
@include prelude_sets.rs
@include prelude_poly.rs
@include prelude_map.rs
@include prelude_com.rs
@include prelude_chunks.rs
@include prelude_rand.rs
@include prelude_dom.rs
@include arranged.rs
verus! {
#[derive(Debug)]
pub enum VOError { Other }
@item src/piop/error.rs Error
pub type PiopError = Error;
#[verifier::external_body]
pub struct PC_Randomness { x: u8 }
#[verifier::external_body]
pub struct PC_VerifierKey { x: u8 }
}
@include rot_core.vs imported
@include oracles_core.vs imported
@include toperr.vs
@include perm_core.vs imported
@include expr_core.vs imported
@include algebra.rs
@include lookup_core.vs imported
@include lookup_abs.vs imported
@include piop_core.vs imported
@include clone_wpo.vs
verus! {
@item src/piop/verifier.rs VerifierPermutationMsg derive=Copy,Clone
@item src/piop/verifier.rs VerifierFirstMsg derive=Copy,Clone
}
@include quot_core.vs
fn main() {}
