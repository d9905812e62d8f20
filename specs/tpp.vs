@include prelude.rs
@include prelude_pow.rs
@include prelude_sets.rs
@include prelude_poly.rs
@include prelude_polyops.rs
@include prelude_map.rs
@include prelude_com.rs
@include prelude_chunks.rs
@include prelude_fs.rs
@include prelude_rand.rs
@include prelude_dom.rs
@include arranged.rs
verus! {
#[derive(Debug)]
pub enum VOError { Other }
@item src/piop/error.rs Error
pub type PiopError = Error;
#[verifier::external_body]
pub struct PC_VerifierKey { x: u8 }
}
@include rot_core.vs imported
@include oracles_core.vs imported
@include tpv_err.vs
@include perm_core.vs imported
@include expr_core.vs imported
@include algebra.rs
@include lookup_core.vs imported
@include lookup_abs.vs imported
@include poly_core.vs imported
@include mopen_core.vs imported
@include mprove_core.vs imported
@include fsrounds_core.vs imported
@include piop_core.vs imported
@include lookup_sound.rs
@include clone_wpo.vs
@include quot_core.vs imported
@include rounds_core.vs imported
@include openings_core.vs imported
@include prelude_dyn.rs
@include tpp_core.vs
fn main() {}
