@include prelude.rs
@include prelude_pow.rs
@include prelude_sets.rs
@include prelude_poly.rs
@include prelude_polyops.rs
@include prelude_map.rs
@include prelude_com.rs
@include prelude_fs.rs
@include prelude_rand.rs
@include prelude_dom.rs
@map R => FS
verus! {
#[derive(Debug)]
pub enum VOError { Other }
@item src/piop/error.rs Error
pub type PiopError = Error;
#[verifier::external_body]
pub struct PC_VerifierKey { x: u8 }
}
@include rot_core.vs imported
@include poly_core.vs imported
@include expr_core.vs imported
@include algebra.rs
@include mopen_core.vs
fn main() {}
