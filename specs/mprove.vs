@include prelude.rs
@include prelude_pow.rs
@include prelude_sets.rs
@include prelude_poly.rs
@include prelude_polyops.rs
@include prelude_map.rs
@include prelude_com.rs
@include prelude_fs.rs
@include prelude_rand.rs
@include prelude_dom.rs
@map R => FS
verus! {
#[derive(Debug)]
pub enum VOError { Other }
@item src/piop/error.rs Error
pub type PiopError = Error;
pub struct LabeledPolynomial { pub label: String, pub poly: DensePolynomial, pub bound: Option<usize>, pub hiding: Option<usize> }
pub fn labeled_polynomial(l: String, p: DensePolynomial, d: Option<usize>, h: Option<usize>) -> (r: LabeledPolynomial)
    ensures r.poly == p, r.bound == d, r.hiding == h, r.label == l
{ LabeledPolynomial { label: l, poly: p, bound: d, hiding: h } }
#[verifier::external_body]
pub struct PC_VerifierKey { x: u8 }
}
@include rot_core.vs imported
@include poly_core.vs imported
@include expr_core.vs imported
@include algebra.rs
@include mopen_core.vs imported
@include mprove_core.vs
@include interp.rs
@include honest_core.vs
fn main() {}
