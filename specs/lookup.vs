@include prelude.rs
@include prelude_pow.rs
@include prelude_sets.rs
@include prelude_poly.rs
@include prelude_map.rs
@include prelude_com.rs
@include prelude_chunks.rs
@include prelude_rand.rs
@include arranged.rs
verus! {
pub enum VOError { Other }
@item src/piop/error.rs Error
pub type PiopError = Error;
}
@include rot_core.vs imported
@include oracles_core.vs imported
@include toperr.vs
@include perm_core.vs imported
@include expr_core.vs imported
@include algebra.rs
@include lookup_core.vs
@include lookup_abs.vs
@include lookup_sound.rs
fn main() {}
