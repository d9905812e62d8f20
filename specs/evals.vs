@include prelude.rs
@include prelude_pow.rs
@include prelude_sets.rs
@include prelude_poly.rs
@include prelude_polyops.rs
@include prelude_map.rs
@include prelude_com.rs
@include prelude_fs.rs
@include prelude_rand.rs
@include prelude_dom.rs
verus! {
#[derive(Debug)]
pub enum VOError { Other }
@item src/piop/error.rs Error
pub type PiopError = Error;
}
@include rot_core.vs imported
@include oracles_core.vs imported
@include piop_unit.vs
@include fsrounds_core.vs imported
@include names.vs
@include openings_core.vs
fn main() {}
