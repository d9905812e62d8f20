@include prelude.rs
@include prelude_pow.rs
@include prelude_sets.rs
@include prelude_poly.rs
@include prelude_map.rs
@include prelude_com.rs
verus! {
pub enum VOError { Other }
@item src/piop/error.rs Error
}
@include rot_core.vs imported
@include oracles_core.vs
fn main() {}
