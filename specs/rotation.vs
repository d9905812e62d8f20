@include prelude.rs
@include prelude_pow.rs
@include prelude_sets.rs
verus! {
pub enum Error { Other }
}
@include rot_core.vs
fn main() {}
