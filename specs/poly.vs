@include prelude.rs
@include prelude_pow.rs
@include prelude_poly.rs
@include prelude_polyops.rs
@include prelude_rand.rs
@include poly_core.vs
@include zhcoset.vs
fn main() {}
