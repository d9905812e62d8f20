@include prelude.rs
@include prelude_com.rs
@include prelude_fs.rs
@include piop_unit.vs
@include fsrounds_core.vs
fn main() {}
