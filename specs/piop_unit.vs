verus! {
pub struct PIOPforPolyIdentity;
}
