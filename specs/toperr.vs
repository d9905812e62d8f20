verus! {
pub enum TopError { Piop(PiopError) }
impl vstd::std_specs::convert::FromSpecImpl<PiopError> for TopError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: PiopError) -> TopError { TopError::Piop(e) }
}
impl From<PiopError> for TopError {
    fn from(e: PiopError) -> (r: TopError) { TopError::Piop(e) }
}
pub open spec fn from_piop(e: TopError) -> bool { e is Piop }
}
