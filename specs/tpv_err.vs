verus! {
pub mod te {
use super::*;
pub type E = PC_Error;
pub type IOPError = super::Error;
pub type MultiproofError = mo::Error;
@item src/error.rs Error
impl vstd::std_specs::convert::FromSpecImpl<IOPError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IOPError) -> Error { Error::IOPError(e) }
}
impl From<IOPError> for Error {
@fn src/error.rs From<IOPError>@Error::from
@spec
    ensures r == Error::IOPError(err),
@end
}
impl vstd::std_specs::convert::FromSpecImpl<VOError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: VOError) -> Error { Error::VOError(e) }
}
impl From<VOError> for Error {
@fn src/error.rs From<VOError>@Error::from key=From<VOError>@Error::from
@spec
    ensures r == Error::VOError(err),
@end
}
// `?` converts with From::from, whose contracts are proved above
pub broadcast axiom fn question_iop(e: IOPError, r: Error)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error, IOPError>(e, r) ==> r == Error::IOPError(e);
pub broadcast axiom fn question_vo(e: VOError, r: Error)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error, VOError>(e, r) ==> r == Error::VOError(e);
impl Error {
@fn src/error.rs Error::from_pc_err
@spec
    ensures r == Error::PolynomialCommitmentError(err)
@end
@fn src/error.rs Error::from_multiproof_err
@spec
    ensures r == Error::MultiproofError(err)
@end
}
}
pub type TopError = te::Error;
pub open spec fn from_piop(e: TopError) -> bool { e is IOPError }
}
