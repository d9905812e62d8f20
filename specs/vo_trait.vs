verus! {
pub trait VirtualOracle {
    spec fn s_expr(&self) -> Option<Expression>;
    fn get_expression(&self) -> (r: Result<&Expression, VOError>)
        ensures match r { Ok(e) => self.s_expr() == Some(*e), Err(_) => self.s_expr() is None };
}
impl vstd::std_specs::convert::FromSpecImpl<VOError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: VOError) -> Error { Error::VOError(e) }
}
impl From<VOError> for Error {
    fn from(e: VOError) -> (r: Error) { Error::VOError(e) }
}
}
