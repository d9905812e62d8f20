@include prelude.rs
verus! {
@item src/oracles/rotation.rs Sign derive=Clone,Copy,PartialEq,Eq,Structural
@item src/oracles/rotation.rs Rotation derive=Clone,Copy,PartialEq,Eq,Structural
}
@include expr_core.vs
verus! {
pub enum Error { Other }
}
@include expr_deg.vs
verus! {
// the operators build the expressions that denote the operations

impl NegSpecImpl for Expression {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Expression { Expression::Negated(Box::new(self)) }
}
impl Neg for Expression {
    type Output = Expression;
@fn src/vo/expression.rs Neg@Expression::neg
@spec
    ensures
        forall|env: spec_fn(OracleQuery) -> real| #[trigger] meaning(r, env) == -meaning(self, env),
        forall|d: spec_fn(OracleQuery) -> nat| #[trigger] degs(r, d) == degs(self, d),
@end
}
impl AddSpecImpl<Expression> for Expression {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Expression) -> bool { true }
    open spec fn add_spec(self, rhs: Expression) -> Expression { Expression::Sum(Box::new(self), Box::new(rhs)) }
}
impl Add for Expression {
    type Output = Expression;
@fn src/vo/expression.rs Add@Expression::add
@spec
    ensures
        forall|env: spec_fn(OracleQuery) -> real| #[trigger] meaning(r, env) == meaning(self, env) + meaning(rhs, env),
        forall|d: spec_fn(OracleQuery) -> nat| #[trigger] degs(r, d) == if degs(self, d) >= degs(rhs, d) { degs(self, d) } else { degs(rhs, d) },
@end
}
impl SubSpecImpl<Expression> for Expression {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Expression) -> bool { true }
    open spec fn sub_spec(self, rhs: Expression) -> Expression { Expression::Sum(Box::new(self), Box::new(Expression::Negated(Box::new(rhs)))) }
}
impl Sub for Expression {
    type Output = Expression;
@fn src/vo/expression.rs Sub@Expression::sub
@spec
    ensures
        forall|env: spec_fn(OracleQuery) -> real| #[trigger] meaning(r, env) == meaning(self, env) - meaning(rhs, env),
        forall|d: spec_fn(OracleQuery) -> nat| #[trigger] degs(r, d) == if degs(self, d) >= degs(rhs, d) { degs(self, d) } else { degs(rhs, d) },
@start
    reveal_with_fuel(meaning, 3);
    reveal_with_fuel(degs, 3);
@end
}
impl MulSpecImpl<Expression> for Expression {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Expression) -> bool { true }
    open spec fn mul_spec(self, rhs: Expression) -> Expression { Expression::Product(Box::new(self), Box::new(rhs)) }
}
impl Mul<Expression> for Expression {
    type Output = Expression;
@fn src/vo/expression.rs Mul!@Expression::mul
@spec
    ensures
        forall|env: spec_fn(OracleQuery) -> real| #[trigger] meaning(r, env) == meaning(self, env) * meaning(rhs, env),
        forall|d: spec_fn(OracleQuery) -> nat| #[trigger] degs(r, d) == degs(self, d) + degs(rhs, d),
@end
}
impl MulSpecImpl<F> for Expression {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> Expression { Expression::Scaled(Box::new(self), rhs) }
}
impl Mul<F> for Expression {
    type Output = Expression;
@fn src/vo/expression.rs Mul<F>@Expression::mul key=Mul<F>@Expression::mul
@spec
    ensures
        forall|env: spec_fn(OracleQuery) -> real| #[trigger] meaning(r, env) == meaning(self, env) * rhs@,
        forall|d: spec_fn(OracleQuery) -> nat| #[trigger] degs(r, d) == degs(self, d),
@end
}
impl vstd::std_specs::convert::FromSpecImpl<OracleQuery> for Expression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(q: OracleQuery) -> Expression { Expression::Oracle(q) }
}
impl From<OracleQuery> for Expression {
@fn src/vo/expression.rs From<OracleQuery>@Expression::from
@spec
    ensures
        forall|env: spec_fn(OracleQuery) -> real| #[trigger] meaning(r, env) == env(query),
        forall|d: spec_fn(OracleQuery) -> nat| #[trigger] degs(r, d) == d(query),
@end
}
}
fn main() {}
