@include prelude.rs
verus! {
@item src/oracles/rotation.rs Sign derive=Clone,Copy,PartialEq,Eq,Structural
@item src/oracles/rotation.rs Rotation derive=Clone,Copy,PartialEq,Eq,Structural
@item src/oracles/query.rs OracleType derive=Clone,Copy
@item src/vo/query.rs VirtualQuery
@item src/vo/virtual_expression.rs VirtualExpression
// derived clones copy the value (all fields are Clone; derive is structural)
impl Clone for VirtualQuery {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for VirtualExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn curr_r() -> Rotation { Rotation { degree: 0, sign: Sign::Plus } }
pub open spec fn next_r() -> Rotation { Rotation { degree: 1, sign: Sign::Plus } }
impl Rotation {
@fn src/oracles/rotation.rs Rotation::curr
@spec
    ensures r == curr_r()
@end
@fn src/oracles/rotation.rs Rotation::next
@spec
    ensures r == next_r()
@end
@fn src/oracles/rotation.rs Rotation::new
@spec
    ensures r.degree == degree, r.sign == sign
@end
}
impl VirtualQuery {
@fn src/vo/query.rs VirtualQuery::new
@spec
    ensures r.index == index, r.rotation == rotation, r.oracle_type == oracle_type
@end
}
// the value of a virtual expression when the referenced columns have the
// given values
pub type VEnv = spec_fn(VirtualQuery) -> real;
pub open spec fn vmeaning(e: VirtualExpression, env: VEnv) -> real decreases e {
    match e {
        VirtualExpression::Constant(c) => c@,
        VirtualExpression::Oracle(q) => env(q),
        VirtualExpression::Negated(a) => -vmeaning(*a, env),
        VirtualExpression::Sum(a, b) => vmeaning(*a, env) + vmeaning(*b, env),
        VirtualExpression::Product(a, b) => vmeaning(*a, env) * vmeaning(*b, env),
        VirtualExpression::Scaled(a, c) => vmeaning(*a, env) * c@,
    }
}
pub open spec fn vuses(e: VirtualExpression, q: VirtualQuery) -> bool decreases e {
    match e {
        VirtualExpression::Constant(c) => false,
        VirtualExpression::Oracle(p) => p == q,
        VirtualExpression::Negated(a) => vuses(*a, q),
        VirtualExpression::Sum(a, b) => vuses(*a, q) || vuses(*b, q),
        VirtualExpression::Product(a, b) => vuses(*a, q) || vuses(*b, q),
        VirtualExpression::Scaled(a, c) => vuses(*a, q),
    }
}
impl NegSpecImpl for VirtualExpression {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> VirtualExpression { VirtualExpression::Negated(Box::new(self)) }
}
impl Neg for VirtualExpression {
    type Output = VirtualExpression;
@fn src/vo/virtual_expression.rs Neg@VirtualExpression::neg
@spec
    ensures forall|env: VEnv| #[trigger] vmeaning(r, env) == -vmeaning(self, env),
        forall|q: VirtualQuery| #[trigger] vuses(r, q) <==> vuses(self, q),
@end
}
impl AddSpecImpl<VirtualExpression> for VirtualExpression {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: VirtualExpression) -> bool { true }
    open spec fn add_spec(self, rhs: VirtualExpression) -> VirtualExpression { VirtualExpression::Sum(Box::new(self), Box::new(rhs)) }
}
impl Add for VirtualExpression {
    type Output = VirtualExpression;
@fn src/vo/virtual_expression.rs Add@VirtualExpression::add
@spec
    ensures forall|env: VEnv| #[trigger] vmeaning(r, env) == vmeaning(self, env) + vmeaning(rhs, env),
        forall|q: VirtualQuery| #[trigger] vuses(r, q) <==> vuses(self, q) || vuses(rhs, q),
@end
}
impl SubSpecImpl<VirtualExpression> for VirtualExpression {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: VirtualExpression) -> bool { true }
    open spec fn sub_spec(self, rhs: VirtualExpression) -> VirtualExpression { VirtualExpression::Sum(Box::new(self), Box::new(VirtualExpression::Negated(Box::new(rhs)))) }
}
impl Sub for VirtualExpression {
    type Output = VirtualExpression;
@fn src/vo/virtual_expression.rs Sub@VirtualExpression::sub
@spec
    ensures forall|env: VEnv| #[trigger] vmeaning(r, env) == vmeaning(self, env) - vmeaning(rhs, env),
        forall|q: VirtualQuery| #[trigger] vuses(r, q) <==> vuses(self, q) || vuses(rhs, q),
@start
    reveal_with_fuel(vmeaning, 3);
    reveal_with_fuel(vuses, 3);
@end
}
impl MulSpecImpl<VirtualExpression> for VirtualExpression {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: VirtualExpression) -> bool { true }
    open spec fn mul_spec(self, rhs: VirtualExpression) -> VirtualExpression { VirtualExpression::Product(Box::new(self), Box::new(rhs)) }
}
impl Mul<VirtualExpression> for VirtualExpression {
    type Output = VirtualExpression;
@fn src/vo/virtual_expression.rs Mul!@VirtualExpression::mul
@spec
    ensures forall|env: VEnv| #[trigger] vmeaning(r, env) == vmeaning(self, env) * vmeaning(rhs, env),
        forall|q: VirtualQuery| #[trigger] vuses(r, q) <==> vuses(self, q) || vuses(rhs, q),
@end
}
impl MulSpecImpl<F> for VirtualExpression {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> VirtualExpression { VirtualExpression::Scaled(Box::new(self), rhs) }
}
impl Mul<F> for VirtualExpression {
    type Output = VirtualExpression;
@fn src/vo/virtual_expression.rs Mul<F>@VirtualExpression::mul key=Mul<F>@VirtualExpression::mul
@spec
    ensures forall|env: VEnv| #[trigger] vmeaning(r, env) == vmeaning(self, env) * rhs@,
        forall|q: VirtualQuery| #[trigger] vuses(r, q) <==> vuses(self, q),
@end
}
impl vstd::std_specs::convert::FromSpecImpl<VirtualQuery> for VirtualExpression {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(q: VirtualQuery) -> VirtualExpression { VirtualExpression::Oracle(q) }
}
impl From<VirtualQuery> for VirtualExpression {
@fn src/vo/virtual_expression.rs From<VirtualQuery>@VirtualExpression::from
@spec
    ensures forall|env: VEnv| #[trigger] vmeaning(r, env) == env(vq),
        forall|q: VirtualQuery| #[trigger] vuses(r, q) <==> q == vq,
@end
}
}
