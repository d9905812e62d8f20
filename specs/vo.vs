@include vo_types.vs
@include prelude_sets.rs
verus! {
@item src/oracles/query.rs OracleQuery
@item src/vo/expression.rs Expression
@item src/vo/generic_vo.rs GenericVO
@item src/vo/generic_lookup_vo.rs GenericLookupVO
pub enum VOError { UninitializedExpr, UninitializedLookupExpr, UninitializedLookupTableQuery }
pub enum PiopError { WitnessTableNotAllowed(String), InstanceTableNotAllowed(String) }
impl Clone for OracleQuery {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Expression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn fmt1<A>(s: &str, a: &A) -> (r: String) { unimplemented!() }

// what a column keeps apart from its rotations
#[verifier::external_body]
pub struct Core { x: u8 }
// The contract of a column; the oracle types of the crate are shown to have
// it in unit `oracles` (C14).
pub trait ConcreteOracle: Sized {
    spec fn lab(&self) -> Seq<char>;
    spec fn rots(&self, r: Rotation) -> bool;
    spec fn core(&self) -> Core;
    fn get_label(&self) -> (r: String) ensures r@ == self.lab();
    fn register_rotation(&mut self, rotation: Rotation)
        ensures final(self).lab() == old(self).lab(), final(self).core() == old(self).core(),
            forall|x: Rotation| #[trigger] final(self).rots(x) <==> old(self).rots(x) || x == rotation;
}
pub trait WitnessOracle: ConcreteOracle {}
pub trait InstanceOracle: ConcreteOracle {}
pub trait FixedOracle: ConcreteOracle {}

pub open spec fn labels<T: ConcreteOracle>(s: Seq<T>) -> Seq<Seq<char>> { s.map_values(|t: T| t.lab()) }

// the label a reference stands for
pub open spec fn label_at(q: VirtualQuery, w: Seq<Seq<char>>, i: Seq<Seq<char>>, f: Seq<Seq<char>>) -> Seq<char> {
    match q.oracle_type {
        OracleType::Witness => w[q.index as int],
        OracleType::Instance => i[q.index as int],
        OracleType::Fixed => f[q.index as int],
    }
}
pub open spec fn in_range(q: VirtualQuery, w: nat, i: nat, f: nat) -> bool {
    match q.oracle_type {
        OracleType::Witness => q.index < w,
        OracleType::Instance => q.index < i,
        OracleType::Fixed => q.index < f,
    }
}
pub open spec fn resolves(o: OracleQuery, q: VirtualQuery, w: Seq<Seq<char>>, i: Seq<Seq<char>>, f: Seq<Seq<char>>) -> bool {
    o.label@ == label_at(q, w, i, f) && o.rotation == q.rotation && o.oracle_type == q.oracle_type
}
// every reference of v is to a column that exists
pub open spec fn vrange(v: VirtualExpression, w: nat, i: nat, f: nat) -> bool decreases v {
    match v {
        VirtualExpression::Constant(c) => true,
        VirtualExpression::Oracle(q) => in_range(q, w, i, f),
        VirtualExpression::Negated(a) => vrange(*a, w, i, f),
        VirtualExpression::Sum(a, b) => vrange(*a, w, i, f) && vrange(*b, w, i, f),
        VirtualExpression::Product(a, b) => vrange(*a, w, i, f) && vrange(*b, w, i, f),
        VirtualExpression::Scaled(a, c) => vrange(*a, w, i, f),
    }
}
// e is v with every reference resolved
pub open spec fn same_formula(e: Expression, v: VirtualExpression, w: Seq<Seq<char>>, i: Seq<Seq<char>>, f: Seq<Seq<char>>) -> bool decreases v {
    match v {
        VirtualExpression::Constant(c) => e == Expression::Constant(c),
        VirtualExpression::Oracle(q) => e is Oracle && resolves(e->Oracle_0, q, w, i, f),
        VirtualExpression::Negated(a) => e is Negated && same_formula(*e->Negated_0, *a, w, i, f),
        VirtualExpression::Sum(a, b) => e is Sum && same_formula(*e->Sum_0, *a, w, i, f) && same_formula(*e->Sum_1, *b, w, i, f),
        VirtualExpression::Product(a, b) => e is Product && same_formula(*e->Product_0, *a, w, i, f) && same_formula(*e->Product_1, *b, w, i, f),
        VirtualExpression::Scaled(a, c) => e is Scaled && same_formula(*e->Scaled_0, *a, w, i, f) && e->Scaled_1 == c,
    }
}
// the references of kind k to column j at rotation x among the first n
pub open spec fn refers(q: VirtualQuery, k: OracleType, j: int, x: Rotation) -> bool {
    q.oracle_type == k && q.index == j && q.rotation == x
}
pub open spec fn wanted(qs: Seq<VirtualQuery>, n: int, k: OracleType, j: int, x: Rotation) -> bool {
    exists|m: int| 0 <= m < n && #[trigger] refers(qs[m], k, j, x)
}
// exactly the wanted rotations were added and nothing else changed
#[verifier::opaque]
pub open spec fn registered<T: ConcreteOracle>(before: Seq<T>, after: Seq<T>, qs: Seq<VirtualQuery>, n: int, k: OracleType) -> bool {
    &&& before.len() == after.len()
    &&& forall|j: int| 0 <= j < before.len() ==> (#[trigger] after[j]).lab() == before[j].lab() && after[j].core() == before[j].core()
    &&& forall|j: int, x: Rotation| 0 <= j < before.len() ==>
        (#[trigger] after[j].rots(x) <==> before[j].rots(x) || wanted(qs, n, k, j, x))
}
pub proof fn registered_zero<T: ConcreteOracle>(s: Seq<T>, qs: Seq<VirtualQuery>, k: OracleType)
    ensures registered(s, s, qs, 0, k)
{ reveal(registered); }
pub proof fn registered_skip<T: ConcreteOracle>(a: Seq<T>, b: Seq<T>, qs: Seq<VirtualQuery>, n: int, k: OracleType)
    requires registered(a, b, qs, n, k), 0 <= n < qs.len(), qs[n].oracle_type != k
    ensures registered(a, b, qs, n + 1, k)
{
    reveal(registered);
    assert forall|j: int, x: Rotation| 0 <= j < a.len() implies
        (#[trigger] b[j].rots(x) <==> a[j].rots(x) || wanted(qs, n + 1, k, j, x)) by {
        if wanted(qs, n + 1, k, j, x) {
            let m = choose|m: int| 0 <= m < n + 1 && #[trigger] refers(qs[m], k, j, x);
            assert(m != n);
            assert(wanted(qs, n, k, j, x));
        }
        if wanted(qs, n, k, j, x) {
            let m = choose|m: int| 0 <= m < n && #[trigger] refers(qs[m], k, j, x);
            assert(refers(qs[m], k, j, x) && m < n + 1);
        }
    }
}
pub proof fn registered_step<T: ConcreteOracle>(a: Seq<T>, b: Seq<T>, c: Seq<T>, qs: Seq<VirtualQuery>, n: int, k: OracleType)
    requires registered(a, b, qs, n, k), 0 <= n < qs.len(), qs[n].oracle_type == k, qs[n].index < b.len(),
        c.len() == b.len(),
        forall|j: int| 0 <= j < b.len() && j != qs[n].index ==> #[trigger] c[j] == b[j],
        c[qs[n].index as int].lab() == b[qs[n].index as int].lab(),
        c[qs[n].index as int].core() == b[qs[n].index as int].core(),
        forall|x: Rotation| #[trigger] c[qs[n].index as int].rots(x) <==> b[qs[n].index as int].rots(x) || x == qs[n].rotation,
    ensures registered(a, c, qs, n + 1, k)
{
    reveal(registered);
    assert forall|j: int, x: Rotation| 0 <= j < a.len() implies
        (#[trigger] c[j].rots(x) <==> a[j].rots(x) || wanted(qs, n + 1, k, j, x)) by {
        assert(b[j].rots(x) <==> a[j].rots(x) || wanted(qs, n, k, j, x));
        assert(refers(qs[n], k, j, x) <==> j == qs[n].index && x == qs[n].rotation);
        if wanted(qs, n + 1, k, j, x) {
            let m = choose|m: int| 0 <= m < n + 1 && #[trigger] refers(qs[m], k, j, x);
            if m < n { assert(wanted(qs, n, k, j, x)); }
        }
        if wanted(qs, n, k, j, x) {
            let m = choose|m: int| 0 <= m < n && #[trigger] refers(qs[m], k, j, x);
            assert(refers(qs[m], k, j, x) && m < n + 1);
        }
        if j == qs[n].index { } else { assert(c[j] == b[j]); }
    }
}
pub proof fn registered_labels<T: ConcreteOracle>(a: Seq<T>, b: Seq<T>, qs: Seq<VirtualQuery>, n: int, k: OracleType)
    requires registered(a, b, qs, n, k)
    ensures labels(a) =~= labels(b), a.len() == b.len()
{ reveal(registered); }

impl VirtualExpression {
@fn src/vo/virtual_expression.rs VirtualExpression::to_expression
@spec
    requires vrange(*self, witness_oracles@.len(), instance_oracles@.len(), fixed_oracles@.len())
    ensures same_formula(r, *self, labels(witness_oracles@), labels(instance_oracles@), labels(fixed_oracles@)),
    decreases self
@end
}
impl GenericVO {
@fn src/vo/generic_vo.rs GenericVO::init
@spec
    ensures r.virtual_exp == cfg.0, r.virtual_queries == cfg.1, r.queries is None, r.expression is None
@end
@fn src/vo/generic_vo.rs GenericVO::configure
@spec
    requires
        vrange(old(self).virtual_exp, old(witness_oracles)@.len(), old(instance_oracles)@.len(), old(fixed_oracles)@.len()),
        forall|m: int| 0 <= m < old(self).virtual_queries@.len() ==>
            in_range(#[trigger] old(self).virtual_queries@[m], old(witness_oracles)@.len(), old(instance_oracles)@.len(), old(fixed_oracles)@.len()),
    ensures
        final(self).virtual_exp == old(self).virtual_exp, final(self).virtual_queries == old(self).virtual_queries,
        final(self).expression is Some,
        same_formula(final(self).expression.unwrap(), old(self).virtual_exp, labels(old(witness_oracles)@), labels(old(instance_oracles)@), labels(old(fixed_oracles)@)),
        final(self).queries is Some, final(self).queries.unwrap()@.len() == old(self).virtual_queries@.len(),
        forall|m: int| 0 <= m < old(self).virtual_queries@.len() ==>
            resolves(#[trigger] final(self).queries.unwrap()@[m], old(self).virtual_queries@[m], labels(old(witness_oracles)@), labels(old(instance_oracles)@), labels(old(fixed_oracles)@)),
        registered(old(witness_oracles)@, final(witness_oracles)@, old(self).virtual_queries@, old(self).virtual_queries@.len() as int, OracleType::Witness),
        registered(old(instance_oracles)@, final(instance_oracles)@, old(self).virtual_queries@, old(self).virtual_queries@.len() as int, OracleType::Instance),
        registered(old(fixed_oracles)@, final(fixed_oracles)@, old(self).virtual_queries@, old(self).virtual_queries@.len() as int, OracleType::Fixed),
@start
    proof {
        registered_zero(witness_oracles@, self.virtual_queries@, OracleType::Witness);
        registered_zero(instance_oracles@, self.virtual_queries@, OracleType::Instance);
        registered_zero(fixed_oracles@, self.virtual_queries@, OracleType::Fixed);
    }
@loop 0
    invariant
        __n0 == self.virtual_queries@.len(),
        self.virtual_queries == old(self).virtual_queries, self.virtual_exp == old(self).virtual_exp,
        queries@.len() == __i0,
        forall|m: int| 0 <= m < __i0 ==>
            resolves(#[trigger] queries@[m], self.virtual_queries@[m], labels(old(witness_oracles)@), labels(old(instance_oracles)@), labels(old(fixed_oracles)@)),
        registered(old(witness_oracles)@, witness_oracles@, self.virtual_queries@, __i0 as int, OracleType::Witness),
        registered(old(instance_oracles)@, instance_oracles@, self.virtual_queries@, __i0 as int, OracleType::Instance),
        registered(old(fixed_oracles)@, fixed_oracles@, self.virtual_queries@, __i0 as int, OracleType::Fixed),
@loopstart 0
    let ghost witness_b = witness_oracles@;
    let ghost instance_b = instance_oracles@;
    let ghost fixed_b = fixed_oracles@;
    proof {
        registered_labels(old(witness_oracles)@, witness_b, self.virtual_queries@, __i0 as int, OracleType::Witness);
        registered_labels(old(instance_oracles)@, instance_b, self.virtual_queries@, __i0 as int, OracleType::Instance);
        registered_labels(old(fixed_oracles)@, fixed_b, self.virtual_queries@, __i0 as int, OracleType::Fixed);
    }
@loopend 0
    proof {
        match self.virtual_queries@[__i0 as int].oracle_type {
            OracleType::Witness => {
                registered_step(old(witness_oracles)@, witness_b, witness_oracles@, self.virtual_queries@, __i0 as int, OracleType::Witness);
                registered_skip(old(instance_oracles)@, instance_b, self.virtual_queries@, __i0 as int, OracleType::Instance);
                registered_skip(old(fixed_oracles)@, fixed_b, self.virtual_queries@, __i0 as int, OracleType::Fixed);
            }
            OracleType::Instance => {
                registered_skip(old(witness_oracles)@, witness_b, self.virtual_queries@, __i0 as int, OracleType::Witness);
                registered_step(old(instance_oracles)@, instance_b, instance_oracles@, self.virtual_queries@, __i0 as int, OracleType::Instance);
                registered_skip(old(fixed_oracles)@, fixed_b, self.virtual_queries@, __i0 as int, OracleType::Fixed);
            }
            OracleType::Fixed => {
                registered_skip(old(witness_oracles)@, witness_b, self.virtual_queries@, __i0 as int, OracleType::Witness);
                registered_skip(old(instance_oracles)@, instance_b, self.virtual_queries@, __i0 as int, OracleType::Instance);
                registered_step(old(fixed_oracles)@, fixed_b, fixed_oracles@, self.virtual_queries@, __i0 as int, OracleType::Fixed);
            }
        }
        registered_labels(old(witness_oracles)@, witness_oracles@, self.virtual_queries@, __i0 + 1, OracleType::Witness);
        registered_labels(old(instance_oracles)@, instance_oracles@, self.virtual_queries@, __i0 + 1, OracleType::Instance);
        registered_labels(old(fixed_oracles)@, fixed_oracles@, self.virtual_queries@, __i0 + 1, OracleType::Fixed);
    }
@afterloop 0
    proof {
        registered_labels(old(witness_oracles)@, witness_oracles@, self.virtual_queries@, self.virtual_queries@.len() as int, OracleType::Witness);
        registered_labels(old(instance_oracles)@, instance_oracles@, self.virtual_queries@, self.virtual_queries@.len() as int, OracleType::Instance);
        registered_labels(old(fixed_oracles)@, fixed_oracles@, self.virtual_queries@, self.virtual_queries@.len() as int, OracleType::Fixed);
    }
@end
@fn src/vo/generic_vo.rs VirtualOracle@GenericVO::get_expression
@spec
    ensures match r { Ok(e) => self.expression == Some(*e), Err(e) => self.expression is None && e is UninitializedExpr }
@end
}
impl GenericLookupVO {
@fn src/vo/generic_lookup_vo.rs GenericLookupVO::init
@spec
    ensures r.virtual_expressions == cfg.0, r.virtual_queries == cfg.1, r.virtual_table_queries == cfg.2, r.table_queries is None, r.expressions is None
@end
@fn src/vo/generic_lookup_vo.rs GenericLookupVO::configure
@spec
    requires
        forall|m: int| 0 <= m < old(self).virtual_expressions@.len() ==>
            vrange(#[trigger] old(self).virtual_expressions@[m], old(witness_oracles)@.len(), old(instance_oracles)@.len(), old(fixed_oracles)@.len()),
        forall|m: int| 0 <= m < old(self).virtual_queries@.len() ==>
            in_range(#[trigger] old(self).virtual_queries@[m], old(witness_oracles)@.len(), old(instance_oracles)@.len(), old(fixed_oracles)@.len()),
        forall|m: int| 0 <= m < old(self).virtual_table_queries@.len() ==>
            in_range(#[trigger] old(self).virtual_table_queries@[m], usize::MAX as nat + 1, usize::MAX as nat + 1, old(table_oracles)@.len()),
    ensures
        r is Ok <==> forall|m: int| 0 <= m < old(self).virtual_table_queries@.len() ==> #[trigger] old(self).virtual_table_queries@[m].oracle_type == OracleType::Fixed,
        r is Ok ==> {
            &&& final(self).virtual_expressions == old(self).virtual_expressions
            &&& final(self).virtual_queries == old(self).virtual_queries
            &&& final(self).virtual_table_queries == old(self).virtual_table_queries
            &&& final(self).expressions is Some && final(self).expressions.unwrap()@.len() == old(self).virtual_expressions@.len()
            &&& forall|m: int| 0 <= m < old(self).virtual_expressions@.len() ==>
                    same_formula(#[trigger] final(self).expressions.unwrap()@[m], old(self).virtual_expressions@[m], labels(old(witness_oracles)@), labels(old(instance_oracles)@), labels(old(fixed_oracles)@))
            &&& final(self).table_queries is Some && final(self).table_queries.unwrap()@.len() == old(self).virtual_table_queries@.len()
            &&& forall|m: int| 0 <= m < old(self).virtual_table_queries@.len() ==>
                    resolves(#[trigger] final(self).table_queries.unwrap()@[m], old(self).virtual_table_queries@[m], Seq::empty(), Seq::empty(), labels(old(table_oracles)@))
            &&& registered(old(table_oracles)@, final(table_oracles)@, old(self).virtual_table_queries@, old(self).virtual_table_queries@.len() as int, OracleType::Fixed)
        },
        registered(old(witness_oracles)@, final(witness_oracles)@, old(self).virtual_queries@, old(self).virtual_queries@.len() as int, OracleType::Witness),
        registered(old(instance_oracles)@, final(instance_oracles)@, old(self).virtual_queries@, old(self).virtual_queries@.len() as int, OracleType::Instance),
        registered(old(fixed_oracles)@, final(fixed_oracles)@, old(self).virtual_queries@, old(self).virtual_queries@.len() as int, OracleType::Fixed),
@start
    proof {
        registered_zero(table_oracles@, self.virtual_table_queries@, OracleType::Fixed);
        registered_zero(witness_oracles@, self.virtual_queries@, OracleType::Witness);
        registered_zero(instance_oracles@, self.virtual_queries@, OracleType::Instance);
        registered_zero(fixed_oracles@, self.virtual_queries@, OracleType::Fixed);
    }
@loop 0
    invariant
        __n0 == self.virtual_queries@.len(),
        *self == *old(self), table_oracles@ == old(table_oracles)@,
        registered(old(witness_oracles)@, witness_oracles@, self.virtual_queries@, __i0 as int, OracleType::Witness),
        registered(old(instance_oracles)@, instance_oracles@, self.virtual_queries@, __i0 as int, OracleType::Instance),
        registered(old(fixed_oracles)@, fixed_oracles@, self.virtual_queries@, __i0 as int, OracleType::Fixed),
@loopstart 0
    let ghost witness_b = witness_oracles@;
    let ghost instance_b = instance_oracles@;
    let ghost fixed_b = fixed_oracles@;
    proof {
        registered_labels(old(witness_oracles)@, witness_b, self.virtual_queries@, __i0 as int, OracleType::Witness);
        registered_labels(old(instance_oracles)@, instance_b, self.virtual_queries@, __i0 as int, OracleType::Instance);
        registered_labels(old(fixed_oracles)@, fixed_b, self.virtual_queries@, __i0 as int, OracleType::Fixed);
    }
@loopend 0
    proof {
        match self.virtual_queries@[__i0 as int].oracle_type {
            OracleType::Witness => {
                registered_step(old(witness_oracles)@, witness_b, witness_oracles@, self.virtual_queries@, __i0 as int, OracleType::Witness);
                registered_skip(old(instance_oracles)@, instance_b, self.virtual_queries@, __i0 as int, OracleType::Instance);
                registered_skip(old(fixed_oracles)@, fixed_b, self.virtual_queries@, __i0 as int, OracleType::Fixed);
            }
            OracleType::Instance => {
                registered_skip(old(witness_oracles)@, witness_b, self.virtual_queries@, __i0 as int, OracleType::Witness);
                registered_step(old(instance_oracles)@, instance_b, instance_oracles@, self.virtual_queries@, __i0 as int, OracleType::Instance);
                registered_skip(old(fixed_oracles)@, fixed_b, self.virtual_queries@, __i0 as int, OracleType::Fixed);
            }
            OracleType::Fixed => {
                registered_skip(old(witness_oracles)@, witness_b, self.virtual_queries@, __i0 as int, OracleType::Witness);
                registered_skip(old(instance_oracles)@, instance_b, self.virtual_queries@, __i0 as int, OracleType::Instance);
                registered_step(old(fixed_oracles)@, fixed_b, fixed_oracles@, self.virtual_queries@, __i0 as int, OracleType::Fixed);
            }
        }
        registered_labels(old(witness_oracles)@, witness_oracles@, self.virtual_queries@, __i0 + 1, OracleType::Witness);
        registered_labels(old(instance_oracles)@, instance_oracles@, self.virtual_queries@, __i0 + 1, OracleType::Instance);
        registered_labels(old(fixed_oracles)@, fixed_oracles@, self.virtual_queries@, __i0 + 1, OracleType::Fixed);
    }
@afterloop 0
    proof {
        registered_labels(old(witness_oracles)@, witness_oracles@, self.virtual_queries@, self.virtual_queries@.len() as int, OracleType::Witness);
        registered_labels(old(instance_oracles)@, instance_oracles@, self.virtual_queries@, self.virtual_queries@.len() as int, OracleType::Instance);
        registered_labels(old(fixed_oracles)@, fixed_oracles@, self.virtual_queries@, self.virtual_queries@.len() as int, OracleType::Fixed);
    }
@loop 1
    invariant
        *self == *old(self),
        __n1 == self.virtual_table_queries@.len(),
        table_queries@.len() == __i1,
        forall|m: int| 0 <= m < __i1 ==> #[trigger] self.virtual_table_queries@[m].oracle_type == OracleType::Fixed,
        forall|m: int| 0 <= m < __i1 ==>
            resolves(#[trigger] table_queries@[m], self.virtual_table_queries@[m], Seq::empty(), Seq::empty(), labels(old(table_oracles)@)),
        registered(old(table_oracles)@, table_oracles@, self.virtual_table_queries@, __i1 as int, OracleType::Fixed),
@loopstart 1
    let ghost table_b = table_oracles@;
    proof { registered_labels(old(table_oracles)@, table_b, self.virtual_table_queries@, __i1 as int, OracleType::Fixed); }
    assert(in_range(self.virtual_table_queries@[__i1 as int], usize::MAX as nat + 1, usize::MAX as nat + 1, old(table_oracles)@.len()));
@loopend 1
    proof {
        registered_step(old(table_oracles)@, table_b, table_oracles@, self.virtual_table_queries@, __i1 as int, OracleType::Fixed);
        registered_labels(old(table_oracles)@, table_oracles@, self.virtual_table_queries@, __i1 + 1, OracleType::Fixed);
    }
@loop 2
    invariant
        *self == *old(self),
        __n2 == self.virtual_expressions@.len(),
        __v2@.len() == __i2,
        forall|m: int| 0 <= m < __i2 ==>
            same_formula(#[trigger] __v2@[m], self.virtual_expressions@[m], labels(witness_oracles@), labels(instance_oracles@), labels(fixed_oracles@)),
@end
@fn src/vo/generic_lookup_vo.rs LookupVirtualOracle@GenericLookupVO::get_expressions
@spec
    ensures match r { Ok(e) => self.expressions is Some && e@ == self.expressions.unwrap()@, Err(e) => self.expressions is None && e is UninitializedLookupExpr }
@end
@fn src/vo/generic_lookup_vo.rs LookupVirtualOracle@GenericLookupVO::get_table_queries
@spec
    ensures match r { Ok(e) => self.table_queries is Some && e@ == self.table_queries.unwrap()@, Err(e) => self.table_queries is None && e is UninitializedLookupTableQuery }
@end
}
}
fn main() {}
