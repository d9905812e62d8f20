@include prelude.rs
@include prelude_pow.rs
@include prelude_sets.rs
@include prelude_poly.rs
@include prelude_map.rs
@include prelude_com.rs
@include prelude_chunks.rs
@include prelude_rand.rs
@include prelude_dom.rs
@include arranged.rs
verus! {
#[derive(Debug)]
pub enum VOError { Other }
@item src/piop/error.rs Error
pub type PiopError = Error;
#[verifier::external_body]
pub struct PC_Randomness { x: u8 }
}
@include rot_core.vs imported
@include oracles_core.vs imported
@include toperr.vs
@include perm_core.vs imported
@include expr_core.vs imported
@include algebra.rs
@include lookup_core.vs imported
@include lookup_abs.vs imported
@include piop_core.vs
@map Self::Proof => MockProof
@map MockProof::new() => mock_proof()
verus! {
impl std::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
pub struct MockProof;
pub fn mock_proof() -> (r: MockProof) { MockProof }
#[verifier::external_body]
pub struct ProverKey { x: u8 }
// a column at a rotated point
pub open spec fn at_env(c: Cols, x: real, w: real, n: nat) -> spec_fn(OracleQuery) -> real {
    |q: OracleQuery| match q.oracle_type {
        OracleType::Witness => named(c.wm, c.ws, q.label@).poly.at(pt(x, w, n, q.rotation)),
        OracleType::Instance => named(c.im, c.is, q.label@).poly.at(pt(x, w, n, q.rotation)),
        OracleType::Fixed => named(c.fm, c.fs, q.label@).poly.at(pt(x, w, n, q.rotation)),
    }
}
pub open spec fn named_by_label(c: Cols) -> bool {
    mapped(c.wm.map(), wlabels(c.ws)) && mapped(c.im.map(), ilabels(c.is)) && mapped(c.fm.map(), flabels(c.fs))
}
pub open spec fn these(c: Cols, ws: Seq<WitnessProverOracle>, is: Seq<InstanceProverOracle>, fs: Seq<FixedProverOracle>) -> bool {
    c.ws == ws && c.is == is && c.fs == fs && named_by_label(c)
}
// the gate at the i-th row: its columns at w^i times the rotation
pub open spec fn gate_at(vo: &dyn VirtualOracle, c: Cols, d: GeneralEvaluationDomain, i: int) -> real {
    meaning(vo.s_expr().unwrap(), at_env(c, rpow(d.w(), i as nat), d.w(), d.n()))
}
pub open spec fn has_columns(e: Expression, ws: Seq<WitnessProverOracle>, is: Seq<InstanceProverOracle>, fs: Seq<FixedProverOracle>) -> bool {
    forall|q: OracleQuery| #[trigger] uses(e, q) ==> match q.oracle_type {
        OracleType::Witness => wlabels(ws).contains(q.label@),
        OracleType::Instance => ilabels(is).contains(q.label@),
        OracleType::Fixed => flabels(fs).contains(q.label@),
    }
}
pub open spec fn labelled(vos: Seq<&dyn VirtualOracle>, ws: Seq<WitnessProverOracle>, is: Seq<InstanceProverOracle>, fs: Seq<FixedProverOracle>) -> bool {
    forall|j: int| 0 <= j < vos.len() ==> has_columns((#[trigger] vos[j]).s_expr().unwrap(), ws, is, fs)
}
pub open spec fn found(c: Cols, q: OracleQuery) -> bool {
    match q.oracle_type {
        OracleType::Witness => c.wm.map().dom().contains(KeyV::S(q.label@)),
        OracleType::Instance => c.im.map().dom().contains(KeyV::S(q.label@)),
        OracleType::Fixed => c.fm.map().dom().contains(KeyV::S(q.label@)),
    }
}
pub proof fn all_found(e: Expression, c: Cols)
    requires has_columns(e, c.ws, c.is, c.fs), named_by_label(c)
    ensures forall|q: OracleQuery| uses(e, q) ==> #[trigger] found(c, q)
{
    assert forall|q: OracleQuery| uses(e, q) implies #[trigger] found(c, q) by {
        let l = match q.oracle_type { OracleType::Witness => wlabels(c.ws), OracleType::Instance => ilabels(c.is), OracleType::Fixed => flabels(c.fs) };
        let i = choose|i: int| 0 <= i < l.len() && l[i] == q.label@;
        assert(l[i] == q.label@);
    }
}
pub open spec fn configured(vos: Seq<&dyn VirtualOracle>) -> bool { forall|j: int| 0 <= j < vos.len() ==> (#[trigger] vos[j]).s_expr() is Some }
// gate j may be named as failing on row i
pub uninterp spec fn may_name(j: int, i: int) -> bool;
#[verifier::external_body]
pub fn vstop2(j: usize, i: usize) -> ! requires may_name(j as int, i as int) ensures false { unimplemented!() }
pub open spec fn rows_zero(vos: Seq<&dyn VirtualOracle>, c: Cols, d: GeneralEvaluationDomain, i: int) -> bool {
    forall|j: int| 0 <= j < vos.len() ==> gate_at(#[trigger] vos[j], c, d, i) == 0real
}
// closures that are the field operations, and a reading of the columns
pub open spec fn valued(env: spec_fn(OracleQuery) -> real) -> bool { true }
pub open spec fn is_const<C: Fn(F) -> F>(c: &C) -> bool { forall|x: F, y: F| #[trigger] c.ensures((x,), y) ==> y@ == x@ }
pub open spec fn is_neg<C: Fn(F) -> F>(c: &C) -> bool { forall|x: F, y: F| #[trigger] c.ensures((x,), y) ==> y@ == -x@ }
pub open spec fn is_add<C: Fn(F, F) -> F>(c: &C) -> bool { forall|x: F, z: F, y: F| #[trigger] c.ensures((x, z), y) ==> y@ == x@ + z@ }
pub open spec fn is_mul<C: Fn(F, F) -> F>(c: &C) -> bool { forall|x: F, z: F, y: F| #[trigger] c.ensures((x, z), y) ==> y@ == x@ * z@ }
pub open spec fn is_read<O: Fn(&OracleQuery) -> F>(o: &O, env: spec_fn(OracleQuery) -> real) -> bool { forall|q: OracleQuery, y: F| #[trigger] o.ensures((&q,), y) ==> y@ == env(q) }
pub broadcast proof fn interp_field<C: Fn(F) -> F, O: Fn(&OracleQuery) -> F, N: Fn(F) -> F, S: Fn(F, F) -> F, P: Fn(F, F) -> F, K: Fn(F, F) -> F>(
    e: Expression, env: spec_fn(OracleQuery) -> real, c: &C, o: &O, n: &N, s: &S, p: &P, k: &K, r: F)
    requires #[trigger] interp(e, c, o, n, s, p, k, r), #[trigger] valued(env), is_const(c), is_read(o, env), is_neg(n), is_add(s), is_mul(p), is_mul(k)
    ensures r@ == meaning(e, env)
{ interp_meaning(e, env, c, o, n, s, p, k, r); }
pub struct MockProver { pub _f: PhantomData<F> }
impl MockProver {
@fn src/mock_prover.rs PIL@MockProver::prove key=MockProver::prove/passes rename=prove_passes strip=R asserts=named
@spec
    requires
        domain_size <= max_domain(), configured(vos@),
        // only a gate and a row that do not hold may be named
        forall|c: Cols, j: int, i: int| these(c, witness_oracles@, instance_oracles@, preprocessed.fixed_oracles@) && 0 <= j < vos@.len() && 0 <= i < domain_of(domain_size as nat).n()
            && #[trigger] gate_at(vos@[j], c, domain_of(domain_size as nat), i) != 0real ==> may_name(j, i),
    ensures
        // success: every gate is zero on every row
        r is Ok,
        exists|c: Cols| #[trigger] these(c, witness_oracles@, instance_oracles@, preprocessed.fixed_oracles@)
            && forall|i: int| 0 <= i < domain_of(domain_size as nat).n() ==> #[trigger] rows_zero(vos@, c, domain_of(domain_size as nat), i),
@start
    broadcast use interp_field;
    let ghost d = domain_of(domain_size as nat);
    let ghost w = d.w();
    let ghost n = d.n();
@afterlet prover_state
    let ghost cols = columns(prover_state, *preprocessed);
    let ghost ce = |x: real| at_env(cols, x, w, n);
    proof {
        assert(these(cols, witness_oracles@, instance_oracles@, preprocessed.fixed_oracles@));
        assert(is_powers(omegas@, w) && omegas@.len() == n);
    }
@closure 0
    -> (ev: F) requires vo.s_expr() is Some
        ensures ev@ == meaning(vo.s_expr().unwrap(), ce(c@))
@afterlet vo_evaluation 0
    proof { assert(valued(ce(c@))); }
@closure 1
    -> (y: F) ensures y@ == x@
@closureargs 2
    query: &OracleQuery
@closure 2
    -> (y: F)  ensures y@ == ce(c@)(*query)
@closure 3
    -> (y: F) ensures y@ == -x@
@closure 4
    -> (z: F) ensures z@ == x@ + y@
@closure 5
    -> (z: F) ensures z@ == x@ * y@
@closure 6
    -> (z: F) ensures z@ == x@ * y@
@loop 0
    invariant
        __n0 == n, omegas@.len() == n, is_powers(omegas@, w), d == domain_of(domain_size as nat), w == d.w(), n == d.n(),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] rows_zero(vos@, cols, d, i),
@loop 1
    invariant
        __n1 == vos@.len(),
        forall|j: int| 0 <= j < __i1 ==> gate_at(#[trigger] vos@[j], cols, d, __i0 as int) == 0real,
@afterlet vo_evaluation 1
    proof {
        assert(omegas@[__i0 as int]@ == rpow(w, __i0 as nat));
        assert(vo_evaluation@ == gate_at(vos@[__i1 as int], cols, d, __i0 as int));
    }
@end
@fn src/mock_prover.rs PIL@MockProver::prove key=MockProver::prove/accepts rename=prove_accepts strip=R
@spec
    requires
        // every column a gate reads is there, and every gate holds on every row:
        // then no panic can be reached
        domain_size <= max_domain(), configured(vos@),
        labelled(vos@, witness_oracles@, instance_oracles@, preprocessed.fixed_oracles@),
        forall|c: Cols, i: int| these(c, witness_oracles@, instance_oracles@, preprocessed.fixed_oracles@) && 0 <= i < domain_of(domain_size as nat).n()
            ==> #[trigger] rows_zero(vos@, c, domain_of(domain_size as nat), i),
    ensures
        r is Ok,
@start
    broadcast use interp_field;
    let ghost d = domain_of(domain_size as nat);
    let ghost w = d.w();
    let ghost n = d.n();
@afterlet prover_state
    let ghost cols = columns(prover_state, *preprocessed);
    let ghost hc = |e: Expression| has_columns(e, cols.ws, cols.is, cols.fs);
    let ghost fd = |q: OracleQuery| found(cols, q);
    let ghost ce = |x: real| at_env(cols, x, w, n);
    proof {
        assert forall|e: Expression, q: OracleQuery| hc(e) && #[trigger] uses(e, q) implies fd(q) by { all_found(e, cols); assert(found(cols, q)); }
        assert(these(cols, witness_oracles@, instance_oracles@, preprocessed.fixed_oracles@));
        assert(is_powers(omegas@, w) && omegas@.len() == n);
    }
@closure 0
    -> (ev: F) requires vo.s_expr() is Some, hc(vo.s_expr().unwrap())
        ensures ev@ == meaning(vo.s_expr().unwrap(), ce(c@))
@afterlet vo_evaluation 0
    proof { assert(valued(ce(c@))); }
@closure 1
    -> (y: F) ensures y@ == x@
@closureargs 2
    query: &OracleQuery
@closure 2
    -> (y: F)  requires fd(*query) ensures y@ == ce(c@)(*query)
@closure 3
    -> (y: F) ensures y@ == -x@
@closure 4
    -> (z: F) ensures z@ == x@ + y@
@closure 5
    -> (z: F) ensures z@ == x@ * y@
@closure 6
    -> (z: F) ensures z@ == x@ * y@
@loop 0
    invariant
        __n0 == n, omegas@.len() == n, is_powers(omegas@, w), d == domain_of(domain_size as nat), w == d.w(), n == d.n(),
@loop 1
    invariant
        __n1 == vos@.len(), configured(vos@),
@afterlet vo_evaluation 1
    proof {
        assert(omegas@[__i0 as int]@ == rpow(w, __i0 as nat));
        assert(vo_evaluation@ == gate_at(vos@[__i1 as int], cols, d, __i0 as int));
        assert(rows_zero(vos@, cols, d, __i0 as int));
    }
@end
}
}
fn main() {}
