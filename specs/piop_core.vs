@map &'a mut [WitnessProverOracle<F>] => &'a [WitnessProverOracle]
@map &'a mut [InstanceProverOracle<F>] => &'a [InstanceProverOracle]
@include vo_trait.vs
@include names.vs
verus! {
@item src/data_structures.rs ProverPreprocessedInput
@item src/piop/prover.rs ProverState
pub open spec fn wlabels(s: Seq<WitnessProverOracle>) -> Seq<Seq<char>> { s.map_values(|o: WitnessProverOracle| o.label@) }
pub open spec fn ilabels(s: Seq<InstanceProverOracle>) -> Seq<Seq<char>> { s.map_values(|o: InstanceProverOracle| o.label@) }
pub open spec fn flabels(s: Seq<FixedProverOracle>) -> Seq<Seq<char>> { s.map_values(|o: FixedProverOracle| o.label@) }
// the columns of the state, by name
pub open spec fn columns(s: ProverState, p: ProverPreprocessedInput) -> Cols {
    Cols { wm: s.witness_oracles_mapping, im: s.instance_oracles_mapping, fm: s.fixed_oracles_mapping,
        ws: s.witness_oracles@, is: s.instance_oracles@, fs: p.fixed_oracles@ }
}
pub open spec fn named_columns(s: ProverState, p: ProverPreprocessedInput) -> bool {
    &&& mapped(s.witness_oracles_mapping.map(), wlabels(s.witness_oracles@))
    &&& mapped(s.instance_oracles_mapping.map(), ilabels(s.instance_oracles@))
    &&& mapped(s.fixed_oracles_mapping.map(), flabels(p.fixed_oracles@))
    &&& mapped(s.table_oracles_mapping.map(), flabels(p.table_oracles@))
}
// the columns that take part in the copy constraints, in order
pub open spec fn copied_cols(ws: Seq<WitnessProverOracle>, k: int) -> Seq<WitnessProverOracle> decreases k {
    if k <= 0 { Seq::empty() } else if ws[k - 1].should_permute { copied_cols(ws, k - 1).push(ws[k - 1]) } else { copied_cols(ws, k - 1) }
}
pub open spec fn derefs(s: Seq<&WitnessProverOracle>) -> Seq<WitnessProverOracle> { s.map_values(|o: &WitnessProverOracle| *o) }
pub struct PIOPforPolyIdentity { pub _f: PhantomData<F> }
impl PIOPforPolyIdentity {
@fn src/piop/prover.rs PIOPforPolyIdentity::ident
@spec
    ensures r is Ok, okv(r) == x@,
@end
@fn src/piop/prover.rs PIOPforPolyIdentity::neg
@spec
    ensures r is Ok <==> x is Ok, r is Ok ==> okv(r) == -okv(x),
@closureargs 0
    x_val: F
@closure 0
    -> (q: F) ensures q@ == -x_val@
@end
@fn src/piop/prover.rs PIOPforPolyIdentity::add
@spec
    ensures r is Ok <==> x is Ok && y is Ok, r is Ok ==> okv(r) == okv(x) + okv(y),
@closureargs 0
    x_val: F
@closure 0
    -> (q: Result<F, PiopError>) ensures q is Ok <==> y is Ok, q is Ok ==> okv(q) == x_val@ + okv(y)
@closureargs 1
    y_val: F
@closure 1
    -> (q: F) ensures q@ == x_val@ + y_val@
@end
@fn src/piop/prover.rs PIOPforPolyIdentity::mul
@spec
    ensures r is Ok <==> x is Ok && y is Ok, r is Ok ==> okv(r) == okv(x) * okv(y),
@closureargs 0
    x_val: F
@closure 0
    -> (q: Result<F, PiopError>) ensures q is Ok <==> y is Ok, q is Ok ==> okv(q) == x_val@ * okv(y)
@closureargs 1
    y_val: F
@closure 1
    -> (q: F) ensures q@ == x_val@ * y_val@
@end
@fn src/piop/prover.rs PIOPforPolyIdentity::scale
@spec
    ensures r is Ok <==> x is Ok, r is Ok ==> okv(r) == okv(x) * y@,
@closureargs 0
    x_val: F
@closure 0
    -> (q: F) ensures q@ == x_val@ * y@
@end
@fn src/piop/prover.rs PIOPforPolyIdentity::init_prover collect0=BTreeMap collect1=BTreeMap collect2=BTreeMap collect3=BTreeMap
@spec
    requires domain_size <= max_domain(),
    ensures
        named_columns(r, *preprocessed),
        r.witness_oracles@ == witness_oracles@, r.instance_oracles@ == instance_oracles@, r.vos@ == vos@,
        r.domain == domain_of(domain_size as nat),
        derefs(r.oracles_to_copy@) == copied_cols(witness_oracles@, witness_oracles@.len() as int),
        r.z_polys is None, r.lookup_polys is None, r.lookup_z_polys is None, r.quotient_chunks is None,
@start
    let ghost (wl, il, fl, tl) = (wlabels(witness_oracles@), ilabels(instance_oracles@), flabels(preprocessed.fixed_oracles@), flabels(preprocessed.table_oracles@));
@beforeloop 0
    proof { mapped_none(__v0.map(), wl); }
@loop 0
    invariant __n0 == witness_oracles@.len(), mapped_to(__v0.map(), wl, __i0 as int),
@loopstart 0
    let ghost m0 = __v0.map();
@loopend 0
    proof { mapped_push(m0, __v0.map(), wl, __i0 as int); }
@afterloop 0
    proof { mapped_all(__v0.map(), wl); }
@beforeloop 1
    proof { mapped_none(__v1.map(), il); }
@loop 1
    invariant __n1 == instance_oracles@.len(), mapped_to(__v1.map(), il, __i1 as int),
@loopstart 1
    let ghost m1 = __v1.map();
@loopend 1
    proof { mapped_push(m1, __v1.map(), il, __i1 as int); }
@afterloop 1
    proof { mapped_all(__v1.map(), il); }
@beforeloop 2
    proof { mapped_none(__v2.map(), fl); }
@loop 2
    invariant __n2 == preprocessed.fixed_oracles@.len(), mapped_to(__v2.map(), fl, __i2 as int),
@loopstart 2
    let ghost m2 = __v2.map();
@loopend 2
    proof { mapped_push(m2, __v2.map(), fl, __i2 as int); }
@afterloop 2
    proof { mapped_all(__v2.map(), fl); }
@beforeloop 3
    proof { mapped_none(__v3.map(), tl); }
@loop 3
    invariant __n3 == preprocessed.table_oracles@.len(), mapped_to(__v3.map(), tl, __i3 as int),
@loopstart 3
    let ghost m3 = __v3.map();
@loopend 3
    proof { mapped_push(m3, __v3.map(), tl, __i3 as int); }
@afterloop 3
    proof { mapped_all(__v3.map(), tl); }
@beforeloop 4
    proof { assert(derefs(__v4@) =~= copied_cols(witness_oracles@, 0)); }
@loop 4
    invariant __n4 == witness_oracles@.len(), derefs(__v4@) =~= copied_cols(witness_oracles@, __i4 as int),
@end
}
}
