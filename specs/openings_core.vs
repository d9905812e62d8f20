@map impl Instantiable<F> => impl Evaluable
verus! {
// a column of the prover: its label and its polynomial's values
pub trait Evaluable {
    spec fn s_label(&self) -> Seq<char>;
    spec fn s_at(&self, p: real) -> real;
    fn get_label(&self) -> (r: String) ensures r@ == self.s_label();
    fn query(&self, challenge: &F) -> (r: Result<F, PiopError>) ensures r is Ok, r->Ok_0@ == self.s_at(challenge@);
}
impl Evaluable for WitnessProverOracle {
    open spec fn s_label(&self) -> Seq<char> { self.label@ }
    open spec fn s_at(&self, p: real) -> real { self.poly.at(p) }
    fn get_label(&self) -> (r: String) { WitnessProverOracle::get_label(self) }
    fn query(&self, challenge: &F) -> (r: Result<F, PiopError>) { WitnessProverOracle::query(self, challenge) }
}
impl Evaluable for FixedProverOracle {
    open spec fn s_label(&self) -> Seq<char> { self.label@ }
    open spec fn s_at(&self, p: real) -> real { self.poly.at(p) }
    fn get_label(&self) -> (r: String) { FixedProverOracle::get_label(self) }
    fn query(&self, challenge: &F) -> (r: Result<F, PiopError>) { FixedProverOracle::query(self, challenge) }
}
// v is the value at p of a column labelled l
pub open spec fn value_of<A: Evaluable>(ps: Seq<A>, l: Seq<char>, p: real, v: real) -> bool {
    exists|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).s_label() == l && v == ps[j].s_at(p)
}
pub open spec fn has_label<A: Evaluable>(ps: Seq<A>, l: Seq<char>, n: int) -> bool { exists|j: int| 0 <= j < n && (#[trigger] ps[j]).s_label() == l }
pub open spec fn by_label<A: Evaluable>(m: IMap<KeyV, &A>, ps: Seq<A>, n: int) -> bool {
    &&& forall|l: Seq<char>| #[trigger] m.dom().contains(KeyV::S(l)) <==> has_label(ps, l, n)
    &&& forall|l: Seq<char>| m.dom().contains(KeyV::S(l)) ==> exists|j: int| 0 <= j < n && (#[trigger] ps[j]).s_label() == l && *(#[trigger] m[KeyV::S(l)]) == ps[j]
}
pub proof fn by_label_push<A: Evaluable>(m: IMap<KeyV, &A>, m2: IMap<KeyV, &A>, ps: Seq<A>, n: int, a: &A)
    requires 0 <= n < ps.len(), by_label(m, ps, n), *a == ps[n], m2 == m.insert(KeyV::S(ps[n].s_label()), a)
    ensures by_label(m2, ps, n + 1)
{
    let l0 = ps[n].s_label();
    assert forall|l: Seq<char>| #[trigger] m2.dom().contains(KeyV::S(l)) <==> has_label(ps, l, n + 1) by {
        if l == l0 { assert(ps[n].s_label() == l); }
        if has_label(ps, l, n) { let j = choose|j: int| 0 <= j < n && (#[trigger] ps[j]).s_label() == l; assert(0 <= j < n + 1 && ps[j].s_label() == l); }
        if has_label(ps, l, n + 1) && l != l0 { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] ps[j]).s_label() == l; assert(0 <= j < n && ps[j].s_label() == l); }
    }
    assert forall|l: Seq<char>| m2.dom().contains(KeyV::S(l)) implies exists|j: int| 0 <= j < n + 1 && (#[trigger] ps[j]).s_label() == l && *(#[trigger] m2[KeyV::S(l)]) == ps[j] by {
        if l == l0 { assert(ps[n].s_label() == l && *m2[KeyV::S(l)] == ps[n]); }
        else {
            assert(m.dom().contains(KeyV::S(l)));
            let j = choose|j: int| 0 <= j < n && (#[trigger] ps[j]).s_label() == l && *(#[trigger] m[KeyV::S(l)]) == ps[j];
            assert(0 <= j < n + 1 && ps[j].s_label() == l && *m2[KeyV::S(l)] == ps[j]);
        }
    }
}
pub open spec fn evaluated<A: Evaluable>(ps: Seq<A>, qs: Seq<(Seq<char>, real)>, vs: Seq<F>, n: int) -> bool {
    vs.len() == n && forall|i: int| 0 <= i < n ==> value_of(ps, (#[trigger] qs[i]).0, qs[i].1, vs[i]@)
}
// one value per entry of the query set, in the query set's order: that of the
// column with the entry's label at the entry's point
@fn src/util.rs evaluate_query_set collect0=BTreeMap at1
@spec
    requires forall|i: int| 0 <= i < query_set.seq().len() ==> has_label(polys@, (#[trigger] query_set.seq()[i]).0, polys@.len() as int),
    ensures r is Ok, evaluated(polys@, query_set.seq(), r->Ok_0@, query_set.seq().len() as int),
@loop 0
    invariant by_label(__v0.map(), polys@, __i0 as int),
@loopstart 0
    let ghost m0 = __v0.map();
@loopend 0
    proof { by_label_push(m0, __v0.map(), polys@, __i0 as int, &polys@[__i0 as int]); }
@loop 1
    invariant evaluated(polys@, query_set.seq(), evaluations@, __i1 as int), __n1 == query_set.seq().len(),
        by_label(oracles.map(), polys@, polys@.len() as int),
        forall|i: int| 0 <= i < query_set.seq().len() ==> has_label(polys@, (#[trigger] query_set.seq()[i]).0, polys@.len() as int),
@loopstart 1
    let ghost e0 = evaluations@;
    let ghost q = query_set.seq()[__i1 as int];
    assert(has_label(polys@, q.0, polys@.len() as int));
@loopend 1
    proof { assert(value_of(polys@, q.0, q.1, evaluations@[__i1 as int]@)); }
@end
}
@map impl QuerySetProvider<F> => impl QuerySetProvider
verus! {
// p is one of the points column o is asked at, when l is o's label
pub open spec fn asked_of<A: QuerySetProvider>(o: A, l: Seq<char>, p: real, x: real, w: real, n: nat) -> bool {
    l == o.s_label() && exists|i: int| 0 <= i < o.s_rotations().len() && p == rotated(x, w, #[trigger] o.s_rotations()[i], n)
}
pub open spec fn asked<A: QuerySetProvider>(os: Seq<A>, l: Seq<char>, p: real, x: real, w: real, n: nat, k: int) -> bool {
    exists|j: int| 0 <= j < k && asked_of(#[trigger] os[j], l, p, x, w, n)
}
pub proof fn asked_push<A: QuerySetProvider>(os: Seq<A>, l: Seq<char>, p: real, x: real, w: real, n: nat, k: int)
    requires 0 <= k < os.len()
    ensures asked(os, l, p, x, w, n, k + 1) <==> asked(os, l, p, x, w, n, k) || asked_of(os[k], l, p, x, w, n)
{
    if asked(os, l, p, x, w, n, k) { let j = choose|j: int| 0 <= j < k && asked_of(#[trigger] os[j], l, p, x, w, n); assert(0 <= j < k + 1 && asked_of(os[j], l, p, x, w, n)); }
}
impl PIOPforPolyIdentity {
// every column at every rotation registered for it, and nothing else
@fn src/piop/verifier.rs PIOPforPolyIdentity::get_query_set
@spec
    requires omegas@.len() > 0, exists|w: real| is_powers(omegas@, w),
    ensures forall|w: real| #[trigger] is_powers(omegas@, w) ==> forall|l: Seq<char>, p: real| #[trigger] r.has(l, p) <==>
        asked(oracles@, l, p, evaluation_challenge@, w, omegas@.len(), oracles@.len() as int),
@loop 0
    invariant __n0 == oracles@.len(), omegas@.len() > 0, exists|w: real| is_powers(omegas@, w),
        forall|w: real| #[trigger] is_powers(omegas@, w) ==> forall|l: Seq<char>, p: real| #[trigger] query_set.has(l, p) <==>
            asked(oracles@, l, p, evaluation_challenge@, w, omegas@.len(), __i0 as int),
@loopstart 0
    let ghost q0 = query_set;
@loopend 0
    proof {
        assert forall|w: real| #[trigger] is_powers(omegas@, w) implies forall|l: Seq<char>, p: real| #[trigger] query_set.has(l, p) <==>
            asked(oracles@, l, p, evaluation_challenge@, w, omegas@.len(), __i0 + 1)
        by {
            assert forall|l: Seq<char>, p: real| #[trigger] query_set.has(l, p) <==> asked(oracles@, l, p, evaluation_challenge@, w, omegas@.len(), __i0 + 1) by {
                asked_push(oracles@, l, p, evaluation_challenge@, w, omegas@.len(), __i0 as int);
                assert(query_set.has(l, p) <==> q0.has(l, p) || asked_of(oracles@[__i0 as int], l, p, evaluation_challenge@, w, omegas@.len()));
            }
        }
    }
@end
}
impl QuerySetProvider for WitnessProverOracle {
    open spec fn s_label(&self) -> Seq<char> { self.label@ }
    open spec fn s_rotations(&self) -> Seq<Rotation> { self.queried_rotations.seq() }
    fn get_label(&self) -> (r: String) { WitnessProverOracle::get_label(self) }
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) { WitnessProverOracle::get_queried_rotations(self) }
}
impl QuerySetProvider for FixedProverOracle {
    open spec fn s_label(&self) -> Seq<char> { self.label@ }
    open spec fn s_rotations(&self) -> Seq<Rotation> { self.queried_rotations.seq() }
    fn get_label(&self) -> (r: String) { FixedProverOracle::get_label(self) }
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) { FixedProverOracle::get_queried_rotations(self) }
}
impl QuerySetProvider for WitnessVerifierOracle {
    open spec fn s_label(&self) -> Seq<char> { self.label@ }
    open spec fn s_rotations(&self) -> Seq<Rotation> { self.queried_rotations.seq() }
    fn get_label(&self) -> (r: String) { WitnessVerifierOracle::get_label(self) }
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) { WitnessVerifierOracle::get_queried_rotations(self) }
}
impl QuerySetProvider for FixedVerifierOracle {
    open spec fn s_label(&self) -> Seq<char> { self.label@ }
    open spec fn s_rotations(&self) -> Seq<Rotation> { self.queried_rotations.seq() }
    fn get_label(&self) -> (r: String) { FixedVerifierOracle::get_label(self) }
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) { FixedVerifierOracle::get_queried_rotations(self) }
}
}
verus! {
// the evaluations a column knows once the first k claims are filed: each
// claim goes to the column its label maps to, at its own point
pub open spec fn filed(m0: IMap<KeyV, F>, cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>, vs: Seq<F>, j: int, k: int) -> IMap<KeyV, F> decreases k {
    if k <= 0 { m0 } else {
        let m = filed(m0, cm, qs, vs, j, k - 1);
        if goes_to(cm, qs[k - 1].0, j) { m.insert(KeyV::R(qs[k - 1].1), vs[k - 1]) } else { m }
    }
}
pub open spec fn goes_to(cm: IMap<KeyV, usize>, l: Seq<char>, j: int) -> bool { cm.dom().contains(KeyV::S(l)) && cm[KeyV::S(l)] == j }
pub open spec fn claim_at(cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>, j: int, i: int, p: real) -> bool { goes_to(cm, qs[i].0, j) && qs[i].1 == p }
pub proof fn filed_known(m0: IMap<KeyV, F>, cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>, vs: Seq<F>, j: int, k: int, p: real)
    requires 0 <= k
    ensures
        filed(m0, cm, qs, vs, j, k).dom().contains(KeyV::R(p)) <==> m0.dom().contains(KeyV::R(p)) || exists|i: int| 0 <= i < k && #[trigger] claim_at(cm, qs, j, i, p),
        (exists|i: int| 0 <= i < k && #[trigger] claim_at(cm, qs, j, i, p)) ==> exists|i: int| 0 <= i < k && #[trigger] claim_at(cm, qs, j, i, p) && filed(m0, cm, qs, vs, j, k)[KeyV::R(p)] == vs[i],
        !(exists|i: int| 0 <= i < k && #[trigger] claim_at(cm, qs, j, i, p)) && m0.dom().contains(KeyV::R(p)) ==> filed(m0, cm, qs, vs, j, k)[KeyV::R(p)] == m0[KeyV::R(p)],
    decreases k
{
    if k > 0 {
        filed_known(m0, cm, qs, vs, j, k - 1, p);
        let m = filed(m0, cm, qs, vs, j, k - 1);
        let m2 = filed(m0, cm, qs, vs, j, k);
        if claim_at(cm, qs, j, k - 1, p) {
            assert(m2[KeyV::R(p)] == vs[k - 1]);
        } else {
            assert(m2.dom().contains(KeyV::R(p)) == m.dom().contains(KeyV::R(p)));
            assert(m.dom().contains(KeyV::R(p)) ==> m2[KeyV::R(p)] == m[KeyV::R(p)]);
            if exists|i: int| 0 <= i < k && #[trigger] claim_at(cm, qs, j, i, p) {
                let i0 = choose|i: int| 0 <= i < k && #[trigger] claim_at(cm, qs, j, i, p);
                assert(0 <= i0 < k - 1 && claim_at(cm, qs, j, i0, p));
                let i = choose|i: int| 0 <= i < k - 1 && #[trigger] claim_at(cm, qs, j, i, p) && m[KeyV::R(p)] == vs[i];
                assert(0 <= i < k && claim_at(cm, qs, j, i, p) && m2[KeyV::R(p)] == vs[i]);
            }
            if exists|i: int| 0 <= i < k - 1 && #[trigger] claim_at(cm, qs, j, i, p) {
                let i = choose|i: int| 0 <= i < k - 1 && #[trigger] claim_at(cm, qs, j, i, p);
                assert(0 <= i < k && claim_at(cm, qs, j, i, p));
            }
        }
    }
}
pub open spec fn labels_apart(ls: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < ls.len() ==> ls[i] != ls[j] }
pub open spec fn in_query_set(qs: Seq<(Seq<char>, real)>, l: Seq<char>, p: real) -> bool { qs.contains((l, p)) }
// Claims filed under a query set of all columns at all their rotations: a
// column then knows exactly the points it is asked at, none missing, left
// over or taken from another column ...
pub proof fn known_is_asked<A: QuerySetProvider>(os: Seq<A>, ls: Seq<Seq<char>>, cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>, vs: Seq<F>, j: int, p: real, x: real, w: real, n: nat)
    requires
        0 <= j < os.len(), ls.len() == os.len(), forall|i: int| 0 <= i < os.len() ==> (#[trigger] ls[i]) == os[i].s_label(),
        labels_apart(ls), mapped(cm, ls),
        forall|l: Seq<char>, q: real| #[trigger] in_query_set(qs, l, q) <==> asked(os, l, q, x, w, n, os.len() as int),
    ensures
        filed(IMap::empty(), cm, qs, vs, j, qs.len() as int).dom().contains(KeyV::R(p)) <==> exists|i: int| 0 <= i < os[j].s_rotations().len() && p == rotated(x, w, #[trigger] os[j].s_rotations()[i], n),
{
    let k = qs.len() as int;
    filed_known(IMap::empty(), cm, qs, vs, j, k, p);
    let a = asked_of(os[j], ls[j], p, x, w, n);
    assert(cm.dom().contains(KeyV::S(ls[j])));
    assert(cm[KeyV::S(ls[j])] == j) by {
        let g = cm[KeyV::S(ls[j])] as int;
        assert(KeyV::S(ls[j]) == KeyV::S(ls[g]));
        assert(ls[g] == ls[j]);
    }
    if exists|i: int| 0 <= i < k && #[trigger] claim_at(cm, qs, j, i, p) {
        let i = choose|i: int| 0 <= i < k && #[trigger] claim_at(cm, qs, j, i, p);
        assert(qs[i] == (qs[i].0, p));
        assert(in_query_set(qs, qs[i].0, p));
        let g = choose|g: int| 0 <= g < os.len() && asked_of(#[trigger] os[g], qs[i].0, p, x, w, n);
        assert(ls[g] == os[g].s_label());
        assert(cm.dom().contains(KeyV::S(qs[i].0)) && KeyV::S(qs[i].0) == KeyV::S(ls[j]));
        assert(ls[g] == ls[j]);
        assert(g == j) by { if g < j { assert(ls[g] != ls[j]); } if j < g { assert(ls[j] != ls[g]); } }
    }
    if a {
        assert(asked(os, ls[j], p, x, w, n, os.len() as int));
        assert(in_query_set(qs, ls[j], p));
        let i = choose|i: int| 0 <= i < qs.len() && qs[i] == (ls[j], p);
        assert(claim_at(cm, qs, j, i, p));
    }
}
// ... and when the claims are the prover's, made in the order of the same
// query set, what a column knows at a point is the value there of the
// prover's column of that label
pub proof fn known_is_value<A: Evaluable>(ps: Seq<A>, ls: Seq<Seq<char>>, cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>, vs: Seq<F>, j: int, p: real)
    requires 0 <= j < ls.len(), mapped(cm, ls), evaluated(ps, qs, vs, qs.len() as int),
        filed(IMap::empty(), cm, qs, vs, j, qs.len() as int).dom().contains(KeyV::R(p)),
    ensures value_of(ps, ls[j], p, filed(IMap::empty(), cm, qs, vs, j, qs.len() as int)[KeyV::R(p)]@),
{
    let k = qs.len() as int;
    filed_known(IMap::empty(), cm, qs, vs, j, k, p);
    let i = choose|i: int| 0 <= i < k && #[trigger] claim_at(cm, qs, j, i, p) && filed(IMap::empty(), cm, qs, vs, j, k)[KeyV::R(p)] == vs[i];
    assert(cm.dom().contains(KeyV::S(qs[i].0)));
    assert(KeyV::S(qs[i].0) == KeyV::S(ls[j]));
    assert(value_of(ps, qs[i].0, qs[i].1, vs[i]@));
}
}
