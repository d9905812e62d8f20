verus! {
#[verifier::opaque]
pub open spec fn occ(t: Seq<F>, v: real) -> nat { t.to_multiset().count(fe(v)) }
pub open spec fn same_values(a: Seq<F>, b: Seq<F>) -> bool { a.to_multiset() =~= b.to_multiset() }
// the arrangement the lookup argument needs
pub open spec fn arranged(a: Seq<F>, s: Seq<F>, ap: Seq<F>, sp: Seq<F>) -> bool {
    &&& ap.len() == a.len() && sp.len() == s.len()
    &&& same_values(ap, a) && same_values(sp, s)
    &&& (a.len() > 0 ==> ap[0] == sp[0])
    &&& forall|i: int| 0 < i < ap.len() ==> #[trigger] ap[i] == sp[i] || ap[i] == ap[i - 1]
}
pub open spec fn all_in(a: Seq<F>, s: Seq<F>) -> bool { forall|i: int| 0 <= i < a.len() ==> occ(s, #[trigger] a[i]@) > 0 }
} // verus!
