verus! {
// a label's position is a column that has it; every column's label has one
pub open spec fn mapped(m: IMap<KeyV, usize>, labels: Seq<Seq<char>>) -> bool {
    &&& forall|k: KeyV| #[trigger] m.dom().contains(k) ==> m[k] < labels.len() && k == KeyV::S(labels[m[k] as int])
    &&& forall|i: int| 0 <= i < labels.len() ==> m.dom().contains(KeyV::S(#[trigger] labels[i]))
}
pub open spec fn mapped_to(m: IMap<KeyV, usize>, labels: Seq<Seq<char>>, k: int) -> bool { mapped(m, labels.subrange(0, k)) }
pub proof fn mapped_push(m: IMap<KeyV, usize>, m2: IMap<KeyV, usize>, labels: Seq<Seq<char>>, k: int)
    requires 0 <= k < labels.len(), k <= usize::MAX, mapped_to(m, labels, k), m2 == m.insert(KeyV::S(labels[k]), k as usize)
    ensures mapped_to(m2, labels, k + 1)
{
    let (a, b) = (labels.subrange(0, k), labels.subrange(0, k + 1));
    assert forall|x: KeyV| #[trigger] m2.dom().contains(x) implies m2[x] < b.len() && x == KeyV::S(b[m2[x] as int]) by {
        if x != KeyV::S(labels[k]) { assert(m.dom().contains(x)); assert(a[m[x] as int] == b[m[x] as int]); }
    }
    assert forall|i: int| 0 <= i < b.len() implies m2.dom().contains(KeyV::S(#[trigger] b[i])) by {
        if i < k { assert(a[i] == b[i]); assert(m.dom().contains(KeyV::S(a[i]))); }
    }
}
pub proof fn mapped_none(m: IMap<KeyV, usize>, labels: Seq<Seq<char>>)
    requires m == IMap::<KeyV, usize>::empty()
    ensures mapped_to(m, labels, 0)
{ }
pub proof fn mapped_all(m: IMap<KeyV, usize>, labels: Seq<Seq<char>>)
    requires mapped_to(m, labels, labels.len() as int)
    ensures mapped(m, labels)
{ assert(labels.subrange(0, labels.len() as int) =~= labels); }
}
