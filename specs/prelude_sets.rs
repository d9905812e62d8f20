verus! {
// ------------------------------------------- ordered sets and query sets
// Assumed: std's BTreeSet iterates its elements without duplicates, in an
// order that the set alone determines.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { x: std::marker::PhantomData<T> }
impl<T> BTreeSet<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub open spec fn has(&self, t: T) -> bool { self.seq().contains(t) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.seq().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.seq().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.seq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: &T) requires i < self.seq().len() ensures *r == self.seq()[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool)
        ensures forall|x: T| #[trigger] final(self).has(x) <==> old(self).has(x) || x == t,
            final(self).seq().no_duplicates(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, t: &T) -> (r: bool) ensures r == self.has(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn from<const N: usize>(a: [T; N]) -> (r: Self)
        ensures forall|x: T| #[trigger] r.has(x) <==> a@.contains(x),
            N == 1 ==> forall|x: T| #[trigger] r.has(x) <==> x == a@[0],
            N == 2 ==> forall|x: T| #[trigger] r.has(x) <==> x == a@[0] || x == a@[1],
    { unimplemented!() }
}
impl<T> Clone for BTreeSet<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// (column label, point); the point's own label only orders the set
#[verifier::external_body]
pub struct QuerySet { x: u8 }
impl QuerySet {
    pub uninterp spec fn seq(&self) -> Seq<(Seq<char>, real)>;
    pub open spec fn has(&self, l: Seq<char>, p: real) -> bool { self.seq().contains((l, p)) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.seq().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.seq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: &(String, (String, F))) requires i < self.seq().len()
        ensures r.0@ == self.seq()[i as int].0, r.1.1@ == self.seq()[i as int].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: (String, (String, F))) -> (r: bool)
        ensures forall|l: Seq<char>, p: real| #[trigger] final(self).has(l, p) <==> old(self).has(l, p) || (l == t.0@ && p == t.1.1@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: QuerySet)
        ensures forall|l: Seq<char>, p: real| #[trigger] final(self).has(l, p) <==> old(self).has(l, p) || o.has(l, p),
    { unimplemented!() }
}
} // verus!
