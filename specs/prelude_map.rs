verus! {
// ------------------------------------------------------------------ maps
// Assumed: std's BTreeMap is a finite map (by the value of its keys).
// Q: an ordered set of signed numbers, by its elements
pub enum KeyV { R(real), S(Seq<char>), Q(Seq<(bool, nat)>) }
pub trait Key { spec fn k(&self) -> KeyV; }
impl Key for F { open spec fn k(&self) -> KeyV { KeyV::R(self@) } }
impl Key for String { open spec fn k(&self) -> KeyV { KeyV::S(self@) } }
// the order the keys are iterated in, which they alone determine
pub uninterp spec fn order_of(d: ISet<KeyV>) -> Seq<KeyV>;
pub open spec fn is_order(s: Seq<KeyV>, d: ISet<KeyV>) -> bool {
    s.no_duplicates() && forall|k: KeyV| #[trigger] s.contains(k) <==> d.contains(k)
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K: Key, V> { x: std::marker::PhantomData<(K, V)> }
impl<K: Key, V> BTreeMap<K, V> {
    pub uninterp spec fn map(&self) -> IMap<KeyV, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == IMap::<KeyV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.map() == IMap::<KeyV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self.map().dom().contains(k.k()) && *v == self.map()[k.k()], None => !self.map().dom().contains(k.k()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).map() == old(self).map().insert(k.k(), v),
            r is Some <==> old(self).map().dom().contains(k.k()),
            final(self).order().len() == old(self).order().len() + if old(self).map().dom().contains(k.k()) { 0int } else { 1 },
    { unimplemented!() }
    pub open spec fn order(&self) -> Seq<KeyV> { order_of(self.map().dom()) }
    #[verifier::external_body]
    pub proof fn ordered(&self) ensures is_order(self.order(), self.map().dom()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
    // the i-th entry of the iteration
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: &(K, V))
        requires i < self.order().len()
        ensures r.0.k() == self.order()[i as int], self.map().dom().contains(r.0.k()), r.1 == self.map()[r.0.k()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Keys<K>) ensures r.s() == self.order() { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Values<V>) ensures r.s() == Seq::new(self.order().len(), |i: int| self.map()[self.order()[i]]) { unimplemented!() }
    #[verifier::external_body]
    pub fn from<const N: usize>(a: [(K, V); N]) -> (r: Self)
        ensures N == 0 ==> r.map() == IMap::<KeyV, V>::empty(), N == 1 ==> r.map() == IMap::<KeyV, V>::empty().insert(a@[0].0.k(), a@[0].1),
            N == 2 ==> r.map() == IMap::<KeyV, V>::empty().insert(a@[0].0.k(), a@[0].1).insert(a@[1].0.k(), a@[1].1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.map().dom().contains(k.k()) { unimplemented!() }
}
impl<K: Key, A> BTreeMap<K, Vec<A>> {
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut Vec<A>)
        ensures
            (*r)@ == (if old(self).map().dom().contains(k.k()) { old(self).map()[k.k()]@ } else { Seq::empty() }),
            final(self).map() == old(self).map().insert(k.k(), *final(r)),
            final(self).order().len() == old(self).order().len() + if old(self).map().dom().contains(k.k()) { 0int } else { 1 },
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct Keys<K> { x: std::marker::PhantomData<K> }
impl<K: Key> Keys<K> {
    pub uninterp spec fn s(&self) -> Seq<KeyV>;
    #[verifier::external_body]
    pub fn cloned(self) -> (r: Self) ensures r.s() == self.s() { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<K>) ensures r@.len() == self.s().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).k() == self.s()[i] { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Values<V> { x: std::marker::PhantomData<V> }
impl<V: Copy> Values<V> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: Self) ensures r.s() == self.s() { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<V>) ensures r@ == self.s() { unimplemented!() }
}
impl<V> Values<V> { pub uninterp spec fn s(&self) -> Seq<V>; }
impl<K: Key, V> Clone for BTreeMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
} // verus!
