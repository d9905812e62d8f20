verus! {
// a conversion to a trait object, named so that the verifier knows its type
pub fn vid<T>(t: T) -> (r: T) ensures r == t { t }
// lists of references, concatenated (eager stand-ins for iter, chain, once)
pub trait VRefs<T> { spec fn items(&self) -> Seq<T>; fn vrefs(&self) -> (r: Vec<&T>) ensures r@.len() == self.items().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.items()[i]; }
impl<T> VRefs<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::loop_isolation(false)]
    fn vrefs(&self) -> (r: Vec<&T>) {
        let mut v: Vec<&T> = Vec::new();
        for i in 0..self.len() invariant v@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] v@[j]) == self@[j] { v.push(&self[i]); }
        v
    }
}
impl<T> VRefs<T> for [T] {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::loop_isolation(false)]
    fn vrefs(&self) -> (r: Vec<&T>) {
        let mut v: Vec<&T> = Vec::new();
        for i in 0..self.len() invariant v@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] v@[j]) == self@[j] { v.push(&self[i]); }
        v
    }
}
pub fn vcat<'a, T>(a: Vec<&'a T>, b: Vec<&'a T>) -> (r: Vec<&'a T>) ensures r@ == a@ + b@ {
    let (mut a, mut b) = (a, b);
    a.append(&mut b);
    a
}
pub fn vonce<'a, T>(a: &'a T) -> (r: Vec<&'a T>) ensures r@.len() == 1, *r@[0] == *a { let mut v = Vec::new(); v.push(a); v }
}
