#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, non_camel_case_types, non_snake_case, unreachable_code, unused_assignments, path_statements, unused_must_use, let_underscore_drop, confusable_idents, mixed_script_confusables)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use std::ops::{Add, Mul, Neg, Sub};
use std::marker::PhantomData;
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- field
// A field element is its ghost value.  The operations are implemented, not
// assumed; values range over `real`, of which the proofs use the ring and
// field identities only.
pub struct F { pub v: Ghost<real> }
impl Copy for F {}
impl Clone for F {
    fn clone(&self) -> (r: F) ensures r == *self { *self }
}
impl View for F { type V = real; open spec fn view(&self) -> real { self.v@ } }

pub open spec fn fe(x: real) -> F { F { v: Ghost(x) } }

impl AddSpecImpl<F> for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: F) -> bool { true }
    open spec fn add_spec(self, rhs: F) -> F { fe(self@ + rhs@) }
}
impl Add for F { type Output = F; fn add(self, rhs: F) -> (r: F) { F { v: Ghost(self@ + rhs@) } } }
impl SubSpecImpl<F> for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: F) -> bool { true }
    open spec fn sub_spec(self, rhs: F) -> F { fe(self@ - rhs@) }
}
impl Sub for F { type Output = F; fn sub(self, rhs: F) -> (r: F) { F { v: Ghost(self@ - rhs@) } } }
impl MulSpecImpl<F> for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> F { fe(self@ * rhs@) }
}
impl Mul for F { type Output = F; fn mul(self, rhs: F) -> (r: F) { F { v: Ghost(self@ * rhs@) } } }
impl<'a> AddSpecImpl<&'a F> for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'a F) -> bool { true }
    open spec fn add_spec(self, rhs: &'a F) -> F { fe(self@ + rhs@) }
}
impl<'a> Add<&'a F> for F { type Output = F; fn add(self, rhs: &'a F) -> (r: F) { F { v: Ghost(self@ + rhs@) } } }
impl<'a> SubSpecImpl<&'a F> for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &'a F) -> bool { true }
    open spec fn sub_spec(self, rhs: &'a F) -> F { fe(self@ - rhs@) }
}
impl<'a> Sub<&'a F> for F { type Output = F; fn sub(self, rhs: &'a F) -> (r: F) { F { v: Ghost(self@ - rhs@) } } }
impl<'a> MulSpecImpl<&'a F> for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &'a F) -> bool { true }
    open spec fn mul_spec(self, rhs: &'a F) -> F { fe(self@ * rhs@) }
}
impl<'a> Mul<&'a F> for F { type Output = F; fn mul(self, rhs: &'a F) -> (r: F) { F { v: Ghost(self@ * rhs@) } } }
impl NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F { fe(-self@) }
}
impl Neg for F { type Output = F; fn neg(self) -> (r: F) { F { v: Ghost(-self@) } } }
impl PartialEq for F {
    #[verifier::external_body]
    fn eq(&self, o: &F) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
}
impl Eq for F {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for F {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &F) -> bool { self@ == other@ }
}

pub open spec fn is_inv(a: real, b: real) -> bool { a * b == 1real }

impl F {
    pub fn zero() -> (r: F) ensures r@ == 0real { F { v: Ghost(0real) } }
    pub fn one() -> (r: F) ensures r@ == 1real { F { v: Ghost(1real) } }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self@ == 1real) { unimplemented!() }
    #[verifier::external_body]
    pub fn inverse(&self) -> (r: Option<F>)
        ensures r is Some <==> self@ != 0real, r is Some ==> is_inv(r.unwrap()@, self@) && r.unwrap()@ * self@ == 1real
    { unimplemented!() }
    pub fn square(&self) -> (r: F) ensures r@ == self@ * self@ { F { v: Ghost(self@ * self@) } }
}

pub proof fn f_ext(a: F, b: F)
    requires a@ == b@
    ensures a == b
{ }

pub open spec fn rpow(x: real, n: nat) -> real decreases n {
    if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) }
}

// a source of field elements
pub trait VRng: Sized { spec fn drew(a: Self, b: Self, x: real) -> bool; }
impl F {
    #[verifier::external_body]
    pub fn rand<R: VRng>(rng: &mut R) -> (r: F) ensures R::drew(*old(rng), *final(rng), r@) { unimplemented!() }
}

// ------------------------------------------------------------- helpers
// what the weaver's rewrites call; all verified
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vsub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
pub open spec fn nmax(x: usize, y: usize) -> nat { if x >= y { x as nat } else { y as nat } }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == nmax(a, b), r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn vassert(b: bool) requires b { }
pub fn vpanic<A>() -> (r: A) requires false { vstd::pervasive::unreached() }
pub fn vec_fill<A: Copy>(x: A, n: usize) -> (r: Vec<A>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{
    let mut v: Vec<A> = Vec::new();
    for i in 0..n
        invariant v@.len() == i, forall|j: int| 0 <= j < i ==> v@[j] == x
    { v.push(x); }
    v
}
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == match o { Some(v) => Some(*v), None => None };
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@;
// a panic of the original is taken to end the run
#[verifier::external_body]
pub fn vguard(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
pub fn vstop<A>() -> (r: A) ensures false { unimplemented!() }

// strings and string slices where the source takes `impl Into<String>`
pub trait VInto: Sized { spec fn sv(&self) -> Seq<char>; fn vinto(self) -> (r: String) ensures r@ == self.sv(); }
impl VInto for String { open spec fn sv(&self) -> Seq<char> { self@ } fn vinto(self) -> (r: String) { self } }
impl VInto for &String {
    open spec fn sv(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: String) { self.clone() }
}
impl VInto for &str {
    open spec fn sv(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: String) { unimplemented!() }
}

} // verus!
