verus! {
// what a value contributes to the transcript
pub trait VBytes { spec fn bytes(&self) -> Seq<u8>; }
pub uninterp spec fn f_bytes(x: real) -> Seq<u8>;
pub uninterp spec fn list_bytes(n: nat, items: Seq<Seq<u8>>) -> Seq<u8>;
impl VBytes for F { open spec fn bytes(&self) -> Seq<u8> { f_bytes(self@) } }
impl VBytes for PC_Commitment { uninterp spec fn bytes(&self) -> Seq<u8>; }
// a label is not part of what is written for a labeled commitment
impl VBytes for LabeledCommitment { open spec fn bytes(&self) -> Seq<u8> { self.c().bytes() } }
impl<A: VBytes> VBytes for Vec<A> {
    open spec fn bytes(&self) -> Seq<u8> { list_bytes(self@.len(), self@.map_values(|a: A| a.bytes())) }
}
impl<A: VBytes> VBytes for &A { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } }
pub struct Enc { pub b: Ghost<Seq<u8>> }
#[derive(Debug)]
pub struct EncErr { x: u8 }
#[verifier::external_body]
pub fn vbytes<A: VBytes>(a: &A) -> (r: Enc) ensures r.b@ == a.bytes() { unimplemented!() }
#[verifier::external_body]
pub fn to_bytes1(a: Enc) -> (r: Result<Enc, EncErr>) ensures r is Ok, r.unwrap().b@ == a.b@ { unimplemented!() }
#[verifier::external_body]
pub fn to_bytes9(a: Enc, b: Enc, c: Enc, d: Enc, e: Enc, f: Enc, g: Enc, h: Enc, i: Enc) -> (r: Result<Enc, EncErr>)
    ensures r is Ok, r.unwrap().b@ == a.b@ + b.b@ + c.b@ + d.b@ + e.b@ + f.b@ + g.b@ + h.b@ + i.b@
{ unimplemented!() }

// The transcript, by the messages absorbed and the challenges drawn so far;
// a challenge is a function of all of them.
pub enum Ev { Absorb(Seq<u8>), Draw }
pub uninterp spec fn challenge(log: Seq<Ev>) -> real;
#[verifier::external_body]
pub struct FS { x: u8 }
impl FS {
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    #[verifier::external_body]
    pub fn initialize(e: &Enc) -> (r: FS) ensures r.log() == seq![Ev::Absorb(e.b@)] { unimplemented!() }
    #[verifier::external_body]
    pub fn absorb(&mut self, e: &Enc) ensures final(self).log() == old(self).log().push(Ev::Absorb(e.b@)) { unimplemented!() }
}
impl VRng for FS { open spec fn drew(a: Self, b: Self, x: real) -> bool { x == challenge(a.log()) && b.log() == a.log().push(Ev::Draw) } }
} // verus!
