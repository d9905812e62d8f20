@include prelude.rs
@map FromBytes::read => read32
@map <R::Seed>::from => seed_from
@map ark_std::rand::Error => RandError
verus! {
// the digest and the generator it seeds
pub uninterp spec fn h(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn next32(s: Seq<u8>, n: Seq<nat>) -> u32;
pub uninterp spec fn next64(s: Seq<u8>, n: Seq<nat>) -> u64;
pub uninterp spec fn next_bytes(s: Seq<u8>, n: Seq<nat>, len: nat) -> Seq<u8>;
pub struct RandError { x: u8 }
#[derive(Debug)]
pub struct IoErr { x: u8 }
pub struct Digest { pub b: Vec<u8> }
impl Digest {
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() }
}
pub struct D;
impl D {
    // the digest is at least 32 bytes long; `read` below needs it
    #[verifier::external_body]
    pub fn digest(b: &Vec<u8>) -> (r: Digest) ensures r.b@ == h(b@), r.b@.len() >= 32 { unimplemented!() }
}
#[verifier::external_body]
pub fn read32(b: &[u8]) -> (r: Result<[u8; 32], IoErr>)
    ensures b@.len() >= 32 ==> r is Ok && r.unwrap()@ == b@.subrange(0, 32)
{ unimplemented!() }
pub fn seed_from(b: [u8; 32]) -> (r: [u8; 32]) ensures r == b { b }
// by the seed it was started from and the draws made since (4, 8: integers,
// 16 + n: n bytes)
#[verifier::external_body]
pub struct R { x: u8 }
impl R {
    pub uninterp spec fn seed(&self) -> Seq<u8>;
    pub uninterp spec fn used(&self) -> Seq<nat>;
    #[verifier::external_body]
    pub fn from_seed(s: [u8; 32]) -> (r: R) ensures r.seed() == s@, r.used().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn next_u32(&mut self) -> (r: u32)
        ensures final(self).seed() == old(self).seed(), final(self).used() == old(self).used().push(4), r == next32(old(self).seed(), old(self).used())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_u64(&mut self) -> (r: u64)
        ensures final(self).seed() == old(self).seed(), final(self).used() == old(self).used().push(8), r == next64(old(self).seed(), old(self).used())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill_bytes(&mut self, dest: &mut [u8])
        ensures final(self).seed() == old(self).seed(), final(self).used() == old(self).used().push(16 + old(dest)@.len()),
            final(dest)@ == next_bytes(old(self).seed(), old(self).used(), old(dest)@.len()), final(dest)@.len() == old(dest)@.len()
    { unimplemented!() }
}
pub trait ToBytes {
    spec fn bytes(&self) -> Seq<u8>;
    fn write(&self, w: &mut Vec<u8>) -> (r: Result<(), IoErr>)
        ensures r is Ok, final(w)@ == old(w)@ + self.bytes();
}

@item src/rng.rs SimpleHashFiatShamirRng strip=

// the seed after absorbing a history of inputs: each is hashed together with
// the seed before it
pub open spec fn cut(b: Seq<u8>) -> Seq<u8> { b.subrange(0, 32) }
pub open spec fn seed_of(hist: Seq<Seq<u8>>) -> Seq<u8> decreases hist.len() {
    if hist.len() == 0 { Seq::empty() }
    else if hist.len() == 1 { cut(h(hist[0])) }
    else { cut(h(hist.last() + seed_of(hist.drop_last()))) }
}
impl SimpleHashFiatShamirRng {
    // in step with a history: the generator was started from its seed
    pub open spec fn follows(&self, hist: Seq<Seq<u8>>) -> bool {
        hist.len() > 0 && self.seed@ == seed_of(hist) && self.r.seed() == self.seed@
    }
}
impl SimpleHashFiatShamirRng {
@fn src/rng.rs RngCore@SimpleHashFiatShamirRng::next_u32
@spec
    ensures
        final(self).seed == old(self).seed, final(self).r.seed() == old(self).r.seed(), final(self).r.used() == old(self).r.used().push(4),
        r == next32(old(self).r.seed(), old(self).r.used()),
@end
@fn src/rng.rs RngCore@SimpleHashFiatShamirRng::next_u64
@spec
    ensures
        final(self).seed == old(self).seed, final(self).r.seed() == old(self).r.seed(), final(self).r.used() == old(self).r.used().push(8),
        r == next64(old(self).r.seed(), old(self).r.used()),
@end
@fn src/rng.rs RngCore@SimpleHashFiatShamirRng::fill_bytes
@spec
    ensures
        final(self).seed == old(self).seed, final(self).r.seed() == old(self).r.seed(), final(self).r.used() == old(self).r.used().push(16 + old(dest)@.len()),
        final(dest)@ == next_bytes(old(self).r.seed(), old(self).r.used(), old(dest)@.len()),
@end
@fn src/rng.rs RngCore@SimpleHashFiatShamirRng::try_fill_bytes
@spec
    ensures
        r is Ok,
        final(self).seed == old(self).seed, final(self).r.seed() == old(self).r.seed(), final(self).r.used() == old(self).r.used().push(16 + old(dest)@.len()),
        final(dest)@ == next_bytes(old(self).r.seed(), old(self).r.used(), old(dest)@.len()),
@end
@fn src/rng.rs FiatShamirRng@SimpleHashFiatShamirRng::initialize
@spec
    ensures r.follows(seq![initial_input.bytes()]), r.r.used().len() == 0
@end
@fn src/rng.rs FiatShamirRng@SimpleHashFiatShamirRng::absorb
@spec
    requires old(self).r.seed() == old(self).seed@
    ensures
        forall|hist: Seq<Seq<u8>>| old(self).follows(hist) ==> #[trigger] final(self).follows(hist.push(new_input.bytes())),
        final(self).seed@ == cut(h(new_input.bytes() + old(self).seed@)),
        final(self).r.seed() == final(self).seed@, final(self).r.used().len() == 0,
@aftercall extend_from_slice 0
    proof {
        assert(bytes@ =~= new_input.bytes() + old(self).seed@);
        assert forall|hist: Seq<Seq<u8>>| old(self).follows(hist) implies
            cut(h(bytes@)) == #[trigger] seed_of(hist.push(new_input.bytes())) by
        { assert(hist.push(new_input.bytes()).drop_last() =~= hist); }
    }
@end
}

// Two different histories that begin with an input shorter than a seed and
// lead to the same seed exhibit a collision of the digest, at inputs that are
// computed from them: every challenge is bound to everything absorbed before.
pub open spec fn long_digest() -> bool { forall|a: Seq<u8>| (#[trigger] h(a)).len() >= 32 }
pub open spec fn last_input(a: Seq<Seq<u8>>) -> Seq<u8> {
    if a.len() == 1 { a[0] } else { a.last() + seed_of(a.drop_last()) }
}
pub open spec fn clash(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> (Seq<u8>, Seq<u8>) decreases a.len() {
    if last_input(a) != last_input(b) || a.len() <= 1 { (last_input(a), last_input(b)) }
    else { clash(a.drop_last(), b.drop_last()) }
}
pub proof fn transcript_binds(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires
        long_digest(),
        a.len() > 0, b.len() > 0,
        a[0].len() < 32, b[0].len() < 32,
        seed_of(a) == seed_of(b),
        a != b,
    ensures
        clash(a, b).0 != clash(a, b).1,
        cut(h(clash(a, b).0)) == cut(h(clash(a, b).1)),
    decreases a.len()
{
    assert(seed_of(a) == cut(h(last_input(a))) && seed_of(b) == cut(h(last_input(b))));
    if a.len() > 1 { seed_len(a.drop_last()); }
    if b.len() > 1 { seed_len(b.drop_last()); }
    if a.len() == 1 && b.len() == 1 {
        if a[0] == b[0] { assert(a =~= b); }
    } else if a.len() > 1 && b.len() > 1 && last_input(a) == last_input(b) {
        let x = last_input(a);
        let n = x.len() - 32;
        assert(a.last() =~= x.subrange(0, n));
        assert(b.last() =~= x.subrange(0, n));
        assert(seed_of(a.drop_last()) =~= x.subrange(n, x.len() as int));
        assert(seed_of(b.drop_last()) =~= x.subrange(n, x.len() as int));
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
        transcript_binds(a.drop_last(), b.drop_last());
    }
}
pub proof fn seed_len(a: Seq<Seq<u8>>)
    requires long_digest(), a.len() > 0
    ensures seed_of(a).len() == 32
{
    if a.len() == 1 { assert(h(a[0]).len() >= 32); }
    else { assert(h(a.last() + seed_of(a.drop_last())).len() >= 32); }
}
}
fn main() {}
