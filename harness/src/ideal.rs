//! An ideal commitment scheme and a transcript that records (and can fix)
//! what happens: with them a run of the real prover or verifier is decided
//! without any cryptographic slack.
use crate::*;
use ark_ff::ToBytes;
use ark_poly::{univariate::DensePolynomial, Polynomial, UVPolynomial};
use ark_poly_commit::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
use ark_std::io::{Read, Write};
use std::cell::RefCell;
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::rng::FiatShamirRng;

type Poly = DensePolynomial<Fr>;

fn trim(mut v: Vec<Fr>) -> Vec<Fr> {
    while v.last().map_or(false, |x| x.is_zero()) {
        v.pop();
    }
    v
}
fn addv(a: &[Fr], b: &[Fr]) -> Vec<Fr> {
    let n = a.len().max(b.len());
    trim(
        (0..n)
            .map(|i| a.get(i).copied().unwrap_or(Fr::zero()) + b.get(i).copied().unwrap_or(Fr::zero()))
            .collect(),
    )
}
fn scalev(a: &[Fr], s: Fr) -> Vec<Fr> {
    trim(a.iter().map(|x| *x * s).collect())
}
fn evalv(a: &[Fr], x: Fr) -> Fr {
    a.iter().rev().fold(Fr::zero(), |acc, c| acc * x + c)
}

#[derive(Clone, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Cm {
    pub p: Vec<Fr>,
    pub b: Vec<Fr>,
}
impl ToBytes for Cm {
    fn write<W: Write>(&self, mut w: W) -> ark_std::io::Result<()> {
        (self.p.len() as u64).write(&mut w)?;
        (self.b.len() as u64).write(&mut w)?;
        self.p.write(&mut w)?;
        self.b.write(&mut w)
    }
}
impl PCCommitment for Cm {
    fn empty() -> Self {
        Cm::default()
    }
    fn has_degree_bound(&self) -> bool {
        false
    }
    fn size_in_bytes(&self) -> usize {
        0
    }
}
impl PCPreparedCommitment<Cm> for Cm {
    fn prepare(c: &Cm) -> Self {
        c.clone()
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Key {
    pub d: u64,
}
impl PCUniversalParams for Key {
    fn max_degree(&self) -> usize {
        self.d as usize
    }
}
impl PCCommitterKey for Key {
    fn max_degree(&self) -> usize {
        self.d as usize
    }
    fn supported_degree(&self) -> usize {
        self.d as usize
    }
}
impl PCVerifierKey for Key {
    fn max_degree(&self) -> usize {
        self.d as usize
    }
    fn supported_degree(&self) -> usize {
        self.d as usize
    }
}
impl PCPreparedVerifierKey<Key> for Key {
    fn prepare(k: &Key) -> Self {
        k.clone()
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Rd {
    pub b: Vec<Fr>,
}
impl PCRandomness for Rd {
    fn empty() -> Self {
        Rd::default()
    }
    fn rand<R: RngCore>(n: usize, _: bool, _: Option<usize>, rng: &mut R) -> Self {
        Rd { b: (0..n + 1).map(|_| Fr::rand(rng)).collect() }
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Op {
    pub b: Fr,
}
impl ToBytes for Op {
    fn write<W: Write>(&self, w: W) -> ark_std::io::Result<()> {
        self.b.write(w)
    }
}
impl PCProof for Op {
    fn size_in_bytes(&self) -> usize {
        0
    }
}

/// what the last call of `check` was asked
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Claim {
    pub cm: Cm,
    pub point: Fr,
    pub value: Fr,
}
thread_local! {
    pub static CLAIM: RefCell<Option<Claim>> = RefCell::new(None);
    pub static CALLS: RefCell<u64> = RefCell::new(0);
}

#[derive(Clone, Debug)]
pub struct Ideal;
impl PolynomialCommitment<Fr, Poly> for Ideal {
    type UniversalParams = Key;
    type CommitterKey = Key;
    type VerifierKey = Key;
    type PreparedVerifierKey = Key;
    type Commitment = Cm;
    type PreparedCommitment = Cm;
    type Randomness = Rd;
    type Proof = Op;
    type BatchProof = Vec<Op>;
    type Error = ark_poly_commit::Error;

    fn setup<R: RngCore>(d: usize, _: Option<usize>, _: &mut R) -> Result<Key, Self::Error> {
        Ok(Key { d: d as u64 })
    }
    fn trim(pp: &Key, s: usize, _: usize, _: Option<&[usize]>) -> Result<(Key, Key), Self::Error> {
        let k = Key { d: (s as u64).min(pp.d) };
        Ok((k.clone(), k))
    }
    fn commit<'a>(
        ck: &Key,
        polys: impl IntoIterator<Item = &'a LabeledPolynomial<Fr, Poly>>,
        mut rng: Option<&mut dyn RngCore>,
    ) -> Result<(Vec<LabeledCommitment<Cm>>, Vec<Rd>), Self::Error>
    where
        Poly: 'a,
    {
        let mut cs = vec![];
        let mut rs = vec![];
        for p in polys {
            if p.degree() > ck.d as usize {
                return Err(ark_poly_commit::Error::TooManyCoefficients {
                    num_coefficients: p.degree() + 1,
                    num_powers: ck.d as usize + 1,
                });
            }
            let rd = match p.hiding_bound() {
                Some(h) => match rng.as_mut() {
                    Some(r) => Rd { b: (0..h + 2).map(|_| Fr::rand(&mut **r)).collect() },
                    None => return Err(ark_poly_commit::Error::MissingRng),
                },
                None => Rd::default(),
            };
            let c = Cm { p: trim(p.polynomial().coeffs().to_vec()), b: trim(rd.b.clone()) };
            cs.push(LabeledCommitment::new(p.label().clone(), c, p.degree_bound()));
            rs.push(rd);
        }
        Ok((cs, rs))
    }
    fn open_individual_opening_challenges<'a>(
        _ck: &Key,
        _polys: impl IntoIterator<Item = &'a LabeledPolynomial<Fr, Poly>>,
        _cms: impl IntoIterator<Item = &'a LabeledCommitment<Cm>>,
        point: &'a Fr,
        ch: &dyn Fn(u64) -> Fr,
        rands: impl IntoIterator<Item = &'a Rd>,
        _rng: Option<&mut dyn RngCore>,
    ) -> Result<Op, Self::Error>
    where
        Poly: 'a,
        Rd: 'a,
        Cm: 'a,
    {
        let mut b = Fr::zero();
        for (i, r) in rands.into_iter().enumerate() {
            b += ch(i as u64) * evalv(&r.b, *point);
        }
        Ok(Op { b })
    }
    fn check_individual_opening_challenges<'a>(
        _vk: &Key,
        cms: impl IntoIterator<Item = &'a LabeledCommitment<Cm>>,
        point: &'a Fr,
        values: impl IntoIterator<Item = Fr>,
        proof: &Op,
        ch: &dyn Fn(u64) -> Fr,
        _rng: Option<&mut dyn RngCore>,
    ) -> Result<bool, Self::Error>
    where
        Cm: 'a,
    {
        let mut c = Cm::default();
        let mut v = Fr::zero();
        let vals: Vec<Fr> = values.into_iter().collect();
        for (i, x) in cms.into_iter().enumerate() {
            c.p = addv(&c.p, &scalev(&x.commitment().p, ch(i as u64)));
            c.b = addv(&c.b, &scalev(&x.commitment().b, ch(i as u64)));
            v += ch(i as u64) * vals[i];
        }
        CLAIM.with(|l| *l.borrow_mut() = Some(Claim { cm: c.clone(), point: *point, value: v }));
        CALLS.with(|l| *l.borrow_mut() += 1);
        Ok(evalv(&c.p, *point) == v && evalv(&c.b, *point) == proof.b)
    }
}
impl HomomorphicCommitment<Fr> for Ideal {
    fn msm(cs: &[Cm], ss: &[Fr]) -> Cm {
        cs.iter().zip(ss).fold(Cm::default(), |a, (c, s)| Self::add(&a, &Self::scale_com(c, *s)))
    }
    fn neg_com(c: &Cm) -> Cm {
        Self::scale_com(c, -Fr::one())
    }
    fn scale_com(c: &Cm, s: Fr) -> Cm {
        Cm { p: scalev(&c.p, s), b: scalev(&c.b, s) }
    }
    fn add(a: &Cm, b: &Cm) -> Cm {
        Cm { p: addv(&a.p, &b.p), b: addv(&a.b, &b.b) }
    }
    fn zero_comm() -> Cm {
        Cm::default()
    }
    fn is_zero(c: &Cm) -> bool {
        c.p.is_empty() && c.b.is_empty()
    }
    fn eq_cm(a: &Cm, b: &Cm) -> bool {
        a == b
    }
    fn scale_rand(r: &Rd, s: Fr) -> Rd {
        Rd { b: scalev(&r.b, s) }
    }
    fn add_rands(a: &Rd, b: &Rd) -> Rd {
        Rd { b: addv(&a.b, &b.b) }
    }
    fn add_assign_rand(a: &mut Rd, b: &Rd) {
        a.b = addv(&a.b, &b.b);
    }
}

// ------------------------------------------------------------- transcript
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Init(Vec<u8>),
    Absorb(Vec<u8>),
    /// the field elements drawn since the last absorption
    Draw(Vec<u64>),
}
thread_local! {
    pub static LOG: RefCell<Vec<Ev>> = RefCell::new(vec![]);
    /// Some(seed): what is drawn depends on the position only
    pub static FIXED: RefCell<Option<u64>> = RefCell::new(None);
}
pub fn take_log() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn fix_challenges(s: Option<u64>) {
    FIXED.with(|l| *l.borrow_mut() = s)
}
struct Replay<'a>(&'a [u64], usize);
impl<'a> RngCore for Replay<'a> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.0.get(self.1).copied().unwrap_or(0);
        self.1 += 1;
        v
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// the challenges of a run, as field elements, in order
pub fn challenges(log: &[Ev]) -> Vec<Fr> {
    let mut out = vec![];
    for e in log {
        if let Ev::Draw(w) = e {
            let mut r = Replay(w, 0);
            while r.1 < w.len() {
                out.push(Fr::rand(&mut r));
            }
        }
    }
    out
}
pub struct Rec {
    inner: FS,
    fixed: Option<u64>,
    k: u64,
    alt: ChaChaRng,
}
fn alt(seed: u64, k: u64) -> ChaChaRng {
    ChaChaRng::seed_from_u64(seed.wrapping_mul(1_000_003).wrapping_add(k))
}
impl RngCore for Rec {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let v = if self.fixed.is_some() { self.alt.next_u64() } else { self.inner.next_u64() };
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            if let Some(Ev::Draw(w)) = l.last_mut() {
                w.push(v);
            } else {
                l.push(Ev::Draw(vec![v]));
            }
        });
        v
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl FiatShamirRng for Rec {
    fn initialize<'a, T: 'a + ToBytes>(t: &'a T) -> Self {
        let mut b = vec![];
        t.write(&mut b).unwrap();
        LOG.with(|l| l.borrow_mut().push(Ev::Init(b)));
        let fixed = FIXED.with(|f| *f.borrow());
        Rec { inner: FS::initialize(t), fixed, k: 0, alt: alt(fixed.unwrap_or(0), 0) }
    }
    fn absorb<'a, T: 'a + ToBytes>(&mut self, t: &'a T) {
        let mut b = vec![];
        t.write(&mut b).unwrap();
        LOG.with(|l| l.borrow_mut().push(Ev::Absorb(b)));
        self.inner.absorb(t);
        self.k += 1;
        self.alt = alt(self.fixed.unwrap_or(0), self.k);
    }
}

/// a prover's source of randomness that remembers what it gave out
pub struct RecRng {
    pub inner: ChaChaRng,
    pub given: Vec<u64>,
}
impl RecRng {
    pub fn new(seed: u64) -> Self {
        RecRng { inner: ChaChaRng::seed_from_u64(seed), given: vec![] }
    }
}
impl RngCore for RecRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.inner.next_u64();
        self.given.push(v);
        v
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
pub fn field_stream(w: &[u64]) -> Vec<Fr> {
    let mut r = Replay(w, 0);
    let mut out = vec![];
    while r.1 < w.len() {
        out.push(Fr::rand(&mut r));
    }
    out
}
