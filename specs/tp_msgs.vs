verus! {
pub type MultiOpenProof = mo::Proof;
@item src/turbo_plonk.rs TPProof
// the protocol's name, the first message of every transcript
#[derive(Copy, Clone)]
pub struct ProtocolName;
impl VBytes for ProtocolName { uninterp spec fn bytes(&self) -> Seq<u8>; }
// a column of public inputs, on either side
pub trait Public { spec fn ipoly(&self) -> DensePolynomial; }
impl Public for InstanceVerifierOracle { open spec fn ipoly(&self) -> DensePolynomial { self.poly } }
impl Public for InstanceProverOracle { open spec fn ipoly(&self) -> DensePolynomial { self.poly } }
// ------------------------------------------------ the messages, in order
pub open spec fn tp_start<I: Public>(is: Seq<I>, k: nat) -> Seq<Ev> decreases k {
    if k == 0 { seq![Ev::Absorb(ProtocolName.bytes())] } else { tp_start(is, (k - 1) as nat).push(Ev::Absorb(is[k - 1].ipoly().coeffs.bytes())) }
}
pub open spec fn tp_log1<I: Public>(is: Seq<I>, p: TPProof) -> Seq<Ev> { tp_start(is, is.len()).push(Ev::Absorb(p.witness_commitments.bytes())) }
pub open spec fn tp_log2<I: Public>(is: Seq<I>, p: TPProof) -> Seq<Ev> { tp_log1(is, p).push(Ev::Draw).push(Ev::Absorb(p.lookup_commitments.bytes())) }
pub open spec fn tp_log3<I: Public>(is: Seq<I>, p: TPProof) -> Seq<Ev> {
    tp_log2(is, p).push(Ev::Draw).push(Ev::Draw).push(Ev::Absorb(p.z_commitments.bytes())).push(Ev::Absorb(p.lookup_z_commitments.bytes()))
}
pub open spec fn tp_log4<I: Public>(is: Seq<I>, p: TPProof) -> Seq<Ev> { tp_log3(is, p).push(Ev::Draw).push(Ev::Absorb(p.quotient_chunk_commitments.bytes())) }
pub open spec fn tp_claims_bytes(p: TPProof) -> Seq<u8> {
    p.witness_evals.bytes() + p.fixed_oracle_evals.bytes() + p.table_oracle_evals.bytes() + p.permutation_oracle_evals.bytes() + p.q_blind_eval.bytes()
        + p.lookup_evals.bytes() + p.lookup_z_evals.bytes() + p.z_evals.bytes() + p.quotient_chunks_evals.bytes()
}
pub open spec fn tp_log5<I: Public>(is: Seq<I>, p: TPProof) -> Seq<Ev> { tp_log4(is, p).push(Ev::Draw).push(Ev::Absorb(tp_claims_bytes(p))) }
// ... and the challenges each of which depends on all messages before it
pub open spec fn tp_theta<I: Public>(is: Seq<I>, p: TPProof) -> real { challenge(tp_log1(is, p)) }
pub open spec fn tp_beta<I: Public>(is: Seq<I>, p: TPProof) -> real { challenge(tp_log2(is, p)) }
pub open spec fn tp_gamma<I: Public>(is: Seq<I>, p: TPProof) -> real { challenge(tp_log2(is, p).push(Ev::Draw)) }
pub open spec fn tp_alpha<I: Public>(is: Seq<I>, p: TPProof) -> real { challenge(tp_log3(is, p)) }
pub open spec fn tp_x<I: Public>(is: Seq<I>, p: TPProof) -> real { challenge(tp_log4(is, p)) }
}
