//! running the crate's prover and verifier
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::data_structures::ProverKey;
use zero_over_k::rng::FiatShamirRng;
pub use zero_over_k::verif_hook::{TPProof, TurboPlonk};
use zero_over_k::PIL;
use zok_harness::ideal::*;
use zok_harness::sys::*;
use zok_harness::*;

pub fn prove<PC: HomomorphicCommitment<Fr>, T: FiatShamirRng, R: Rng>(s: &Setup<PC>, rng: &mut R) -> Result<TPProof<Fr, PC>, String> {
    let pk = ProverKey::from_ck_and_vk(&s.ck, &s.pvk);
    let mut wit = s.wit.clone();
    let mut ins = s.ins.clone();
    match guard(|| TurboPlonk::<Fr, PC, T>::prove(&pk, &s.ppi, &mut wit, &mut ins, &s.pvos, s.sys.n, rng)) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(format!("error {:?}", e)),
        Err(m) => Err(format!("panic {}", m)),
    }
}
pub fn verify<PC: HomomorphicCommitment<Fr>, T: FiatShamirRng>(s: &Setup<PC>, p: TPProof<Fr, PC>) -> Result<(), String> {
    let mut vpi = s.vpi.clone();
    let mut wv = s.wver.clone();
    let mut iv: Vec<_> = vec![];
    for (o, c) in s.iver.iter().zip(&s.sys.ins) {
        use zero_over_k::oracles::traits::ConcreteOracle;
        let mut x = zero_over_k::oracles::instance::InstanceVerifierOracle::new(o.get_label(), s.sys.poly(&c.ev));
        for r in o.get_queried_rotations() {
            x.register_rotation(*r);
        }
        iv.push(x);
    }
    match guard(|| TurboPlonk::<Fr, PC, T>::verify(&s.vvk, &mut vpi, p, &mut wv, &mut iv, &s.vvos, s.sys.n, &s.zh)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("error {:?}", e)),
        Err(m) => Err(format!("panic {}", m)),
    }
}
/// shapes of circuits that exercise every part together
pub fn shapes() -> Vec<Shape> {
    let b = Shape { n: 8, blind: 4, inputs: 3, copied: 0, gates: 1, degree: 2, looks: 0, width: 1, instances: 0, free: false, max_rot: 0 };
    vec![
        b.clone(),
        Shape { gates: 3, degree: 3, instances: 1, max_rot: 1, ..b.clone() },
        Shape { gates: 2, degree: 2, instances: 2, max_rot: 3, ..b.clone() },
        Shape { inputs: 3, copied: 3, ..b.clone() },
        Shape { inputs: 4, copied: 2, gates: 2, degree: 2, instances: 1, max_rot: 2, ..b.clone() },
        Shape { n: 16, blind: 5, inputs: 5, copied: 5, gates: 1, degree: 3, ..b.clone() },
        Shape { inputs: 4, copied: 4, gates: 1, degree: 1, ..b.clone() },
        Shape { inputs: 1, copied: 1, gates: 1, degree: 2, ..b.clone() },
        Shape { looks: 1, width: 1, ..b.clone() },
        Shape { looks: 2, width: 2, instances: 1, max_rot: 1, ..b.clone() },
        Shape { n: 16, blind: 4, looks: 1, width: 3, max_rot: 2, gates: 2, ..b.clone() },
        Shape { inputs: 3, copied: 2, looks: 2, width: 2, instances: 1, max_rot: 1, gates: 2, degree: 3, ..b.clone() },
        Shape { n: 16, blind: 6, inputs: 6, copied: 6, looks: 1, width: 2, instances: 2, max_rot: 2, gates: 3, degree: 2, ..b.clone() },
        Shape { free: true, gates: 2, degree: 3, max_rot: 1, instances: 1, blind: 2, ..b.clone() },
        Shape { n: 16, free: true, gates: 1, degree: 4, blind: 3, ..b.clone() },
        Shape { n: 4, blind: 2, gates: 1, degree: 2, inputs: 2, max_rot: 1, ..b.clone() },
        Shape { degree: 5, gates: 2, inputs: 4, copied: 3, ..b.clone() },
    ]
}
pub fn dup<PC: HomomorphicCommitment<Fr>>(p: &TPProof<Fr, PC>) -> TPProof<Fr, PC> {
    TPProof {
        witness_commitments: p.witness_commitments.clone(),
        witness_evals: p.witness_evals.clone(),
        fixed_oracle_evals: p.fixed_oracle_evals.clone(),
        table_oracle_evals: p.table_oracle_evals.clone(),
        permutation_oracle_evals: p.permutation_oracle_evals.clone(),
        q_blind_eval: p.q_blind_eval,
        lookup_commitments: p.lookup_commitments.clone(),
        lookup_z_commitments: p.lookup_z_commitments.clone(),
        lookup_evals: p.lookup_evals.clone(),
        lookup_z_evals: p.lookup_z_evals.clone(),
        z_commitments: p.z_commitments.clone(),
        z_evals: p.z_evals.clone(),
        quotient_chunk_commitments: p.quotient_chunk_commitments.clone(),
        quotient_chunks_evals: p.quotient_chunks_evals.clone(),
        multiopen_proof: zero_over_k::multiproof::Proof {
            q_evals: p.multiopen_proof.q_evals.clone(),
            f_commit: p.multiopen_proof.f_commit.clone(),
            opening_proof: p.multiopen_proof.opening_proof.clone(),
        },
    }
}
pub fn ser<PC: HomomorphicCommitment<Fr>>(p: &TPProof<Fr, PC>) -> Vec<u8> {
    use ark_serialize::CanonicalSerialize;
    let mut b = vec![];
    macro_rules! f { ($($x:expr),*) => {$( $x.serialize(&mut b).unwrap(); )*} }
    f!(
        p.witness_commitments, p.witness_evals, p.fixed_oracle_evals, p.table_oracle_evals, p.permutation_oracle_evals,
        p.q_blind_eval, p.lookup_commitments, p.lookup_z_commitments, p.lookup_evals, p.lookup_z_evals, p.z_commitments,
        p.z_evals, p.quotient_chunk_commitments, p.quotient_chunks_evals, p.multiopen_proof.q_evals,
        p.multiopen_proof.f_commit, p.multiopen_proof.opening_proof
    );
    b
}
