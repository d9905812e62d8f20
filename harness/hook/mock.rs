pub use crate::mock_prover::MockProver;
pub use crate::turbo_plonk::{TPProof, TurboPlonk};
