pub use crate::turbo_plonk::{TPProof, TurboPlonk};
