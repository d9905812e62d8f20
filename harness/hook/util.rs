pub use crate::turbo_plonk::{TPProof, TurboPlonk};
pub use crate::util::compute_vanishing_poly_over_coset;
