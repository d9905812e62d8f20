@map impl Into<String> => impl VInto
@map label.into() => label.vinto()
@map LabeledCommitment<PC::Commitment> => LabeledCommitment
@map LabeledPolynomial<F, DensePolynomial<F>> => LabeledPolynomial
@map LabeledPolynomial::new => labeled_polynomial
verus! {
@item src/oracles/witness.rs WitnessProverOracle
@item src/oracles/witness.rs WitnessVerifierOracle
@item src/oracles/fixed.rs FixedProverOracle
@item src/oracles/fixed.rs FixedVerifierOracle
@item src/oracles/instance.rs InstanceProverOracle
@item src/oracles/instance.rs InstanceVerifierOracle
pub struct LabeledPolynomial { pub label: String, pub poly: DensePolynomial, pub bound: Option<usize>, pub hiding: Option<usize> }
// Assumed: ark-poly-commit's labelled polynomial keeps what it is given
pub fn labeled_polynomial(l: String, p: DensePolynomial, d: Option<usize>, h: Option<usize>) -> (r: LabeledPolynomial)
    ensures r.label == l, r.poly == p, r.bound == d, r.hiding == h
{ LabeledPolynomial { label: l, poly: p, bound: d, hiding: h } }

impl Instantiable for WitnessProverOracle {
    open spec fn s_evals(&self) -> Seq<F> { self.evals@ }
    open spec fn s_ext(&self) -> Option<Seq<F>> { match self.evals_at_coset_of_extended_domain { Some(v) => Some(v@), None => None } }
@fn src/oracles/witness.rs Instantiable@WitnessProverOracle::get_extended_coset_evals
@spec
    ensures match r { Ok(v) => self.evals_at_coset_of_extended_domain == Some(*v), Err(e) => self.evals_at_coset_of_extended_domain is None && e is MissingCosetWitnessEval },
@end
@fn src/oracles/witness.rs Instantiable@WitnessProverOracle::evals
@spec
    ensures *r == self.evals,
@end
}
impl WitnessProverOracle {
@fn src/oracles/witness.rs WitnessProverOracle::new
@spec
    ensures r.label@ == label.sv(), r.poly == poly, r.evals@ == evals@, r.evals_at_coset_of_extended_domain is None,
        r.queried_rotations.seq().len() == 0, r.should_permute == should_permute,
@end
@fn src/oracles/witness.rs ConcreteOracle@WitnessProverOracle::register_rotation
@spec
    ensures final(self).label == old(self).label, final(self).poly == old(self).poly, final(self).evals == old(self).evals, final(self).evals_at_coset_of_extended_domain == old(self).evals_at_coset_of_extended_domain, final(self).should_permute == old(self).should_permute,
        forall|x: Rotation| #[trigger] final(self).queried_rotations.has(x) <==> old(self).queried_rotations.has(x) || x == rotation,
@end
@fn src/oracles/witness.rs ConcreteOracle@WitnessProverOracle::query
@spec
    ensures r is Ok && r->Ok_0@ == self.poly.at(challenge@),
@end
@fn src/oracles/witness.rs ConcreteOracle@WitnessProverOracle::get_label
@spec
    ensures r@ == self.label@,
@end
@fn src/oracles/witness.rs ConcreteOracle@WitnessProverOracle::get_queried_rotations
@spec
    ensures *r == self.queried_rotations,
@end
@fn src/oracles/witness.rs Instantiable@WitnessProverOracle::compute_extended_evals
@spec
    ensures final(self).label == old(self).label, final(self).poly == old(self).poly, final(self).evals == old(self).evals, final(self).queried_rotations == old(self).queried_rotations, final(self).should_permute == old(self).should_permute,
        final(self).evals_at_coset_of_extended_domain is Some,
        on_coset_of(final(self).poly, *extended_domain, final(self).evals_at_coset_of_extended_domain.unwrap()@),
@end
@fn src/oracles/witness.rs Instantiable@WitnessProverOracle::to_labeled
@spec
    ensures r.label@ == self.label@, r.poly == self.poly, r.bound is None,
        r.hiding == Some(1usize),
@end
@fn src/oracles/witness.rs Instantiable@WitnessProverOracle::polynomial
@spec
    ensures *r == self.poly,
@end
@fn src/oracles/witness.rs WitnessOracle@WitnessProverOracle::should_include_in_copy
@spec
    ensures r == self.should_permute,
@end
}

impl Instantiable for FixedProverOracle {
    open spec fn s_evals(&self) -> Seq<F> { self.evals@ }
    open spec fn s_ext(&self) -> Option<Seq<F>> { match self.evals_at_coset_of_extended_domain { Some(v) => Some(v@), None => None } }
@fn src/oracles/fixed.rs Instantiable@FixedProverOracle::get_extended_coset_evals
@spec
    ensures match r { Ok(v) => self.evals_at_coset_of_extended_domain == Some(*v), Err(e) => self.evals_at_coset_of_extended_domain is None && e is MissingCosetFixedEval },
@end
@fn src/oracles/fixed.rs Instantiable@FixedProverOracle::evals
@spec
    ensures *r == self.evals,
@end
}
impl FixedProverOracle {
@fn src/oracles/fixed.rs FixedProverOracle::new
@spec
    ensures r.label@ == label.sv(), r.poly == poly, r.evals@ == evals@, r.evals_at_coset_of_extended_domain is None,
        r.queried_rotations.seq().len() == 0,
@end
@fn src/oracles/fixed.rs ConcreteOracle@FixedProverOracle::register_rotation
@spec
    ensures final(self).label == old(self).label, final(self).poly == old(self).poly, final(self).evals == old(self).evals, final(self).evals_at_coset_of_extended_domain == old(self).evals_at_coset_of_extended_domain,
        forall|x: Rotation| #[trigger] final(self).queried_rotations.has(x) <==> old(self).queried_rotations.has(x) || x == rotation,
@end
@fn src/oracles/fixed.rs ConcreteOracle@FixedProverOracle::query
@spec
    ensures r is Ok && r->Ok_0@ == self.poly.at(challenge@),
@end
@fn src/oracles/fixed.rs ConcreteOracle@FixedProverOracle::get_label
@spec
    ensures r@ == self.label@,
@end
@fn src/oracles/fixed.rs ConcreteOracle@FixedProverOracle::get_queried_rotations
@spec
    ensures *r == self.queried_rotations,
@end
@fn src/oracles/fixed.rs Instantiable@FixedProverOracle::compute_extended_evals
@spec
    ensures final(self).label == old(self).label, final(self).poly == old(self).poly, final(self).evals == old(self).evals, final(self).queried_rotations == old(self).queried_rotations,
        final(self).evals_at_coset_of_extended_domain is Some,
        on_coset_of(final(self).poly, *extended_domain, final(self).evals_at_coset_of_extended_domain.unwrap()@),
@end
@fn src/oracles/fixed.rs Instantiable@FixedProverOracle::to_labeled
@spec
    ensures r.label@ == self.label@, r.poly == self.poly, r.bound is None,
        r.hiding == None::<usize>,
@end
@fn src/oracles/fixed.rs Instantiable@FixedProverOracle::polynomial
@spec
    ensures *r == self.poly,
@end
@fn src/oracles/fixed.rs FixedProverOracle::from_evals_and_domains
@spec
    requires evals@.len() == domain.n(), domain.n() <= extended_coset_domain.n(),
    ensures r.label@ == label@, r.evals@ == evals@, r.queried_rotations.seq().len() == 0,
        forall|i: int| 0 <= i < evals@.len() ==> #[trigger] r.poly.row(*domain, i) == evals@[i]@,
        r.evals_at_coset_of_extended_domain is Some,
        r.poly.coeffs@.len() <= domain.n(),
        on_coset_of(r.poly, *extended_coset_domain, r.evals_at_coset_of_extended_domain.unwrap()@),
@end
@fn src/oracles/fixed.rs Clone@FixedProverOracle::clone
@spec
    ensures r.label == self.label, r.poly == self.poly, r.evals@ =~= self.evals@, same_opt(r.evals_at_coset_of_extended_domain, self.evals_at_coset_of_extended_domain), r.queried_rotations == self.queried_rotations,
@end
}

impl Instantiable for InstanceProverOracle {
    open spec fn s_evals(&self) -> Seq<F> { self.evals@ }
    open spec fn s_ext(&self) -> Option<Seq<F>> { match self.evals_at_coset_of_extended_domain { Some(v) => Some(v@), None => None } }
@fn src/oracles/instance.rs Instantiable@InstanceProverOracle::get_extended_coset_evals
@spec
    ensures match r { Ok(v) => self.evals_at_coset_of_extended_domain == Some(*v), Err(e) => self.evals_at_coset_of_extended_domain is None && e is MissingCosetInstanceEval },
@end
@fn src/oracles/instance.rs Instantiable@InstanceProverOracle::evals
@spec
    ensures *r == self.evals,
@end
}
impl InstanceProverOracle {
@fn src/oracles/instance.rs InstanceProverOracle::new
@spec
    ensures r.label@ == label.sv(), r.poly == poly, r.evals@ == evals@, r.evals_at_coset_of_extended_domain is None,
        r.queried_rotations.seq().len() == 0,
@end
@fn src/oracles/instance.rs ConcreteOracle@InstanceProverOracle::register_rotation
@spec
    ensures final(self).label == old(self).label, final(self).poly == old(self).poly, final(self).evals == old(self).evals, final(self).evals_at_coset_of_extended_domain == old(self).evals_at_coset_of_extended_domain,
        forall|x: Rotation| #[trigger] final(self).queried_rotations.has(x) <==> old(self).queried_rotations.has(x) || x == rotation,
@end
@fn src/oracles/instance.rs ConcreteOracle@InstanceProverOracle::query
@spec
    ensures r is Ok && r->Ok_0@ == self.poly.at(challenge@),
@end
@fn src/oracles/instance.rs ConcreteOracle@InstanceProverOracle::get_label
@spec
    ensures r@ == self.label@,
@end
@fn src/oracles/instance.rs ConcreteOracle@InstanceProverOracle::get_queried_rotations
@spec
    ensures *r == self.queried_rotations,
@end
@fn src/oracles/instance.rs Instantiable@InstanceProverOracle::compute_extended_evals
@spec
    ensures final(self).label == old(self).label, final(self).poly == old(self).poly, final(self).evals == old(self).evals, final(self).queried_rotations == old(self).queried_rotations,
        final(self).evals_at_coset_of_extended_domain is Some,
        on_coset_of(final(self).poly, *extended_domain, final(self).evals_at_coset_of_extended_domain.unwrap()@),
@end
@fn src/oracles/instance.rs Instantiable@InstanceProverOracle::to_labeled
@spec
    ensures r.label@ == self.label@, r.poly == self.poly, r.bound is None,
        r.hiding == None::<usize>,
@end
@fn src/oracles/instance.rs Instantiable@InstanceProverOracle::polynomial
@spec
    ensures *r == self.poly,
@end
}

pub open spec fn same_opt(a: Option<Vec<F>>, b: Option<Vec<F>>) -> bool {
    match (a, b) { (Some(x), Some(y)) => x@ =~= y@, (None, None) => true, _ => false }
}
pub open spec fn on_coset_of(p: DensePolynomial, d: GeneralEvaluationDomain, e: Seq<F>) -> bool {
    e.len() == d.n() && (p.coeffs@.len() <= d.n() ==> forall|i: int| 0 <= i < d.n() ==> (#[trigger] e[i])@ == p.on_coset(d, i))
}

impl WitnessVerifierOracle {
@fn src/oracles/witness.rs WitnessVerifierOracle::new
@spec
    ensures r.label@ == label.sv(), r.commitment is None, r.queried_rotations.seq().len() == 0, r.should_permute == should_permute,
        r.evals_at_challenges.map() == IMap::<KeyV, F>::empty(),
@end
@fn src/oracles/witness.rs WitnessOracle@WitnessVerifierOracle::should_include_in_copy
@spec
    ensures r == self.should_permute,
@end
@fn src/oracles/witness.rs WitnessVerifierOracle::register_eval_at_challenge
@spec
    ensures final(self).label == old(self).label, final(self).queried_rotations == old(self).queried_rotations, final(self).commitment == old(self).commitment, final(self).should_permute == old(self).should_permute,
        final(self).evals_at_challenges.map() == old(self).evals_at_challenges.map().insert(KeyV::R(challenge@), eval),
@end
@fn src/oracles/witness.rs Clone@WitnessVerifierOracle::clone
@spec
    ensures r.label == self.label, r.queried_rotations == self.queried_rotations, r.evals_at_challenges == self.evals_at_challenges, r.commitment == self.commitment, r.should_permute == self.should_permute,
@end
@fn src/oracles/witness.rs ConcreteOracle@WitnessVerifierOracle::register_rotation
@spec
    ensures final(self).label == old(self).label, final(self).evals_at_challenges == old(self).evals_at_challenges, final(self).commitment == old(self).commitment, final(self).should_permute == old(self).should_permute,
        forall|x: Rotation| #[trigger] final(self).queried_rotations.has(x) <==> old(self).queried_rotations.has(x) || x == rotation,
@end
@fn src/oracles/witness.rs ConcreteOracle@WitnessVerifierOracle::query
@spec
    ensures match r {
        Ok(v) => self.evals_at_challenges.map().dom().contains(KeyV::R(challenge@)) && v == self.evals_at_challenges.map()[KeyV::R(challenge@)],
        Err(e) => !self.evals_at_challenges.map().dom().contains(KeyV::R(challenge@)) && e is MissingConcreteEval },
@end
@fn src/oracles/witness.rs ConcreteOracle@WitnessVerifierOracle::get_label
@spec
    ensures r@ == self.label@,
@end
@fn src/oracles/witness.rs ConcreteOracle@WitnessVerifierOracle::get_queried_rotations
@spec
    ensures *r == self.queried_rotations,
@end
@fn src/oracles/witness.rs CommittedOracle@WitnessVerifierOracle::register_commitment
@spec
    ensures final(self).label == old(self).label, final(self).queried_rotations == old(self).queried_rotations, final(self).evals_at_challenges == old(self).evals_at_challenges, final(self).should_permute == old(self).should_permute, final(self).commitment == Some(c),
@end
@fn src/oracles/witness.rs CommittedOracle@WitnessVerifierOracle::get_commitment
@spec
    ensures match r { Ok(c) => self.commitment == Some(*c), Err(e) => self.commitment is None && e is MissingWitnessCommitment },
@end
}

impl FixedVerifierOracle {
@fn src/oracles/fixed.rs FixedVerifierOracle::new
@spec
    ensures r.label@ == label.sv(), r.commitment == commitment, r.queried_rotations.seq().len() == 0,
        r.evals_at_challenges.map() == IMap::<KeyV, F>::empty(),
@end
@fn src/oracles/fixed.rs FixedVerifierOracle::from_commitment
@spec
    ensures r.label@ == comm.l(), r.commitment == Some(comm.c()), r.queried_rotations.seq().len() == 0,
        r.evals_at_challenges.map() == IMap::<KeyV, F>::empty(),
@end
@fn src/oracles/fixed.rs FixedVerifierOracle::from_labeled_commitment
@spec
    ensures r.label@ == c.l(), r.commitment == Some(c.c()), r.queried_rotations.seq().len() == 0,
        r.evals_at_challenges.map() == IMap::<KeyV, F>::empty(),
@end
@fn src/oracles/fixed.rs FixedVerifierOracle::register_eval_at_challenge
@spec
    ensures final(self).label == old(self).label, final(self).queried_rotations == old(self).queried_rotations, final(self).commitment == old(self).commitment,
        final(self).evals_at_challenges.map() == old(self).evals_at_challenges.map().insert(KeyV::R(challenge@), eval),
@end
@fn src/oracles/fixed.rs Clone@FixedVerifierOracle::clone
@spec
    ensures r.label == self.label, r.queried_rotations == self.queried_rotations, r.evals_at_challenges == self.evals_at_challenges, r.commitment == self.commitment,
@end
@fn src/oracles/fixed.rs ConcreteOracle@FixedVerifierOracle::register_rotation
@spec
    ensures final(self).label == old(self).label, final(self).evals_at_challenges == old(self).evals_at_challenges, final(self).commitment == old(self).commitment,
        forall|x: Rotation| #[trigger] final(self).queried_rotations.has(x) <==> old(self).queried_rotations.has(x) || x == rotation,
@end
@fn src/oracles/fixed.rs ConcreteOracle@FixedVerifierOracle::query
@spec
    ensures match r {
        Ok(v) => self.evals_at_challenges.map().dom().contains(KeyV::R(challenge@)) && v == self.evals_at_challenges.map()[KeyV::R(challenge@)],
        Err(e) => !self.evals_at_challenges.map().dom().contains(KeyV::R(challenge@)) && e is MissingConcreteEval },
@end
@fn src/oracles/fixed.rs ConcreteOracle@FixedVerifierOracle::get_label
@spec
    ensures r@ == self.label@,
@end
@fn src/oracles/fixed.rs ConcreteOracle@FixedVerifierOracle::get_queried_rotations
@spec
    ensures *r == self.queried_rotations,
@end
@fn src/oracles/fixed.rs CommittedOracle@FixedVerifierOracle::register_commitment
@spec
    ensures final(self).label == old(self).label, final(self).queried_rotations == old(self).queried_rotations, final(self).evals_at_challenges == old(self).evals_at_challenges, final(self).commitment == Some(c),
@end
@fn src/oracles/fixed.rs CommittedOracle@FixedVerifierOracle::get_commitment
@spec
    ensures match r { Ok(c) => self.commitment == Some(*c), Err(e) => self.commitment is None && e is MissingFixedCommitment },
@end
}

impl InstanceVerifierOracle {
@fn src/oracles/instance.rs InstanceVerifierOracle::new
@spec
    ensures r.label@ == label.sv(), r.poly == poly, r.queried_rotations.seq().len() == 0,
@end
@fn src/oracles/instance.rs ConcreteOracle@InstanceVerifierOracle::register_rotation
@spec
    ensures final(self).label == old(self).label, final(self).poly == old(self).poly,
        forall|x: Rotation| #[trigger] final(self).queried_rotations.has(x) <==> old(self).queried_rotations.has(x) || x == rotation,
@end
@fn src/oracles/instance.rs ConcreteOracle@InstanceVerifierOracle::query
@spec
    ensures r is Ok && r->Ok_0@ == self.poly.at(challenge@),
@end
@fn src/oracles/instance.rs ConcreteOracle@InstanceVerifierOracle::get_label
@spec
    ensures r@ == self.label@,
@end
@fn src/oracles/instance.rs ConcreteOracle@InstanceVerifierOracle::get_queried_rotations
@spec
    ensures *r == self.queried_rotations,
@end
}
pub trait ConcreteOracle {
@fn src/oracles/traits.rs ConcreteOracle::get_degree
@spec
    requires domain_size > 0
    ensures r == domain_size - 1,
@end
}
}
