verus! {
@item src/data_structures.rs VerifierPreprocessedInput
pub uninterp spec fn rand_none() -> PC_Randomness;
impl Clone for PC_Randomness {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for PC_Randomness {}
impl PC_Randomness {
    // the randomness of a commitment that hides nothing
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r == rand_none() { unimplemented!() }
}
impl PC_Commitment {
    #[verifier::external_body]
    pub fn zero_comm() -> (r: PC_Commitment) ensures r.v() == 0real { unimplemented!() }
}
pub open spec fn kept_column(a: FixedProverOracle, b: FixedProverOracle) -> bool {
    b.label == a.label && b.poly == a.poly && b.evals@ =~= a.evals@ && b.queried_rotations == a.queried_rotations
}
// a slice of columns copied out, one clone after the other
pub fn copied_columns(s: &[FixedProverOracle]) -> (r: Vec<FixedProverOracle>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> kept_column(s@[i], #[trigger] r@[i])
        && same_opt(s@[i].evals_at_coset_of_extended_domain, r@[i].evals_at_coset_of_extended_domain)
{
    let mut v: Vec<FixedProverOracle> = Vec::new();
    for i in 0..s.len()
        invariant v@.len() == i, forall|j: int| 0 <= j < i ==> kept_column(s@[j], #[trigger] v@[j])
            && same_opt(s@[j].evals_at_coset_of_extended_domain, v@[j].evals_at_coset_of_extended_domain)
    { v.push(s[i].clone()); }
    v
}
@map fixed_oracles.to_vec() => copied_columns(fixed_oracles)
@map permutation_oracles.to_vec() => copied_columns(permutation_oracles)
@map table_oracles.to_vec() => copied_columns(table_oracles)
// the column given, with its values on the extended coset; columns the
// verifier always opens are asked for at the challenge itself
pub open spec fn pre_column(a: FixedProverOracle, b: FixedProverOracle, d: GeneralEvaluationDomain, opened: bool) -> bool {
    &&& b.label == a.label && b.poly == a.poly && b.evals@ =~= a.evals@
    &&& b.evals_at_coset_of_extended_domain is Some && on_coset_of(b.poly, d, b.evals_at_coset_of_extended_domain.unwrap()@)
    &&& forall|x: Rotation| #[trigger] b.queried_rotations.has(x) <==> a.queried_rotations.has(x) || opened && x == (Rotation { degree: 0, sign: Sign::Plus })
}
pub open spec fn pre_columns(a: Seq<FixedProverOracle>, b: Seq<FixedProverOracle>, d: GeneralEvaluationDomain, opened: bool, k: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < k ==> pre_column(a[i], #[trigger] b[i], d, opened)
    &&& forall|i: int| k <= i < a.len() ==> kept_column(a[i], #[trigger] b[i])
}
@map PC::Randomness::empty => PC_Randomness::empty
@map PC::zero_comm => PC_Commitment::zero_comm
impl ProverPreprocessedInput {
@fn src/data_structures.rs ProverPreprocessedInput::new
@spec
    requires fixed_oracles@.len() + permutation_oracles@.len() + table_oracles@.len() + 1 <= usize::MAX,
    ensures
        pre_columns(fixed_oracles@, r.fixed_oracles@, index_info.extended_coset_domain, false, fixed_oracles@.len() as int),
        pre_columns(permutation_oracles@, r.permutation_oracles@, index_info.extended_coset_domain, true, permutation_oracles@.len() as int),
        pre_columns(table_oracles@, r.table_oracles@, index_info.extended_coset_domain, false, table_oracles@.len() as int),
        pre_column(*q_blind, r.q_blind, index_info.extended_coset_domain, true),
        r.empty_rands_for_fixed@.len() == fixed_oracles@.len() + permutation_oracles@.len() + table_oracles@.len() + 1,
        forall|i: int| 0 <= i < r.empty_rands_for_fixed@.len() ==> #[trigger] r.empty_rands_for_fixed@[i] == rand_none(),
@start
    let ghost f0 = fixed_oracles@;
    let ghost p0 = permutation_oracles@;
    let ghost t0 = table_oracles@;
@loop 0
    invariant pre_columns(f0, fixed_oracles@, index_info.extended_coset_domain, false, __i0 as int), __n0 == f0.len(),
@loop 1
    invariant pre_columns(p0, permutation_oracles@, index_info.extended_coset_domain, true, __i1 as int), __n1 == p0.len(),
@loop 2
    invariant pre_columns(t0, table_oracles@, index_info.extended_coset_domain, false, __i2 as int), __n2 == t0.len(),
@end
}
impl VerifierPreprocessedInput {
@fn src/data_structures.rs VerifierPreprocessedInput::new
@spec
    ensures r.fixed_oracles == fixed_oracles, r.table_oracles == table_oracles, r.permutation_oracles == permutation_oracles, r.q_blind == q_blind,
@end
@fn src/data_structures.rs VerifierPreprocessedInput::new_wo_blind
@spec
    ensures r.fixed_oracles == fixed_oracles, r.table_oracles == table_oracles, r.permutation_oracles == permutation_oracles,
        r.q_blind.commitment is Some && r.q_blind.commitment.unwrap().v() == 0real,
@end
}
}
