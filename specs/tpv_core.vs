@include tp_msgs.vs
verus! {
@item src/data_structures.rs VerifierPreprocessedInput

// the one inverse of a value that has any
pub open spec fn inv_of(w: real) -> real { choose|i: real| is_inv(i, w) }
pub proof fn inverse_unique(a: real, w: real)
    requires is_inv(a, w)
    ensures inv_of(w) == a, is_inv(inv_of(w), w)
{
    let b = inv_of(w);
    assert(is_inv(b, w));
    assert(a * w * b == b) by(nonlinear_arith) requires a * w == 1real;
    assert(a * w * b == a * (b * w)) by(nonlinear_arith);
    assert(a * 1real == a) by(nonlinear_arith);
}
pub open spec fn unit_poly(p: DensePolynomial, d: GeneralEvaluationDomain, j: int) -> bool { forall|i: int| 0 <= i < d.n() ==> #[trigger] p.row(d, i) == if i == j { 1real } else { 0real } }
pub open spec fn looks_at_point(l0: real, lu: real, q: FixedVerifierOracle, os: Seq<LookupVerifierOracles>, zs: Seq<WitnessVerifierOracle>, beta: real, gamma: real, x: real, w: real) -> Seq<LookAt> {
    Seq::new(os.len(), |l: int| look_at_point(l0, lu, q, os[l], zs[l], beta, gamma, x, rpow(w, 1) * x, inv_of(w) * x))
}
// sum_{i<k} y^i t_i: the quotient from its chunks, y the n-th power of the point
pub open spec fn chunks_at(qc: Seq<WitnessVerifierOracle>, x: real, y: real, k: nat) -> real decreases k {
    if k == 0 { 0real } else { chunks_at(qc, x, y, (k - 1) as nat) + rpow(y, (k - 1) as nat) * wq(qc[k - 1], x) }
}

pub open spec fn copies_at(pa: PermutationArgument, l0: real, lu: real, q: FixedVerifierOracle, cs: Seq<&WitnessVerifierOracle>, ss: Seq<FixedVerifierOracle>, zs: Seq<WitnessVerifierOracle>, w: real, x: real, beta: real, gamma: real) -> Option<PermAt> {
    if cs.len() == 0 { None } else { Some(perm_at_point(pa, l0, lu, q, cs, ss, zs, w, x, beta, gamma)) }
}
// the combination of all constraints, from the opened values
pub open spec fn numer_at_point(vos: Seq<&dyn VirtualOracle>, vk: VerifierKey, cols: VCols, p: VerifierPreprocessedInput, cs: Seq<&WitnessVerifierOracle>, lp: Seq<LookupVerifierOracles>, lz: Seq<WitnessVerifierOracle>, zs: Seq<WitnessVerifierOracle>,
    d: GeneralEvaluationDomain, l0: real, lu: real, alpha: real, beta: real, gamma: real, x: real) -> real
{
    combined(vos, point_env(cols, x, d.w(), d.n()), copies_at(vk.index_info.permutation_argument, l0, lu, p.q_blind, cs, p.permutation_oracles@, zs, d.w(), x, beta, gamma),
        zs.len(), looks_at_point(l0, lu, p.q_blind, lp, lz, beta, gamma, x, d.w()), alpha)
}
pub open spec fn units(l0: DensePolynomial, lu: DensePolynomial, d: GeneralEvaluationDomain, u: int) -> bool { unit_poly(l0, d, 0) && unit_poly(lu, d, u) }
// nothing of a column changes but the evaluations it knows
pub open spec fn same_w(a: WitnessVerifierOracle, b: WitnessVerifierOracle) -> bool { a.label == b.label && a.queried_rotations == b.queried_rotations && a.commitment == b.commitment && a.should_permute == b.should_permute }
pub open spec fn same_f(a: FixedVerifierOracle, b: FixedVerifierOracle) -> bool { a.label == b.label && a.queried_rotations == b.queried_rotations && a.commitment == b.commitment }
pub open spec fn claimed_w(a: Seq<WitnessVerifierOracle>, b: Seq<WitnessVerifierOracle>, cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>, vs: Seq<F>, k: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|j: int| 0 <= j < a.len() ==> same_w(a[j], #[trigger] b[j]) && b[j].evals_at_challenges.map() == filed(a[j].evals_at_challenges.map(), cm, qs, vs, j, k)
}
pub open spec fn claimed_f(a: Seq<FixedVerifierOracle>, b: Seq<FixedVerifierOracle>, cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>, vs: Seq<F>, k: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|j: int| 0 <= j < a.len() ==> same_f(a[j], #[trigger] b[j]) && b[j].evals_at_challenges.map() == filed(a[j].evals_at_challenges.map(), cm, qs, vs, j, k)
}
// a query set with every column of os at every rotation registered for it
pub open spec fn asks<A: QuerySetProvider>(q: QuerySet, os: Seq<A>, x: real, om: Seq<F>) -> bool {
    forall|w: real| #[trigger] is_powers(om, w) ==> forall|l: Seq<char>, p: real| #[trigger] q.has(l, p) <==> asked(os, l, p, x, w, om.len(), os.len() as int)
}
pub open spec fn only_fixed(a: VerifierPreprocessedInput, b: VerifierPreprocessedInput) -> bool { a.table_oracles == b.table_oracles && a.permutation_oracles == b.permutation_oracles && a.q_blind == b.q_blind }
pub open spec fn only_table(a: VerifierPreprocessedInput, b: VerifierPreprocessedInput) -> bool { a.fixed_oracles == b.fixed_oracles && a.permutation_oracles == b.permutation_oracles && a.q_blind == b.q_blind }
pub open spec fn only_sigma(a: VerifierPreprocessedInput, b: VerifierPreprocessedInput) -> bool { a.fixed_oracles == b.fixed_oracles && a.table_oracles == b.table_oracles && a.q_blind == b.q_blind }
// the copy constraint columns, each with its claim at the challenge
pub open spec fn sigma_claimed(a: Seq<FixedVerifierOracle>, b: Seq<FixedVerifierOracle>, vs: Seq<F>, x: real, k: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|j: int| 0 <= j < a.len() ==> same_f(a[j], #[trigger] b[j]) && b[j].evals_at_challenges.map() == (if j < k { a[j].evals_at_challenges.map().insert(KeyV::R(x), vs[j]) } else { a[j].evals_at_challenges.map() })
}
pub open spec fn no_claims() -> IMap<KeyV, F> { IMap::empty() }
pub open spec fn curr_only(o: WitnessVerifierOracle) -> bool { forall|r: Rotation| #[trigger] o.queried_rotations.has(r) <==> r.degree == 0 && r.sign is Plus }
// a column the proof brings: its commitment and what it claims of it
pub open spec fn brought(o: WitnessVerifierOracle, c: PC_Commitment, m: IMap<KeyV, F>) -> bool { o.commitment == Some(c) && !o.should_permute && o.evals_at_challenges.map() == m }
pub open spec fn chunk_column(o: WitnessVerifierOracle, c: PC_Commitment, e: F, x: real) -> bool { brought(o, c, no_claims().insert(KeyV::R(x), e)) && curr_only(o) }
pub open spec fn look_z_column(o: WitnessVerifierOracle, c: PC_Commitment, e0: F, e1: F, x: real, xn: real) -> bool {
    &&& brought(o, c, no_claims().insert(KeyV::R(x), e0).insert(KeyV::R(xn), e1))
    &&& forall|r: Rotation| #[trigger] o.queried_rotations.has(r) <==> r.degree <= 1 && r.sign is Plus
}
pub open spec fn look_a_column(o: WitnessVerifierOracle, c: PC_Commitment, e0: F, e1: F, x: real, xp: real) -> bool {
    &&& brought(o, c, no_claims().insert(KeyV::R(x), e0).insert(KeyV::R(xp), e1))
    &&& forall|r: Rotation| #[trigger] o.queried_rotations.has(r) <==> (r.degree == 0 && r.sign is Plus) || (r.degree == 1 && r.sign is Minus)
}
// z column i of the copy constraints: opened at the challenge, one row on
// and, but for the last, at the row after the usable ones
pub open spec fn perm_z_column(o: WitnessVerifierOracle, c: PC_Commitment, u: int, last: bool) -> bool {
    &&& brought(o, c, no_claims())
    &&& forall|r: Rotation| #[trigger] o.queried_rotations.has(r) <==> r.sign is Plus && (r.degree == 0 || r.degree == 1 || (!last && r.degree == u))
}
pub open spec fn vwlabels(s: Seq<WitnessVerifierOracle>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].label@) }
pub open spec fn vilabels(s: Seq<InstanceVerifierOracle>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].label@) }
pub open spec fn vflabels(s: Seq<FixedVerifierOracle>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].label@) }
// every lookup names as many table columns as it has inputs
pub open spec fn looks_paired(ls: Seq<&dyn LookupVirtualOracle>) -> bool {
    forall|l: int| 0 <= l < ls.len() && (#[trigger] ls[l]).s_inputs() is Some && ls[l].s_tables() is Some ==> ls[l].s_inputs().unwrap().len() == ls[l].s_tables().unwrap().len()
}
// a lookup as the verifier sees it: its compressed input and table columns
// opened to the combinations of the opened values, the permuted columns to
// what the proof claims of them
pub open spec fn look_opened(o: LookupVerifierOracles, es: Seq<Expression>, qs: Seq<OracleQuery>, cols: VCols, tm: BTreeMap<String, usize>, ts: Seq<FixedVerifierOracle>, theta: real, x: real, w: real, n: nat) -> bool {
    &&& all_answered(es, point_answers(cols, x, w, n), es.len()) && tall(qs, tab_point_answers(tm, ts, x, w, n), es.len())
    &&& opened_to(o.0, x, comb(es, point_env(cols, x, w, n), theta, es.len()))
    &&& opened_to(o.1, x, tcomb(qs, tab_point(tm, ts, x, w, n), theta, es.len()))
}
pub open spec fn look_brought(o: LookupVerifierOracles, cs: Seq<PC_Commitment>, es: Seq<F>, l: int, x: real, xp: real) -> bool {
    &&& look_a_column(o.2, cs[2 * l], es[3 * l], es[3 * l + 1], x, xp)
    &&& brought(o.3, cs[2 * l + 1], no_claims().insert(KeyV::R(x), es[3 * l + 2])) && curr_only(o.3)
}
pub open spec fn look_made(o: LookupVerifierOracles, lv: &dyn LookupVirtualOracle, cols: VCols, tm: BTreeMap<String, usize>, ts: Seq<FixedVerifierOracle>, theta: real, x: real, w: real, n: nat) -> bool {
    lv.s_inputs() is Some && lv.s_tables() is Some && look_opened(o, lv.s_inputs().unwrap(), lv.s_tables().unwrap(), cols, tm, ts, theta, x, w, n)
}
pub open spec fn copied(s: Seq<WitnessVerifierOracle>, k: nat) -> Seq<WitnessVerifierOracle> decreases k {
    if k == 0 { Seq::empty() } else if s[k - 1].should_permute { copied(s, (k - 1) as nat).push(s[k - 1]) } else { copied(s, (k - 1) as nat) }
}
pub open spec fn vderefs(s: Seq<&WitnessVerifierOracle>) -> Seq<WitnessVerifierOracle> { s.map_values(|o: &WitnessVerifierOracle| *o) }
pub open spec fn all_known(cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>) -> bool { forall|i: int| 0 <= i < qs.len() ==> cm.dom().contains(KeyV::S((#[trigger] qs[i]).0)) }
}
@include tpv_main.vs
verus! {
pub mod tp {
use super::*;
use super::te::Error;
use super::mo::Multiopen;
@fn src/turbo_plonk.rs check_len
@spec
    ensures r is Ok <==> expected == actual, r is Err ==> r->Err_0 is MalformedProof,
@end
pub type DynCol<'a> = &'a dyn CommittedOracle;
pub struct TurboPlonk { }
impl TurboPlonk {
@fn src/turbo_plonk.rs PIL@TurboPlonk::verify maps=query_set,fixed_query_set,table_query_set,z_query_set loops=25 collect3=BTreeMap collect4=BTreeMap collect5=BTreeMap collect6=BTreeMap collect14=Vec<LookupVerifierOracles> collect15=Vec<&WitnessVerifierOracle> collect17=Vec<WitnessVerifierOracle> collect18=BTreeMap collect23=Vec<DynCol<'_>> collect24=Vec<DynCol<'_>>
@outline tp_identity let:powers_of_alpha <let:oracles
pub fn tp_identity(vk: &VerifierKey, preprocessed: &VerifierPreprocessedInput, witness_oracles: &[WitnessVerifierOracle], instance_oracles: &[InstanceVerifierOracle], vos: &[&dyn VirtualOracle],
    domain_size: usize, vanishing_polynomial: &DensePolynomial, domain: GeneralEvaluationDomain, omegas: &Vec<F>,
    witness_oracles_mapping: &BTreeMap<String, usize>, instance_oracles_mapping: &BTreeMap<String, usize>, fixed_oracles_mapping: &BTreeMap<String, usize>,
    oracles_to_copy: &Vec<&WitnessVerifierOracle>, lookup_polys: &Vec<LookupVerifierOracles>, lookup_z_polys: &Vec<WitnessVerifierOracle>, z_polys: &Vec<WitnessVerifierOracle>,
    quotient_chunk_oracles: &Vec<WitnessVerifierOracle>, num_of_quotient_chunks: usize,
    verifier_permutation_msg: VerifierPermutationMsg, verifier_first_msg: VerifierFirstMsg, verifier_second_msg: VerifierSecondMsg) -> (r: Result<(), TopError>)
    requires
        domain.n() == domain_size, domain.w() != 0real, domain_size > 0, omegas@.len() == domain_size, is_powers(omegas@, domain.w()),
        vos@.len() > 0, z_polys@.len() < usize::MAX / 4, vk.index_info.lookups@.len() < usize::MAX / 8,
        vk.index_info.permutation_argument.usable_rows < domain_size,
        lookup_polys@.len() == vk.index_info.lookups@.len(), lookup_z_polys@.len() == vk.index_info.lookups@.len(),
        quotient_chunk_oracles@.len() == num_of_quotient_chunks,
        names_ok(*witness_oracles_mapping, witness_oracles@.len()), names_ok(*instance_oracles_mapping, instance_oracles@.len()), names_ok(*fixed_oracles_mapping, preprocessed.fixed_oracles@.len()),
        oracles_to_copy@.len() > 0 ==> perm_ready(vk.index_info.permutation_argument, oracles_to_copy@.len(), preprocessed.permutation_oracles@.len())
            && z_polys@.len() == chunk_count(oracles_to_copy@.len(), vk.index_info.permutation_argument.max_cols as nat),
    ensures
        ({
            let cols = VCols { wm: *witness_oracles_mapping, im: *instance_oracles_mapping, fm: *fixed_oracles_mapping, ws: witness_oracles@, is: instance_oracles@, fs: preprocessed.fixed_oracles@ };
            let x = verifier_second_msg.xi@;
            let n = domain.n();
            let u = vk.index_info.permutation_argument.usable_rows as int;
            let (alpha, beta, gamma) = (verifier_first_msg.alpha@, verifier_permutation_msg.beta@, verifier_permutation_msg.gamma@);
            let t = chunks_at(quotient_chunk_oracles@, x, rpow(x, n), quotient_chunk_oracles@.len()) * vanishing_polynomial.at(x);
            &&& r is Ok ==> exists|l0: DensePolynomial, lu: DensePolynomial| #[trigger] units(l0, lu, domain, u)
                    && numer_at_point(vos@, *vk, cols, *preprocessed, oracles_to_copy@, lookup_polys@, lookup_z_polys@, z_polys@, domain, l0.at(x), lu.at(x), alpha, beta, gamma, x) == t
            &&& r is Err && r->Err_0 is QuotientNotZero ==> exists|l0: DensePolynomial, lu: DensePolynomial| #[trigger] units(l0, lu, domain, u)
                    && numer_at_point(vos@, *vk, cols, *preprocessed, oracles_to_copy@, lookup_polys@, lookup_z_polys@, z_polys@, domain, l0.at(x), lu.at(x), alpha, beta, gamma, x) != t
            // nothing was taken that is not there
            &&& r is Ok ==> vos_answered(vos@, point_answers(cols, x, domain.w(), n), vos@.len())
            &&& r is Ok ==> forall|c: int| 0 <= c < quotient_chunk_oracles@.len() ==> wk(#[trigger] quotient_chunk_oracles@[c], x)
        }),
@outlinestart tp_identity
    broadcast use interp_ok, pw_by_steps, pows_by_steps, super::te::question_iop, super::te::question_vo;
    let ghost x = verifier_second_msg.xi@;
    let ghost (al, be, ga) = (verifier_first_msg.alpha@, verifier_permutation_msg.beta@, verifier_permutation_msg.gamma@);
    let ghost d = domain;
    let ghost n = d.n();
    let ghost w = d.w();
    let ghost k = vos@.len();
    let ghost np = (2 * z_polys@.len() + 1) as nat;
    let ghost nl = lookup_polys@.len();
    let ghost cols = VCols { wm: *witness_oracles_mapping, im: *instance_oracles_mapping, fm: *fixed_oracles_mapping, ws: witness_oracles@, is: instance_oracles@, fs: preprocessed.fixed_oracles@ };
    let ghost env = point_env(cols, x, w, n);
    let ghost res = point_answers(cols, x, w, n);
    assert(reading(env, res));
    proof { assert(from_power(al, 0)); assert(from_power(al, k)); assert(from_power(al, k + np)); powers_unique(omegas@, w); }
@outlinetail tp_identity
    Ok(())
@outlinecall tp_identity
    Self::tp_identity(vk, preprocessed, witness_oracles, instance_oracles, vos, domain_size, vanishing_polynomial, domain, &omegas, &witness_oracles_mapping, &instance_oracles_mapping, &fixed_oracles_mapping,
        &oracles_to_copy, &lookup_polys, &lookup_z_polys, &z_polys, &quotient_chunk_oracles, num_of_quotient_chunks, verifier_permutation_msg, verifier_first_msg, verifier_second_msg)?;
@outline tp_witness_evals let:query_set loop:9
pub fn tp_witness_evals(witness_oracles: &mut [WitnessVerifierOracle], witness_oracles_mapping: &BTreeMap<String, usize>, proof: &TPProof, verifier_second_msg: VerifierSecondMsg, omegas: &Vec<F>) -> (r: Result<(), TopError>)
    requires omegas@.len() > 0, exists|w: real| is_powers(omegas@, w), names_ok(*witness_oracles_mapping, old(witness_oracles)@.len()),
    ensures
        r is Ok ==> exists|q: QuerySet| #[trigger] asks(q, old(witness_oracles)@, verifier_second_msg.xi@, omegas@) && proof.witness_evals@.len() == q.seq().len()
            && claimed_w(old(witness_oracles)@, final(witness_oracles)@, witness_oracles_mapping.map(), q.seq(), proof.witness_evals@, q.seq().len() as int),
        r is Err ==> r->Err_0 is MalformedProof || from_piop(r->Err_0),
@outlinetail tp_witness_evals
    assert(asks(query_set, w0, verifier_second_msg.xi@, omegas@));
    Ok(())
@outlinecall tp_witness_evals
    Self::tp_witness_evals(witness_oracles, &witness_oracles_mapping, &proof, verifier_second_msg, &omegas)?;
    let ghost wq = choose|q: QuerySet| #[trigger] asks(q, wc, verifier_second_msg.xi@, om) && proof.witness_evals@.len() == q.seq().len()
            && claimed_w(wc, witness_oracles@, witness_oracles_mapping.map(), q.seq(), proof.witness_evals@, q.seq().len() as int);
@loop 9
    invariant claimed_w(w0, witness_oracles@, witness_oracles_mapping.map(), query_set.seq(), proof.witness_evals@, __i9 as int), __n9 == query_set.seq().len(),
        names_ok(*witness_oracles_mapping, w0.len()), proof.witness_evals@.len() == query_set.seq().len(),
@afterlet lookup_z_evals_chunks
    proof { chunk_count_is(2 * num_of_lookups as nat, 2, num_of_lookups as nat); }
@beforeloop 9
    let ghost w0 = witness_oracles@;
@outline tp_fixed_evals let:fixed_query_set loop:10
pub fn tp_fixed_evals(preprocessed: &mut VerifierPreprocessedInput, fixed_oracles_mapping: &BTreeMap<String, usize>, proof: &TPProof, verifier_second_msg: VerifierSecondMsg, omegas: &Vec<F>) -> (r: Result<(), TopError>)
    requires omegas@.len() > 0, exists|w: real| is_powers(omegas@, w), names_ok(*fixed_oracles_mapping, old(preprocessed).fixed_oracles@.len()),
    ensures
        r is Ok ==> exists|q: QuerySet| #[trigger] asks(q, old(preprocessed).fixed_oracles@, verifier_second_msg.xi@, omegas@) && proof.fixed_oracle_evals@.len() == q.seq().len()
            && claimed_f(old(preprocessed).fixed_oracles@, final(preprocessed).fixed_oracles@, fixed_oracles_mapping.map(), q.seq(), proof.fixed_oracle_evals@, q.seq().len() as int),
        r is Ok ==> only_fixed(*old(preprocessed), *final(preprocessed)),
        r is Err ==> r->Err_0 is MalformedProof || from_piop(r->Err_0),
@outlinetail tp_fixed_evals
    assert(asks(fixed_query_set, w0, verifier_second_msg.xi@, omegas@));
    Ok(())
@outlinecall tp_fixed_evals
    Self::tp_fixed_evals(preprocessed, &fixed_oracles_mapping, &proof, verifier_second_msg, &omegas)?;
    let ghost fq = choose|q: QuerySet| #[trigger] asks(q, pn.fixed_oracles@, verifier_second_msg.xi@, om) && proof.fixed_oracle_evals@.len() == q.seq().len()
            && claimed_f(pn.fixed_oracles@, preprocessed.fixed_oracles@, fixed_oracles_mapping.map(), q.seq(), proof.fixed_oracle_evals@, q.seq().len() as int);
@loop 10
    invariant claimed_f(w0, preprocessed.fixed_oracles@, fixed_oracles_mapping.map(), fixed_query_set.seq(), proof.fixed_oracle_evals@, __i10 as int), __n10 == fixed_query_set.seq().len(),
        names_ok(*fixed_oracles_mapping, w0.len()), proof.fixed_oracle_evals@.len() == fixed_query_set.seq().len(), only_fixed(p0, *preprocessed),
@beforeloop 10
    let ghost w0 = preprocessed.fixed_oracles@;
    let ghost p0 = *preprocessed;
@outline tp_table_evals let:table_query_set loop:11
pub fn tp_table_evals(preprocessed: &mut VerifierPreprocessedInput, table_oracles_mapping: &BTreeMap<String, usize>, proof: &TPProof, verifier_second_msg: VerifierSecondMsg, omegas: &Vec<F>) -> (r: Result<(), TopError>)
    requires omegas@.len() > 0, exists|w: real| is_powers(omegas@, w), names_ok(*table_oracles_mapping, old(preprocessed).table_oracles@.len()),
    ensures
        r is Ok ==> exists|q: QuerySet| #[trigger] asks(q, old(preprocessed).table_oracles@, verifier_second_msg.xi@, omegas@) && proof.table_oracle_evals@.len() == q.seq().len()
            && claimed_f(old(preprocessed).table_oracles@, final(preprocessed).table_oracles@, table_oracles_mapping.map(), q.seq(), proof.table_oracle_evals@, q.seq().len() as int),
        r is Ok ==> only_table(*old(preprocessed), *final(preprocessed)),
        r is Err ==> r->Err_0 is MalformedProof || from_piop(r->Err_0),
@outlinetail tp_table_evals
    assert(asks(table_query_set, w0, verifier_second_msg.xi@, omegas@));
    Ok(())
@outlinecall tp_table_evals
    Self::tp_table_evals(preprocessed, &table_oracles_mapping, &proof, verifier_second_msg, &omegas)?;
    let ghost tq = choose|q: QuerySet| #[trigger] asks(q, pn.table_oracles@, verifier_second_msg.xi@, om) && proof.table_oracle_evals@.len() == q.seq().len()
            && claimed_f(pn.table_oracles@, preprocessed.table_oracles@, table_oracles_mapping.map(), q.seq(), proof.table_oracle_evals@, q.seq().len() as int);
@loop 11
    invariant claimed_f(w0, preprocessed.table_oracles@, table_oracles_mapping.map(), table_query_set.seq(), proof.table_oracle_evals@, __i11 as int), __n11 == table_query_set.seq().len(),
        names_ok(*table_oracles_mapping, w0.len()), proof.table_oracle_evals@.len() == table_query_set.seq().len(), only_table(p0, *preprocessed),
@beforeloop 11
    let ghost w0 = preprocessed.table_oracles@;
    let ghost p0 = *preprocessed;
@outline tp_sigma_evals >loop:11 loop:12
pub fn tp_sigma_evals(preprocessed: &mut VerifierPreprocessedInput, proof: &TPProof, verifier_second_msg: VerifierSecondMsg) -> (r: Result<(), TopError>)
    ensures
        r is Ok ==> proof.permutation_oracle_evals@.len() == old(preprocessed).permutation_oracles@.len() && only_sigma(*old(preprocessed), *final(preprocessed))
            && sigma_claimed(old(preprocessed).permutation_oracles@, final(preprocessed).permutation_oracles@, proof.permutation_oracle_evals@, verifier_second_msg.xi@, proof.permutation_oracle_evals@.len() as int),
        r is Err ==> r->Err_0 is MalformedProof,
@outlinetail tp_sigma_evals
    Ok(())
@outlinecall tp_sigma_evals
    Self::tp_sigma_evals(preprocessed, &proof, verifier_second_msg)?;
@loop 12
    invariant sigma_claimed(w0, preprocessed.permutation_oracles@, proof.permutation_oracle_evals@, verifier_second_msg.xi@, __i12 as int), __n12 == w0.len(),
        proof.permutation_oracle_evals@.len() == w0.len(), only_sigma(p0, *preprocessed),
@beforeloop 12
    let ghost w0 = preprocessed.permutation_oracles@;
    let ghost p0 = *preprocessed;
@outline tp_chunks let:quotient_chunk_oracles let:quotient_chunk_oracles
pub fn tp_chunks(proof: &TPProof, num_of_quotient_chunks: usize, verifier_second_msg: VerifierSecondMsg) -> (r: Vec<WitnessVerifierOracle>)
    requires num_of_quotient_chunks == proof.quotient_chunk_commitments@.len(), num_of_quotient_chunks == proof.quotient_chunks_evals@.len(),
    ensures r@.len() == num_of_quotient_chunks,
        forall|i: int| 0 <= i < r@.len() ==> chunk_column(#[trigger] r@[i], proof.quotient_chunk_commitments@[i], proof.quotient_chunks_evals@[i], verifier_second_msg.xi@),
@outlinetail tp_chunks
    quotient_chunk_oracles
@outlinecall tp_chunks
    let quotient_chunk_oracles = Self::tp_chunks(&proof, num_of_quotient_chunks, verifier_second_msg);
@loop 8
    invariant __v8@.len() == __i8, __n8 == num_of_quotient_chunks,
        num_of_quotient_chunks == proof.quotient_chunk_commitments@.len(), num_of_quotient_chunks == proof.quotient_chunks_evals@.len(),
        forall|i: int| 0 <= i < __i8 ==> chunk_column(#[trigger] __v8@[i], proof.quotient_chunk_commitments@[i], proof.quotient_chunks_evals@[i], verifier_second_msg.xi@),
@outline tp_lookup_zs <<let:lookup_z_evals_chunks let:lookup_z_polys
pub fn tp_lookup_zs(proof: &TPProof, num_of_lookups: usize, evaluation_challenge: F, omega: F) -> (r: Result<Vec<WitnessVerifierOracle>, TopError>)
    requires num_of_lookups < usize::MAX / 8,
    ensures r is Err ==> r->Err_0 is MalformedProof,
        r is Ok ==> r->Ok_0@.len() == num_of_lookups && proof.lookup_z_commitments@.len() == num_of_lookups && proof.lookup_z_evals@.len() == 2 * num_of_lookups,
        r is Ok ==> forall|l: int| 0 <= l < num_of_lookups ==> look_z_column(#[trigger] r->Ok_0@[l], proof.lookup_z_commitments@[l], proof.lookup_z_evals@[2 * l], proof.lookup_z_evals@[2 * l + 1], evaluation_challenge@, evaluation_challenge@ * omega@),
@outlinetail tp_lookup_zs
    Ok(lookup_z_polys)
@outlinecall tp_lookup_zs
    let lookup_z_polys = Self::tp_lookup_zs(&proof, num_of_lookups, evaluation_challenge, omega)?;
@loop 16
    invariant __v16@.len() == __i16, __n16 == num_of_lookups, 
        proof.lookup_z_commitments@.len() == num_of_lookups, proof.lookup_z_evals@.len() == 2 * num_of_lookups,
        forall|l: int| 0 <= l < __i16 ==> look_z_column(#[trigger] __v16@[l], proof.lookup_z_commitments@[l], proof.lookup_z_evals@[2 * l], proof.lookup_z_evals@[2 * l + 1], evaluation_challenge@, evaluation_challenge@ * omega@),
@outline tp_zs <let:z_polys let:z_polys
pub fn tp_zs(vk: &VerifierKey, proof: &TPProof, num_of_z_polys: usize) -> (r: Result<Vec<WitnessVerifierOracle>, TopError>)
    ensures r is Err ==> r->Err_0 is MalformedProof,
        r is Ok ==> r->Ok_0@.len() == num_of_z_polys && proof.z_commitments@.len() == num_of_z_polys,
        r is Ok ==> forall|i: int| 0 <= i < num_of_z_polys ==> perm_z_column(#[trigger] r->Ok_0@[i], proof.z_commitments@[i], vk.index_info.permutation_argument.usable_rows as int, i == num_of_z_polys - 1),
@outlinetail tp_zs
    Ok(z_polys)
@outlinecall tp_zs
    let mut z_polys = Self::tp_zs(vk, &proof, num_of_z_polys)?;
    let ghost z0 = z_polys@;
@loop 17
    invariant __v17@.len() == __i17, __n17 == num_of_z_polys, proof.z_commitments@.len() == num_of_z_polys,
        forall|i: int| 0 <= i < __i17 ==> perm_z_column(#[trigger] __v17@[i], proof.z_commitments@[i], vk.index_info.permutation_argument.usable_rows as int, i == num_of_z_polys - 1),
@outline tp_names let:witness_oracles_mapping let:table_oracles_mapping
pub fn tp_names(witness_oracles: &[WitnessVerifierOracle], instance_oracles: &[InstanceVerifierOracle], preprocessed: &VerifierPreprocessedInput) -> (r: (BTreeMap<String, usize>, BTreeMap<String, usize>, BTreeMap<String, usize>, BTreeMap<String, usize>))
    ensures mapped(r.0.map(), vwlabels(witness_oracles@)), mapped(r.1.map(), vilabels(instance_oracles@)),
        mapped(r.2.map(), vflabels(preprocessed.fixed_oracles@)), mapped(r.3.map(), vflabels(preprocessed.table_oracles@)),
@outlinetail tp_names
    (witness_oracles_mapping, instance_oracles_mapping, fixed_oracles_mapping, table_oracles_mapping)
@outlinecall tp_names
    let (witness_oracles_mapping, instance_oracles_mapping, fixed_oracles_mapping, table_oracles_mapping) = Self::tp_names(witness_oracles, instance_oracles, preprocessed);
@beforeloop 3
    let ghost ls3 = vwlabels(witness_oracles@);
    proof { mapped_none(__v3.map(), ls3); }
@loop 3
    invariant __n3 == witness_oracles@.len(), mapped_to(__v3.map(), ls3, __i3 as int),
@loopstart 3
    let ghost m3 = __v3.map();
@loopend 3
    proof { mapped_push(m3, __v3.map(), ls3, __i3 as int); }
@afterloop 3
    proof { mapped_all(__v3.map(), ls3); }
@beforeloop 4
    let ghost ls4 = vilabels(instance_oracles@);
    proof { mapped_none(__v4.map(), ls4); }
@loop 4
    invariant __n4 == instance_oracles@.len(), mapped_to(__v4.map(), ls4, __i4 as int),
@loopstart 4
    let ghost m4 = __v4.map();
@loopend 4
    proof { mapped_push(m4, __v4.map(), ls4, __i4 as int); }
@afterloop 4
    proof { mapped_all(__v4.map(), ls4); }
@beforeloop 5
    let ghost ls5 = vflabels(preprocessed.fixed_oracles@);
    proof { mapped_none(__v5.map(), ls5); }
@loop 5
    invariant __n5 == preprocessed.fixed_oracles@.len(), mapped_to(__v5.map(), ls5, __i5 as int),
@loopstart 5
    let ghost m5 = __v5.map();
@loopend 5
    proof { mapped_push(m5, __v5.map(), ls5, __i5 as int); }
@afterloop 5
    proof { mapped_all(__v5.map(), ls5); }
@beforeloop 6
    let ghost ls6 = vflabels(preprocessed.table_oracles@);
    proof { mapped_none(__v6.map(), ls6); }
@loop 6
    invariant __n6 == preprocessed.table_oracles@.len(), mapped_to(__v6.map(), ls6, __i6 as int),
@loopstart 6
    let ghost m6 = __v6.map();
@loopend 6
    proof { mapped_push(m6, __v6.map(), ls6, __i6 as int); }
@afterloop 6
    proof { mapped_all(__v6.map(), ls6); }
@outline tp_z_evals let:z_query_set loop:19
pub fn tp_z_evals(z_polys: Vec<WitnessVerifierOracle>, proof: &TPProof, verifier_second_msg: VerifierSecondMsg, omegas: &Vec<F>) -> (r: Result<Vec<WitnessVerifierOracle>, TopError>)
    requires omegas@.len() > 0, exists|w: real| is_powers(omegas@, w),
    ensures
        r is Ok ==> exists|q: QuerySet, cm: BTreeMap<String, usize>| #[trigger] asks(q, z_polys@, verifier_second_msg.xi@, omegas@) && proof.z_evals@.len() == q.seq().len()
            && #[trigger] mapped(cm.map(), vwlabels(z_polys@)) && claimed_w(z_polys@, r->Ok_0@, cm.map(), q.seq(), proof.z_evals@, q.seq().len() as int),
        r is Err ==> r->Err_0 is MalformedProof || from_piop(r->Err_0),
@outlinestart tp_z_evals
    let ghost z0 = z_polys@;
    let mut z_polys = z_polys;
@outlinetail tp_z_evals
    assert(asks(z_query_set, z0, verifier_second_msg.xi@, omegas@));
    Ok(z_polys)
@outlinecall tp_z_evals
    let z_polys = Self::tp_z_evals(z_polys, &proof, verifier_second_msg, &omegas)?;
@beforeloop 18
    let ghost ls18 = vwlabels(z_polys@);
    proof { mapped_none(__v18.map(), ls18); }
@loop 18
    invariant __n18 == z_polys@.len(), mapped_to(__v18.map(), ls18, __i18 as int),
@loopstart 18
    let ghost m18 = __v18.map();
@loopend 18
    proof { mapped_push(m18, __v18.map(), ls18, __i18 as int); }
@afterloop 18
    proof { mapped_all(__v18.map(), ls18); }
@loop 19
    invariant claimed_w(z0, z_polys@, z_mapping.map(), z_query_set.seq(), proof.z_evals@, __i19 as int), __n19 == z_query_set.seq().len(),
        mapped(z_mapping.map(), vwlabels(z0)), proof.z_evals@.len() == z_query_set.seq().len(),
@outline tp_copied let:oracles_to_copy let:oracles_to_copy
pub fn tp_copied(witness_oracles: &[WitnessVerifierOracle]) -> (r: Vec<&WitnessVerifierOracle>)
    ensures vderefs(r@) == copied(witness_oracles@, witness_oracles@.len()),
@outlinetail tp_copied
    oracles_to_copy
@outlinecall tp_copied
    let oracles_to_copy: Vec<&WitnessVerifierOracle> = Self::tp_copied(witness_oracles);
@beforeloop 13
    proof { assert(vderefs(__v13@) =~= copied(witness_oracles@, 0)); }
@loop 13
    invariant __n13 == witness_oracles@.len(), vderefs(__v13@) =~= copied(witness_oracles@, __i13 as nat),
@outline tp_lookups let:num_of_lookups let:lookup_polys
pub fn tp_lookups(vk: &VerifierKey, preprocessed: &VerifierPreprocessedInput, proof: &TPProof, witness_oracles: &[WitnessVerifierOracle], instance_oracles: &[InstanceVerifierOracle],
    witness_oracles_mapping: &BTreeMap<String, usize>, instance_oracles_mapping: &BTreeMap<String, usize>, fixed_oracles_mapping: &BTreeMap<String, usize>, table_oracles_mapping: &BTreeMap<String, usize>,
    verifier_lookup_aggregation_msg: VerifierLookupAggregationRound, verifier_second_msg: VerifierSecondMsg, evaluation_challenge: F, omega_inv: F, omegas: &Vec<F>) -> (r: Result<(usize, Vec<LookupVerifierOracles>), TopError>)
    requires
        omegas@.len() > 0, exists|w: real| is_powers(omegas@, w), vk.index_info.lookups@.len() < usize::MAX / 8, looks_paired(vk.index_info.lookups@),
        evaluation_challenge == verifier_second_msg.xi,
        names_ok(*witness_oracles_mapping, witness_oracles@.len()), names_ok(*instance_oracles_mapping, instance_oracles@.len()),
        names_ok(*fixed_oracles_mapping, preprocessed.fixed_oracles@.len()), names_ok(*table_oracles_mapping, preprocessed.table_oracles@.len()),
    ensures
        r is Ok ==> ({
            let (n, v) = r->Ok_0;
            &&& n == vk.index_info.lookups@.len() && v@.len() == n
            &&& proof.lookup_commitments@.len() == 2 * n && proof.lookup_evals@.len() == 3 * n
            &&& forall|l: int| 0 <= l < n ==> look_brought(#[trigger] v@[l], proof.lookup_commitments@, proof.lookup_evals@, l, evaluation_challenge@, evaluation_challenge@ * omega_inv@)
        }),
        r is Ok ==> ({
            let v = r->Ok_0.1;
            let cols = VCols { wm: *witness_oracles_mapping, im: *instance_oracles_mapping, fm: *fixed_oracles_mapping, ws: witness_oracles@, is: instance_oracles@, fs: preprocessed.fixed_oracles@ };
            forall|w: real, l: int| #[trigger] is_powers(omegas@, w) && 0 <= l < v@.len() ==>
                look_made(#[trigger] v@[l], vk.index_info.lookups@[l], cols, *table_oracles_mapping, preprocessed.table_oracles@, verifier_lookup_aggregation_msg.theta@, evaluation_challenge@, w, omegas@.len())
        }),
        r is Err ==> !(r->Err_0 is QuotientNotZero),
@outlinestart tp_lookups
    broadcast use super::te::question_iop, super::te::question_vo;
    let ghost cols = VCols { wm: *witness_oracles_mapping, im: *instance_oracles_mapping, fm: *fixed_oracles_mapping, ws: witness_oracles@, is: instance_oracles@, fs: preprocessed.fixed_oracles@ };
@outlinetail tp_lookups
    Ok((num_of_lookups, lookup_polys))
@outlinecall tp_lookups
    let (num_of_lookups, lookup_polys) = Self::tp_lookups(vk, preprocessed, &proof, witness_oracles, instance_oracles, &witness_oracles_mapping, &instance_oracles_mapping, &fixed_oracles_mapping, &table_oracles_mapping,
        verifier_lookup_aggregation_msg, verifier_second_msg, evaluation_challenge, omega_inv, &omegas)?;
@afterlet lookup_permuted_oracles_evals
    proof { chunk_count_is(2 * num_of_lookups as nat, 2, num_of_lookups as nat); chunk_count_is(3 * num_of_lookups as nat, 3, num_of_lookups as nat); }
@loop 14
    invariant __v14@.len() == __i14, __n14 == num_of_lookups,
        forall|l: int| 0 <= l < __i14 ==> look_brought(#[trigger] __v14@[l], proof.lookup_commitments@, proof.lookup_evals@, l, evaluation_challenge@, evaluation_challenge@ * omega_inv@),
        forall|w: real, l: int| #[trigger] is_powers(omegas@, w) && 0 <= l < __i14 ==>
                look_made(#[trigger] __v14@[l], vk.index_info.lookups@[l], cols, *table_oracles_mapping, preprocessed.table_oracles@, verifier_lookup_aggregation_msg.theta@, evaluation_challenge@, w, omegas@.len()),
@outline tp_register loop:0 loop:1
pub fn tp_register(preprocessed: &mut VerifierPreprocessedInput, witness_oracles: &mut [WitnessVerifierOracle])
    ensures noted_p(*old(preprocessed), *final(preprocessed)), noted_w(old(witness_oracles)@, final(witness_oracles)@, old(witness_oracles)@.len() as int),
@outlinestart tp_register
    let ghost (p0, w0) = (*preprocessed, witness_oracles@);
@outlinecall tp_register
    Self::tp_register(preprocessed, witness_oracles);
    let ghost (pn, wn) = (*preprocessed, witness_oracles@);
@loop 0
    invariant __n0 == p0.permutation_oracles@.len(), noted_f(p0.permutation_oracles@, preprocessed.permutation_oracles@, __i0 as int),
        preprocessed.fixed_oracles == p0.fixed_oracles, preprocessed.table_oracles == p0.table_oracles, preprocessed.q_blind == p0.q_blind,
@loop 1
    invariant __n1 == w0.len(), noted_w(w0, witness_oracles@, __i1 as int),
@outline tp_instances loop:2 loop:2
pub fn tp_instances(instance_oracles: &[InstanceVerifierOracle], fs_rng: &mut FS)
    requires old(fs_rng).log() == tp_start(instance_oracles@, 0)
    ensures final(fs_rng).log() == tp_start(instance_oracles@, instance_oracles@.len())
@outlinecall tp_instances
    Self::tp_instances(instance_oracles, &mut fs_rng);
@loop 2
    invariant __n2 == instance_oracles@.len(), fs_rng.log() == tp_start(instance_oracles@, __i2 as nat),
@outline tp_commit loop:7 loop:7
pub fn tp_commit(witness_oracles: &mut [WitnessVerifierOracle], proof: &TPProof)
    requires proof.witness_commitments@.len() == old(witness_oracles)@.len()
    ensures committed(old(witness_oracles)@, final(witness_oracles)@, proof.witness_commitments@, old(witness_oracles)@.len() as int),
@outlinestart tp_commit
    let ghost w0 = witness_oracles@;
@outlinecall tp_commit
    Self::tp_commit(witness_oracles, &proof);
@loop 7
    invariant __n7 == w0.len(), proof.witness_commitments@.len() == w0.len(), committed(w0, witness_oracles@, proof.witness_commitments@, __i7 as int),
@outline tp_look_cols let:lookup_polys_to_check_in_opening let:lookup_polys_to_check_in_opening
pub fn tp_look_cols(lookup_polys: &Vec<LookupVerifierOracles>) -> (r: Vec<&WitnessVerifierOracle>)
    ensures derefs(r@) == look_cols(lookup_polys@, lookup_polys@.len()),
@outlinetail tp_look_cols
    lookup_polys_to_check_in_opening
@outlinecall tp_look_cols
    let lookup_polys_to_check_in_opening = Self::tp_look_cols(&lookup_polys);
@beforeloop 15
    proof { assert(derefs(__v15@) =~= look_cols(lookup_polys@, 0)); }
@loop 15
    invariant __n15 == lookup_polys@.len(), derefs(__v15@) == look_cols(lookup_polys@, __i15 as nat),
@loopstart 15
    let ghost v15 = __v15@;
@loopend 15
    assert(derefs(__v15@) =~= derefs(v15).push(lookup_polys@[__i15 as int].2).push(lookup_polys@[__i15 as int].3));
@outline tp_columns let:oracles let:preprocessed_oracles
pub fn tp_columns<'a>(witness_oracles: &'a [WitnessVerifierOracle], preprocessed: &'a VerifierPreprocessedInput, lookup_polys_to_check_in_opening: Vec<&'a WitnessVerifierOracle>, lookup_z_polys: &'a Vec<WitnessVerifierOracle>,
    quotient_chunk_oracles: &'a Vec<WitnessVerifierOracle>, z_polys: &'a Vec<WitnessVerifierOracle>) -> (r: (Vec<&'a dyn CommittedOracle>, Vec<&'a dyn CommittedOracle>))
    ensures shows_all_w(r.0@, witness_oracles@ + derefs(lookup_polys_to_check_in_opening@) + lookup_z_polys@ + quotient_chunk_oracles@ + z_polys@), shows_all_f(r.1@, known_cols(*preprocessed)),
@outlinestart tp_columns
    let ghost lc = lookup_polys_to_check_in_opening@;
@outlinetail tp_columns
    (oracles, preprocessed_oracles)
@outlinecall tp_columns
    let (mut oracles, preprocessed_oracles) = Self::tp_columns(witness_oracles, preprocessed, lookup_polys_to_check_in_opening, &lookup_z_polys, &quotient_chunk_oracles, &z_polys);
    let ghost (os1, os2) = (oracles@, preprocessed_oracles@);
@beforeloop 23
    let ghost s23 = witness_oracles@ + derefs(lc) + lookup_z_polys@ + quotient_chunk_oracles@ + z_polys@;
    assert(derefs(__s23_0@) =~= s23);
@loop 23
    invariant __n23 == s23.len(), __v23@.len() == __i23, forall|j: int| 0 <= j < __i23 ==> shows_w(#[trigger] __v23@[j], s23[j]),
@loopstart 23
    assert(derefs(__s23_0@)[__i23 as int] == *__s23_0@[__i23 as int]);
@beforeloop 24
    let ghost s24 = known_cols(*preprocessed);
    assert(derefs(__s24_0@) =~= s24);
@loop 24
    invariant __n24 == s24.len(), __v24@.len() == __i24, forall|j: int| 0 <= j < __i24 ==> shows_f(#[trigger] __v24@[j], s24[j]),
@loopstart 24
    assert(derefs(__s24_0@)[__i24 as int] == *__s24_0@[__i24 as int]);
@spec
    requires
        0 < domain_size <= max_domain(), domain_of(domain_size as nat).n() == domain_size,
        vos@.len() > 0, old(witness_oracles)@.len() < usize::MAX / 4, vk.index_info.lookups@.len() < usize::MAX / 8, looks_paired(vk.index_info.lookups@),
        vk.index_info.permutation_argument.usable_rows < domain_size, 0 < vk.index_info.permutation_argument.max_cols < usize::MAX / 2,
        copied(old(witness_oracles)@, old(witness_oracles)@.len()).len() > 0 ==> perm_ready(vk.index_info.permutation_argument, copied(old(witness_oracles)@, old(witness_oracles)@.len()).len(), old(preprocessed).permutation_oracles@.len()),
        drawn_away(tp_x(old(instance_oracles)@, proof), ch3(tp_log5(old(instance_oracles)@, proof), proof.multiopen_proof), domain_of(domain_size as nat).w()),
    ensures
        r is Ok ==> exists|run: Run| #[trigger] tp_accepts(run, *vk, proof, *old(preprocessed), *final(preprocessed), old(witness_oracles)@, final(witness_oracles)@, old(instance_oracles)@, vos@, domain_of(domain_size as nat), *vanishing_polynomial),
        final(instance_oracles)@ == old(instance_oracles)@,
@start
    let ghost (p0, ws0, is0) = (*preprocessed, witness_oracles@, instance_oracles@);
    let ghost d = domain_of(domain_size as nat);
@afterlet omegas
    let ghost wc = witness_oracles@;
    let ghost w = d.w();
    let ghost om = omegas@;
    proof { rpow_1(w); powers_unique(om, w); }
@beforecall number_of_z_polys 0
    proof {
        same_flags(ws0, wn, wc, witness_oracles@, proof.witness_commitments@, witness_oracles_mapping.map(), wq.seq(), proof.witness_evals@, wq.seq().len() as int);
        assert(vderefs(oracles_to_copy@).len() == oracles_to_copy@.len());
        assert(oracles_to_copy@.len() <= ws0.len());
    }
@afterlet num_of_z_polys
    proof {
        let (n, k) = (oracles_to_copy@.len(), vk.index_info.permutation_argument.max_cols as nat);
        chunk_count_bounds(n, k);
        let c = chunk_count(n, k) as int;
        if c > 0 { assert(c - 1 <= (c - 1) * k) by(nonlinear_arith) requires c > 0, k > 0; }
        assert(vderefs(oracles_to_copy@).len() == n);
        assert(c <= n && n <= ws0.len());
    }
@beforetail
    let ghost run = Run { wn, wc, pn, wm: witness_oracles_mapping, im: instance_oracles_mapping, fm: fixed_oracles_mapping, tm: table_oracles_mapping, om, qc: quotient_chunk_oracles@, ls: lookup_polys@, lz: lookup_z_polys@, z0, zs: z_polys@ };
    let ghost x = tp_x(is0, proof);
    proof { away_all(oracles@, x, d, ch3(tp_log5(is0, proof), proof.multiopen_proof)); }
    assert(is_powers(run.om, d.w()) && run.om.len() == d.n());
    proof {
        same_names(ws0, wn, wc, witness_oracles@, proof.witness_commitments@, witness_oracles_mapping.map(), wq.seq(), proof.witness_evals@, wq.seq().len() as int);
        same_fixed_names(pn.fixed_oracles@, preprocessed.fixed_oracles@, fixed_oracles_mapping.map(), fq.seq(), proof.fixed_oracle_evals@, fq.seq().len() as int);
        same_fixed_names(pn.table_oracles@, preprocessed.table_oracles@, table_oracles_mapping.map(), tq.seq(), proof.table_oracle_evals@, tq.seq().len() as int);
    }
    assert(run_names(run, *preprocessed, witness_oracles@, is0));
    assert(run_witness(run, proof, ws0, witness_oracles@, x));
    assert(run_preprocessed(run, proof, p0, *preprocessed, x));
    assert(run_chunks(run, *vk, proof, d.n(), x));
    proof { inverse_unique(omega_inv@, w); assert(evaluation_challenge@ * omega_inv@ == x * inv_of(w)); }
    assert(run_lookups(run, *vk, proof, *preprocessed, witness_oracles@, is0, d, tp_theta(is0, proof), x));
    assert(run_copies(run, *vk, proof, witness_oracles@, x));
    let ghost cols = VCols { wm: run.wm, im: run.im, fm: run.fm, ws: witness_oracles@, is: is0, fs: preprocessed.fixed_oracles@ };
    let ghost tt = chunks_at(run.qc, x, rpow(x, d.n()), run.qc.len()) * vanishing_polynomial.at(x);
    let ghost (l0, lu) = choose|l0: DensePolynomial, lu: DensePolynomial| #[trigger] units(l0, lu, d, vk.index_info.permutation_argument.usable_rows as int)
        && numer_at_point(vos@, *vk, cols, *preprocessed, oracles_to_copy@, lookup_polys@, lookup_z_polys@, z_polys@, d, l0.at(x), lu.at(x), tp_alpha(is0, proof), tp_beta(is0, proof), tp_gamma(is0, proof), x) == tt;
    assert(numer_is(l0, lu, vos@, *vk, cols, *preprocessed, oracles_to_copy@, run.ls, run.lz, run.zs, d, tp_alpha(is0, proof), tp_beta(is0, proof), tp_gamma(is0, proof), x, tt));
    assert(run_identity(run, *vk, proof, *preprocessed, witness_oracles@, is0, vos@, d, *vanishing_polynomial, tp_alpha(is0, proof), tp_beta(is0, proof), tp_gamma(is0, proof), x));
    assert(oracles@ =~= os1 + os2);
    assert(shows_all_w(os1, brought_cols(witness_oracles@, run.ls, run.lz, run.qc, run.zs)));
    assert(all_seen(oracles@, os1, os2, brought_cols(witness_oracles@, run.ls, run.lz, run.qc, run.zs), known_cols(*preprocessed)));
    assert(fs_rng.log() == tp_log5(is0, proof));
    assert(run_opened(run, *vk, proof, *preprocessed, witness_oracles@, d, x, tp_log5(is0, proof)) ==> tp_accepts(run, *vk, proof, p0, *preprocessed, ws0, witness_oracles@, is0, vos@, d, *vanishing_polynomial));
@closureargs 0
    alpha_i: &F
@closure 0
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == alpha_i@ * al
@closureargs 1
    alpha_i: &F
@closure 1
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == alpha_i@ * al
@closureargs 2
    alpha_i: &F
@closure 2
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == alpha_i@ * al
@closureargs 3
    x: F
@closure 3
    -> (q: Result<F, PiopError>) ensures q is Ok, okv(q) == x@
@closureargs 4
    query: &OracleQuery
@closure 4
    -> (q: Result<F, PiopError>) ensures q is Ok <==> res(*query), q is Ok ==> okv(q) == env(*query)
@closureargs 5
    x: Result<F, PiopError>
@closure 5
    -> (q: Result<F, PiopError>) ensures q is Ok <==> x is Ok, q is Ok ==> okv(q) == -okv(x)
@closureargs 6
    x_val: F
@closure 6
    -> (q: F) ensures q@ == -x_val@
@closureargs 7
    x: Result<F, PiopError>, y: Result<F, PiopError>
@closure 7
    -> (q: Result<F, PiopError>) ensures q is Ok <==> x is Ok && y is Ok, q is Ok ==> okv(q) == okv(x) + okv(y)
@closureargs 8
    x_val: F
@closure 8
    -> (q: Result<F, PiopError>) ensures q is Ok <==> y is Ok, q is Ok ==> okv(q) == x_val@ + okv(y)
@closureargs 9
    y_val: F
@closure 9
    -> (q: F) ensures q@ == x_val@ + y_val@
@closureargs 10
    x: Result<F, PiopError>, y: Result<F, PiopError>
@closure 10
    -> (q: Result<F, PiopError>) ensures q is Ok <==> x is Ok && y is Ok, q is Ok ==> okv(q) == okv(x) * okv(y)
@closureargs 11
    x_val: F
@closure 11
    -> (q: Result<F, PiopError>) ensures q is Ok <==> y is Ok, q is Ok ==> okv(q) == x_val@ * okv(y)
@closureargs 12
    y_val: F
@closure 12
    -> (q: F) ensures q@ == x_val@ * y_val@
@closureargs 13
    x: Result<F, PiopError>, y: F
@closure 13
    -> (q: Result<F, PiopError>) ensures q is Ok <==> x is Ok, q is Ok ==> okv(q) == okv(x) * y@
@closureargs 14
    x_val: F
@closure 14
    -> (q: F) ensures q@ == x_val@ * y@
@closureargs 15
    x_i: &F
@closure 15
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == x_i@ * xn
@afterlet powers_of_alpha
    assert(powers_of_alpha@ == pw(al, 0, k));
@afterlet permutation_begin_with
    proof { let y = rpow(al, (k - 1) as nat); assert(y * al == al * y) by(nonlinear_arith); assert(permutation_begin_with@ == rpow(al, k)); }
@afterlet permutation_alphas
    assert(permutation_alphas@ == pw(al, k, np));
@afterlet lookups_begin_with
    proof { let y = rpow(al, (k + np - 1) as nat); assert(y * al == al * y) by(nonlinear_arith); assert(lookups_begin_with@ == rpow(al, k + np)); }
@afterlet lookup_alphas
    assert(lookup_alphas@ == pw(al, k + np, 5 * nl));
@afterlet lookup_alpha_chunks
    proof { chunk_weights(al, k + np, nl); }
@afterlet lu_eval
    let ghost u = vk.index_info.permutation_argument.usable_rows as int;
    let ghost ps = looks_at_point(l0_eval@, lu_eval@, preprocessed.q_blind, lookup_polys@, lookup_z_polys@, be, ga, x, w);
    let ghost cp = copies_at(vk.index_info.permutation_argument, l0_eval@, lu_eval@, preprocessed.q_blind, oracles_to_copy@, preprocessed.permutation_oracles@, z_polys@, w, x, be, ga);
    assert(units(l0, lu, d, u) && l0.at(x) == l0_eval@ && lu.at(x) == lu_eval@);
@loop 20
    invariant __n20 == k, vos_answered(vos@, res, __i20 as nat),
        quotient_eval@ == gates_sum(vos@, env, al, __i20 as nat),
@beforeloop 21
    let ghost g = gates_sum(vos@, env, al, k) + (if cp is Some { perm_value(cp.unwrap(), pw(al, k, np)) } else { 0real });
    assert(quotient_eval@ == g);
@loop 21
    invariant __n21 == nl,
        quotient_eval@ == g + looks_sum(ps, al, k + np, __i21 as nat),
@loopstart 21
    let ghost q0 = quotient_eval@;
    proof { assert forall|wi: real| #[trigger] is_inv(wi, w) implies wi == inv_of(w) by { inverse_unique(wi, w); } }
@beforeloop 22
    let ghost qall = quotient_eval@;
@loop 22
    invariant __n22 == quotient_chunk_oracles@.len(), t_part@ == chunks_at(quotient_chunk_oracles@, x, xn, __i22 as nat),
        forall|c: int| 0 <= c < __i22 ==> wk(#[trigger] quotient_chunk_oracles@[c], x),
@afterlet x_n
    let ghost xn = rpow(x, n);
    assert(ratio(xn));
@end
}
}
}
