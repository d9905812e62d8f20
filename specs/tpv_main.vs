@map Self::PROTOCOL_NAME => ProtocolName
@map Error<PC::Error> => TopError
verus! {
impl CommittedOracle for WitnessVerifierOracle {
    open spec fn s_rots(&self) -> BTreeSet<Rotation> { self.queried_rotations }
    open spec fn s_claim(&self, p: real) -> Option<F> { claim_of(self.evals_at_challenges.map(), p) }
    open spec fn s_com(&self) -> Option<PC_Commitment> { self.commitment }
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) { WitnessVerifierOracle::get_queried_rotations(self) }
    fn query(&self, challenge: &F) -> (r: Result<F, PiopError>) { WitnessVerifierOracle::query(self, challenge) }
    fn get_commitment(&self) -> (r: Result<&PC_Commitment, PiopError>) { WitnessVerifierOracle::get_commitment(self) }
}
impl CommittedOracle for FixedVerifierOracle {
    open spec fn s_rots(&self) -> BTreeSet<Rotation> { self.queried_rotations }
    open spec fn s_claim(&self, p: real) -> Option<F> { claim_of(self.evals_at_challenges.map(), p) }
    open spec fn s_com(&self) -> Option<PC_Commitment> { self.commitment }
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) { FixedVerifierOracle::get_queried_rotations(self) }
    fn query(&self, challenge: &F) -> (r: Result<F, PiopError>) { FixedVerifierOracle::query(self, challenge) }
    fn get_commitment(&self) -> (r: Result<&PC_Commitment, PiopError>) { FixedVerifierOracle::get_commitment(self) }
}
pub open spec fn claim_of(m: IMap<KeyV, F>, p: real) -> Option<F> { if m.dom().contains(KeyV::R(p)) { Some(m[KeyV::R(p)]) } else { None } }
// ------------------------------------------- what happens to the columns
pub open spec fn now_rot(r: Rotation) -> bool { r.degree == 0 && r.sign is Plus }
pub open spec fn noted(a: BTreeSet<Rotation>, b: BTreeSet<Rotation>) -> bool { forall|r: Rotation| #[trigger] b.has(r) <==> a.has(r) || now_rot(r) }
pub open spec fn noted_one(a: WitnessVerifierOracle, b: WitnessVerifierOracle, now: bool) -> bool {
    &&& b.label == a.label && b.evals_at_challenges == a.evals_at_challenges && b.commitment == a.commitment && b.should_permute == a.should_permute
    &&& if now { noted(a.queried_rotations, b.queried_rotations) } else { b.queried_rotations == a.queried_rotations }
}
// the columns copy constraints range over are opened at the challenge
pub open spec fn noted_w(a: Seq<WitnessVerifierOracle>, b: Seq<WitnessVerifierOracle>, k: int) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> noted_one(a[j], #[trigger] b[j], j < k && a[j].should_permute)
}
pub open spec fn noted_fixed(a: FixedVerifierOracle, b: FixedVerifierOracle, now: bool) -> bool {
    &&& b.label == a.label && b.evals_at_challenges == a.evals_at_challenges && b.commitment == a.commitment
    &&& if now { noted(a.queried_rotations, b.queried_rotations) } else { b.queried_rotations == a.queried_rotations }
}
pub open spec fn noted_f(a: Seq<FixedVerifierOracle>, b: Seq<FixedVerifierOracle>, k: int) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> noted_fixed(a[j], #[trigger] b[j], j < k)
}
pub open spec fn noted_p(a: VerifierPreprocessedInput, b: VerifierPreprocessedInput) -> bool {
    &&& a.fixed_oracles == b.fixed_oracles && a.table_oracles == b.table_oracles && noted_fixed(a.q_blind, b.q_blind, true)
    &&& noted_f(a.permutation_oracles@, b.permutation_oracles@, a.permutation_oracles@.len() as int)
}
pub open spec fn committed_one(a: WitnessVerifierOracle, b: WitnessVerifierOracle, c: Option<PC_Commitment>) -> bool {
    b.label == a.label && b.evals_at_challenges == a.evals_at_challenges && b.queried_rotations == a.queried_rotations && b.should_permute == a.should_permute && b.commitment == c
}
pub open spec fn committed(a: Seq<WitnessVerifierOracle>, b: Seq<WitnessVerifierOracle>, cs: Seq<PC_Commitment>, k: int) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> committed_one(a[j], #[trigger] b[j], if j < k { Some(cs[j]) } else { a[j].commitment })
}
pub proof fn copied_count(a: Seq<WitnessVerifierOracle>, b: Seq<WitnessVerifierOracle>, k: nat)
    requires k <= a.len(), a.len() == b.len(), forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).should_permute == b[j].should_permute
    ensures copied(a, k).len() == copied(b, k).len(), copied(a, k).len() <= k
    decreases k
{ if k > 0 { copied_count(a, b, (k - 1) as nat); assert(a[k - 1].should_permute == b[k - 1].should_permute); } }
pub proof fn same_flags(a: Seq<WitnessVerifierOracle>, b: Seq<WitnessVerifierOracle>, c: Seq<WitnessVerifierOracle>, d: Seq<WitnessVerifierOracle>, cs: Seq<PC_Commitment>, cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>, vs: Seq<F>, k: int)
    requires noted_w(a, b, a.len() as int), committed(b, c, cs, b.len() as int), claimed_w(c, d, cm, qs, vs, k)
    ensures copied(a, a.len()).len() == copied(d, d.len()).len(), copied(d, d.len()).len() <= a.len()
{
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]).should_permute == d[j].should_permute by {
        assert(noted_one(a[j], b[j], a[j].should_permute));
        assert(committed_one(b[j], c[j], Some(cs[j])));
        assert(same_w(c[j], d[j]));
    }
    copied_count(a, d, a.len());
}
// ------------------------------------------- the columns that are opened
pub open spec fn look_cols(ls: Seq<LookupVerifierOracles>, k: nat) -> Seq<WitnessVerifierOracle> decreases k {
    if k == 0 { Seq::empty() } else { look_cols(ls, (k - 1) as nat).push(ls[k - 1].2).push(ls[k - 1].3) }
}
pub open spec fn brought_cols(ws: Seq<WitnessVerifierOracle>, ls: Seq<LookupVerifierOracles>, lz: Seq<WitnessVerifierOracle>, qc: Seq<WitnessVerifierOracle>, zs: Seq<WitnessVerifierOracle>) -> Seq<WitnessVerifierOracle> {
    ws + look_cols(ls, ls.len()) + lz + qc + zs
}
pub open spec fn known_cols(p: VerifierPreprocessedInput) -> Seq<FixedVerifierOracle> { p.fixed_oracles@ + p.table_oracles@ + p.permutation_oracles@ + seq![p.q_blind] }
pub open spec fn shows_w(o: &dyn CommittedOracle, a: WitnessVerifierOracle) -> bool {
    o.s_rots() == a.queried_rotations && o.s_com() == a.commitment && forall|p: real| #[trigger] o.s_claim(p) == claim_of(a.evals_at_challenges.map(), p)
}
pub open spec fn shows_f(o: &dyn CommittedOracle, a: FixedVerifierOracle) -> bool {
    o.s_rots() == a.queried_rotations && o.s_com() == a.commitment && forall|p: real| #[trigger] o.s_claim(p) == claim_of(a.evals_at_challenges.map(), p)
}
pub open spec fn shows_all_w(os: Seq<&dyn CommittedOracle>, s: Seq<WitnessVerifierOracle>) -> bool { os.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> shows_w(#[trigger] os[j], s[j]) }
pub open spec fn shows_all_f(os: Seq<&dyn CommittedOracle>, s: Seq<FixedVerifierOracle>) -> bool { os.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> shows_f(#[trigger] os[j], s[j]) }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|o: &T| *o) }
pub open spec fn all_seen(os: Seq<&dyn CommittedOracle>, a: Seq<&dyn CommittedOracle>, b: Seq<&dyn CommittedOracle>, ws: Seq<WitnessVerifierOracle>, fs: Seq<FixedVerifierOracle>) -> bool {
    os == a + b && shows_all_w(a, ws) && shows_all_f(b, fs)
}
// ------------------------------------------------------- a verifier's run
pub struct Run {
    pub wn: Seq<WitnessVerifierOracle>, pub wc: Seq<WitnessVerifierOracle>, pub pn: VerifierPreprocessedInput,
    pub wm: BTreeMap<String, usize>, pub im: BTreeMap<String, usize>, pub fm: BTreeMap<String, usize>, pub tm: BTreeMap<String, usize>,
    pub om: Seq<F>, pub qc: Seq<WitnessVerifierOracle>, pub ls: Seq<LookupVerifierOracles>, pub lz: Seq<WitnessVerifierOracle>, pub z0: Seq<WitnessVerifierOracle>, pub zs: Seq<WitnessVerifierOracle>,
}
// every claimed evaluation is filed under the column and point it was made
// for: as many claims as openings asked, none left over
pub open spec fn filed_w(a: Seq<WitnessVerifierOracle>, b: Seq<WitnessVerifierOracle>, cm: IMap<KeyV, usize>, vs: Seq<F>, x: real, om: Seq<F>) -> bool {
    exists|q: QuerySet| #[trigger] asks(q, a, x, om) && vs.len() == q.seq().len() && claimed_w(a, b, cm, q.seq(), vs, q.seq().len() as int)
}
pub open spec fn filed_f(a: Seq<FixedVerifierOracle>, b: Seq<FixedVerifierOracle>, cm: IMap<KeyV, usize>, vs: Seq<F>, x: real, om: Seq<F>) -> bool {
    exists|q: QuerySet| #[trigger] asks(q, a, x, om) && vs.len() == q.seq().len() && claimed_f(a, b, cm, q.seq(), vs, q.seq().len() as int)
}
pub open spec fn filed_z(a: Seq<WitnessVerifierOracle>, b: Seq<WitnessVerifierOracle>, vs: Seq<F>, x: real, om: Seq<F>) -> bool {
    exists|q: QuerySet, cm: BTreeMap<String, usize>| #[trigger] asks(q, a, x, om) && vs.len() == q.seq().len()
            && #[trigger] mapped(cm.map(), vwlabels(a)) && claimed_w(a, b, cm.map(), q.seq(), vs, q.seq().len() as int)
}
pub open spec fn run_names(r: Run, p: VerifierPreprocessedInput, ws: Seq<WitnessVerifierOracle>, is: Seq<InstanceVerifierOracle>) -> bool {
    mapped(r.wm.map(), vwlabels(ws)) && mapped(r.im.map(), vilabels(is)) && mapped(r.fm.map(), vflabels(p.fixed_oracles@)) && mapped(r.tm.map(), vflabels(p.table_oracles@))
}
pub open spec fn run_witness(r: Run, proof: TPProof, ws0: Seq<WitnessVerifierOracle>, ws1: Seq<WitnessVerifierOracle>, x: real) -> bool {
    &&& proof.witness_commitments@.len() == ws0.len()
    &&& noted_w(ws0, r.wn, ws0.len() as int) && committed(r.wn, r.wc, proof.witness_commitments@, ws0.len() as int)
    &&& filed_w(r.wc, ws1, r.wm.map(), proof.witness_evals@, x, r.om)
}
pub open spec fn run_preprocessed(r: Run, proof: TPProof, p0: VerifierPreprocessedInput, p1: VerifierPreprocessedInput, x: real) -> bool {
    &&& noted_p(p0, r.pn)
    &&& filed_f(r.pn.fixed_oracles@, p1.fixed_oracles@, r.fm.map(), proof.fixed_oracle_evals@, x, r.om)
    &&& filed_f(r.pn.table_oracles@, p1.table_oracles@, r.tm.map(), proof.table_oracle_evals@, x, r.om)
    &&& proof.permutation_oracle_evals@.len() == p0.permutation_oracles@.len()
    &&& sigma_claimed(r.pn.permutation_oracles@, p1.permutation_oracles@, proof.permutation_oracle_evals@, x, p0.permutation_oracles@.len() as int)
    &&& same_f(r.pn.q_blind, p1.q_blind) && p1.q_blind.evals_at_challenges.map() == r.pn.q_blind.evals_at_challenges.map().insert(KeyV::R(x), proof.q_blind_eval)
}
pub open spec fn run_chunks(r: Run, vk: VerifierKey, proof: TPProof, n: nat, x: real) -> bool {
    &&& r.qc.len() == vk.index_info.extended_coset_domain.n() / n && proof.quotient_chunk_commitments@.len() == r.qc.len() && proof.quotient_chunks_evals@.len() == r.qc.len()
    &&& forall|i: int| 0 <= i < r.qc.len() ==> chunk_column(#[trigger] r.qc[i], proof.quotient_chunk_commitments@[i], proof.quotient_chunks_evals@[i], x)
}
pub open spec fn run_lookups(r: Run, vk: VerifierKey, proof: TPProof, p1: VerifierPreprocessedInput, ws1: Seq<WitnessVerifierOracle>, is: Seq<InstanceVerifierOracle>, d: GeneralEvaluationDomain, theta: real, x: real) -> bool {
    let n = vk.index_info.lookups@.len();
    let cols = VCols { wm: r.wm, im: r.im, fm: r.fm, ws: ws1, is: is, fs: p1.fixed_oracles@ };
    &&& r.ls.len() == n && r.lz.len() == n && proof.lookup_commitments@.len() == 2 * n && proof.lookup_evals@.len() == 3 * n && proof.lookup_z_commitments@.len() == n && proof.lookup_z_evals@.len() == 2 * n
    &&& forall|l: int| 0 <= l < n ==> look_brought(#[trigger] r.ls[l], proof.lookup_commitments@, proof.lookup_evals@, l, x, x * inv_of(d.w()))
    &&& forall|l: int| 0 <= l < n ==> look_made(#[trigger] r.ls[l], vk.index_info.lookups@[l], cols, r.tm, p1.table_oracles@, theta, x, d.w(), d.n())
    &&& forall|l: int| 0 <= l < n ==> look_z_column(#[trigger] r.lz[l], proof.lookup_z_commitments@[l], proof.lookup_z_evals@[2 * l], proof.lookup_z_evals@[2 * l + 1], x, x * rpow(d.w(), 1))
}
pub open spec fn run_copies(r: Run, vk: VerifierKey, proof: TPProof, ws1: Seq<WitnessVerifierOracle>, x: real) -> bool {
    &&& r.z0.len() == chunk_count(copied(ws1, ws1.len()).len(), vk.index_info.permutation_argument.max_cols as nat) && proof.z_commitments@.len() == r.z0.len()
    &&& forall|i: int| 0 <= i < r.z0.len() ==> perm_z_column(#[trigger] r.z0[i], proof.z_commitments@[i], vk.index_info.permutation_argument.usable_rows as int, i == r.z0.len() - 1)
    &&& filed_z(r.z0, r.zs, proof.z_evals@, x, r.om)
}
pub open spec fn numer_is(l0: DensePolynomial, lu: DensePolynomial, vos: Seq<&dyn VirtualOracle>, vk: VerifierKey, cols: VCols, p: VerifierPreprocessedInput, cs: Seq<&WitnessVerifierOracle>, lp: Seq<LookupVerifierOracles>, lz: Seq<WitnessVerifierOracle>, zs: Seq<WitnessVerifierOracle>,
    d: GeneralEvaluationDomain, alpha: real, beta: real, gamma: real, x: real, t: real) -> bool
{ numer_at_point(vos, vk, cols, p, cs, lp, lz, zs, d, l0.at(x), lu.at(x), alpha, beta, gamma, x) == t }
// all constraints, combined at the challenge, are the quotient times zH there
pub open spec fn run_identity(r: Run, vk: VerifierKey, proof: TPProof, p1: VerifierPreprocessedInput, ws1: Seq<WitnessVerifierOracle>, is: Seq<InstanceVerifierOracle>, vos: Seq<&dyn VirtualOracle>, d: GeneralEvaluationDomain, zh: DensePolynomial,
    alpha: real, beta: real, gamma: real, x: real) -> bool
{
    let cols = VCols { wm: r.wm, im: r.im, fm: r.fm, ws: ws1, is: is, fs: p1.fixed_oracles@ };
    exists|l0: DensePolynomial, lu: DensePolynomial, cs: Seq<&WitnessVerifierOracle>| #[trigger] units(l0, lu, d, vk.index_info.permutation_argument.usable_rows as int) && vderefs(cs) == copied(ws1, ws1.len())
        && #[trigger] numer_is(l0, lu, vos, vk, cols, p1, cs, r.ls, r.lz, r.zs, d, alpha, beta, gamma, x, chunks_at(r.qc, x, rpow(x, d.n()), r.qc.len()) * zh.at(x))
        && vos_answered(vos, point_answers(cols, x, d.w(), d.n()), vos.len())
}
// every committed column, known or brought by the proof, is opened at all its
// points to what the verifier knows of it there
pub open spec fn run_opened(r: Run, vk: VerifierKey, proof: TPProof, p1: VerifierPreprocessedInput, ws1: Seq<WitnessVerifierOracle>, d: GeneralEvaluationDomain, x: real, l: Seq<Ev>) -> bool {
    exists|os: Seq<&dyn CommittedOracle>, a: Seq<&dyn CommittedOracle>, b: Seq<&dyn CommittedOracle>, fs: Seq<F>|
        #[trigger] all_seen(os, a, b, brought_cols(ws1, r.ls, r.lz, r.qc, r.zs), known_cols(p1))
        && all_complete(os, x, d) && proof.multiopen_proof.q_evals@.len() == group_count(os)
        && #[trigger] batch_opens(os, x, d, l, proof.multiopen_proof, fs) && batch_accepts(vk.verifier_key, os, l, proof.multiopen_proof, fs)
}
pub open spec fn tp_accepts(r: Run, vk: VerifierKey, proof: TPProof, p0: VerifierPreprocessedInput, p1: VerifierPreprocessedInput, ws0: Seq<WitnessVerifierOracle>, ws1: Seq<WitnessVerifierOracle>, is: Seq<InstanceVerifierOracle>,
    vos: Seq<&dyn VirtualOracle>, d: GeneralEvaluationDomain, zh: DensePolynomial) -> bool
{
    let x = tp_x(is, proof);
    &&& is_powers(r.om, d.w()) && r.om.len() == d.n()
    &&& run_names(r, p1, ws1, is) && run_witness(r, proof, ws0, ws1, x) && run_preprocessed(r, proof, p0, p1, x) && run_chunks(r, vk, proof, d.n(), x)
    &&& run_lookups(r, vk, proof, p1, ws1, is, d, tp_theta(is, proof), x) && run_copies(r, vk, proof, ws1, x)
    &&& run_identity(r, vk, proof, p1, ws1, is, vos, d, zh, tp_alpha(is, proof), tp_beta(is, proof), tp_gamma(is, proof), x)
    &&& run_opened(r, vk, proof, p1, ws1, d, x, tp_log5(is, proof))
}
// x3 is none of x, wx, w^2 x, ...
pub open spec fn drawn_away(x: real, x3: real, w: real) -> bool { forall|k: nat| x3 != x * #[trigger] rpow(w, k) }
pub proof fn away_all(os: Seq<&dyn CommittedOracle>, x: real, d: GeneralEvaluationDomain, x3: real)
    requires drawn_away(x, x3, d.w())
    ensures away(os, x, d, x3)
{
    assert forall|o: &dyn CommittedOracle| #[trigger] os.contains(o) implies !is_point(o.s_rots().seq(), x, d.w(), d.n(), x3) by {
        let s = o.s_rots().seq();
        assert forall|i: int| 0 <= i < s.len() implies x3 != point(x, d.w(), #[trigger] s[i], d.n()) by { let k = shift(s[i], d.n()); assert(x3 != x * rpow(d.w(), k)); }
    }
}
pub proof fn same_names(a: Seq<WitnessVerifierOracle>, b: Seq<WitnessVerifierOracle>, c: Seq<WitnessVerifierOracle>, d: Seq<WitnessVerifierOracle>, cs: Seq<PC_Commitment>, cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>, vs: Seq<F>, k: int)
    requires noted_w(a, b, a.len() as int), committed(b, c, cs, b.len() as int), claimed_w(c, d, cm, qs, vs, k)
    ensures vwlabels(d) == vwlabels(b)
{
    assert forall|j: int| 0 <= j < a.len() implies d[j].label == b[j].label by {
        assert(committed_one(b[j], c[j], Some(cs[j])));
        assert(same_w(c[j], d[j]));
    }
    assert(vwlabels(d) =~= vwlabels(b));
}
pub proof fn same_fixed_names(a: Seq<FixedVerifierOracle>, b: Seq<FixedVerifierOracle>, cm: IMap<KeyV, usize>, qs: Seq<(Seq<char>, real)>, vs: Seq<F>, k: int)
    requires claimed_f(a, b, cm, qs, vs, k)
    ensures vflabels(a) == vflabels(b)
{
    assert forall|j: int| 0 <= j < a.len() implies a[j].label == b[j].label by { assert(same_f(a[j], b[j])); }
    assert(vflabels(a) =~= vflabels(b));
}
}
