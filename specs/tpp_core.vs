@include tp_msgs.vs
verus! {
@item src/data_structures.rs ProverKey
}
@map Self::PROTOCOL_NAME => ProtocolName
@map Error<PC::Error> => TopError
@map R => ZkRng
@map &'a mut [WitnessProverOracle<F>] => &'a mut [WitnessProverOracle]
@map &'a mut [InstanceProverOracle<F>] => &'a mut [InstanceProverOracle]
@map PC::commit => commit_all
@map Some(zk_rng) => Some(&mut *zk_rng)
verus! {
// Assumed of the commitment scheme: a commitment and a randomness for every
// polynomial, in order, each the commitment to that polynomial with that
// randomness; a hiding polynomial is never committed to without a generator
#[verifier::external_body]
pub fn commit_all(ck: &PC_CommitterKey, ps: &Vec<LabeledPolynomial>, rng: Option<&mut ZkRng>) -> (r: Result<(Vec<LabeledCommitment>, Vec<PC_Randomness>), PC_Error>)
    requires (exists|j: int| 0 <= j < ps@.len() && (#[trigger] ps@[j]).hiding is Some) ==> rng is Some
    ensures r is Ok ==> r->Ok_0.0@.len() == ps@.len() && r->Ok_0.1@.len() == ps@.len()
        && forall|j: int| 0 <= j < ps@.len() ==> (#[trigger] r->Ok_0.0@[j]).c().v() == com_of(*ck, ps@[j].poly, r->Ok_0.1@[j])
{ unimplemented!() }
impl Opened for WitnessProverOracle {
    open spec fn s_prots(&self) -> BTreeSet<Rotation> { self.queried_rotations }
    open spec fn s_poly(&self) -> DensePolynomial { self.poly }
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) { WitnessProverOracle::get_queried_rotations(self) }
    fn polynomial(&self) -> (r: &DensePolynomial) { WitnessProverOracle::polynomial(self) }
    fn query(&self, challenge: &F) -> (r: Result<F, PiopError>) { WitnessProverOracle::query(self, challenge) }
}
impl Opened for FixedProverOracle {
    open spec fn s_prots(&self) -> BTreeSet<Rotation> { self.queried_rotations }
    open spec fn s_poly(&self) -> DensePolynomial { self.poly }
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) { FixedProverOracle::get_queried_rotations(self) }
    fn polynomial(&self) -> (r: &DensePolynomial) { FixedProverOracle::polynomial(self) }
    fn query(&self, challenge: &F) -> (r: Result<F, PiopError>) { FixedProverOracle::query(self, challenge) }
}
// what the prover made on the way to a proof: its columns and the
// randomness each was committed with
pub ghost struct Run {
    pub ws: Seq<WitnessProverOracle>, pub lp: Seq<LookupProverOracles>, pub lz: Seq<WitnessProverOracle>, pub qc: Seq<WitnessProverOracle>, pub zs: Seq<WitnessProverOracle>,
    pub wr: Seq<PC_Randomness>, pub lr: Seq<PC_Randomness>, pub lzr: Seq<PC_Randomness>, pub qr: Seq<PC_Randomness>, pub zr: Seq<PC_Randomness>,
}
// a', s' of every lookup
pub open spec fn permuted(lp: Seq<LookupProverOracles>) -> Seq<WitnessProverOracle> { Seq::new(2 * lp.len(), |j: int| if j % 2 == 0 { lp[j / 2].2 } else { lp[j / 2].3 }) }
pub open spec fn wcols(os: Seq<WitnessProverOracle>, rs: Seq<PC_Randomness>) -> Seq<Col> { Seq::new(os.len(), |j: int| Col { s: os[j].queried_rotations.seq(), p: os[j].poly, r: rs[j] }) }
pub open spec fn fcols(os: Seq<FixedProverOracle>, rs: Seq<PC_Randomness>) -> Seq<Col> { Seq::new(os.len(), |j: int| Col { s: os[j].queried_rotations.seq(), p: os[j].poly, r: rs[j] }) }
pub open spec fn known_cols(p: ProverPreprocessedInput) -> Seq<FixedProverOracle> { p.fixed_oracles@ + p.table_oracles@ + p.permutation_oracles@ + seq![p.q_blind] }
// the columns opened, in the order both sides have them
pub open spec fn run_os(u: Run) -> Seq<WitnessProverOracle> { u.ws + permuted(u.lp) + u.lz + u.qc + u.zs }
pub open spec fn run_rs(u: Run) -> Seq<PC_Randomness> { u.wr + u.lr + u.lzr + u.qr + u.zr }
pub open spec fn run_cols(u: Run, p: ProverPreprocessedInput) -> Seq<Col> { wcols(run_os(u), run_rs(u)) + fcols(known_cols(p), p.empty_rands_for_fixed@) }
pub open spec fn committed(ck: PC_CommitterKey, cs: Seq<PC_Commitment>, os: Seq<WitnessProverOracle>, rs: Seq<PC_Randomness>) -> bool {
    cs.len() == os.len() && rs.len() == os.len() && forall|j: int| 0 <= j < os.len() ==> (#[trigger] cs[j]).v() == com_of(ck, os[j].poly, rs[j])
}
pub open spec fn lcoms(v: Seq<LabeledCommitment>) -> Seq<PC_Commitment> { v.map_values(|c: LabeledCommitment| c.c()) }
pub proof fn coms_bytes(a: Vec<LabeledCommitment>, b: Vec<PC_Commitment>)
    requires b@ == lcoms(a@)
    ensures a.bytes() == b.bytes()
{
    assert(a@.map_values(|c: LabeledCommitment| c.bytes()) =~= b@.map_values(|c: PC_Commitment| c.bytes()));
}
pub open spec fn sent_columns(ck: PC_CommitterKey, u: Run, p: TPProof) -> bool {
    &&& committed(ck, p.witness_commitments@, u.ws, u.wr)
    &&& committed(ck, p.lookup_commitments@, permuted(u.lp), u.lr)
    &&& committed(ck, p.lookup_z_commitments@, u.lz, u.lzr)
    &&& committed(ck, p.quotient_chunk_commitments@, u.qc, u.qr)
    &&& committed(ck, p.z_commitments@, u.zs, u.zr)
}
// a query set with every column of os at every rotation registered for it
pub open spec fn asks<A: QuerySetProvider>(q: QuerySet, os: Seq<A>, x: real, om: Seq<F>) -> bool {
    forall|w: real| #[trigger] is_powers(om, w) ==> forall|l: Seq<char>, p: real| #[trigger] q.has(l, p) <==> asked(os, l, p, x, w, om.len(), os.len() as int)
}
// the values claimed of the columns os are theirs, at every point they are
// opened at, in the order of the query set
pub open spec fn claimed<A: QuerySetProvider + Evaluable>(vs: Seq<F>, os: Seq<A>, x: real, om: Seq<F>) -> bool {
    exists|q: QuerySet| #[trigger] asks(q, os, x, om) && evaluated(os, q.seq(), vs, q.seq().len() as int)
}
pub open spec fn at_point<A: Evaluable>(vs: Seq<F>, os: Seq<A>, x: real) -> bool { vs.len() == os.len() && forall|j: int| 0 <= j < os.len() ==> (#[trigger] vs[j])@ == os[j].s_at(x) }
pub open spec fn look_claims(vs: Seq<F>, lp: Seq<LookupProverOracles>, x: real, xp: real, k: int) -> bool {
    vs.len() == 3 * k && forall|l: int| 0 <= l < k ==> look_claim(vs, #[trigger] lp[l], l, x, xp)
}
pub open spec fn look_claim(vs: Seq<F>, o: LookupProverOracles, l: int, x: real, xp: real) -> bool { vs[3 * l]@ == o.2.poly.at(x) && vs[3 * l + 1]@ == o.2.poly.at(xp) && vs[3 * l + 2]@ == o.3.poly.at(x) }
pub open spec fn lz_claims(vs: Seq<F>, lz: Seq<WitnessProverOracle>, x: real, xn: real, k: int) -> bool {
    vs.len() == 2 * k && forall|l: int| 0 <= l < k ==> lz_claim(vs, #[trigger] lz[l], l, x, xn)
}
pub open spec fn lz_claim(vs: Seq<F>, o: WitnessProverOracle, l: int, x: real, xn: real) -> bool { vs[2 * l]@ == o.poly.at(x) && vs[2 * l + 1]@ == o.poly.at(xn) }
pub open spec fn true_claims(u: Run, pre: ProverPreprocessedInput, p: TPProof, x: real, d: GeneralEvaluationDomain, om: Seq<F>) -> bool {
    &&& claimed(p.witness_evals@, u.ws, x, om) && claimed(p.fixed_oracle_evals@, pre.fixed_oracles@, x, om) && claimed(p.table_oracle_evals@, pre.table_oracles@, x, om) && claimed(p.z_evals@, u.zs, x, om)
    &&& at_point(p.permutation_oracle_evals@, pre.permutation_oracles@, x) && at_point(p.quotient_chunks_evals@, u.qc, x) && p.q_blind_eval@ == pre.q_blind.poly.at(x)
    &&& exists|wi: real| #[trigger] is_inv(wi, d.w()) && look_claims(p.lookup_evals@, u.lp, x, x * wi, u.lp.len() as int)
    &&& lz_claims(p.lookup_z_evals@, u.lz, x, x * d.w(), u.lz.len() as int)
}
// the columns the state was given, with what the prover adds to them
pub open spec fn prepared(a: WitnessProverOracle, b: WitnessProverOracle) -> bool {
    &&& b.label == a.label && b.poly == a.poly && b.evals == a.evals && b.should_permute == a.should_permute
    &&& forall|x: Rotation| #[trigger] b.queried_rotations.has(x) <==> a.queried_rotations.has(x) || (a.should_permute && is_curr(x))
}
pub open spec fn on_ext(b: WitnessProverOracle, e: GeneralEvaluationDomain) -> bool { b.evals_at_coset_of_extended_domain is Some && on_coset_of(b.poly, e, b.evals_at_coset_of_extended_domain.unwrap()@) }
pub open spec fn iprepared(a: InstanceProverOracle, b: InstanceProverOracle) -> bool { b.label == a.label && b.poly == a.poly && b.evals == a.evals && b.queried_rotations == a.queried_rotations }
pub open spec fn ion_ext(b: InstanceProverOracle, e: GeneralEvaluationDomain) -> bool { b.evals_at_coset_of_extended_domain is Some && on_coset_of(b.poly, e, b.evals_at_coset_of_extended_domain.unwrap()@) }
// what the rounds build, with the challenges th, be, ga, al
pub open spec fn state_of(s: ProverState, u: Run, pre: ProverPreprocessedInput, vos: Seq<&dyn VirtualOracle>, d: GeneralEvaluationDomain) -> bool {
    &&& named_columns(s, pre) && s.witness_oracles@ == u.ws && s.vos@ == vos && s.domain == d
    &&& derefs(s.oracles_to_copy@) == copied_cols(u.ws, u.ws.len() as int)
    &&& s.z_polys is Some && s.z_polys.unwrap()@ == u.zs && s.lookup_polys is Some && s.lookup_polys.unwrap()@ == u.lp && s.lookup_z_polys is Some && s.lookup_z_polys.unwrap()@ == u.lz
}
pub open spec fn rounds_of(s: ProverState, u: Run, pre: ProverPreprocessedInput, vk: VerifierKey, th: real, be: real, ga: real, al: real) -> bool {
    let ix = vk.index_info;
    &&& u.lp.len() == ix.lookups@.len() && forall|l: int| 0 <= l < u.lp.len() ==> #[trigger] look_built(s, pre, ix, th, u.lp[l], l)
    &&& s.oracles_to_copy@.len() == 0 ==> u.zs.len() == 0
    &&& s.oracles_to_copy@.len() > 0 ==> copy_cols(u.zs, ix.permutation_argument, s.oracles_to_copy@, pre.permutation_oracles@, be, ga, s.domain, ix.extended_coset_domain)
    &&& u.lz.len() == u.lp.len() && forall|l: int| 0 <= l < u.lz.len() ==> running_col(#[trigger] u.lz[l], u.lp[l], be, ga, ix.usable_rows as int, s.domain, ix.extended_coset_domain)
    &&& exists|l0: Seq<F>, lu: Seq<F>, t: Seq<F>| #[trigger] is_quot(s, pre, vk, l0, lu, t, al, be, ga) && u.qc.len() == chunk_count(t.len(), s.domain.n())
        && forall|c: int| 0 <= c < u.qc.len() ==> is_chunk(#[trigger] u.qc[c], t, c, s.domain)
}
pub proof fn are_sent(ck: PC_CommitterKey, cs: Vec<PC_Commitment>, lc: Vec<LabeledCommitment>, lp: Seq<LabeledPolynomial>, os: Seq<WitnessProverOracle>, rs: Seq<PC_Randomness>)
    requires cs@.len() == lc@.len(), lc@.len() == lp.len(), lp.len() == os.len(), rs.len() == os.len(),
        forall|j: int| 0 <= j < lc@.len() ==> (#[trigger] lc@[j]).c().v() == com_of(ck, lp[j].poly, rs[j]),
        forall|j: int| 0 <= j < os.len() ==> (#[trigger] lp[j]).poly == os[j].poly,
        forall|j: int| 0 <= j < cs@.len() ==> #[trigger] cs@[j] == lc@[j].c(),
    ensures committed(ck, cs@, os, rs), lc.bytes() == cs.bytes()
{
    assert forall|j: int| 0 <= j < os.len() implies (#[trigger] cs@[j]).v() == com_of(ck, os[j].poly, rs[j]) by { assert(lc@[j].c().v() == com_of(ck, lp[j].poly, rs[j])); }
    assert(cs@ =~= lcoms(lc@));
    coms_bytes(lc, cs);
}
pub proof fn is_claimed<A: QuerySetProvider + Evaluable>(q: QuerySet, vs: Seq<F>, os: Seq<A>, x: real, om: Seq<F>)
    requires asks(q, os, x, om), evaluated(os, q.seq(), vs, q.seq().len() as int)
    ensures claimed(vs, os, x, om)
{ }
// what the running products of the lookups are defined under: columns of the
// right size, arranged, and challenges that leave no denominator zero
pub open spec fn shows(o: &dyn Opened, s: BTreeSet<Rotation>, p: DensePolynomial) -> bool { o.s_prots() == s && o.s_poly() == p }
pub proof fn all_labelled<A: QuerySetProvider + Evaluable>(q: QuerySet, os: Seq<A>, x: real, w: real, om: Seq<F>)
    requires is_powers(om, w), asks(q, os, x, om), forall|j: int| 0 <= j < os.len() ==> QuerySetProvider::s_label(&#[trigger] os[j]) == Evaluable::s_label(&os[j])
    ensures forall|i: int| 0 <= i < q.seq().len() ==> has_label(os, (#[trigger] q.seq()[i]).0, os.len() as int)
{
    assert forall|i: int| 0 <= i < q.seq().len() implies has_label(os, (#[trigger] q.seq()[i]).0, os.len() as int) by {
        let (l, p) = q.seq()[i];
        assert(q.has(l, p));
        assert(asked(os, l, p, x, w, om.len(), os.len() as int));
        let j = choose|j: int| 0 <= j < os.len() && asked_of(#[trigger] os[j], l, p, x, w, om.len());
        assert(Evaluable::s_label(&os[j]) == l);
    }
}
// p is what the run u makes of the columns ws and the public inputs is: the
// commitments sent are those of the run's columns, the claims are their values
// at the point drawn from the transcript of just those messages, and the
// opening is the honest one of just those columns, in the verifier's order
pub open spec fn proof_of(u: Run, om: Seq<F>, pk: ProverKey, pre: ProverPreprocessedInput, is: Seq<InstanceProverOracle>, ws: Seq<WitnessProverOracle>, d: GeneralEvaluationDomain, p: TPProof) -> bool {
    &&& u.ws == ws
    &&& om.len() == d.n() && is_powers(om, d.w())
    &&& sent_columns(pk.committer_key, u, p)
    &&& true_claims(u, pre, p, tp_x(is, p), d, om)
    &&& mp::honest(pk.committer_key, pgroups(run_cols(u, pre)), tp_x(is, p), d, tp_log5(is, p), p.multiopen_proof)
}
// the run's columns are those the rounds define, at the challenges drawn from
// the transcript
pub open spec fn computed(u: Run, pk: ProverKey, pre: ProverPreprocessedInput, vos: Seq<&dyn VirtualOracle>, is: Seq<InstanceProverOracle>, d: GeneralEvaluationDomain, p: TPProof) -> bool {
    exists|s: ProverState| #[trigger] state_of(s, u, pre, vos, d) && rounds_of(s, u, pre, pk.vk, tp_theta(is, p), tp_beta(is, p), tp_gamma(is, p), tp_alpha(is, p))
}
// what the prover is given is sized for the domains of the index
pub open spec fn wsized(ws: Seq<WitnessProverOracle>, n: nat) -> bool { forall|j: int| 0 <= j < ws.len() ==> (#[trigger] ws[j]).evals@.len() == n }
pub open spec fn isized_to(os: Seq<InstanceProverOracle>, n: nat) -> bool { forall|j: int| 0 <= j < os.len() ==> (#[trigger] os[j]).evals@.len() == n }
pub open spec fn look_follows(a: &dyn LookupVirtualOracle, n: nat, m: nat) -> bool {
    a.s_inputs() is Some && a.s_tables() is Some ==> {
        &&& forall|j: int, q: OracleQuery| 0 <= j < a.s_inputs().unwrap().len() && #[trigger] uses(a.s_inputs().unwrap()[j], q) ==> rot_ok(q, n, m)
        &&& forall|j: int| 0 <= j < a.s_tables().unwrap().len() ==> rot_ok(#[trigger] a.s_tables().unwrap()[j], n, m)
        &&& a.s_inputs().unwrap().len() == a.s_tables().unwrap().len()
    }
}
pub open spec fn prover_input(vk: VerifierKey, p: ProverPreprocessedInput, ws: Seq<WitnessProverOracle>, is: Seq<InstanceProverOracle>, vos: Seq<&dyn VirtualOracle>, d: GeneralEvaluationDomain) -> bool {
    let ix = vk.index_info;
    let pa = ix.permutation_argument;
    let n = d.n();
    let m = ix.extended_coset_domain.n();
    &&& n > 1 && m > 0 && m % n == 0 && n <= m && m <= i64::MAX && m + m / n <= i64::MAX
    &&& ix.usable_rows < n && pa.usable_rows < n && pa.usable_rows * (m / n) + m <= i64::MAX
    &&& wsized(ws, n) && isized_to(is, n)
    &&& cols_ok(p.fixed_oracles@, n, m) && cols_ok(p.table_oracles@, n, m) && cols_ok(p.permutation_oracles@, n, m) && col_ok(p.q_blind, n, m)
    &&& forall|l: int| 0 <= l < ix.lookups@.len() ==> look_follows(#[trigger] ix.lookups@[l], n, m)
    &&& ix.lookups@.len() < usize::MAX / 8
    &&& vos.len() > 0 && vos_ok(vos, n, m)
    &&& copied_cols(ws, ws.len() as int).len() > 0 ==> perm_ready(pa, copied_cols(ws, ws.len() as int).len(), p.permutation_oracles@.len())
    &&& vk.zh_inverses_over_coset@.len() == m
}
// the challenges drawn clear every denominator of the running products
pub open spec fn copies_clear(s: ProverState, p: ProverPreprocessedInput, ix: Index, beta: real, gamma: real) -> bool {
    forall|c: int| 0 <= c < chunk_count(s.oracles_to_copy@.len(), ix.permutation_argument.max_cols as nat) ==>
        #[trigger] chunk_open(s.oracles_to_copy@, p.permutation_oracles@, ix.permutation_argument.max_cols as nat, beta, gamma, ix.permutation_argument.usable_rows as nat, c)
}
pub open spec fn pairs_clear(lp: Seq<LookupProverOracles>, ix: Index, beta: real, gamma: real) -> bool {
    forall|l: int, i: int| 0 <= l < lp.len() && 0 <= i < ix.usable_rows ==> #[trigger] open_pair(lp[l], beta, gamma, i)
}
pub proof fn copied_from(a: Seq<WitnessProverOracle>, b: Seq<WitnessProverOracle>, k: int, n: nat, m: nat)
    requires 0 <= k <= a.len(), a.len() == b.len(), cols_ok(b, n, m), forall|j: int| 0 <= j < a.len() ==> prepared(a[j], #[trigger] b[j])
    ensures copied_cols(a, k).len() == copied_cols(b, k).len(), copied_cols(b, k).len() <= k, cols_ok(copied_cols(b, k), n, m)
    decreases k
{
    if k > 0 {
        copied_from(a, b, k - 1, n, m);
        assert(prepared(a[k - 1], b[k - 1]));
        assert(col_ok(b[k - 1], n, m));
    }
}
pub proof fn named_in(m: BTreeMap<String, usize>, ls: Seq<Seq<char>>)
    requires mapped(m.map(), ls)
    ensures names_ok(m, ls.len())
{ }
// the state the rounds start from: its columns are sized for the domains
pub open spec fn state_sized(s: ProverState, w0: Seq<WitnessProverOracle>, n: nat, m: nat) -> bool {
    &&& cols_ok(s.witness_oracles@, n, m) && cols_ok(s.instance_oracles@, n, m)
    &&& s.oracles_to_copy@.len() == copied_cols(w0, w0.len() as int).len() && s.oracles_to_copy@.len() <= w0.len()
    &&& forall|j: int| 0 <= j < s.oracles_to_copy@.len() ==> col_ok(*#[trigger] s.oracles_to_copy@[j], n, m)
}
pub proof fn sized(s: ProverState, w0: Seq<WitnessProverOracle>, i0: Seq<InstanceProverOracle>, e: GeneralEvaluationDomain, n: nat)
    requires wsized(w0, n), isized_to(i0, n), s.witness_oracles@.len() == w0.len(), s.instance_oracles@.len() == i0.len(),
        forall|j: int| 0 <= j < w0.len() ==> prepared(w0[j], #[trigger] s.witness_oracles@[j]) && on_ext(s.witness_oracles@[j], e),
        forall|j: int| 0 <= j < i0.len() ==> iprepared(i0[j], #[trigger] s.instance_oracles@[j]) && ion_ext(s.instance_oracles@[j], e),
        derefs(s.oracles_to_copy@) == copied_cols(s.witness_oracles@, s.witness_oracles@.len() as int),
    ensures state_sized(s, w0, n, e.n())
{
    let (ws, m) = (s.witness_oracles@, e.n());
    assert forall|j: int| 0 <= j < ws.len() implies col_ok(#[trigger] ws[j], n, m) by { assert(prepared(w0[j], ws[j]) && w0[j].evals@.len() == n); }
    assert forall|j: int| 0 <= j < i0.len() implies col_ok(#[trigger] s.instance_oracles@[j], n, m) by { assert(iprepared(i0[j], s.instance_oracles@[j]) && i0[j].evals@.len() == n); }
    copied_from(w0, ws, w0.len() as int, n, m);
    let cc = copied_cols(ws, ws.len() as int);
    assert forall|j: int| 0 <= j < s.oracles_to_copy@.len() implies col_ok(*#[trigger] s.oracles_to_copy@[j], n, m) by {
        assert(derefs(s.oracles_to_copy@)[j] == *s.oracles_to_copy@[j]);
        assert(col_ok(cc[j], n, m));
    }
}
pub proof fn looks_are_ready(s: ProverState, vk: VerifierKey, p: ProverPreprocessedInput, w0: Seq<WitnessProverOracle>, i0: Seq<InstanceProverOracle>, vos: Seq<&dyn VirtualOracle>)
    requires prover_input(vk, p, w0, i0, vos, s.domain), state_sized(s, w0, s.domain.n(), vk.index_info.extended_coset_domain.n()), named_columns(s, p)
    ensures all_looks_ready(s, p, vk.index_info)
{
    named_in(s.witness_oracles_mapping, wlabels(s.witness_oracles@));
    named_in(s.instance_oracles_mapping, ilabels(s.instance_oracles@));
    named_in(s.fixed_oracles_mapping, flabels(p.fixed_oracles@));
    named_in(s.table_oracles_mapping, flabels(p.table_oracles@));
    let ix = vk.index_info;
    assert forall|l: int| 0 <= l < ix.lookups@.len() && (#[trigger] ix.lookups@[l]).s_inputs() is Some && ix.lookups@[l].s_tables() is Some implies
        look_ready(columns(s, p), s.table_oracles_mapping, p.table_oracles@, ix.lookups@[l].s_inputs().unwrap(), ix.lookups@[l].s_tables().unwrap(), ix.usable_rows as int, s.domain.n(), ix.extended_coset_domain.n()) by {
        assert(look_follows(ix.lookups@[l], s.domain.n(), ix.extended_coset_domain.n()));
    }
}
pub proof fn copies_are_ready(s: ProverState, vk: VerifierKey, p: ProverPreprocessedInput, w0: Seq<WitnessProverOracle>, i0: Seq<InstanceProverOracle>, vos: Seq<&dyn VirtualOracle>, beta: real, gamma: real)
    requires prover_input(vk, p, w0, i0, vos, s.domain), state_sized(s, w0, s.domain.n(), vk.index_info.extended_coset_domain.n()),
        s.oracles_to_copy@.len() > 0 ==> copies_clear(s, p, vk.index_info, beta, gamma)
    ensures s.oracles_to_copy@.len() > 0 ==> copies_ready(vk.index_info.permutation_argument, s.oracles_to_copy@, p.permutation_oracles@, beta, gamma, s.domain, vk.index_info.extended_coset_domain)
{
    let (n, m) = (s.domain.n(), vk.index_info.extended_coset_domain.n());
    assert forall|j: int| 0 <= j < s.oracles_to_copy@.len() implies (#[trigger] s.oracles_to_copy@[j]).evals@.len() == n by { assert(col_ok(*s.oracles_to_copy@[j], n, m)); }
    assert forall|j: int| 0 <= j < p.permutation_oracles@.len() implies (#[trigger] p.permutation_oracles@[j]).evals@.len() == n by { assert(col_ok(p.permutation_oracles@[j], n, m)); }
}
pub proof fn chunks_at_most(k: nat, c: nat)
    requires c > 0
    ensures chunk_count(k, c) <= k
{ assert((k + c - 1) as nat / c <= k) by(nonlinear_arith) requires c > 0; }
pub open spec fn all_built(s: ProverState, p: ProverPreprocessedInput, ix: Index, th: real, lp: Seq<LookupProverOracles>) -> bool {
    lp.len() == ix.lookups@.len() && forall|l: int| 0 <= l < lp.len() ==> #[trigger] look_built(s, p, ix, th, lp[l], l)
}
pub proof fn looks_are_sized(s: ProverState, p: ProverPreprocessedInput, ix: Index, th: real, lp: Seq<LookupProverOracles>)
    requires all_built(s, p, ix, th, lp)
    ensures forall|l: int| 0 <= l < lp.len() ==> look_sized(#[trigger] lp[l], s.domain.n()) && look_arranged(lp[l], ix.usable_rows as int)
{
    assert forall|l: int| 0 <= l < lp.len() implies look_sized(#[trigger] lp[l], s.domain.n()) && look_arranged(lp[l], ix.usable_rows as int) by { assert(look_built(s, p, ix, th, lp[l], l)); }
}
pub proof fn quotient_is_ready(s: ProverState, s0: ProverState, vk: VerifierKey, p: ProverPreprocessedInput, w0: Seq<WitnessProverOracle>, i0: Seq<InstanceProverOracle>, vos: Seq<&dyn VirtualOracle>, th: real, be: real, ga: real)
    requires prover_input(vk, p, w0, i0, vos, s.domain), s0.domain == s.domain, s.vos@ == vos, w0.len() < usize::MAX / 8,
        state_sized(s, w0, s.domain.n(), vk.index_info.extended_coset_domain.n()), named_columns(s, p),
        s.z_polys is Some, s.lookup_polys is Some, s.lookup_z_polys is Some,
        all_built(s0, p, vk.index_info, th, s.lookup_polys.unwrap()@),
        s.lookup_z_polys.unwrap()@.len() == s.lookup_polys.unwrap()@.len(),
        forall|l: int| 0 <= l < s.lookup_z_polys.unwrap()@.len() ==> running_col(#[trigger] s.lookup_z_polys.unwrap()@[l], s.lookup_polys.unwrap()@[l], be, ga, vk.index_info.usable_rows as int, s.domain, vk.index_info.extended_coset_domain),
        s.oracles_to_copy@.len() == 0 ==> s.z_polys.unwrap()@.len() == 0,
        s.oracles_to_copy@.len() > 0 ==> copy_cols(s.z_polys.unwrap()@, vk.index_info.permutation_argument, s.oracles_to_copy@, p.permutation_oracles@, be, ga, s.domain, vk.index_info.extended_coset_domain),
    ensures quot_ready(s, p, vk)
{
    let ix = vk.index_info;
    let pa = ix.permutation_argument;
    let (n, m) = (s.domain.n(), ix.extended_coset_domain.n());
    let (zs, lp, lz) = (s.z_polys.unwrap()@, s.lookup_polys.unwrap()@, s.lookup_z_polys.unwrap()@);
    if s.oracles_to_copy@.len() > 0 {
        chunks_at_most(s.oracles_to_copy@.len(), pa.max_cols as nat);
        assert forall|j: int| 0 <= j < zs.len() implies col_ok(#[trigger] zs[j], n, m) by {
            assert(chunk_agg(zs, pa, s.oracles_to_copy@, p.permutation_oracles@, be, ga, s.domain, j));
            assert(chunk_poly(zs, pa, s.domain, ix.extended_coset_domain, j));
        }
    }
    assert forall|l: int| 0 <= l < ix.lookups@.len() implies #[trigger] look_fits(p.q_blind, lp[l], lz[l], n, m) && look_has(p.q_blind, lp[l], lz[l]) by {
        assert(look_built(s0, p, ix, th, lp[l], l));
        assert(running_col(lz[l], lp[l], be, ga, ix.usable_rows as int, s.domain, ix.extended_coset_domain));
        assert(col_ok(p.q_blind, n, m));
    }
    assert forall|l: int| 0 <= l < ix.lookups@.len() implies #[trigger] look_has(p.q_blind, lp[l], lz[l]) by { assert(look_fits(p.q_blind, lp[l], lz[l], n, m)); }
}
pub mod tp {
use super::*;
use super::te::Error;
use super::mo::Multiopen;
pub type DynCol<'a> = &'a dyn Opened;
pub struct TurboPlonk { }
impl TurboPlonk {
@fn src/turbo_plonk.rs PIL@TurboPlonk::prove isolate=1 loops=22 extend=vec collect4=Vec<LabeledPolynomial> collect5=Vec<&WitnessProverOracle> collect6=Vec<LabeledPolynomial> collect7=Vec<LabeledPolynomial> collect8=Vec<LabeledPolynomial> collect9=Vec<LabeledPolynomial> collect12=Vec<F> collect13=Vec<F> collect14=Vec<DynCol> collect15=Vec<DynCol> collect16=Vec<PC_Randomness> collect17=Vec<PC_Commitment> collect18=Vec<PC_Commitment> collect19=Vec<PC_Commitment> collect20=Vec<PC_Commitment> collect21=Vec<PC_Commitment>
@spec
    requires domain_size <= max_domain(), domain_size > 0,
        preprocessed.empty_rands_for_fixed@.len() == preprocessed.fixed_oracles@.len() + preprocessed.table_oracles@.len() + preprocessed.permutation_oracles@.len() + 1,
        old(witness_oracles)@.len() < usize::MAX / 8,
        prover_input(pk.vk, *preprocessed, old(witness_oracles)@, old(instance_oracles)@, vos@, domain_of(domain_size as nat)),
    ensures
        r is Ok ==> final(instance_oracles)@.len() == old(instance_oracles)@.len(),
        r is Ok ==> final(witness_oracles)@.len() == old(witness_oracles)@.len(),
        r is Ok ==> exists|u: Run, om: Seq<F>| #[trigger] proof_of(u, om, *pk, *preprocessed, old(instance_oracles)@, final(witness_oracles)@, domain_of(domain_size as nat), r->Ok_0)
            && computed(u, *pk, *preprocessed, vos@, old(instance_oracles)@, domain_of(domain_size as nat), r->Ok_0),
        r is Ok ==> final(witness_oracles)@.len() == old(witness_oracles)@.len()
            && forall|j: int| 0 <= j < old(witness_oracles)@.len() ==> prepared(old(witness_oracles)@[j], #[trigger] final(witness_oracles)@[j]) && on_ext(final(witness_oracles)@[j], pk.vk.index_info.extended_coset_domain),
        r is Ok ==> final(instance_oracles)@.len() == old(instance_oracles)@.len()
            && forall|j: int| 0 <= j < old(instance_oracles)@.len() ==> iprepared(old(instance_oracles)@[j], #[trigger] final(instance_oracles)@[j]) && ion_ext(final(instance_oracles)@[j], pk.vk.index_info.extended_coset_domain),
@start
    let ghost i0 = instance_oracles@;
    let ghost w0 = witness_oracles@;
    let ghost e = pk.vk.index_info.extended_coset_domain;
    let ghost d = domain_of(domain_size as nat);
@loop 0
    invariant __n0 == instance_oracles@.len(), fs_rng.log() == tp_start(instance_oracles@, __i0 as nat),
@loop 1
    invariant __n1 == w0.len(), witness_oracles@.len() == w0.len(),
        forall|j: int| 0 <= j < __i1 ==> prepared(w0[j], #[trigger] witness_oracles@[j]),
        forall|j: int| __i1 <= j < w0.len() ==> w0[j] == #[trigger] witness_oracles@[j],
@loop 2
    invariant __n2 == w0.len(), witness_oracles@.len() == w0.len(), e == pk.vk.index_info.extended_coset_domain,
        forall|j: int| 0 <= j < w0.len() ==> prepared(w0[j], #[trigger] witness_oracles@[j]),
        forall|j: int| 0 <= j < __i2 ==> on_ext(#[trigger] witness_oracles@[j], e),
@loop 3
    invariant __n3 == i0.len(), instance_oracles@.len() == i0.len(), e == pk.vk.index_info.extended_coset_domain,
        forall|j: int| 0 <= j < i0.len() ==> iprepared(i0[j], #[trigger] instance_oracles@[j]),
        forall|j: int| 0 <= j < __i3 ==> ion_ext(#[trigger] instance_oracles@[j], e),
@loop 4
    invariant __n4 == witness_oracles@.len(), __v4@.len() == __i4, forall|j: int| 0 <= j < __i4 ==> (#[trigger] __v4@[j]).poly == witness_oracles@[j].poly,
@loop 5
    invariant __n5 == lookup_polys@.len(), __v5@.len() == 2 * __i5, forall|j: int| 0 <= j < 2 * __i5 ==> *(#[trigger] __v5@[j]) == permuted(lookup_polys@)[j],
@loop 6
    invariant __n6 == lookup_polys@.len(), __v6@.len() == 2 * __i6, forall|j: int| 0 <= j < 2 * __i6 ==> (#[trigger] __v6@[j]).poly == permuted(lookup_polys@)[j].poly,
@loop 7
    invariant __n7 == z_polys@.len(), __v7@.len() == __i7, forall|j: int| 0 <= j < __i7 ==> (#[trigger] __v7@[j]).poly == z_polys@[j].poly,
@loop 8
    invariant __n8 == lookup_z_polys@.len(), __v8@.len() == __i8, forall|j: int| 0 <= j < __i8 ==> (#[trigger] __v8@[j]).poly == lookup_z_polys@[j].poly,
@loop 9
    invariant __n9 == quotient_chunk_oracles@.len(), __v9@.len() == __i9, forall|j: int| 0 <= j < __i9 ==> (#[trigger] __v9@[j]).poly == quotient_chunk_oracles@[j].poly,
@loop 10
    invariant __n10 == lookup_polys@.len(), look_claims(lookup_evals@, lookup_polys@, verifier_second_msg.xi@, verifier_second_msg.xi@ * omega_inv@, __i10 as int),
@loop 11
    invariant __n11 == lookup_z_polys@.len(), lz_claims(lookup_z_evals@, lookup_z_polys@, verifier_second_msg.xi@, verifier_second_msg.xi@ * omega@, __i11 as int),
@loop 12
    invariant __n12 == quotient_chunk_oracles@.len(), __v12@.len() == __i12, forall|j: int| 0 <= j < __i12 ==> (#[trigger] __v12@[j])@ == quotient_chunk_oracles@[j].poly.at(verifier_second_msg.xi@),
@loop 13
    invariant __n13 == preprocessed.permutation_oracles@.len(), __v13@.len() == __i13, forall|j: int| 0 <= j < __i13 ==> (#[trigger] __v13@[j])@ == preprocessed.permutation_oracles@[j].poly.at(verifier_second_msg.xi@),
@beforeloop 14
    proof {
        assert(__s14_0@.len() == run_os(u).len());
        assert forall|j: int| 0 <= j < run_os(u).len() implies *(#[trigger] __s14_0@[j]) == run_os(u)[j] by {}
    }
@loop 14
    invariant __n14 == run_os(u).len(), __s14_0@.len() == __n14, forall|j: int| 0 <= j < __n14 ==> *(#[trigger] __s14_0@[j]) == run_os(u)[j], __v14@.len() == __i14, forall|j: int| 0 <= j < __i14 ==> shows(#[trigger] __v14@[j], run_os(u)[j].queried_rotations, run_os(u)[j].poly),
@beforeloop 15
    proof {
        assert(__s15_0@.len() == known_cols(*preprocessed).len());
        assert forall|j: int| 0 <= j < known_cols(*preprocessed).len() implies *(#[trigger] __s15_0@[j]) == known_cols(*preprocessed)[j] by {}
    }
@loop 15
    invariant __n15 == known_cols(*preprocessed).len(), __s15_0@.len() == __n15, forall|j: int| 0 <= j < __n15 ==> *(#[trigger] __s15_0@[j]) == known_cols(*preprocessed)[j], __v15@.len() == __i15, forall|j: int| 0 <= j < __i15 ==> shows(#[trigger] __v15@[j], known_cols(*preprocessed)[j].queried_rotations, known_cols(*preprocessed)[j].poly),
@beforeloop 16
    let ghost rs = run_rs(u) + preprocessed.empty_rands_for_fixed@;
    proof {
        assert(__s16_0@.len() == rs.len());
        assert forall|j: int| 0 <= j < rs.len() implies *(#[trigger] __s16_0@[j]) == rs[j] by {}
    }
@loop 16
    invariant __n16 == (run_rs(u) + preprocessed.empty_rands_for_fixed@).len(), __s16_0@.len() == __n16, forall|j: int| 0 <= j < __n16 ==> *(#[trigger] __s16_0@[j]) == (run_rs(u) + preprocessed.empty_rands_for_fixed@)[j], __v16@.len() == __i16, forall|j: int| 0 <= j < __i16 ==> #[trigger] __v16@[j] == (run_rs(u) + preprocessed.empty_rands_for_fixed@)[j],
@loop 17
    invariant __n17 == witness_commitments@.len(), __v17@.len() == __i17, forall|j: int| 0 <= j < __i17 ==> #[trigger] __v17@[j] == witness_commitments@[j].c(),
@loop 18
    invariant __n18 == lookup_commitments@.len(), __v18@.len() == __i18, forall|j: int| 0 <= j < __i18 ==> #[trigger] __v18@[j] == lookup_commitments@[j].c(),
@loop 19
    invariant __n19 == lookup_z_commitments@.len(), __v19@.len() == __i19, forall|j: int| 0 <= j < __i19 ==> #[trigger] __v19@[j] == lookup_z_commitments@[j].c(),
@loop 20
    invariant __n20 == z_commitments@.len(), __v20@.len() == __i20, forall|j: int| 0 <= j < __i20 ==> #[trigger] __v20@[j] == z_commitments@[j].c(),
@loop 21
    invariant __n21 == quotient_chunk_commitments@.len(), __v21@.len() == __i21, forall|j: int| 0 <= j < __i21 ==> #[trigger] __v21@[j] == quotient_chunk_commitments@[j].c(),
@beforecall prover_lookup_round 0
    let ghost s0 = prover_state;
    proof {
        sized(s0, w0, i0, e, d.n());
        looks_are_ready(s0, pk.vk, *preprocessed, w0, i0, vos@);
    }
@beforecall prover_permutation_round 0
    proof {
        assume(prover_state.oracles_to_copy@.len() > 0 ==> copies_clear(prover_state, *preprocessed, pk.vk.index_info, verifier_permutation_msg.beta@, verifier_permutation_msg.gamma@));
        copies_are_ready(prover_state, pk.vk, *preprocessed, w0, i0, vos@, verifier_permutation_msg.beta@, verifier_permutation_msg.gamma@);
    }
@beforecall prover_lookup_subset_equality_round 0
    proof {
        assume(pairs_clear(lookup_polys@, pk.vk.index_info, verifier_permutation_msg.beta@, verifier_permutation_msg.gamma@));
        looks_are_sized(s0, *preprocessed, pk.vk.index_info, verifier_lookup_aggregation_msg.theta@, lookup_polys@);
    }
@beforecall prover_quotient_round 0
    let ghost s3 = prover_state;
    proof { quotient_is_ready(s3, s0, pk.vk, *preprocessed, w0, i0, vos@, verifier_lookup_aggregation_msg.theta@, verifier_permutation_msg.beta@, verifier_permutation_msg.gamma@); }
@beforecall verifier_lookup_aggregation_round 0
    let ghost l1 = fs_rng.log();
@beforecall verifier_permutation_round 0
    let ghost l2 = fs_rng.log();
@beforecall verifier_first_round 0
    let ghost l3 = fs_rng.log();
@beforecall verifier_second_round 0
    let ghost l4 = fs_rng.log();
@afterlet omegas
    let ghost x = verifier_second_msg.xi@;
    let ghost w = d.w();
    let ghost u = Run { ws: witness_oracles@, lp: lookup_polys@, lz: lookup_z_polys@, qc: quotient_chunk_oracles@, zs: z_polys@,
        wr: wtns_rands@, lr: lookup_rands@, lzr: lookup_z_rands@, qr: quotient_rands@, zr: z_rands@ };
    proof { assert(is_powers(omegas@, w)); rpow_1(w); }
@afterlet witness_query_set
    proof { all_labelled(witness_query_set, witness_oracles@, x, w, omegas@); }
@afterlet fixed_query_set
    proof { all_labelled(fixed_query_set, preprocessed.fixed_oracles@, x, w, omegas@); }
@afterlet table_query_set
    proof { all_labelled(table_query_set, preprocessed.table_oracles@, x, w, omegas@); }
@afterlet z_query_set
    proof { all_labelled(z_query_set, z_polys@, x, w, omegas@); }
@afterlet witness_evals
    proof { is_claimed(witness_query_set, witness_evals@, witness_oracles@, x, omegas@); }
@afterlet fixed_oracle_evals
    proof { is_claimed(fixed_query_set, fixed_oracle_evals@, preprocessed.fixed_oracles@, x, omegas@); }
@afterlet table_oracle_evals
    proof { is_claimed(table_query_set, table_oracle_evals@, preprocessed.table_oracles@, x, omegas@); }
@afterlet z_evals
    proof { is_claimed(z_query_set, z_evals@, z_polys@, x, omegas@); }
@afterlet oracle_rands
    let ghost l5 = fs_rng.log();
    proof {
        assert(run_os(u).len() == run_rs(u).len());
        assert(all_cols(oracles@, oracle_rands@) =~= run_cols(u, *preprocessed));
    }
@beforetail
    proof {
        are_sent(pk.committer_key, proof.witness_commitments, witness_commitments, witness_oracles_labeled@, u.ws, u.wr);
        are_sent(pk.committer_key, proof.lookup_commitments, lookup_commitments, lookup_prime_labeled@, permuted(u.lp), u.lr);
        are_sent(pk.committer_key, proof.lookup_z_commitments, lookup_z_commitments, lookup_z_polys_labeled@, u.lz, u.lzr);
        are_sent(pk.committer_key, proof.quotient_chunk_commitments, quotient_chunk_commitments, quotient_chunks_labeled@, u.qc, u.qr);
        are_sent(pk.committer_key, proof.z_commitments, z_commitments, z_polys_labeled@, u.zs, u.zr);
        assert(l1 == tp_log1(i0, proof));
        assert(l2 == tp_log2(i0, proof));
        assert(l3 == tp_log3(i0, proof));
        assert(l4 == tp_log4(i0, proof));
        assert(l5 == tp_log5(i0, proof));
        assert(is_inv(omega_inv@, w));
        assert(true_claims(u, *preprocessed, proof, x, d, omegas@));
        assert(sent_columns(pk.committer_key, u, proof));
        assert(x == tp_x(i0, proof));
        assert(mp::honest(pk.committer_key, pgroups(run_cols(u, *preprocessed)), x, d, l5, proof.multiopen_proof));
        assert(state_of(prover_state, u, *preprocessed, vos@, d));
        let (th, be, ga, al) = (tp_theta(i0, proof), tp_beta(i0, proof), tp_gamma(i0, proof), tp_alpha(i0, proof));
        let ix = pk.vk.index_info;
        assert forall|l: int| 0 <= l < u.lp.len() implies #[trigger] look_built(prover_state, *preprocessed, ix, th, u.lp[l], l) by {
            assert(look_built(s0, *preprocessed, ix, th, u.lp[l], l));
            assert(columns(s0, *preprocessed) == columns(prover_state, *preprocessed));
        }
        let (q0, qu, qt) = choose|l0: Seq<F>, lu: Seq<F>, t: Seq<F>| #[trigger] is_quot(s3, *preprocessed, pk.vk, l0, lu, t, al, be, ga)
            && u.qc.len() == chunk_count(t.len(), s3.domain.n()) && forall|c: int| 0 <= c < u.qc.len() ==> is_chunk(#[trigger] u.qc[c], t, c, s3.domain);
        assert(is_quot(s3, *preprocessed, pk.vk, q0, qu, qt, al, be, ga));
        assert(is_quot(prover_state, *preprocessed, pk.vk, q0, qu, qt, al, be, ga));
        assert(rounds_of(prover_state, u, *preprocessed, pk.vk, tp_theta(i0, proof), tp_beta(i0, proof), tp_gamma(i0, proof), tp_alpha(i0, proof)));
        assert(computed(u, *pk, *preprocessed, vos@, i0, d, proof));
        let done: Result<TPProof, TopError> = Ok(proof);
        assert(done->Ok_0 == proof);
        assert(proof_of(u, omegas@, *pk, *preprocessed, i0, witness_oracles@, d, done->Ok_0));
        assert(computed(u, *pk, *preprocessed, vos@, i0, d, done->Ok_0));
    }
@end
}
}
}
