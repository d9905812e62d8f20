@include quot_abs.vs
verus! {
impl GeneralEvaluationDomain {
    #[verifier::external_body]
    pub fn coset_ifft(&self, e: &[F]) -> (r: Vec<F>)
        ensures r@.len() == self.n(),
            e@.len() == self.n() ==> forall|i: int| 0 <= i < self.n() ==> #[trigger] coset_of(r@, *self, i) == e@[i]@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fft(&self, p: &DensePolynomial) -> (r: Vec<F>)
        ensures r@.len() == self.n(),
            p.coeffs@.len() <= self.n() ==> forall|i: int| 0 <= i < self.n() ==> (#[trigger] r@[i])@ == p.row(*self, i)
    { unimplemented!() }
}
impl DensePolynomial {
    pub fn coeffs(&self) -> (r: &[F]) ensures r@ == self.coeffs@ { self.coeffs.as_slice() }
}
pub fn vec_from(s: &[F]) -> (r: Vec<F>) ensures r@ == s@ { s.to_vec() }
@map Vec::from => vec_from
// v is f up to k and zero from there on
#[verifier::opaque]
pub open spec fn filled_to(v: Seq<F>, f: spec_fn(int) -> real, k: int) -> bool {
    (forall|i: int| 0 <= i < k && i < v.len() ==> (#[trigger] v[i])@ == f(i)) && (forall|i: int| k <= i < v.len() ==> (#[trigger] v[i])@ == 0real)
}
pub proof fn filled_zero(v: Seq<F>, f: spec_fn(int) -> real)
    requires forall|i: int| 0 <= i < v.len() ==> v[i] == fe(0real)
    ensures filled_to(v, f, 0)
{ reveal(filled_to); }
pub proof fn filled_step(v: Seq<F>, w: Seq<F>, f: spec_fn(int) -> real, k: int)
    requires filled_to(v, f, k), 0 <= k < v.len(), only_at(v, w, k), w[k]@ == f(k)
    ensures filled_to(w, f, k + 1)
{ reveal(filled_to); }
pub open spec fn only_at(v: Seq<F>, w: Seq<F>, k: int) -> bool { w.len() == v.len() && forall|i: int| 0 <= i < v.len() && i != k ==> #[trigger] w[i] == v[i] }
// values over the coset of the polynomial that is one on row j, else zero
pub open spec fn unit_row(v: Seq<F>, d: GeneralEvaluationDomain, e: GeneralEvaluationDomain, j: int) -> bool {
    v.len() == e.n() && exists|p: DensePolynomial| #![trigger p.coeffs]
        (forall|i: int| 0 <= i < d.n() ==> #[trigger] p.row(d, i) == if i == j { 1real } else { 0real })
        && (forall|i: int| 0 <= i < e.n() ==> (#[trigger] v[i])@ == p.on_coset(e, i))
}
pub open spec fn looks_at(l0: Seq<F>, lu: Seq<F>, q: FixedProverOracle, os: Seq<LookupProverOracles>, zs: Seq<WitnessProverOracle>, beta: real, gamma: real, i: int, n: nat) -> Seq<LookAt> {
    Seq::new(os.len(), |l: int| look_at_coset(l0, lu, q, os[l], zs[l], beta, gamma, i, n))
}
pub open spec fn vos_ok(vos: Seq<&dyn VirtualOracle>, n: nat, m: nat) -> bool {
    forall|j: int, q: OracleQuery| 0 <= j < vos.len() && (#[trigger] vos[j]).s_expr() is Some && #[trigger] uses(vos[j].s_expr().unwrap(), q) ==> rot_ok(q, n, m)
}
// everything that goes into the numerator at the i-th point of the coset
pub open spec fn numer_at(s: ProverState, p: ProverPreprocessedInput, ix: Index, l0: Seq<F>, lu: Seq<F>, alpha: real, beta: real, gamma: real, i: int) -> real {
    let n = s.domain.n();
    let e = ix.extended_coset_domain;
    let zs = s.z_polys.unwrap()@;
    combined(s.vos@, coset_env(columns(s, p), i, n, e.n()),
        if s.oracles_to_copy@.len() == 0 { None } else {
            Some(perm_at_coset(ix.permutation_argument, l0, lu, p.q_blind, s.oracles_to_copy@, p.permutation_oracles@, zs, i, rpow(e.w(), i as nat), beta, gamma, n)) },
        zs.len(),
        looks_at(l0, lu, p.q_blind, s.lookup_polys.unwrap()@, s.lookup_z_polys.unwrap()@, beta, gamma, i, n), alpha)
}
pub open spec fn quot_ready(s: ProverState, p: ProverPreprocessedInput, vk: VerifierKey) -> bool {
    let ix = vk.index_info;
    let n = s.domain.n();
    let m = ix.extended_coset_domain.n();
    let pa = ix.permutation_argument;
    &&& s.z_polys is Some && s.lookup_polys is Some && s.lookup_z_polys is Some
    &&& s.vos@.len() > 0 && vos_ok(s.vos@, n, m)
    &&& named_columns(s, p)
    &&& cols_ok(s.witness_oracles@, n, m) && cols_ok(s.instance_oracles@, n, m) && cols_ok(p.fixed_oracles@, n, m)
    &&& n > 1 && m > 0 && m % n == 0 && n <= m && m <= i64::MAX && m + m / n <= i64::MAX
    &&& pa.usable_rows < n && pa.usable_rows * (m / n) + m <= i64::MAX
    &&& col_ok(p.q_blind, n, m)
    &&& s.z_polys.unwrap()@.len() < usize::MAX / 4
    &&& s.oracles_to_copy@.len() > 0 ==> perm_ready(pa, s.oracles_to_copy@.len(), p.permutation_oracles@.len())
        && s.z_polys.unwrap()@.len() == chunk_count(s.oracles_to_copy@.len(), pa.max_cols as nat)
        && (forall|j: int| 0 <= j < s.oracles_to_copy@.len() ==> col_ok(*#[trigger] s.oracles_to_copy@[j], n, m))
        && cols_ok(p.permutation_oracles@, n, m) && cols_ok(s.z_polys.unwrap()@, n, m)
    &&& s.lookup_polys.unwrap()@.len() == ix.lookups@.len() && s.lookup_z_polys.unwrap()@.len() == ix.lookups@.len() && ix.lookups@.len() < usize::MAX / 5
    &&& forall|l: int| 0 <= l < ix.lookups@.len() ==> #[trigger] look_fits(p.q_blind, s.lookup_polys.unwrap()@[l], s.lookup_z_polys.unwrap()@[l], n, m)
    &&& forall|l: int| 0 <= l < ix.lookups@.len() ==> #[trigger] look_has(p.q_blind, s.lookup_polys.unwrap()@[l], s.lookup_z_polys.unwrap()@[l])
    &&& vk.zh_inverses_over_coset@.len() == m
}
pub open spec fn is_quot(s: ProverState, p: ProverPreprocessedInput, vk: VerifierKey, l0: Seq<F>, lu: Seq<F>, t: Seq<F>, alpha: real, beta: real, gamma: real) -> bool {
    let ix = vk.index_info;
    let e = ix.extended_coset_domain;
    &&& unit_row(l0, s.domain, e, 0) && unit_row(lu, s.domain, e, ix.permutation_argument.usable_rows as int)
    &&& t.len() == e.n()
    &&& forall|i: int| 0 <= i < e.n() ==> #[trigger] coset_of(t, e, i) == numer_at(s, p, ix, l0, lu, alpha, beta, gamma, i) * vk.zh_inverses_over_coset@[i]@
}
pub open spec fn is_chunk(o: WitnessProverOracle, t: Seq<F>, c: int, d: GeneralEvaluationDomain) -> bool {
    &&& forall|x: real| #[trigger] o.poly.at(x) == psum(chunk(t, c, d.n()), x)
    &&& o.evals@.len() == d.n() && forall|i: int| 0 <= i < d.n() ==> #[trigger] o.poly.row(d, i) == o.evals@[i]@
    &&& forall|x: Rotation| #[trigger] o.queried_rotations.has(x) <==> is_curr(x)
    &&& !o.should_permute
}
impl PIOPforPolyIdentity {
@fn src/piop/prover.rs PIOPforPolyIdentity::prover_quotient_round extend=vec collect3=Vec<F>
@spec
    requires quot_ready(*old(state), *preprocessed, *vk),
    ensures
        vos_answered(old(state).vos@, answers(old(state).witness_oracles_mapping, old(state).instance_oracles_mapping, old(state).fixed_oracles_mapping), old(state).vos@.len()) ==> r is Ok,
        r is Ok ==> exists|l0: Seq<F>, lu: Seq<F>, t: Seq<F>| #[trigger] is_quot(*old(state), *preprocessed, *vk, l0, lu, t, verifier_msg.alpha@, verifier_permutation_msg.beta@, verifier_permutation_msg.gamma@)
            && r->Ok_0@.len() == chunk_count(t.len(), old(state).domain.n())
            && forall|c: int| 0 <= c < r->Ok_0@.len() ==> is_chunk(#[trigger] r->Ok_0@[c], t, c, old(state).domain),
        r is Ok ==> final(state).quotient_chunks is Some && final(state).quotient_chunks.unwrap()@ == r->Ok_0@
            && *final(state) == (ProverState { quotient_chunks: final(state).quotient_chunks, ..*old(state) }),
@start
    broadcast use interp_ok, pw_by_steps;
    let ghost s0 = *old(state);
    let ghost al = verifier_msg.alpha@;
    let ghost be = verifier_permutation_msg.beta@;
    let ghost ga = verifier_permutation_msg.gamma@;
    let ghost d = s0.domain;
    let ghost e = vk.index_info.extended_coset_domain;
    let ghost n = d.n();
    let ghost m = e.n();
    let ghost k = s0.vos@.len();
    let ghost zp = s0.z_polys.unwrap()@;
    let ghost lp = s0.lookup_polys.unwrap()@;
    let ghost lz = s0.lookup_z_polys.unwrap()@;
    let ghost np = (2 * zp.len() + 1) as nat;
    let ghost cols = columns(s0, *preprocessed);
    let ghost res = answers(s0.witness_oracles_mapping, s0.instance_oracles_mapping, s0.fixed_oracles_mapping);
    proof { assert(from_power(al, 0)); assert(from_power(al, k)); assert(from_power(al, k + np)); }
@closureargs 0
    alpha_i: &F
@closure 0
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == alpha_i@ * al
@closureargs 1
    alpha_i: &F
@closure 1
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == alpha_i@ * al
@closureargs 2
    alpha_i: &F
@closure 2
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == alpha_i@ * al
@afterlet powers_of_alpha
    assert(powers_of_alpha@ == pw(al, 0, k));
@afterlet permutation_begin_with
    proof { let y = rpow(al, (k - 1) as nat); assert(y * al == al * y) by(nonlinear_arith); assert(permutation_begin_with@ == rpow(al, k)); }
@afterlet permutation_alphas
    assert(permutation_alphas@ == pw(al, k, np));
@afterlet lookups_begin_with
    proof { let y = rpow(al, (k + np - 1) as nat); assert(y * al == al * y) by(nonlinear_arith); assert(lookups_begin_with@ == rpow(al, k + np)); }
@afterlet lookup_alphas
    assert(lookup_alphas@ == pw(al, k + np, 5 * lp.len()));
@afterlet lookup_alpha_chunks
    proof { chunk_weights(al, k + np, lp.len()); }
@afterlet l0_coset_evals
    assert(unit_row(l0_coset_evals@, d, e, 0)) by { assert(l0.coeffs@.len() <= n); }
@afterlet lu_coset_evals
    let ghost (l0c, luc) = (l0_coset_evals@, lu_coset_evals@);
    let ghost fnum = |i: int| numer_at(s0, *preprocessed, vk.index_info, l0c, luc, al, be, ga, i);
    assert(unit_row(lu_coset_evals@, d, e, vk.index_info.permutation_argument.usable_rows as int)) by { assert(lu.coeffs@.len() <= n); }
    proof { filled_zero(numerator_evals@, fnum); }
@closureargs 3
    query: &OracleQuery
@closure 3
    -> (q: Result<F, PiopError>) requires rot_ok(*query, n, m) ensures q is Ok <==> res(*query), q is Ok ==> okv(q) == env(*query)
@loop 0
    invariant __n0 == m, numerator_evals@.len() == m, filled_to(numerator_evals@, fnum, __i0 as int),
@loopstart 0
    let ghost env = coset_env(cols, __i0 as int, n, m);
    let ghost v0 = numerator_evals@;
    let ghost ps = looks_at(l0c, luc, preprocessed.q_blind, lp, lz, be, ga, __i0 as int, n);
    proof { reveal(filled_to); assert(reading(env, res)); }
@loop 1
    invariant __n1 == k, only_at(v0, numerator_evals@, __i0 as int), vos_answered(s0.vos@, res, __i1 as nat),
        numerator_evals@[__i0 as int]@ == gates_sum(s0.vos@, env, al, __i1 as nat),
@beforecall get_expression 0
    proof {
        let x = s0.vos@[__i1 as int];
        assert(vo == x);
        assert forall|q: OracleQuery| x.s_expr() is Some && #[trigger] uses(x.s_expr().unwrap(), q) implies rot_ok(q, n, m) by { }
        assert forall|f: Expression, q: OracleQuery| x.s_expr() == Some(f) && #[trigger] uses(f, q) implies rot_ok(q, n, m) by { assert(uses(x.s_expr().unwrap(), q)); }
    }
@beforeloop 2
    let ghost (g, c) = (gates_sum(s0.vos@, env, al, k), numerator_evals@[__i0 as int]@ - gates_sum(s0.vos@, env, al, k));
@loop 2
    invariant __n2 == lp.len(), only_at(v0, numerator_evals@, __i0 as int),
        numerator_evals@[__i0 as int]@ == g + c + looks_sum(ps, al, k + np, __i2 as nat),
@loopstart 2
    proof { assert(look_fits(preprocessed.q_blind, lp[__i2 as int], lz[__i2 as int], n, m)); assert(look_has(preprocessed.q_blind, lp[__i2 as int], lz[__i2 as int])); }
@loopend 0
    proof { filled_step(v0, numerator_evals@, fnum, __i0 as int); }
@loop 3
    invariant __n3 == m, __v3@.len() == __i3,
        forall|i: int| 0 <= i < __i3 ==> (#[trigger] __v3@[i])@ == fnum(i) * vk.zh_inverses_over_coset@[i]@,
@loopstart 3
    proof { reveal(filled_to); assert(numerator_evals@[__i3 as int]@ == fnum(__i3 as int)); }
@loop 4
    invariant __v4@.len() == __i4, __n4 == chunk_count(m, n), forall|c: int| 0 <= c < __i4 ==> is_chunk(#[trigger] __v4@[c], t, c, d),
@loopstart 4
    proof { chunk_bounds(__i4 as int, m, n); }
@afterlet quotient
    let ghost t = choose|c: Seq<F>| #[trigger] trimmed(quotient.coeffs@, c) && c.len() == m && forall|i: int| 0 <= i < m ==> #[trigger] coset_of(c, e, i) == quotient_evals@[i]@;
@beforeloop 4
    proof {
        assert(quotient_coeffs@ =~= t) by {
            assert forall|i: int| 0 <= i < m implies #[trigger] quotient_coeffs@[i] == t[i] by { f_ext(quotient_coeffs@[i], t[i]); }
        }
        assert(is_quot(s0, *preprocessed, *vk, l0c, luc, t, al, be, ga));
    }
@afterlet quotient_chunks
    let ghost qc = quotient_chunks@;
@beforetail
    proof { assert(state.quotient_chunks.unwrap()@ =~= qc); }
@end
}
}
