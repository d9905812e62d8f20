verus! {
// how the columns are named: a label's position
pub open spec fn named<T>(m: BTreeMap<String, usize>, s: Seq<T>, l: Seq<char>) -> T { s[m.map()[KeyV::S(l)] as int] }
pub open spec fn has_name(m: BTreeMap<String, usize>, l: Seq<char>) -> bool { m.map().dom().contains(KeyV::S(l)) }
pub open spec fn names_ok(m: BTreeMap<String, usize>, n: nat) -> bool { forall|k: KeyV| #[trigger] m.map().dom().contains(k) ==> m.map()[k] < n }
pub open spec fn answers(wm: BTreeMap<String, usize>, im: BTreeMap<String, usize>, fm: BTreeMap<String, usize>) -> spec_fn(OracleQuery) -> bool {
    |q: OracleQuery| match q.oracle_type {
        OracleType::Witness => has_name(wm, q.label@),
        OracleType::Instance => has_name(im, q.label@),
        OracleType::Fixed => has_name(fm, q.label@),
    }
}
// the value of a column rot rows from row i
pub open spec fn rq<T: Instantiable>(o: T, i: int, rot: Rotation) -> real { o.s_evals()[(i + shift(rot, o.s_evals().len())) % (o.s_evals().len() as int)]@ }
// the columns a lookup reads, by name
pub struct Cols { pub wm: BTreeMap<String, usize>, pub im: BTreeMap<String, usize>, pub fm: BTreeMap<String, usize>,
    pub ws: Seq<WitnessProverOracle>, pub is: Seq<InstanceProverOracle>, pub fs: Seq<FixedProverOracle> }
pub open spec fn row_env(c: Cols, i: int) -> spec_fn(OracleQuery) -> real {
    |q: OracleQuery| match q.oracle_type {
        OracleType::Witness => rq(named(c.wm, c.ws, q.label@), i, q.rotation),
        OracleType::Instance => rq(named(c.im, c.is, q.label@), i, q.rotation),
        OracleType::Fixed => rq(named(c.fm, c.fs, q.label@), i, q.rotation),
    }
}
pub open spec fn coset_env(c: Cols, i: int, n: nat, m: nat) -> spec_fn(OracleQuery) -> real {
    |q: OracleQuery| match q.oracle_type {
        OracleType::Witness => cq(named(c.wm, c.ws, q.label@), i, shift(q.rotation, n), n, m),
        OracleType::Instance => cq(named(c.im, c.is, q.label@), i, shift(q.rotation, n), n, m),
        OracleType::Fixed => cq(named(c.fm, c.fs, q.label@), i, shift(q.rotation, n), n, m),
    }
}
// the compressed input and the compressed table, on a row and on a point of
// the extended coset
pub open spec fn input_row(c: Cols, es: Seq<Expression>, x: real) -> spec_fn(int) -> real { |i: int| comb(es, row_env(c, i), x, es.len()) }
pub open spec fn input_coset(c: Cols, es: Seq<Expression>, x: real, n: nat, m: nat) -> spec_fn(int) -> real { |i: int| comb(es, coset_env(c, i, n, m), x, es.len()) }
pub open spec fn table_row(tm: BTreeMap<String, usize>, ts: Seq<FixedProverOracle>, qs: Seq<OracleQuery>, x: real) -> spec_fn(int) -> real { |i: int| tcomb(qs, tab_row(tm, ts, i), x, qs.len()) }
pub open spec fn table_coset(tm: BTreeMap<String, usize>, ts: Seq<FixedProverOracle>, qs: Seq<OracleQuery>, x: real, n: nat, m: nat) -> spec_fn(int) -> real { |i: int| tcomb(qs, tab_coset(tm, ts, i, n, m), x, qs.len()) }
#[verifier::opaque]
pub open spec fn filled(v: Seq<F>, f: spec_fn(int) -> real) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == f(i) }
pub proof fn filled_none(v: Seq<F>, f: spec_fn(int) -> real) requires v.len() == 0 ensures filled(v, f) { reveal(filled); }
pub proof fn filled_push(v: Seq<F>, x: F, f: spec_fn(int) -> real) requires filled(v, f), x@ == f(v.len() as int) ensures filled(v.push(x), f) { reveal(filled); }
// the verifier's: what the columns were opened to at a point
pub struct VCols { pub wm: BTreeMap<String, usize>, pub im: BTreeMap<String, usize>, pub fm: BTreeMap<String, usize>,
    pub ws: Seq<WitnessVerifierOracle>, pub is: Seq<InstanceVerifierOracle>, pub fs: Seq<FixedVerifierOracle> }
pub open spec fn pt(x: real, w: real, n: nat, rot: Rotation) -> real { x * rpow(w, shift(rot, n)) }
pub open spec fn point_answers(c: VCols, x: real, w: real, n: nat) -> spec_fn(OracleQuery) -> bool {
    |q: OracleQuery| match q.oracle_type {
        OracleType::Witness => has_name(c.wm, q.label@) && named(c.wm, c.ws, q.label@).evals_at_challenges.map().dom().contains(KeyV::R(pt(x, w, n, q.rotation))),
        OracleType::Instance => has_name(c.im, q.label@),
        OracleType::Fixed => has_name(c.fm, q.label@) && named(c.fm, c.fs, q.label@).evals_at_challenges.map().dom().contains(KeyV::R(pt(x, w, n, q.rotation))),
    }
}
pub open spec fn point_env(c: VCols, x: real, w: real, n: nat) -> spec_fn(OracleQuery) -> real {
    |q: OracleQuery| match q.oracle_type {
        OracleType::Witness => named(c.wm, c.ws, q.label@).evals_at_challenges.map()[KeyV::R(pt(x, w, n, q.rotation))]@,
        OracleType::Instance => named(c.im, c.is, q.label@).poly.at(pt(x, w, n, q.rotation)),
        OracleType::Fixed => named(c.fm, c.fs, q.label@).evals_at_challenges.map()[KeyV::R(pt(x, w, n, q.rotation))]@,
    }
}
pub open spec fn tab_point_answers(tm: BTreeMap<String, usize>, ts: Seq<FixedVerifierOracle>, x: real, w: real, n: nat) -> spec_fn(OracleQuery) -> bool {
    |q: OracleQuery| q.oracle_type is Fixed && has_name(tm, q.label@) && named(tm, ts, q.label@).evals_at_challenges.map().dom().contains(KeyV::R(pt(x, w, n, q.rotation)))
}
pub open spec fn tab_point(tm: BTreeMap<String, usize>, ts: Seq<FixedVerifierOracle>, x: real, w: real, n: nat) -> spec_fn(OracleQuery) -> real {
    |q: OracleQuery| named(tm, ts, q.label@).evals_at_challenges.map()[KeyV::R(pt(x, w, n, q.rotation))]@
}
pub open spec fn opened_to(o: WitnessVerifierOracle, x: real, v: real) -> bool {
    o.evals_at_challenges.map().dom().contains(KeyV::R(x)) && o.evals_at_challenges.map()[KeyV::R(x)]@ == v
}
pub proof fn powers_unique(om: Seq<F>, w: real)
    requires is_powers(om, w)
    ensures forall|v: real| #[trigger] is_powers(om, v) ==> v == w
{
    assert forall|v: real| #[trigger] is_powers(om, v) implies v == w by {
        rpow_1(v); rpow_1(w);
        if om.len() >= 2 { assert(om[1]@ == rpow(v, 1nat) && om[1]@ == rpow(w, 1nat)); } else { assert(om.len() == 1); assert(rpow(v, 1nat) == 1real && rpow(w, 1nat) == 1real); }
    }
}
pub open spec fn tab_answers(tm: BTreeMap<String, usize>) -> spec_fn(OracleQuery) -> bool {
    |q: OracleQuery| q.oracle_type is Fixed && has_name(tm, q.label@)
}
pub open spec fn tab_row(tm: BTreeMap<String, usize>, ts: Seq<FixedProverOracle>, i: int) -> spec_fn(OracleQuery) -> real {
    |q: OracleQuery| rq(named(tm, ts, q.label@), i, q.rotation)
}
pub open spec fn tab_coset(tm: BTreeMap<String, usize>, ts: Seq<FixedProverOracle>, i: int, n: nat, m: nat) -> spec_fn(OracleQuery) -> real {
    |q: OracleQuery| cq(named(tm, ts, q.label@), i, shift(q.rotation, n), n, m)
}
pub open spec fn tcomb(qs: Seq<OracleQuery>, env: spec_fn(OracleQuery) -> real, x: real, k: nat) -> real decreases k {
    if k == 0 { 0real } else { tcomb(qs, env, x, (k - 1) as nat) + env(qs[k - 1]) * rpow(x, (k - 1) as nat) }
}
pub open spec fn tall(qs: Seq<OracleQuery>, res: spec_fn(OracleQuery) -> bool, k: nat) -> bool { forall|j: int| 0 <= j < k ==> res(#[trigger] qs[j]) }
// rotations the row and coset queries can follow without overflow
pub open spec fn rot_ok(q: OracleQuery, n: nat, m: nat) -> bool {
    q.rotation.degree * (m / n) + m <= i64::MAX && q.rotation.degree + n <= i64::MAX
}
pub open spec fn col_ok<T: Instantiable>(o: T, n: nat, m: nat) -> bool { fits(o, n, m) && has_ext(o) }
pub open spec fn cols_ok<T: Instantiable>(s: Seq<T>, n: nat, m: nat) -> bool { forall|j: int| 0 <= j < s.len() ==> col_ok(#[trigger] s[j], n, m) }
// what a lookup needs before its columns can be built
pub open spec fn look_ready(c: Cols, tm: BTreeMap<String, usize>, ts: Seq<FixedProverOracle>, es: Seq<Expression>, qs: Seq<OracleQuery>, u: int, n: nat, m: nat) -> bool {
    &&& names_ok(c.wm, c.ws.len()) && names_ok(c.im, c.is.len()) && names_ok(c.fm, c.fs.len()) && names_ok(tm, ts.len())
    &&& cols_ok(c.ws, n, m) && cols_ok(c.is, n, m) && cols_ok(c.fs, n, m) && cols_ok(ts, n, m)
    &&& n > 0 && m > 0 && m % n == 0 && n <= m && m <= i64::MAX && u <= n
    &&& forall|j: int, q: OracleQuery| 0 <= j < es.len() && #[trigger] uses(es[j], q) ==> rot_ok(q, n, m)
    &&& forall|j: int| 0 <= j < qs.len() ==> rot_ok(#[trigger] qs[j], n, m)
    &&& es.len() == qs.len()
}
pub open spec fn look_answered(c: Cols, tm: BTreeMap<String, usize>, es: Seq<Expression>, qs: Seq<OracleQuery>) -> bool {
    all_answered(es, answers(c.wm, c.im, c.fm), es.len()) && tall(qs, tab_answers(tm), qs.len())
}
// the four columns of a lookup
pub open spec fn lookup_cols(c: Cols, tm: BTreeMap<String, usize>, ts: Seq<FixedProverOracle>, es: Seq<Expression>, qs: Seq<OracleQuery>, theta: real, u: int,
    d: GeneralEvaluationDomain, e: GeneralEvaluationDomain, o: LookupProverOracles) -> bool
{
    let (a, s, ap, sp) = o;
    let n = d.n();
    let m = e.n();
    // a: the inputs compressed with theta, on every row and every point of
    // the coset; s: the table columns, the same way
    &&& poly_rows(a, d) && poly_rows(s, d) && poly_rows(ap, d) && poly_rows(sp, d)
    &&& has_ext(a) && has_ext(s) && a.s_ext().unwrap().len() == m && s.s_ext().unwrap().len() == m
    &&& a.evals@.len() == n && filled(a.evals@, input_row(c, es, theta))
    &&& filled(a.s_ext().unwrap(), input_coset(c, es, theta, n, m))
    &&& s.evals@.len() == n && filled(s.evals@, table_row(tm, ts, qs, theta))
    &&& filled(s.s_ext().unwrap(), table_coset(tm, ts, qs, theta, n, m))
    // a' and s': an arrangement of their first u rows
    &&& arranged(a.evals@.subrange(0, u), s.evals@.subrange(0, u), ap.evals@.subrange(0, u), sp.evals@.subrange(0, u))
    &&& all_in(a.evals@.subrange(0, u), s.evals@.subrange(0, u))
    &&& has_ext(ap) && has_ext(sp) && on_coset_of(ap.poly, e, ap.s_ext().unwrap()) && on_coset_of(sp.poly, e, sp.s_ext().unwrap())
    &&& forall|x: Rotation| #[trigger] ap.queried_rotations.has(x) <==> is_curr(x) || x == (Rotation { degree: 1, sign: Sign::Minus })
    &&& forall|x: Rotation| #[trigger] sp.queried_rotations.has(x) <==> is_curr(x)
}
pub open spec fn tail_drawn(ap: Seq<F>, sp: Seq<F>, u: nat, n: nat, before: Seq<real>, after: Seq<real>) -> bool {
    &&& after.len() == before.len() + 2 * (n - u)
    &&& forall|i: int| 0 <= i < before.len() ==> #[trigger] after[i] == before[i]
    &&& forall|i: int| u <= i < n ==> (#[trigger] ap[i])@ == after[before.len() + 2 * (i - u)]
    &&& forall|i: int| u <= i < n ==> (#[trigger] sp[i])@ == after[before.len() + 2 * (i - u) + 1]
}
pub open spec fn poly_rows(o: WitnessProverOracle, d: GeneralEvaluationDomain) -> bool {
    o.evals@.len() == d.n() && forall|i: int| 0 <= i < d.n() ==> #[trigger] o.poly.row(d, i) == o.evals@[i]@
}
@fn src/lookup/permute.rs permute_for_lookup import=1
@spec
    requires a@.len() == s@.len(),
    ensures arranged(a@, s@, r.0@, r.1@), all_in(a@, s@),
@end
impl LookupArgument {
@fn src/lookup/mod.rs LookupArgument::ident
@spec
    ensures r is Ok, okv(r) == x@,
@end
@fn src/lookup/mod.rs LookupArgument::neg
@spec
    ensures r is Ok <==> x is Ok, r is Ok ==> okv(r) == -okv(x),
@closureargs 0
    x_val: F
@closure 0
    -> (q: F) ensures q@ == -x_val@
@end
@fn src/lookup/mod.rs LookupArgument::add
@spec
    ensures r is Ok <==> x is Ok && y is Ok, r is Ok ==> okv(r) == okv(x) + okv(y),
@closureargs 0
    x_val: F
@closure 0
    -> (q: Result<F, PiopError>) ensures q is Ok <==> y is Ok, q is Ok ==> okv(q) == x_val@ + okv(y)
@closureargs 1
    y_val: F
@closure 1
    -> (q: F) ensures q@ == x_val@ + y_val@
@end
@fn src/lookup/mod.rs LookupArgument::mul
@spec
    ensures r is Ok <==> x is Ok && y is Ok, r is Ok ==> okv(r) == okv(x) * okv(y),
@closureargs 0
    x_val: F
@closure 0
    -> (q: Result<F, PiopError>) ensures q is Ok <==> y is Ok, q is Ok ==> okv(q) == x_val@ * okv(y)
@closureargs 1
    y_val: F
@closure 1
    -> (q: F) ensures q@ == x_val@ * y_val@
@end
@fn src/lookup/mod.rs LookupArgument::scale
@spec
    ensures r is Ok <==> x is Ok, r is Ok ==> okv(r) == okv(x) * y@,
@closureargs 0
    x_val: F
@closure 0
    -> (q: F) ensures q@ == x_val@ * y@
@end
@fn src/lookup/mod.rs LookupArgument::construct_a_and_s_polys_prover strip=R asserts=assumed
@spec
    requires
        look_ready(Cols { wm: *witness_oracles_mapping, im: *instance_oracles_mapping, fm: *fixed_oracles_mapping, ws: witness_oracles@, is: instance_oracles@, fs: fixed_oracles@ },
            *table_oracles_mapping, table_oracles@, lookup_expressions@, table_queries@, usable_rows as int, domain.n(), extended_coset_domain.n()),
    ensures
        look_answered(Cols { wm: *witness_oracles_mapping, im: *instance_oracles_mapping, fm: *fixed_oracles_mapping, ws: witness_oracles@, is: instance_oracles@, fs: fixed_oracles@ },
            *table_oracles_mapping, lookup_expressions@, table_queries@) ==> r is Ok,
        r is Ok ==> {
            &&& lookup_cols(Cols { wm: *witness_oracles_mapping, im: *instance_oracles_mapping, fm: *fixed_oracles_mapping, ws: witness_oracles@, is: instance_oracles@, fs: fixed_oracles@ },
                *table_oracles_mapping, table_oracles@, lookup_expressions@, table_queries@, theta@, usable_rows as int, *domain, *extended_coset_domain, r->Ok_0)
            &&& tail_drawn(r->Ok_0.2.evals@, r->Ok_0.3.evals@, usable_rows as nat, domain.n(), old(zk_rng).drawn(), final(zk_rng).drawn())
        },
@start
    broadcast use interp_ok, pows_by_steps;
    let ghost n = domain.n();
    let ghost m = extended_coset_domain.n();
    let ghost res = answers(*witness_oracles_mapping, *instance_oracles_mapping, *fixed_oracles_mapping);
    let ghost tres = tab_answers(*table_oracles_mapping);
    let ghost cols = Cols { wm: *witness_oracles_mapping, im: *instance_oracles_mapping, fm: *fixed_oracles_mapping, ws: witness_oracles@, is: instance_oracles@, fs: fixed_oracles@ };
    let ghost fa = input_row(cols, lookup_expressions@, theta@);
    let ghost fac = input_coset(cols, lookup_expressions@, theta@, n, m);
    let ghost fs = table_row(*table_oracles_mapping, table_oracles@, table_queries@, theta@);
    let ghost fsc = table_coset(*table_oracles_mapping, table_oracles@, table_queries@, theta@, n, m);
@closureargs 0
    theta_i: &F
@closure 0
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == theta_i@ * theta@
@afterlet powers_of_theta
    assert(ratio(theta@));
    assert(is_pows(powers_of_theta@, theta@) && powers_of_theta@.len() == lookup_arith);
@beforeloop 0
    proof { filled_none(a_original_domain_evals@, fa); filled_none(a_extended_coset_domain_evals@, fac); }
@loop 0
    invariant __n0 == n, a_original_domain_evals@.len() == __i0, filled(a_original_domain_evals@, fa),
        *zk_rng == *old(zk_rng),
@loopstart 0
    let ghost env0 = row_env(cols, __i0 as int);
    let ghost v0 = a_original_domain_evals@;
    assert(reading(env0, res));
@loopend 0
    proof { filled_push(v0, agg, fa); }
@closureargs 1
    query: &OracleQuery
@closure 1
    -> (q: Result<F, PiopError>) requires rot_ok(*query, n, m) ensures q is Ok <==> res(*query), q is Ok ==> okv(q) == env0(*query)
@loop 1
    invariant __n1 == lookup_expressions@.len(),
        all_answered(lookup_expressions@, res, __i1 as nat),
        agg@ == comb(lookup_expressions@, env0, theta@, __i1 as nat),
        *zk_rng == *old(zk_rng),
@loop 2
    invariant __n2 == m, a_extended_coset_domain_evals@.len() == __i2, filled(a_extended_coset_domain_evals@, fac),
        *zk_rng == *old(zk_rng),
@loopstart 2
    let ghost env2 = coset_env(cols, __i2 as int, n, m);
    let ghost v2 = a_extended_coset_domain_evals@;
    assert(reading(env2, res));
@loopend 2
    proof { filled_push(v2, agg, fac); }
@closureargs 2
    query: &OracleQuery
@closure 2
    -> (q: Result<F, PiopError>) requires rot_ok(*query, n, m) ensures q is Ok <==> res(*query), q is Ok ==> okv(q) == env2(*query)
@loop 3
    invariant __n3 == lookup_expressions@.len(),
        all_answered(lookup_expressions@, res, __i3 as nat),
        agg@ == comb(lookup_expressions@, env2, theta@, __i3 as nat),
        *zk_rng == *old(zk_rng),
@beforeloop 4
    proof { filled_none(s_original_domain_evals@, fs); filled_none(s_extended_coset_domain_evals@, fsc); }
@loop 4
    invariant __n4 == n, s_original_domain_evals@.len() == __i4, filled(s_original_domain_evals@, fs),
        *zk_rng == *old(zk_rng),
@loopstart 4
    let ghost env4 = tab_row(*table_oracles_mapping, table_oracles@, __i4 as int);
    let ghost v4 = s_original_domain_evals@;
@loopend 4
    proof { filled_push(v4, agg, fs); }
@loop 5
    invariant __n5 == table_queries@.len(),
        tall(table_queries@, tres, __i5 as nat),
        agg@ == tcomb(table_queries@, env4, theta@, __i5 as nat),
        *zk_rng == *old(zk_rng),
@loop 6
    invariant __n6 == m, s_extended_coset_domain_evals@.len() == __i6, filled(s_extended_coset_domain_evals@, fsc),
        *zk_rng == *old(zk_rng),
@loopstart 6
    let ghost env6 = tab_coset(*table_oracles_mapping, table_oracles@, __i6 as int, n, m);
    let ghost v6 = s_extended_coset_domain_evals@;
@loopend 6
    proof { filled_push(v6, agg, fsc); }
@loop 7
    invariant __n7 == table_queries@.len(),
        tall(table_queries@, tres, __i7 as nat),
        agg@ == tcomb(table_queries@, env6, theta@, __i7 as nat),
        *zk_rng == *old(zk_rng),
@loop 8
    invariant
        a_prime_evals@.len() == s_prime_evals@.len(), usable_rows <= a_prime_evals@.len(),
        (a_prime_evals@.len() == __i8 && __n8 == n) || (a_prime_evals@.len() == usable_rows + __i8 && __n8 == n - usable_rows),
        zk_rng.drawn().len() == old(zk_rng).drawn().len() + 2 * (a_prime_evals@.len() - usable_rows),
        forall|i: int| 0 <= i < old(zk_rng).drawn().len() ==> #[trigger] zk_rng.drawn()[i] == old(zk_rng).drawn()[i],
        forall|i: int| usable_rows <= i < a_prime_evals@.len() ==> (#[trigger] a_prime_evals@[i])@ == zk_rng.drawn()[old(zk_rng).drawn().len() + 2 * (i - usable_rows)],
        forall|i: int| usable_rows <= i < a_prime_evals@.len() ==> (#[trigger] s_prime_evals@[i])@ == zk_rng.drawn()[old(zk_rng).drawn().len() + 2 * (i - usable_rows) + 1],
        a_prime_evals@.subrange(0, usable_rows as int) == ap0, s_prime_evals@.subrange(0, usable_rows as int) == sp0,
@beforeloop 8
    let ghost ap0 = a_prime_evals@;
    let ghost sp0 = s_prime_evals@;
    proof { assert(a_prime_evals@.subrange(0, usable_rows as int) =~= ap0); assert(s_prime_evals@.subrange(0, usable_rows as int) =~= sp0); }
@loopstart 8
    let ghost ap1 = a_prime_evals@;
    let ghost sp1 = s_prime_evals@;
@loopend 8
    proof {
        assert(a_prime_evals@.subrange(0, usable_rows as int) =~= ap1.subrange(0, usable_rows as int));
        assert(s_prime_evals@.subrange(0, usable_rows as int) =~= sp1.subrange(0, usable_rows as int));
    }
@end
@fn src/lookup/mod.rs LookupArgument::construct_a_and_s_unpermuted_polys_verifier asserts=assumed
@spec
    requires
        names_ok(*witness_oracles_mapping, witness_oracles@.len()), names_ok(*instance_oracles_mapping, instance_oracles@.len()),
        names_ok(*fixed_oracles_mapping, fixed_oracles@.len()), names_ok(*table_oracles_mapping, table_oracles@.len()),
        omegas@.len() > 0, exists|w: real| is_powers(omegas@, w),
        lookup_expressions@.len() == table_queries@.len(),
    ensures forall|w: real| #[trigger] is_powers(omegas@, w) ==> {
        let cols = VCols { wm: *witness_oracles_mapping, im: *instance_oracles_mapping, fm: *fixed_oracles_mapping, ws: witness_oracles@, is: instance_oracles@, fs: fixed_oracles@ };
        let x = evaluation_challenge@;
        let n = omegas@.len();
        let k = lookup_expressions@.len();
        // refused exactly when a value needed was not opened; otherwise the
        // same combinations of the opened values
        &&& r is Ok <==> all_answered(lookup_expressions@, point_answers(cols, x, w, n), k) && tall(table_queries@, tab_point_answers(*table_oracles_mapping, table_oracles@, x, w, n), k)
        &&& r is Ok ==> opened_to(r->Ok_0.0, x, comb(lookup_expressions@, point_env(cols, x, w, n), theta@, k))
        &&& r is Ok ==> opened_to(r->Ok_0.1, x, tcomb(table_queries@, tab_point(*table_oracles_mapping, table_oracles@, x, w, n), theta@, k))
    },
    r is Err ==> from_piop(r->Err_0),
@start
    broadcast use interp_ok, pows_by_steps;
    let ghost w = choose|w: real| is_powers(omegas@, w);
    let ghost n = omegas@.len();
    let ghost x = evaluation_challenge@;
    let ghost cols = VCols { wm: *witness_oracles_mapping, im: *instance_oracles_mapping, fm: *fixed_oracles_mapping, ws: witness_oracles@, is: instance_oracles@, fs: fixed_oracles@ };
    let ghost env = point_env(cols, x, w, n);
    let ghost res = point_answers(cols, x, w, n);
    let ghost tenv = tab_point(*table_oracles_mapping, table_oracles@, x, w, n);
    let ghost tres = tab_point_answers(*table_oracles_mapping, table_oracles@, x, w, n);
    assert(reading(env, res));
    proof { powers_unique(omegas@, w); }
@closureargs 0
    theta_i: &F
@closure 0
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == theta_i@ * theta@
@afterlet powers_of_theta
    assert(ratio(theta@));
    assert(is_pows(powers_of_theta@, theta@) && powers_of_theta@.len() == lookup_arith);
@closureargs 1
    query: &OracleQuery
@closure 1
    -> (q: Result<F, PiopError>) ensures q is Ok <==> res(*query), q is Ok ==> okv(q) == env(*query)
@loop 0
    invariant __n0 == lookup_expressions@.len(),
        all_answered(lookup_expressions@, res, __i0 as nat),
        agg@ == comb(lookup_expressions@, env, theta@, __i0 as nat),
@loop 1
    invariant __n1 == table_queries@.len(),
        tall(table_queries@, tres, __i1 as nat),
        agg@ == tcomb(table_queries@, tenv, theta@, __i1 as nat),
@end
}
}
