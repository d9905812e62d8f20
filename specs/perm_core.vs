verus! {
@map Error<PC::Error> => TopError
@map R => ZkRng

// --------------------------------------------------- what a query returns
// prover: the value at the i-th element of the extended coset, s rows on
pub open spec fn cidx(i: int, s: nat, n: nat, m: nat) -> int { (i + s * (m / n)) % (m as int) }
pub open spec fn cq<T: Instantiable>(o: T, i: int, s: nat, n: nat, m: nat) -> real {
    o.s_ext().unwrap()[cidx(i, s, n, m)]@
}
// a column of n rows, with m values on the extended coset if it has any
pub open spec fn fits<T: Instantiable>(o: T, n: nat, m: nat) -> bool {
    o.s_evals().len() == n && (o.s_ext() is Some ==> o.s_ext().unwrap().len() == m)
}
pub open spec fn has_ext<T: Instantiable>(o: T) -> bool { o.s_ext() is Some }
pub open spec fn sizes(n: nat, m: nat, i: int, rot: nat) -> bool {
    0 < n && 0 < m && m % n == 0 && 0 <= i < m && m <= i64::MAX && rot * (m / n) + m <= i64::MAX
}
pub proof fn sizes_le(n: nat, m: nat, i: int, rot: nat, s: nat)
    requires sizes(n, m, i, rot), s <= rot
    ensures sizes(n, m, i, s)
{
    let k = m / n;
    assert(s * k <= rot * k) by(nonlinear_arith) requires s <= rot, k >= 0;
}
// verifier: the value recorded for a point
pub open spec fn wq(o: WitnessVerifierOracle, x: real) -> real { o.evals_at_challenges.map()[KeyV::R(x)]@ }
pub open spec fn wk(o: WitnessVerifierOracle, x: real) -> bool { o.evals_at_challenges.map().dom().contains(KeyV::R(x)) }
pub open spec fn fq(o: FixedVerifierOracle, x: real) -> real { o.evals_at_challenges.map()[KeyV::R(x)]@ }
pub open spec fn fk(o: FixedVerifierOracle, x: real) -> bool { o.evals_at_challenges.map().dom().contains(KeyV::R(x)) }

// ------------------------------------------------------------- the formula
// z0 * prod_{j<k} (w_j + beta s_j + gamma)
pub open spec fn den(z0: real, w: Seq<real>, s: Seq<real>, beta: real, gamma: real, k: nat) -> real decreases k {
    if k == 0 { z0 } else { den(z0, w, s, beta, gamma, (k - 1) as nat) * (w[k - 1] + beta * s[k - 1] + gamma) }
}
// z0 * prod_{j<k} (w_j + beta d_j x + gamma)
pub open spec fn num(z0: real, w: Seq<real>, d: Seq<real>, beta: real, gamma: real, x: real, k: nat) -> real decreases k {
    if k == 0 { z0 } else { num(z0, w, d, beta, gamma, x, (k - 1) as nat) * (w[k - 1] + beta * d[k - 1] * x + gamma) }
}
// one grand product:  (1 - (l_u + q)) (z(wx) prod(..) - z(x) prod(..))
pub open spec fn gp(lu: real, q: real, z: real, zn: real, w: Seq<real>, s: Seq<real>, d: Seq<real>, beta: real, gamma: real, x: real) -> real {
    (1real - (lu + q)) * (den(zn, w, s, beta, gamma, w.len()) - num(z, w, d, beta, gamma, x, w.len()))
}
// everything a permutation constraint is made of, at one point
pub struct PermAt {
    pub l0: real, pub lu: real, pub q: real,
    pub w: Seq<real>, pub s: Seq<real>, pub d: Seq<real>,
    pub z: Seq<real>, pub zn: Seq<real>, pub zu: Seq<real>,
    pub beta: real, pub gamma: real, pub x: real, pub cols: nat,
}
pub open spec fn gp_of(p: PermAt, i: int) -> real {
    gp(p.lu, p.q, p.z[i], p.zn[i], chunk(p.w, i, p.cols), chunk(p.s, i, p.cols), chunk(p.d, i, p.cols), p.beta, p.gamma, p.x)
}
// 1. z_0 starts at one; 2. every grand product
pub open spec fn perm_products(p: PermAt, a: Seq<F>, k: nat) -> real decreases k {
    if k == 0 { a[0]@ * p.l0 * (1real - p.z[0]) }
    else { perm_products(p, a, (k - 1) as nat) + a[k as int]@ * gp_of(p, k - 1) }
}
// 3. z_{i+1} starts where z_i ends
pub open spec fn perm_stitches(p: PermAt, a: Seq<F>, k: nat) -> real decreases k {
    if k == 0 { perm_products(p, a, p.z.len()) }
    else { perm_stitches(p, a, (k - 1) as nat) + a[(k + p.z.len()) as int]@ * p.l0 * (p.z[k as int] - p.zu[k - 1]) }
}
// 4. the last z ends in zero or one
pub open spec fn perm_value(p: PermAt, a: Seq<F>) -> real {
    perm_stitches(p, a, (p.z.len() - 1) as nat) + a.last()@ * p.lu * (p.z.last() * p.z.last() - p.z.last())
}
pub open spec fn reals(s: Seq<F>) -> Seq<real> { s.map_values(|f: F| f@) }
pub open spec fn col_row(ws: Seq<&WitnessProverOracle>, i: int) -> Seq<real> { ws.map_values(|o: &WitnessProverOracle| o.evals@[i]@) }
pub open spec fn sig_row(ss: Seq<FixedProverOracle>, i: int) -> Seq<real> { ss.map_values(|o: FixedProverOracle| o.evals@[i]@) }
pub open spec fn agg_den(ws: Seq<&WitnessProverOracle>, ss: Seq<FixedProverOracle>, beta: real, gamma: real, i: int) -> real {
    den(1real, col_row(ws, i), sig_row(ss, i), beta, gamma, ws.len())
}
pub open spec fn agg_num(ws: Seq<&WitnessProverOracle>, ds: Seq<F>, beta: real, gamma: real, d: GeneralEvaluationDomain, i: int) -> real {
    num(1real, col_row(ws, i), reals(ds), beta, gamma, rpow(d.w(), i as nat), ws.len())
}
pub open spec fn agg_step(z: Seq<F>, ws: Seq<&WitnessProverOracle>, ss: Seq<FixedProverOracle>, ds: Seq<F>, beta: real, gamma: real, d: GeneralEvaluationDomain, i: int) -> bool {
    z[i + 1]@ * agg_den(ws, ss, beta, gamma, i) == z[i]@ * agg_num(ws, ds, beta, gamma, d, i)
}
// the accumulator: starts at init, follows the recurrence on the first u
// rows, and is fresh randomness after row u
pub open spec fn is_agg(z: Seq<F>, init: real, ws: Seq<&WitnessProverOracle>, ss: Seq<FixedProverOracle>, ds: Seq<F>, beta: real, gamma: real, u: nat, d: GeneralEvaluationDomain) -> bool {
    &&& z.len() == d.n()
    &&& z[0]@ == init
    &&& forall|i: int| 0 <= i < u ==> #[trigger] agg_step(z, ws, ss, ds, beta, gamma, d, i)
}
pub open spec fn blinded(z: Seq<F>, u: nat, n: nat, before: Seq<real>, after: Seq<real>) -> bool {
    &&& after.len() == before.len() + (n - 1 - u)
    &&& forall|i: int| 0 <= i < before.len() ==> #[trigger] after[i] == before[i]
    &&& forall|i: int| 0 <= i < n - 1 - u ==> (#[trigger] z[u + 1 + i])@ == after[before.len() + i]
}
pub open spec fn open_den(ws: Seq<&WitnessProverOracle>, ss: Seq<FixedProverOracle>, beta: real, gamma: real, u: nat) -> bool {
    forall|i: int| 0 <= i < u ==> #[trigger] agg_den(ws, ss, beta, gamma, i) != 0real
}
#[verifier::external_body]
pub fn fmt1<A>(s: &str, a: &A) -> (r: String) { unimplemented!() }
pub open spec fn rots_are(b: BTreeSet<Rotation>, c: Rotation, n: Rotation) -> bool {
    forall|x: Rotation| #[trigger] b.has(x) <==> x == c || x == n
}
pub open spec fn is_plus(x: Rotation, k: nat) -> bool { x == (Rotation { degree: k as usize, sign: Sign::Plus }) }
pub open spec fn is_curr(x: Rotation) -> bool { is_plus(x, 0) }
pub open spec fn is_next(x: Rotation) -> bool { is_plus(x, 1) }
pub struct GrandProductArgument { pub _field: PhantomData<F> }
impl GrandProductArgument {
@fn src/permutation/grand_product.rs GrandProductArgument::construct_agg_poly strip=R collect0=Vec<&Vec<F>> collect1=Vec<&Vec<F>>
@spec
    requires
        u < domain.n(), domain.n() <= usize::MAX,
        permutation_oracles@.len() == witness_oracles@.len(), deltas@.len() == witness_oracles@.len(),
        forall|j: int| 0 <= j < witness_oracles@.len() ==> (#[trigger] witness_oracles@[j]).evals@.len() == domain.n(),
        forall|j: int| 0 <= j < permutation_oracles@.len() ==> (#[trigger] permutation_oracles@[j]).evals@.len() == domain.n(),
        open_den(witness_oracles@, permutation_oracles@, beta@, gamma@, u as nat),
        domain.n() <= extended_coset_domain.n(),
    ensures
        is_agg(r.evals@, init_value@, witness_oracles@, permutation_oracles@, deltas@, beta@, gamma@, u as nat, *domain),
        blinded(r.evals@, u as nat, domain.n(), old(zk_rng).drawn(), final(zk_rng).drawn()),
        forall|i: int| 0 <= i < domain.n() ==> #[trigger] r.poly.row(*domain, i) == r.evals@[i]@,
        r.evals_at_coset_of_extended_domain is Some,
        on_coset_of(r.poly, *extended_coset_domain, r.evals_at_coset_of_extended_domain.unwrap()@),
        !r.should_permute,
        forall|x: Rotation| #[trigger] r.queried_rotations.has(x) <==> is_curr(x) || is_next(x) || (!is_last && is_plus(x, u as nat)),
@loop 0
    invariant
        __v0@.len() == __i0,
        forall|j: int| 0 <= j < __i0 ==> (#[trigger] __v0@[j])@ == witness_oracles@[j].evals@,
@loop 1
    invariant
        __v1@.len() == __i1,
        forall|j: int| 0 <= j < __i1 ==> (#[trigger] __v1@[j])@ == permutation_oracles@[j].evals@,
@loop 2
    invariant
        z_evals@.len() == __i2 + 1,
        z_evals@[0]@ == init_value@,
        z_prev == z_evals@.last(),
        forall|j: int| 0 <= j < __i2 ==> #[trigger] agg_step(z_evals@, witness_oracles@, permutation_oracles@, deltas@, beta@, gamma@, *domain, j),
        __n2 == u, u < domain.n(),
        wi_evals@.len() == witness_oracles@.len(), sigma_evals@.len() == witness_oracles@.len(),
        forall|j: int| 0 <= j < wi_evals@.len() ==> (#[trigger] wi_evals@[j])@ == witness_oracles@[j].evals@,
        forall|j: int| 0 <= j < sigma_evals@.len() ==> (#[trigger] sigma_evals@[j])@ == permutation_oracles@[j].evals@,
        *zk_rng == *old(zk_rng),
@loop 3
    invariant
        __n3 == witness_oracles@.len(),
        denom@ == den(1real, col_row(witness_oracles@, __i2 as int), sig_row(permutation_oracles@, __i2 as int), beta@, gamma@, __i3 as nat),
        nom@ == num(1real, col_row(witness_oracles@, __i2 as int), reals(deltas@), beta@, gamma@, rpow(domain.w(), __i2 as nat), __i3 as nat),
@loopstart 2
    let ghost z_old = z_evals@;
    proof { assert(agg_den(witness_oracles@, permutation_oracles@, beta@, gamma@, __i2 as int) != 0real); }
@loopend 2
    proof {
        assert(forall|j: int| 0 <= j < __i2 ==> agg_step(z_old, witness_oracles@, permutation_oracles@, deltas@, beta@, gamma@, *domain, j) ==>
            #[trigger] agg_step(z_evals@, witness_oracles@, permutation_oracles@, deltas@, beta@, gamma@, *domain, j));
        assert(agg_den(witness_oracles@, permutation_oracles@, beta@, gamma@, __i2 as int) != 0real);
        step_product(z_old.last()@, nom@, denom@, z_prev@);
        assert(agg_step(z_evals@, witness_oracles@, permutation_oracles@, deltas@, beta@, gamma@, *domain, __i2 as int));
    }
@loop 4
    invariant
        z_evals@.len() == u + 1 + __i4, u + 1 + __n4 == domain.n(),
        z_evals@[0]@ == init_value@,
        forall|j: int| 0 <= j < u ==> #[trigger] agg_step(z_evals@, witness_oracles@, permutation_oracles@, deltas@, beta@, gamma@, *domain, j),
        zk_rng.drawn().len() == old(zk_rng).drawn().len() + __i4,
        forall|i: int| 0 <= i < old(zk_rng).drawn().len() ==> #[trigger] zk_rng.drawn()[i] == old(zk_rng).drawn()[i],
        forall|i: int| 0 <= i < __i4 ==> (#[trigger] z_evals@[u + 1 + i])@ == zk_rng.drawn()[old(zk_rng).drawn().len() + i],
@loopstart 4
    let ghost z_old4 = z_evals@;
@loopend 4
    proof {
        assert(forall|j: int| 0 <= j < u ==> agg_step(z_old4, witness_oracles@, permutation_oracles@, deltas@, beta@, gamma@, *domain, j) ==>
            #[trigger] agg_step(z_evals@, witness_oracles@, permutation_oracles@, deltas@, beta@, gamma@, *domain, j));
    }
@afterlet queried_rotations
    let ghost rots = queried_rotations;
    proof {
        assert(forall|x: Rotation| #[trigger] rots.has(x) ==> is_curr(x) || is_next(x));
        assert(forall|x: Rotation| is_curr(x) ==> #[trigger] rots.has(x));
        assert(forall|x: Rotation| is_next(x) ==> #[trigger] rots.has(x));
    }
@end
@fn src/permutation/grand_product.rs GrandProductArgument::instantiate_argument_at_omega_i
@spec
    requires
        deltas@.len() == witness_oracles@.len(), permutation_oracles@.len() == witness_oracles@.len(),
        sizes(_domain_size as nat, q_last_coset_evals@.len(), omega_index as int, 1),
        fits(*q_blind, _domain_size as nat, q_last_coset_evals@.len()), fits(*z, _domain_size as nat, q_last_coset_evals@.len()),
        forall|j: int| 0 <= j < witness_oracles@.len() ==> fits(*#[trigger] witness_oracles@[j], _domain_size as nat, q_last_coset_evals@.len()),
        forall|j: int| 0 <= j < permutation_oracles@.len() ==> fits(#[trigger] permutation_oracles@[j], _domain_size as nat, q_last_coset_evals@.len()),
    ensures
        r is Ok <==> has_ext(*q_blind) && has_ext(*z)
            && (forall|j: int| 0 <= j < witness_oracles@.len() ==> has_ext(*#[trigger] witness_oracles@[j]))
            && (forall|j: int| 0 <= j < permutation_oracles@.len() ==> has_ext(#[trigger] permutation_oracles@[j])),
        r is Ok ==> r->Ok_0@ == {
            let n = _domain_size as nat;
            let m = q_last_coset_evals@.len();
            let i = omega_index as int;
            gp(q_last_coset_evals@[i]@, cq(*q_blind, i, 0, n, m), cq(*z, i, 0, n, m), cq(*z, i, 1nat % n, n, m),
                wcq(witness_oracles@, i, n, m), fcq(permutation_oracles@, i, n, m), reals(deltas@), beta@, gamma@, coset_shift() * omega@)
        },
@start
    let ghost n = _domain_size as nat;
    let ghost m = q_last_coset_evals@.len();
    let ghost i = omega_index as int;
    let ghost w = wcq(witness_oracles@, i, n, m);
    let ghost s = fcq(permutation_oracles@, i, n, m);
    proof { sizes_le(n, m, i, 1, 0); }
@loop 0
    invariant
        __n0 == witness_oracles@.len(),
        forall|j: int| 0 <= j < __i0 ==> has_ext(*#[trigger] witness_oracles@[j]),
        forall|j: int| 0 <= j < __i0 ==> has_ext(#[trigger] permutation_oracles@[j]),
        lhs@ == den(cq(*z, i, 1nat % n, n, m), w, s, beta@, gamma@, __i0 as nat),
        rhs@ == num(cq(*z, i, 0, n, m), w, reals(deltas@), beta@, gamma@, coset_shift() * omega@, __i0 as nat),
@loopstart 0
    proof { assoc4(beta@, deltas@[__i0 as int]@, coset_shift(), omega@); }
@end
@fn src/permutation/grand_product.rs GrandProductArgument::open_argument
@spec
    requires
        deltas@.len() == witness_oracles@.len(), permutation_oracles@.len() == witness_oracles@.len(),
    ensures
        r is Ok <==> fk(*q_blind, evaluation_challenge@) && wk(*z, evaluation_challenge@) && wk(*z, rpow(domain.w(), 1) * evaluation_challenge@)
            && (forall|j: int| 0 <= j < witness_oracles@.len() ==> wk(*#[trigger] witness_oracles@[j], evaluation_challenge@))
            && (forall|j: int| 0 <= j < permutation_oracles@.len() ==> fk(#[trigger] permutation_oracles@[j], evaluation_challenge@)),
        r is Ok ==> r->Ok_0@ == gp(q_last_eval@, fq(*q_blind, evaluation_challenge@), wq(*z, evaluation_challenge@), wq(*z, rpow(domain.w(), 1) * evaluation_challenge@),
                wvq(witness_oracles@, evaluation_challenge@), fvq(permutation_oracles@, evaluation_challenge@), reals(deltas@), beta@, gamma@, evaluation_challenge@),
@start
    let ghost x = evaluation_challenge@;
    let ghost w = wvq(witness_oracles@, x);
    let ghost s = fvq(permutation_oracles@, x);
@loop 0
    invariant
        __n0 == witness_oracles@.len(),
        forall|j: int| 0 <= j < __i0 ==> wk(*#[trigger] witness_oracles@[j], evaluation_challenge@),
        forall|j: int| 0 <= j < __i0 ==> fk(#[trigger] permutation_oracles@[j], evaluation_challenge@),
        lhs@ == den(wq(*z, rpow(domain.w(), 1) * x), w, s, beta@, gamma@, __i0 as nat),
        rhs@ == num(wq(*z, x), w, reals(deltas@), beta@, gamma@, x, __i0 as nat),
@end
}
pub open spec fn wcq(ws: Seq<&WitnessProverOracle>, i: int, n: nat, m: nat) -> Seq<real> { ws.map_values(|o: &WitnessProverOracle| cq(*o, i, 0, n, m)) }
pub open spec fn fcq(ss: Seq<FixedProverOracle>, i: int, n: nat, m: nat) -> Seq<real> { ss.map_values(|o: FixedProverOracle| cq(o, i, 0, n, m)) }
pub open spec fn wvq(ws: Seq<&WitnessVerifierOracle>, x: real) -> Seq<real> { ws.map_values(|o: &WitnessVerifierOracle| wq(*o, x)) }
pub open spec fn fvq(ss: Seq<FixedVerifierOracle>, x: real) -> Seq<real> { ss.map_values(|o: FixedVerifierOracle| fq(o, x)) }
pub proof fn assoc4(a: real, b: real, c: real, d: real)
    ensures a * b * c * d == a * b * (c * d), a * b * (c * d) == a * (b * (c * d))
{ assert(a * b * c * d == a * b * (c * d)) by(nonlinear_arith); assert(a * b * (c * d) == a * (b * (c * d))) by(nonlinear_arith); }
// z' = z * (nom * 1/den)  gives  z' den = z nom
pub proof fn step_product(z: real, nom: real, den: real, z2: real)
    requires den != 0real, exists|inv: real| #[trigger] is_inv(inv, den) && z2 == z * (nom * inv)
    ensures z2 * den == z * nom
{
    let inv = choose|inv: real| #[trigger] is_inv(inv, den) && z2 == z * (nom * inv);
    assert(z2 * den == z * nom * (inv * den)) by(nonlinear_arith) requires z2 == z * (nom * inv);
    let t = z * nom;
    assert(t * 1real == t) by(nonlinear_arith);
}
}
verus! {
@item src/permutation/mod.rs PermutationArgument
@item src/data_structures.rs PermutationInfo
pub open spec fn aggc(zs: Seq<WitnessProverOracle>, i: int, s: nat, n: nat, m: nat) -> Seq<real> { zs.map_values(|o: WitnessProverOracle| cq(o, i, s, n, m)) }
pub open spec fn aggv(zs: Seq<WitnessVerifierOracle>, x: real) -> Seq<real> { zs.map_values(|o: WitnessVerifierOracle| wq(o, x)) }
pub open spec fn perm_ready(p: PermutationArgument, ws: nat, ss: nat) -> bool {
    p.max_cols > 0 && ws == ss && ws == p.deltas@.len() && ws > 0
}
// the constraint at the i-th point of the extended coset
pub open spec fn perm_at_coset(p: PermutationArgument, l0: Seq<F>, lu: Seq<F>, q: FixedProverOracle, ws: Seq<&WitnessProverOracle>, ss: Seq<FixedProverOracle>,
    zs: Seq<WitnessProverOracle>, i: int, omega: real, beta: real, gamma: real, n: nat) -> PermAt
{
    let m = lu.len();
    PermAt {
        l0: l0[i]@, lu: lu[i]@, q: cq(q, i, 0, n, m), w: wcq(ws, i, n, m), s: fcq(ss, i, n, m), d: reals(p.deltas@),
        z: aggc(zs, i, 0, n, m), zn: aggc(zs, i, 1nat % n, n, m), zu: aggc(zs, i, p.usable_rows as nat % n, n, m),
        beta: beta, gamma: gamma, x: coset_shift() * omega, cols: p.max_cols as nat,
    }
}
// the constraint at the evaluation point
pub open spec fn perm_at_point(p: PermutationArgument, l0: real, lu: real, q: FixedVerifierOracle, ws: Seq<&WitnessVerifierOracle>, ss: Seq<FixedVerifierOracle>,
    zs: Seq<WitnessVerifierOracle>, w: real, x: real, beta: real, gamma: real) -> PermAt
{
    PermAt {
        l0: l0, lu: lu, q: fq(q, x), w: wvq(ws, x), s: fvq(ss, x), d: reals(p.deltas@),
        z: aggv(zs, x), zn: aggv(zs, rpow(w, 1) * x), zu: aggv(zs, rpow(w, p.usable_rows as nat) * x),
        beta: beta, gamma: gamma, x: x, cols: p.max_cols as nat,
    }
}
pub proof fn chunks_commute(ws: Seq<&WitnessProverOracle>, ss: Seq<FixedProverOracle>, ds: Seq<F>, c: int, k: nat, i: int, n: nat, m: nat)
    requires k > 0, ws.len() == ss.len(), ws.len() == ds.len(), 0 <= c < chunk_count(ws.len(), k)
    ensures wcq(chunk(ws, c, k), i, n, m) == chunk(wcq(ws, i, n, m), c, k),
        fcq(chunk(ss, c, k), i, n, m) == chunk(fcq(ss, i, n, m), c, k),
        reals(chunk(ds, c, k)) == chunk(reals(ds), c, k),
{
    chunk_bounds(c, ws.len(), k);
    assert(wcq(chunk(ws, c, k), i, n, m) =~= chunk(wcq(ws, i, n, m), c, k));
    assert(fcq(chunk(ss, c, k), i, n, m) =~= chunk(fcq(ss, i, n, m), c, k));
    assert(reals(chunk(ds, c, k)) =~= chunk(reals(ds), c, k));
}
pub proof fn chunks_commute_v(ws: Seq<&WitnessVerifierOracle>, ss: Seq<FixedVerifierOracle>, ds: Seq<F>, c: int, k: nat, x: real)
    requires k > 0, ws.len() == ss.len(), ws.len() == ds.len(), 0 <= c < chunk_count(ws.len(), k)
    ensures wvq(chunk(ws, c, k), x) == chunk(wvq(ws, x), c, k),
        fvq(chunk(ss, c, k), x) == chunk(fvq(ss, x), c, k),
        reals(chunk(ds, c, k)) == chunk(reals(ds), c, k),
{
    chunk_bounds(c, ws.len(), k);
    assert(wvq(chunk(ws, c, k), x) =~= chunk(wvq(ws, x), c, k));
    assert(fvq(chunk(ss, c, k), x) =~= chunk(fvq(ss, x), c, k));
    assert(reals(chunk(ds, c, k)) =~= chunk(reals(ds), c, k));
}
pub proof fn covered<T>(s: Seq<T>, c: int, k: nat, p: spec_fn(T) -> bool)
    requires k > 0, 0 <= c < chunk_count(s.len(), k),
        forall|j: int| 0 <= j < chunk_lo(c, k) ==> p(#[trigger] s[j]),
        forall|j: int| 0 <= j < chunk(s, c, k).len() ==> p(#[trigger] chunk(s, c, k)[j]),
    ensures forall|j: int| 0 <= j < chunk_lo(c + 1, k) && j < s.len() ==> p(#[trigger] s[j]),
        c + 1 == chunk_count(s.len(), k) ==> forall|j: int| 0 <= j < s.len() ==> p(#[trigger] s[j]),
{
    chunk_bounds(c, s.len(), k);
    assert((c + 1) * k == c * k + k) by(nonlinear_arith);
    assert forall|j: int| 0 <= j < chunk_hi(c, s.len(), k) implies p(#[trigger] s[j]) by {
        if j >= chunk_lo(c, k) { assert(chunk(s, c, k)[j - chunk_lo(c, k)] == s[j]); }
    }
}
pub open spec fn chunk_open(ws: Seq<&WitnessProverOracle>, ss: Seq<FixedProverOracle>, k: nat, beta: real, gamma: real, u: nat, c: int) -> bool {
    open_den(chunk(ws, c, k), chunk(ss, c, k), beta, gamma, u)
}
// accumulator c starts at one (c = 0) or where accumulator c-1 ended
pub open spec fn agg_init(zs: Seq<WitnessProverOracle>, u: nat, c: int) -> real { if c == 0 { 1real } else { zs[c - 1].evals@[u as int]@ } }
pub open spec fn chunk_agg(zs: Seq<WitnessProverOracle>, p: PermutationArgument, ws: Seq<&WitnessProverOracle>, ss: Seq<FixedProverOracle>, beta: real, gamma: real, d: GeneralEvaluationDomain, c: int) -> bool {
    let k = p.max_cols as nat;
    is_agg(zs[c].evals@, agg_init(zs, p.usable_rows as nat, c), chunk(ws, c, k), chunk(ss, c, k), chunk(p.deltas@, c, k), beta, gamma, p.usable_rows as nat, d)
}
// its polynomial takes these values, is known on the extended coset, and is opened here, one row on and (but for the last) u rows on
pub open spec fn chunk_poly_of(zs: Seq<WitnessProverOracle>, p: PermutationArgument, d: GeneralEvaluationDomain, e: GeneralEvaluationDomain, c: int, count: int) -> bool {
    let z = zs[c];
    &&& forall|i: int| 0 <= i < d.n() ==> #[trigger] z.poly.row(d, i) == z.evals@[i]@
    &&& z.evals_at_coset_of_extended_domain is Some
    &&& on_coset_of(z.poly, e, z.evals_at_coset_of_extended_domain.unwrap()@)
    &&& forall|x: Rotation| #[trigger] z.queried_rotations.has(x) <==> is_curr(x) || is_next(x) || (c != count - 1 && is_plus(x, p.usable_rows as nat))
}
pub open spec fn chunk_poly(zs: Seq<WitnessProverOracle>, p: PermutationArgument, d: GeneralEvaluationDomain, e: GeneralEvaluationDomain, c: int) -> bool {
    chunk_poly_of(zs, p, d, e, c, zs.len() as int)
}
// what the accumulators of the copy constraints need before they can be built
pub open spec fn copies_ready(p: PermutationArgument, ws: Seq<&WitnessProverOracle>, ss: Seq<FixedProverOracle>, beta: real, gamma: real, d: GeneralEvaluationDomain, e: GeneralEvaluationDomain) -> bool {
    &&& perm_ready(p, ws.len(), ss.len())
    &&& p.usable_rows < d.n() && d.n() <= usize::MAX && d.n() <= e.n()
    &&& forall|j: int| 0 <= j < ws.len() ==> (#[trigger] ws[j]).evals@.len() == d.n()
    &&& forall|j: int| 0 <= j < ss.len() ==> (#[trigger] ss[j]).evals@.len() == d.n()
    &&& forall|c: int| 0 <= c < chunk_count(ws.len(), p.max_cols as nat) ==> #[trigger] chunk_open(ws, ss, p.max_cols as nat, beta, gamma, p.usable_rows as nat, c)
}
// the accumulators, their blinding aside
pub open spec fn copy_cols(zs: Seq<WitnessProverOracle>, p: PermutationArgument, ws: Seq<&WitnessProverOracle>, ss: Seq<FixedProverOracle>, beta: real, gamma: real, d: GeneralEvaluationDomain, e: GeneralEvaluationDomain) -> bool {
    &&& zs.len() == chunk_count(ws.len(), p.max_cols as nat)
    &&& forall|c: int| 0 <= c < zs.len() ==> #[trigger] chunk_agg(zs, p, ws, ss, beta, gamma, d, c)
    &&& forall|c: int| 0 <= c < zs.len() ==> #[trigger] chunk_poly(zs, p, d, e, c)
}
// every row after u of every accumulator is a draw of its own
pub open spec fn draw_of(c: int, i: int, t: int) -> int { c * t + i }
pub open spec fn all_blinded(zs: Seq<WitnessProverOracle>, u: nat, n: nat, before: Seq<real>, after: Seq<real>) -> bool {
    let t = n - 1 - u;
    &&& after.len() == before.len() + zs.len() * t
    &&& forall|i: int| 0 <= i < before.len() ==> #[trigger] after[i] == before[i]
    &&& forall|c: int, i: int| 0 <= c < zs.len() && 0 <= i < t ==> (#[trigger] zs[c].evals@[u + 1 + i])@ == after[before.len() + draw_of(c, i, t)]
}
pub proof fn blinded_more(zs: Seq<WitnessProverOracle>, zs2: Seq<WitnessProverOracle>, u: nat, n: nat, d: Seq<real>, d1: Seq<real>, d2: Seq<real>)
    requires all_blinded(zs, u, n, d, d1), zs2.len() == zs.len() + 1, forall|i: int| 0 <= i < zs.len() ==> zs[i] == #[trigger] zs2[i],
        blinded(zs2.last().evals@, u, n, d1, d2), u < n
    ensures all_blinded(zs2, u, n, d, d2)
{
    let t = n - 1 - u;
    let k = zs.len() as int;
    assert((k + 1) * t == k * t + t) by(nonlinear_arith);
    assert forall|c: int, i: int| 0 <= c < zs2.len() && 0 <= i < t implies (#[trigger] zs2[c].evals@[u + 1 + i])@ == d2[d.len() + draw_of(c, i, t)] by {
        if c < k {
            assert(zs2[c] == zs[c]);
            assert(zs[c].evals@[u + 1 + i]@ == d1[d.len() + draw_of(c, i, t)]);
            assert(0 <= c * t && c * t + t <= k * t) by(nonlinear_arith) requires 0 <= c, c + 1 <= k, t >= 0;
        } else {
            assert(draw_of(c, i, t) == k * t + i);
        }
    }
}
pub proof fn ceil_is_chunk_count(n: nat, k: nat)
    requires k > 0
    ensures chunk_count(n, k) == (n + k - 1) / (k as int), (n + k - 1) / (k as int) <= n
{
    let q = (n + k - 1) / (k as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + k - 1, k as int);
    let m = (n + k - 1) % (k as int);
    assert(q >= 0) by(nonlinear_arith) requires n + k - 1 == k * q + m, m < k, k > 0, n >= 0, m >= 0;
    assert(n <= q * k) by(nonlinear_arith) requires n + k - 1 == k * q + m, m < k;
    if q > 0 { assert((q - 1) * k < n) by(nonlinear_arith) requires n + k - 1 == k * q + m, m >= 0; }
    assert(q <= n) by(nonlinear_arith) requires n + k - 1 == k * q + m, k > 0, m >= 0, q >= 0, n >= 0;
    chunk_count_is(n, k, q as nat);
}
impl PermutationArgument {
@fn src/permutation/mod.rs PermutationArgument::new
@spec
    requires scaling_factor > 0
    ensures r.max_cols == scaling_factor - 1, r.usable_rows == perm_params.u, r.deltas@ == perm_params.deltas@
@end
@fn src/permutation/mod.rs PermutationArgument::number_of_z_polys
@spec
    requires self.max_cols > 0, self.max_cols < usize::MAX / 2, num_of_polys_to_copy < usize::MAX / 2,
    ensures r == chunk_count(num_of_polys_to_copy as nat, self.max_cols as nat),
@start
    proof {
        ceil_is_chunk_count(num_of_polys_to_copy as nat, self.max_cols as nat);
        let (n, k) = (num_of_polys_to_copy as nat, self.max_cols as nat);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, k as int);
        let (q, m) = (n / k, n % k);
        let c = if m != 0 { q + 1 } else { q };
        assert(n <= c * k) by(nonlinear_arith) requires n == k * q + m, m < k, c == q + 1 || (c == q && m == 0);
        if c > 0 { assert((c - 1) * k < n) by(nonlinear_arith) requires n == k * q + m, c == q + 1 && m > 0 || c == q, c > 0, k > 0; }
        if n == 0 { assert(q == 0 && m == 0) by(nonlinear_arith) requires n == 0, n == k * q + m, k > 0, q >= 0, m >= 0; }
        assert(q <= n) by(nonlinear_arith) requires n == k * q + m, k > 0, q >= 0, m >= 0;
        if m != 0 { assert(q < n) by(nonlinear_arith) requires n == k * q + m, k > 0, q >= 0, m > 0; }
        chunk_count_is(n, k, c);
    }
@end
@fn src/permutation/mod.rs PermutationArgument::number_of_alphas
@spec
    requires num_of_z_polys < usize::MAX / 2
    ensures r == 2 * num_of_z_polys + 1
@end
@fn src/permutation/mod.rs PermutationArgument::construct_agg_polys strip=R asserts=assumed
@spec
    requires
        copies_ready(*self, witness_oracles@, permutation_oracles@, beta@, gamma@, *domain, *extended_coset_domain),
    ensures
        copy_cols(r@, *self, witness_oracles@, permutation_oracles@, beta@, gamma@, *domain, *extended_coset_domain),
        all_blinded(r@, self.usable_rows as nat, domain.n(), old(zk_rng).drawn(), final(zk_rng).drawn()),
@start
    let ghost k = self.max_cols as nat;
    let ghost u = self.usable_rows as nat;
    let ghost n = domain.n();
    proof { chunk_count_bounds(witness_oracles@.len(), k); }
@loop 0
    invariant
        __n0 == chunk_count(witness_oracles@.len(), k), num_of_chunks == __n0,
        agg_polys@.len() == __i0,
        forall|c: int| 0 <= c < __i0 ==> #[trigger] chunk_agg(agg_polys@, *self, witness_oracles@, permutation_oracles@, beta@, gamma@, *domain, c),
        forall|c: int| 0 <= c < __i0 ==> #[trigger] chunk_poly_of(agg_polys@, *self, *domain, *extended_coset_domain, c, num_of_chunks as int),
        all_blinded(agg_polys@, u, n, old(zk_rng).drawn(), zk_rng.drawn()),
@loopstart 0
    let ghost zs0 = agg_polys@;
    let ghost d0 = zk_rng.drawn();
    let ghost c = __i0 as int;
    proof {
        chunk_bounds(c, witness_oracles@.len(), k);
        assert(chunk_open(witness_oracles@, permutation_oracles@, k, beta@, gamma@, u, c));
        assert(forall|j: int| 0 <= j < chunk(witness_oracles@, c, k).len() ==> #[trigger] chunk(witness_oracles@, c, k)[j] == witness_oracles@[j + chunk_lo(c, k)]);
        assert(forall|j: int| 0 <= j < chunk(permutation_oracles@, c, k).len() ==> #[trigger] chunk(permutation_oracles@, c, k)[j] == permutation_oracles@[j + chunk_lo(c, k)]);
        if c > 0 { assert(chunk_agg(zs0, *self, witness_oracles@, permutation_oracles@, beta@, gamma@, *domain, c - 1)); }
    }
@loopend 0
    proof {
        assert(forall|e: int| 0 <= e < c ==> chunk_agg(zs0, *self, witness_oracles@, permutation_oracles@, beta@, gamma@, *domain, e) ==>
            #[trigger] chunk_agg(agg_polys@, *self, witness_oracles@, permutation_oracles@, beta@, gamma@, *domain, e));
        assert(forall|e: int| 0 <= e < c ==> chunk_poly_of(zs0, *self, *domain, *extended_coset_domain, e, num_of_chunks as int) ==>
            #[trigger] chunk_poly_of(agg_polys@, *self, *domain, *extended_coset_domain, e, num_of_chunks as int));
        assert(chunk_agg(agg_polys@, *self, witness_oracles@, permutation_oracles@, beta@, gamma@, *domain, c));
        blinded_more(zs0, agg_polys@, u, n, old(zk_rng).drawn(), d0, zk_rng.drawn());
    }
@afterloop 0
    proof { assert(chunk_agg(agg_polys@, *self, witness_oracles@, permutation_oracles@, beta@, gamma@, *domain, agg_polys@.len() - 1)); }
@beforetail
    proof {
        assert(forall|e: int| 0 <= e < agg_polys@.len() ==> chunk_poly_of(agg_polys@, *self, *domain, *extended_coset_domain, e, agg_polys@.len() as int) ==>
            #[trigger] chunk_poly(agg_polys@, *self, *domain, *extended_coset_domain, e));
    }
@end
@fn src/permutation/mod.rs PermutationArgument::instantiate_argument_at_omega_i
@spec
    requires
        perm_ready(*self, witness_oracles@.len(), permutation_oracles@.len()),
        agg_polys@.len() == chunk_count(witness_oracles@.len(), self.max_cols as nat),
        alpha_powers@.len() == 2 * agg_polys@.len() + 1, alpha_powers@.len() < usize::MAX,
        l_0_coset_evals@.len() == q_last_coset_evals@.len(),
        sizes(domain.n(), q_last_coset_evals@.len(), omega_index as int, 1),
        sizes(domain.n(), q_last_coset_evals@.len(), omega_index as int, self.usable_rows as nat),
        fits(*q_blind, domain.n(), q_last_coset_evals@.len()),
        forall|j: int| 0 <= j < witness_oracles@.len() ==> fits(*#[trigger] witness_oracles@[j], domain.n(), q_last_coset_evals@.len()),
        forall|j: int| 0 <= j < permutation_oracles@.len() ==> fits(#[trigger] permutation_oracles@[j], domain.n(), q_last_coset_evals@.len()),
        forall|j: int| 0 <= j < agg_polys@.len() ==> fits(#[trigger] agg_polys@[j], domain.n(), q_last_coset_evals@.len()),
    ensures
        (has_ext(*q_blind)
            && (forall|j: int| 0 <= j < witness_oracles@.len() ==> has_ext(*#[trigger] witness_oracles@[j]))
            && (forall|j: int| 0 <= j < permutation_oracles@.len() ==> has_ext(#[trigger] permutation_oracles@[j]))
            && (forall|j: int| 0 <= j < agg_polys@.len() ==> has_ext(#[trigger] agg_polys@[j])))
            ==> r is Ok,
        r is Ok ==> r->Ok_0@ == perm_value(
            perm_at_coset(*self, l_0_coset_evals@, q_last_coset_evals@, *q_blind, witness_oracles@, permutation_oracles@, agg_polys@, omega_index as int, omega@, beta@, gamma@, domain.n()),
            alpha_powers@),
@start
    let ghost n = domain.n();
    let ghost m = q_last_coset_evals@.len();
    let ghost i0 = omega_index as int;
    let ghost k = self.max_cols as nat;
    let ghost a = alpha_powers@;
    let ghost p = perm_at_coset(*self, l_0_coset_evals@, q_last_coset_evals@, *q_blind, witness_oracles@, permutation_oracles@, agg_polys@, omega_index as int, omega@, beta@, gamma@, domain.n());
    proof {
        chunk_count_bounds(witness_oracles@.len(), k);
        sizes_le(n, m, i0, 1, 0);
    }
@loop 0
    invariant
        __n0 == agg_polys@.len(), alpha_shift == 1,
        permutation_eval@ == perm_products(p, a, __i0 as nat),
@loopstart 0
    proof {
        chunk_bounds(__i0 as int, witness_oracles@.len(), k);
        chunks_commute(witness_oracles@, permutation_oracles@, self.deltas@, __i0 as int, k, i0, n, m);
        assert(forall|j: int| 0 <= j < chunk(witness_oracles@, __i0 as int, k).len() ==> #[trigger] chunk(witness_oracles@, __i0 as int, k)[j] == witness_oracles@[j + chunk_lo(__i0 as int, k)]);
        assert(forall|j: int| 0 <= j < chunk(permutation_oracles@, __i0 as int, k).len() ==> #[trigger] chunk(permutation_oracles@, __i0 as int, k)[j] == permutation_oracles@[j + chunk_lo(__i0 as int, k)]);
        assert(p.z[__i0 as int] == cq(agg_polys@[__i0 as int], i0, 0, n, m));
    }
@loop 1
    invariant
        __n1 == agg_polys@.len() - 1, alpha_shift == 1 + agg_polys@.len(),
        permutation_eval@ == perm_stitches(p, a, __i1 as nat),
@end
@fn src/permutation/mod.rs PermutationArgument::open_argument
@spec
    requires
        perm_ready(*self, witness_oracles@.len(), permutation_oracles@.len()),
        agg_polys@.len() == chunk_count(witness_oracles@.len(), self.max_cols as nat),
        alpha_powers@.len() == 2 * agg_polys@.len() + 1, alpha_powers@.len() < usize::MAX,
    ensures
        r is Err ==> from_piop(r->Err_0),
        r is Ok ==> fk(*q_blind, evaluation_challenge@)
            && (forall|j: int| 0 <= j < witness_oracles@.len() ==> wk(*#[trigger] witness_oracles@[j], evaluation_challenge@))
            && (forall|j: int| 0 <= j < permutation_oracles@.len() ==> fk(#[trigger] permutation_oracles@[j], evaluation_challenge@))
            && (forall|j: int| 0 <= j < agg_polys@.len() ==> wk(#[trigger] agg_polys@[j], evaluation_challenge@) && wk(agg_polys@[j], rpow(domain.w(), 1) * evaluation_challenge@))
            && (forall|j: int| 0 <= j < agg_polys@.len() - 1 ==> wk(#[trigger] agg_polys@[j], rpow(domain.w(), self.usable_rows as nat) * evaluation_challenge@)),
        r is Ok ==> r->Ok_0@ == perm_value(
            perm_at_point(*self, l_0_eval@, q_last_eval@, *q_blind, witness_oracles@, permutation_oracles@, agg_polys@, domain.w(), evaluation_challenge@, beta@, gamma@),
            alpha_powers@),
@start
    let ghost x = evaluation_challenge@;
    let ghost k = self.max_cols as nat;
    let ghost a = alpha_powers@;
    let ghost p = perm_at_point(*self, l_0_eval@, q_last_eval@, *q_blind, witness_oracles@, permutation_oracles@, agg_polys@, domain.w(), evaluation_challenge@, beta@, gamma@);
    let ghost pw = |o: &WitnessVerifierOracle| wk(*o, x);
    let ghost ps = |o: FixedVerifierOracle| fk(o, x);
    proof {
        chunk_count_bounds(witness_oracles@.len(), k);
        assert(chunk_lo(0, k) == 0) by(nonlinear_arith);
    }
@loop 0
    invariant
        __n0 == agg_polys@.len(), alpha_shift == 1,
        __i0 > 0 ==> fk(*q_blind, x),
        forall|j: int| 0 <= j < chunk_lo(__i0 as int, k) && j < witness_oracles@.len() ==> pw(#[trigger] witness_oracles@[j]),
        forall|j: int| 0 <= j < chunk_lo(__i0 as int, k) && j < permutation_oracles@.len() ==> ps(#[trigger] permutation_oracles@[j]),
        __i0 == chunk_count(witness_oracles@.len(), k) ==> forall|j: int| 0 <= j < witness_oracles@.len() ==> pw(#[trigger] witness_oracles@[j]),
        __i0 == chunk_count(witness_oracles@.len(), k) ==> forall|j: int| 0 <= j < permutation_oracles@.len() ==> ps(#[trigger] permutation_oracles@[j]),
        forall|j: int| 0 <= j < __i0 ==> wk(#[trigger] agg_polys@[j], x) && wk(agg_polys@[j], rpow(domain.w(), 1) * x),
        permutation_eval@ == perm_products(p, a, __i0 as nat),
@loopstart 0
    proof {
        chunk_bounds(__i0 as int, witness_oracles@.len(), k);
        chunks_commute_v(witness_oracles@, permutation_oracles@, self.deltas@, __i0 as int, k, x);
    }
@loopend 0
    proof {
        assert(forall|j: int| 0 <= j < chunk(witness_oracles@, __i0 as int, k).len() ==> pw(#[trigger] chunk(witness_oracles@, __i0 as int, k)[j]));
        assert(forall|j: int| 0 <= j < chunk(permutation_oracles@, __i0 as int, k).len() ==> ps(#[trigger] chunk(permutation_oracles@, __i0 as int, k)[j]));
        covered(witness_oracles@, __i0 as int, k, pw);
        covered(permutation_oracles@, __i0 as int, k, ps);
    }
@loop 1
    invariant
        __n1 == agg_polys@.len() - 1, alpha_shift == 1 + agg_polys@.len(),
        forall|j: int| 0 <= j < __i1 ==> wk(#[trigger] agg_polys@[j], rpow(domain.w(), self.usable_rows as nat) * x),
        permutation_eval@ == perm_stitches(p, a, __i1 as nat),
@beforetail
    proof {
        assert(forall|j: int| 0 <= j < witness_oracles@.len() ==> pw(#[trigger] witness_oracles@[j]));
        assert(forall|j: int| 0 <= j < permutation_oracles@.len() ==> ps(#[trigger] permutation_oracles@[j]));
    }
@end
}
}
verus! {
// ------------------------------------------------- what the argument proves
// the products over the first i rows of one chunk
pub open spec fn rows_prod(f: spec_fn(int) -> real, i: nat) -> real decreases i {
    if i == 0 { 1real } else { rows_prod(f, (i - 1) as nat) * f(i - 1) }
}
pub open spec fn chunks_prod(f: spec_fn(int, int) -> real, u: nat, c: nat) -> real decreases c {
    if c == 0 { 1real } else { chunks_prod(f, u, (c - 1) as nat) * rows_prod(|i: int| f(c - 1, i), u) }
}
// one accumulator: z(u) * prod den = z(0) * prod num
proof fn chain_step(a: real, b: real, c: real, d: real, p: real, q: real, z0: real)
    requires a * c == b * d, b * p == z0 * q
    ensures a * (p * c) == z0 * (q * d)
{
    assert(a * (p * c) == (a * c) * p) by(nonlinear_arith);
    assert((b * d) * p == (b * p) * d) by(nonlinear_arith);
    assert((z0 * q) * d == z0 * (q * d)) by(nonlinear_arith);
}
pub proof fn one_chain(z: spec_fn(int) -> real, dn: spec_fn(int) -> real, nm: spec_fn(int) -> real, u: nat)
    requires forall|i: int| 0 <= i < u ==> #[trigger] z(i + 1) * dn(i) == z(i) * nm(i)
    ensures z(u as int) * rows_prod(dn, u) == z(0) * rows_prod(nm, u)
    decreases u
{
    if u == 0 {
    } else {
        let v = (u - 1) as nat;
        one_chain(z, dn, nm, v);
        assert(z((v as int) + 1) * dn(v as int) == z(v as int) * nm(v as int));
        let (a, b, c, d, p, q) = (z(u as int), z(v as int), dn(v as int), nm(v as int), rows_prod(dn, v), rows_prod(nm, v));
        chain_step(a, b, c, d, p, q, z(0));
    }
}
// Soundness of the permutation constraints: accumulators that start at one,
// follow the recurrence on the first u rows, hand over their value at row u
// and end in zero or one force the two products over every cell to agree,
// unless the second one vanishes
pub proof fn perm_sound(z: spec_fn(int, int) -> real, dn: spec_fn(int, int) -> real, nm: spec_fn(int, int) -> real, u: nat, k: nat)
    requires k > 0, z(0, 0) == 1real,
        forall|c: int, i: int| 0 <= c < k && 0 <= i < u ==> #[trigger] z(c, i + 1) * dn(c, i) == z(c, i) * nm(c, i),
        forall|c: int| 0 <= c < k - 1 ==> #[trigger] z(c + 1, 0) == z(c, u as int),
        z(k - 1, u as int) * z(k - 1, u as int) - z(k - 1, u as int) == 0real,
    ensures chunks_prod(dn, u, k) == chunks_prod(nm, u, k) || chunks_prod(nm, u, k) == 0real
{
    perm_chain(z, dn, nm, u, k);
    let t = z(k - 1, u as int);
    assert(t == 0real || t == 1real) by(nonlinear_arith) requires t * t - t == 0real;
    let (a, b) = (chunks_prod(dn, u, k), chunks_prod(nm, u, k));
    assert(t == 0real ==> b == 0real) by(nonlinear_arith) requires t * a == b;
    assert(t == 1real ==> a == b) by(nonlinear_arith) requires t * a == b;
}
pub proof fn perm_chain(z: spec_fn(int, int) -> real, dn: spec_fn(int, int) -> real, nm: spec_fn(int, int) -> real, u: nat, k: nat)
    requires k > 0, z(0, 0) == 1real,
        forall|c: int, i: int| 0 <= c < k && 0 <= i < u ==> #[trigger] z(c, i + 1) * dn(c, i) == z(c, i) * nm(c, i),
        forall|c: int| 0 <= c < k - 1 ==> #[trigger] z(c + 1, 0) == z(c, u as int),
    ensures z(k - 1, u as int) * chunks_prod(dn, u, k) == chunks_prod(nm, u, k)
    decreases k
{
    let c = k - 1;
    let zc = |i: int| z(c, i);
    let dc = |i: int| dn(c, i);
    let nc = |i: int| nm(c, i);
    assert forall|i: int| 0 <= i < u implies #[trigger] zc(i + 1) * dc(i) == zc(i) * nc(i) by {
        assert(z(c, i + 1) * dn(c, i) == z(c, i) * nm(c, i));
    }
    one_chain(zc, dc, nc, u);
    let (p, q) = (rows_prod(dc, u), rows_prod(nc, u));
    let (a, b) = (z(c, u as int), z(c, 0));
    assert(a * p == b * q);
    assert(chunks_prod(dn, u, k) == chunks_prod(dn, u, c as nat) * p);
    assert(chunks_prod(nm, u, k) == chunks_prod(nm, u, c as nat) * q);
    let (d, n) = (chunks_prod(dn, u, c as nat), chunks_prod(nm, u, c as nat));
    if c == 0 {
        assert(a * (1real * p) == 1real * q) by(nonlinear_arith) requires a * p == b * q, b == 1real;
    } else {
        perm_chain(z, dn, nm, u, c as nat);
        assert(z((c - 1) + 1, 0) == z(c - 1, u as int));
        assert(a * (d * p) == n * q) by(nonlinear_arith) requires a * p == b * q, b * d == n;
    }
}
}
