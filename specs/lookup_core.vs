verus! {
pub type LookupProverOracles = (WitnessProverOracle, WitnessProverOracle, WitnessProverOracle, WitnessProverOracle);
pub type LookupVerifierOracles = (WitnessVerifierOracle, WitnessVerifierOracle, WitnessVerifierOracle, WitnessVerifierOracle);
// everything a lookup constraint is made of, at one point
pub struct LookAt {
    pub l0: real, pub lu: real, pub q: real,
    pub a: real, pub s: real, pub ap: real, pub sp: real, pub app: real,
    pub z: real, pub zn: real, pub beta: real, pub gamma: real,
}
// 1. z starts at one; 2. z steps by (a+b)(s+g) / (a'+b)(s'+g) outside the
// blinding rows; 3. z is zero or one on the last row
pub open spec fn subset_value(p: LookAt, a0: real, a1: real, a2: real) -> real {
    a0 * p.l0 * (1real - p.z)
    + a1 * ((1real - (p.lu + p.q)) * (p.zn * (p.ap + p.beta) * (p.sp + p.gamma) - p.z * (p.a + p.beta) * (p.s + p.gamma)))
    + a2 * p.lu * (p.z * p.z - p.z)
}
// 4. a' = s' on the first row; 5. a' = s' or a' repeats
pub open spec fn lookup_value(p: LookAt, a: Seq<F>) -> real {
    subset_value(p, a[0]@, a[1]@, a[2]@)
    + a[3]@ * p.l0 * (p.ap - p.sp)
    + a[4]@ * (1real - (p.lu + p.q)) * (p.ap - p.sp) * (p.ap - p.app)
}
pub open spec fn look_at_coset(l0: Seq<F>, lu: Seq<F>, q: FixedProverOracle, o: LookupProverOracles, z: WitnessProverOracle, beta: real, gamma: real, i: int, n: nat) -> LookAt {
    let m = lu.len();
    LookAt {
        l0: l0[i]@, lu: lu[i]@, q: cq(q, i, 0, n, m),
        a: cq(o.0, i, 0, n, m), s: cq(o.1, i, 0, n, m), ap: cq(o.2, i, 0, n, m), sp: cq(o.3, i, 0, n, m),
        app: cq(o.2, i, (n - 1) as nat, n, m),
        z: cq(z, i, 0, n, m), zn: cq(z, i, 1nat % n, n, m), beta: beta, gamma: gamma,
    }
}
pub open spec fn look_fits(q: FixedProverOracle, o: LookupProverOracles, z: WitnessProverOracle, n: nat, m: nat) -> bool {
    fits(q, n, m) && fits(o.0, n, m) && fits(o.1, n, m) && fits(o.2, n, m) && fits(o.3, n, m) && fits(z, n, m)
}
pub open spec fn look_has(q: FixedProverOracle, o: LookupProverOracles, z: WitnessProverOracle) -> bool {
    has_ext(q) && has_ext(o.0) && has_ext(o.1) && has_ext(o.2) && has_ext(o.3) && has_ext(z)
}
pub open spec fn look_at_point(l0: real, lu: real, q: FixedVerifierOracle, o: LookupVerifierOracles, z: WitnessVerifierOracle, beta: real, gamma: real, x: real, xn: real, xp: real) -> LookAt {
    LookAt {
        l0: l0, lu: lu, q: fq(q, x), a: wq(o.0, x), s: wq(o.1, x), ap: wq(o.2, x), sp: wq(o.3, x), app: wq(o.2, xp),
        z: wq(z, x), zn: wq(z, xn), beta: beta, gamma: gamma,
    }
}
pub open spec fn subset_known(q: FixedVerifierOracle, o: LookupVerifierOracles, z: WitnessVerifierOracle, x: real, xn: real) -> bool {
    fk(q, x) && wk(o.0, x) && wk(o.1, x) && wk(o.2, x) && wk(o.3, x) && wk(z, x) && wk(z, xn)
}
// prod_{i<k} (a_i + b)(s_i + g)
pub open spec fn pair_prod(a: Seq<F>, s: Seq<F>, b: real, g: real, k: nat) -> real decreases k {
    if k == 0 { 1real } else { pair_prod(a, s, b, g, (k - 1) as nat) * ((a[k - 1]@ + b) * (s[k - 1]@ + g)) }
}
pub open spec fn pair_step(z: Seq<F>, o: LookupProverOracles, b: real, g: real, i: int) -> bool {
    z[i + 1]@ * ((o.2.evals@[i]@ + b) * (o.3.evals@[i]@ + g)) == z[i]@ * ((o.0.evals@[i]@ + b) * (o.1.evals@[i]@ + g))
}
// the running product of a lookup, its blinding aside
pub open spec fn running_col(z: WitnessProverOracle, o: LookupProverOracles, beta: real, gamma: real, u: int, d: GeneralEvaluationDomain, e: GeneralEvaluationDomain) -> bool {
    &&& z.evals@.len() == d.n()
    &&& z.evals@[0]@ == 1real && z.evals@[u]@ == 1real
    &&& forall|i: int| 0 <= i < u ==> #[trigger] pair_step(z.evals@, o, beta, gamma, i)
    &&& forall|i: int| 0 <= i < d.n() ==> #[trigger] z.poly.row(d, i) == z.evals@[i]@
    &&& z.evals_at_coset_of_extended_domain is Some
    &&& on_coset_of(z.poly, e, z.evals_at_coset_of_extended_domain.unwrap()@)
    &&& !z.should_permute
    &&& forall|x: Rotation| #[trigger] z.queried_rotations.has(x) <==> is_curr(x) || is_next(x)
}
pub open spec fn open_pair(o: LookupProverOracles, b: real, g: real, i: int) -> bool {
    o.2.evals@[i]@ + b != 0real && o.3.evals@[i]@ + g != 0real
}
pub proof fn nonzero_prod(x: real, y: real)
    requires x != 0real, y != 0real
    ensures x * y != 0real
{ assert(x * y != 0real) by(nonlinear_arith) requires x != 0real, y != 0real; }
pub proof fn pair_prod_nonzero(o: LookupProverOracles, b: real, g: real, k: nat)
    requires forall|i: int| 0 <= i < k ==> #[trigger] open_pair(o, b, g, i)
    ensures pair_prod(o.2.evals@, o.3.evals@, b, g, k) != 0real
    decreases k
{
    if k > 0 {
        pair_prod_nonzero(o, b, g, (k - 1) as nat);
        assert(open_pair(o, b, g, k - 1));
        nonzero_prod(o.2.evals@[k - 1]@ + b, o.3.evals@[k - 1]@ + g);
        nonzero_prod(pair_prod(o.2.evals@, o.3.evals@, b, g, (k - 1) as nat), (o.2.evals@[k - 1]@ + b) * (o.3.evals@[k - 1]@ + g));
    }
}
// the accumulator after i rows is the quotient of the two products
pub proof fn pair_chain_step(z: real, z2: real, p: real, pp: real, num: real, den: real)
    requires z * pp == p, z2 * den == z * num
    ensures z2 * (pp * den) == p * num
{ assert(z2 * (pp * den) == p * num) by(nonlinear_arith) requires z * pp == p, z2 * den == z * num; }
pub proof fn ends_in_one(z: real, p: real, pp: real)
    requires z * pp == p, p == pp, pp != 0real
    ensures z == 1real
{ assert(z == 1real) by(nonlinear_arith) requires z * pp == p, p == pp, pp != 0real; }

pub struct SubsetEqualityArgument { pub _f: PhantomData<F> }
impl SubsetEqualityArgument {
@fn src/lookup/subset_equality.rs SubsetEqualityArgument::construct_agg_poly strip=R
@spec
    requires
        u < domain.n(), domain.n() <= usize::MAX, domain.n() <= extended_coset_domain.n(),
        lookup_polys.0.evals@.len() == domain.n(), lookup_polys.1.evals@.len() == domain.n(),
        lookup_polys.2.evals@.len() == domain.n(), lookup_polys.3.evals@.len() == domain.n(),
        forall|i: int| 0 <= i < u ==> #[trigger] open_pair(*lookup_polys, beta@, gamma@, i),
        pair_prod(lookup_polys.0.evals@, lookup_polys.1.evals@, beta@, gamma@, u as nat)
            == pair_prod(lookup_polys.2.evals@, lookup_polys.3.evals@, beta@, gamma@, u as nat),
    ensures
        running_col(r, *lookup_polys, beta@, gamma@, u as int, *domain, *extended_coset_domain),
        blinded(r.evals@, u as nat, domain.n(), old(zk_rng).drawn(), final(zk_rng).drawn()),
@loop 0
    invariant
        __n0 == u, u < domain.n(),
        z_evals@.len() == __i0 + 1,
        z_evals@[0]@ == 1real, z_prev == z_evals@.last(),
        forall|i: int| 0 <= i < u ==> #[trigger] open_pair(*lookup_polys, beta@, gamma@, i),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] pair_step(z_evals@, *lookup_polys, beta@, gamma@, i),
        z_prev@ * pair_prod(lookup_polys.2.evals@, lookup_polys.3.evals@, beta@, gamma@, __i0 as nat)
            == pair_prod(lookup_polys.0.evals@, lookup_polys.1.evals@, beta@, gamma@, __i0 as nat),
        *zk_rng == *old(zk_rng),
@loopstart 0
    let ghost z_old = z_evals@;
    proof {
        assert(open_pair(*lookup_polys, beta@, gamma@, __i0 as int));
        nonzero_prod(lookup_polys.2.evals@[__i0 as int]@ + beta@, lookup_polys.3.evals@[__i0 as int]@ + gamma@);
    }
@loopend 0
    proof {
        let den = (lookup_polys.2.evals@[__i0 as int]@ + beta@) * (lookup_polys.3.evals@[__i0 as int]@ + gamma@);
        let nom = (lookup_polys.0.evals@[__i0 as int]@ + beta@) * (lookup_polys.1.evals@[__i0 as int]@ + gamma@);
        step_product(z_old.last()@, nom, den, z_prev@);
        pair_chain_step(z_old.last()@, z_prev@, pair_prod(lookup_polys.0.evals@, lookup_polys.1.evals@, beta@, gamma@, __i0 as nat),
            pair_prod(lookup_polys.2.evals@, lookup_polys.3.evals@, beta@, gamma@, __i0 as nat), nom, den);
        assert(forall|j: int| 0 <= j < __i0 ==> pair_step(z_old, *lookup_polys, beta@, gamma@, j) ==> #[trigger] pair_step(z_evals@, *lookup_polys, beta@, gamma@, j));
        assert(pair_step(z_evals@, *lookup_polys, beta@, gamma@, __i0 as int));
    }
@afterloop 0
    proof {
        pair_prod_nonzero(*lookup_polys, beta@, gamma@, u as nat);
        ends_in_one(z_prev@, pair_prod(lookup_polys.0.evals@, lookup_polys.1.evals@, beta@, gamma@, u as nat), pair_prod(lookup_polys.2.evals@, lookup_polys.3.evals@, beta@, gamma@, u as nat));
    }
@loop 1
    invariant
        z_evals@.len() == u + 1 + __i1, u + 1 + __n1 == domain.n(),
        z_evals@[0]@ == 1real, z_evals@[u as int]@ == 1real,
        forall|i: int| 0 <= i < u ==> #[trigger] pair_step(z_evals@, *lookup_polys, beta@, gamma@, i),
        zk_rng.drawn().len() == old(zk_rng).drawn().len() + __i1,
        forall|i: int| 0 <= i < old(zk_rng).drawn().len() ==> #[trigger] zk_rng.drawn()[i] == old(zk_rng).drawn()[i],
        forall|i: int| 0 <= i < __i1 ==> (#[trigger] z_evals@[u + 1 + i])@ == zk_rng.drawn()[old(zk_rng).drawn().len() + i],
@loopstart 1
    let ghost z_old1 = z_evals@;
@loopend 1
    proof {
        assert(forall|j: int| 0 <= j < u ==> pair_step(z_old1, *lookup_polys, beta@, gamma@, j) ==> #[trigger] pair_step(z_evals@, *lookup_polys, beta@, gamma@, j));
    }
@end
@fn src/lookup/subset_equality.rs SubsetEqualityArgument::instantiate_argument_at_omega_i
@spec
    requires
        alpha_powers@.len() == 3, l0_coset_evals@.len() == q_last_coset_evals@.len(),
        sizes(z.evals@.len(), q_last_coset_evals@.len(), omega_index as int, 1),
        look_fits(*q_blind, *lookup_oracles, *z, z.evals@.len(), q_last_coset_evals@.len()),
    ensures
        r is Ok <==> look_has(*q_blind, *lookup_oracles, *z),
        r is Ok ==> r->Ok_0@ == subset_value(
            look_at_coset(l0_coset_evals@, q_last_coset_evals@, *q_blind, *lookup_oracles, *z, beta@, gamma@, omega_index as int, z.evals@.len()),
            alpha_powers@[0]@, alpha_powers@[1]@, alpha_powers@[2]@),
@start
    proof { sizes_le(z.evals@.len(), q_last_coset_evals@.len(), omega_index as int, 1, 0); }
@end
@fn src/lookup/subset_equality.rs SubsetEqualityArgument::open_argument
@spec
    requires alpha_powers@.len() == 3,
    ensures
        r is Ok <==> subset_known(*q_blind, *lookup_oracles, *z, evaluation_challenge@, rpow(domain.w(), 1) * evaluation_challenge@),
        r is Ok ==> forall|xp: real| r->Ok_0@ == subset_value(
            #[trigger] look_at_point(l0_eval@, q_last_eval@, *q_blind, *lookup_oracles, *z, beta@, gamma@, evaluation_challenge@, rpow(domain.w(), 1) * evaluation_challenge@, xp),
            alpha_powers@[0]@, alpha_powers@[1]@, alpha_powers@[2]@),
@beforetail
    proof {
        let x = evaluation_challenge@;
        let xn = rpow(domain.w(), 1) * x;
        assert forall|xp: real| opening@ == subset_value(
            #[trigger] look_at_point(l0_eval@, q_last_eval@, *q_blind, *lookup_oracles, *z, beta@, gamma@, x, xn, xp),
            alpha_powers@[0]@, alpha_powers@[1]@, alpha_powers@[2]@) by {
            let p = look_at_point(l0_eval@, q_last_eval@, *q_blind, *lookup_oracles, *z, beta@, gamma@, x, xn, xp);
            mul_assoc(alpha_powers@[1]@, 1real - (p.lu + p.q), p.zn * (p.ap + p.beta) * (p.sp + p.gamma) - p.z * (p.a + p.beta) * (p.s + p.gamma));
            mul_assoc(p.zn, p.ap + p.beta, p.sp + p.gamma);
            mul_assoc(p.z, p.a + p.beta, p.s + p.gamma);
        }
    }
@end
}
pub proof fn mul_assoc(a: real, b: real, c: real)
    ensures a * b * c == a * (b * c)
{ assert(a * b * c == a * (b * c)) by(nonlinear_arith); }
pub proof fn rpow_1(w: real)
    ensures rpow(w, 1) == w
{ reveal_with_fuel(rpow, 3); assert(w * 1real == w) by(nonlinear_arith); }
pub struct LookupArgument { pub _f: PhantomData<F> }
impl LookupArgument {
@fn src/lookup/mod.rs LookupArgument::instantiate_argument_at_omega_i
@spec
    requires
        alpha_powers@.len() == 5, l0_coset_evals@.len() == q_last_coset_evals@.len(), z.evals@.len() > 1,
        sizes(z.evals@.len(), q_last_coset_evals@.len(), omega_index as int, 1),
        look_fits(*q_blind, *lookup_oracles, *z, z.evals@.len(), q_last_coset_evals@.len()),
    ensures
        r is Ok <==> look_has(*q_blind, *lookup_oracles, *z),
        r is Ok ==> r->Ok_0@ == lookup_value(
            look_at_coset(l0_coset_evals@, q_last_coset_evals@, *q_blind, *lookup_oracles, *z, beta@, gamma@, omega_index as int, z.evals@.len()),
            alpha_powers@),
@start
    proof { sizes_le(z.evals@.len(), q_last_coset_evals@.len(), omega_index as int, 1, 0); }
@end
@fn src/lookup/mod.rs LookupArgument::open_argument
@spec
    requires alpha_powers@.len() == 5, domain.w() != 0real,
    ensures
        r is Err ==> from_piop(r->Err_0),
        r is Ok ==> subset_known(*q_blind, *lookup_oracles, *z, evaluation_challenge@, rpow(domain.w(), 1) * evaluation_challenge@),
        r is Ok ==> exists|wi: real| #[trigger] is_inv(wi, domain.w()) && wk(lookup_oracles.2, wi * evaluation_challenge@) && r->Ok_0@ == lookup_value(
            look_at_point(l0_eval@, q_last_eval@, *q_blind, *lookup_oracles, *z, beta@, gamma@, evaluation_challenge@, rpow(domain.w(), 1) * evaluation_challenge@, wi * evaluation_challenge@),
            alpha_powers@),
@start
    proof { rpow_1(domain.w()); }
@beforetail
    proof {
        let x = evaluation_challenge@;
        let xn = rpow(domain.w(), 1) * x;
        let p = look_at_point(l0_eval@, q_last_eval@, *q_blind, *lookup_oracles, *z, beta@, gamma@, x, xn, negative_shifted_evaluation_challenge@);
        assert(opening@ == lookup_value(p, alpha_powers@));
    }
@end
}
}
