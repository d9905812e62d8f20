@map R => ZkRng
@map lookup_polys.clone() => looks_clone(&lookup_polys)
verus! {
// a clone of the lookups' columns, column by column
#[verifier::external_body]
pub fn looks_clone(v: &Vec<LookupProverOracles>) -> (r: Vec<LookupProverOracles>) ensures r@ == v@ { unimplemented!() }
pub proof fn off_next(l: int, t: int)
    ensures draw_of(l + 1, 0, t) == draw_of(l, 0, t) + t, draw_of(0, 0, t) == 0
{ assert((l + 1) * t == l * t + t) by(nonlinear_arith); }
// everything the lookup columns of the state are built from
pub open spec fn all_looks_ready(s: ProverState, p: ProverPreprocessedInput, ix: Index) -> bool {
    forall|l: int| 0 <= l < ix.lookups@.len() && (#[trigger] ix.lookups@[l]).s_inputs() is Some && ix.lookups@[l].s_tables() is Some ==>
        look_ready(columns(s, p), s.table_oracles_mapping, p.table_oracles@, ix.lookups@[l].s_inputs().unwrap(), ix.lookups@[l].s_tables().unwrap(), ix.usable_rows as int, s.domain.n(), ix.extended_coset_domain.n())
}
pub open spec fn all_looks_answered(s: ProverState, p: ProverPreprocessedInput, ix: Index) -> bool {
    forall|l: int| 0 <= l < ix.lookups@.len() ==> (#[trigger] ix.lookups@[l]).s_inputs() is Some && ix.lookups@[l].s_tables() is Some
        && look_answered(columns(s, p), s.table_oracles_mapping, ix.lookups@[l].s_inputs().unwrap(), ix.lookups@[l].s_tables().unwrap())
}
// the columns of lookup l, and the draws its blinding took: t for each lookup
pub open spec fn look_built(s: ProverState, p: ProverPreprocessedInput, ix: Index, theta: real, o: LookupProverOracles, l: int) -> bool {
    &&& ix.lookups@[l].s_inputs() is Some && ix.lookups@[l].s_tables() is Some
    &&& lookup_cols(columns(s, p), s.table_oracles_mapping, p.table_oracles@, ix.lookups@[l].s_inputs().unwrap(), ix.lookups@[l].s_tables().unwrap(), theta, ix.usable_rows as int, s.domain, ix.extended_coset_domain, o)
}
pub open spec fn extends(before: Seq<real>, after: Seq<real>) -> bool {
    before.len() <= after.len() && forall|i: int| 0 <= i < before.len() ==> #[trigger] after[i] == before[i]
}
// rows u.. of a' and of s' take the draws of the log from place at on
pub open spec fn pair_tail(o: LookupProverOracles, u: int, n: int, log: Seq<real>, at: int) -> bool {
    forall|i: int| u <= i < n ==> (#[trigger] o.2.evals@[i])@ == log[at + 2 * (i - u)] && o.3.evals@[i]@ == log[at + 2 * (i - u) + 1]
}
pub open spec fn z_tail(z: WitnessProverOracle, u: int, n: int, log: Seq<real>, at: int) -> bool {
    forall|i: int| 0 <= i < n - 1 - u ==> (#[trigger] z.evals@[u + 1 + i])@ == log[at + i]
}
impl PIOPforPolyIdentity {
@fn src/piop/prover.rs PIOPforPolyIdentity::prover_permutation_round strip=R
@spec
    requires
        old(state).oracles_to_copy@.len() > 0 ==> copies_ready(*permutation_argument, old(state).oracles_to_copy@, preprocessed.permutation_oracles@, permutation_msg.beta@, permutation_msg.gamma@, old(state).domain, *extended_coset_domain),
    ensures
        // nothing but the accumulators of the state changes
        final(state).z_polys is Some && final(state).z_polys.unwrap()@ == r@,
        *final(state) == (ProverState { z_polys: final(state).z_polys, ..*old(state) }),
        old(state).oracles_to_copy@.len() == 0 ==> r@.len() == 0 && *final(zk_rng) == *old(zk_rng),
        old(state).oracles_to_copy@.len() > 0 ==> {
            &&& copy_cols(r@, *permutation_argument, old(state).oracles_to_copy@, preprocessed.permutation_oracles@, permutation_msg.beta@, permutation_msg.gamma@, old(state).domain, *extended_coset_domain)
            &&& all_blinded(r@, permutation_argument.usable_rows as nat, old(state).domain.n(), old(zk_rng).drawn(), final(zk_rng).drawn())
        },
@end
@fn src/piop/prover.rs PIOPforPolyIdentity::prover_lookup_round strip=R
@spec
    requires all_looks_ready(*old(state), *preprocessed, *index),
    ensures
        all_looks_answered(*old(state), *preprocessed, *index) ==> r is Ok,
        r is Ok ==> {
            &&& final(state).lookup_polys is Some && final(state).lookup_polys.unwrap()@ == r->Ok_0@
            &&& *final(state) == (ProverState { lookup_polys: final(state).lookup_polys, ..*old(state) })
            &&& r->Ok_0@.len() == index.lookups@.len()
            &&& forall|l: int| 0 <= l < index.lookups@.len() ==> #[trigger] look_built(*old(state), *preprocessed, *index, lookup_aggregation_msg.theta@, r->Ok_0@[l], l)
            &&& extends(old(zk_rng).drawn(), final(zk_rng).drawn())
            &&& final(zk_rng).drawn().len() == old(zk_rng).drawn().len() + draw_of(index.lookups@.len() as int, 0, 2 * (old(state).domain.n() - index.usable_rows))
            &&& forall|l: int| 0 <= l < index.lookups@.len() ==> pair_tail(#[trigger] r->Ok_0@[l], index.usable_rows as int, old(state).domain.n() as int, final(zk_rng).drawn(),
                old(zk_rng).drawn().len() + draw_of(l, 0, 2 * (old(state).domain.n() - index.usable_rows)))
        },
@start
    let ghost s0 = *old(state);
    let ghost ix = *index;
    let ghost pp = *preprocessed;
    let ghost th = lookup_aggregation_msg.theta@;
    let ghost (d0, n, u) = (old(zk_rng).drawn(), old(state).domain.n() as int, index.usable_rows as int);
    let ghost t = 2 * (n - u);
    proof { off_next(0, t); }
@loop 0
    invariant __n0 == ix.lookups@.len(), __v0@.len() == __i0, *state == s0,
        forall|l: int| 0 <= l < __i0 ==> #[trigger] look_built(s0, pp, ix, th, __v0@[l], l),
        extends(d0, zk_rng.drawn()), zk_rng.drawn().len() == d0.len() + draw_of(__i0 as int, 0, t),
        forall|l: int| 0 <= l < __i0 ==> pair_tail(#[trigger] __v0@[l], u, n, zk_rng.drawn(), d0.len() + draw_of(l, 0, t)),
@loopstart 0
    let ghost d1 = zk_rng.drawn();
    proof {
        off_next(__i0 as int, t);
        assert(ix.lookups@[__i0 as int].s_inputs() is Some ==> true);
    }
@loopend 0
    proof {
        assert(forall|l: int| 0 <= l < __i0 ==> draw_of(l, 0, t) + t <= draw_of(__i0 as int, 0, t)) by {
            assert forall|l: int| 0 <= l < __i0 implies draw_of(l, 0, t) + t <= draw_of(__i0 as int, 0, t) by { assert(l * t + t <= __i0 * t) by(nonlinear_arith) requires l + 1 <= __i0, t >= 0; }
        }
    }
@end
@fn src/piop/prover.rs PIOPforPolyIdentity::prover_lookup_subset_equality_round strip=R
@spec
    requires
        index.usable_rows < old(state).domain.n(), old(state).domain.n() <= usize::MAX, old(state).domain.n() <= index.extended_coset_domain.n(),
        forall|l: int| 0 <= l < lookup_polys@.len() ==> look_sized(#[trigger] lookup_polys@[l], old(state).domain.n()) && look_arranged(lookup_polys@[l], index.usable_rows as int),
        forall|l: int, i: int| 0 <= l < lookup_polys@.len() && 0 <= i < index.usable_rows ==> #[trigger] open_pair(lookup_polys@[l], permutation_msg.beta@, permutation_msg.gamma@, i),
    ensures
        final(state).lookup_z_polys is Some && final(state).lookup_z_polys.unwrap()@ == r@,
        *final(state) == (ProverState { lookup_z_polys: final(state).lookup_z_polys, ..*old(state) }),
        r@.len() == lookup_polys@.len(),
        forall|l: int| 0 <= l < r@.len() ==> running_col(#[trigger] r@[l], lookup_polys@[l], permutation_msg.beta@, permutation_msg.gamma@, index.usable_rows as int, old(state).domain, index.extended_coset_domain),
        extends(old(zk_rng).drawn(), final(zk_rng).drawn()),
        final(zk_rng).drawn().len() == old(zk_rng).drawn().len() + draw_of(r@.len() as int, 0, old(state).domain.n() - 1 - index.usable_rows),
        forall|l: int| 0 <= l < r@.len() ==> z_tail(#[trigger] r@[l], index.usable_rows as int, old(state).domain.n() as int, final(zk_rng).drawn(),
            old(zk_rng).drawn().len() + draw_of(l, 0, old(state).domain.n() - 1 - index.usable_rows)),
@start
    let ghost s0 = *old(state);
    let ghost (be, ga) = (permutation_msg.beta@, permutation_msg.gamma@);
    let ghost (d0, n, u) = (old(zk_rng).drawn(), old(state).domain.n() as int, index.usable_rows as int);
    let ghost t = n - 1 - u;
    let ghost lps = lookup_polys@;
    proof { off_next(0, t); }
@loop 0
    invariant __n0 == lps.len(), __v0@.len() == __i0, *state == s0,
        forall|l: int| 0 <= l < __i0 ==> running_col(#[trigger] __v0@[l], lps[l], be, ga, u, s0.domain, index.extended_coset_domain),
        extends(d0, zk_rng.drawn()), zk_rng.drawn().len() == d0.len() + draw_of(__i0 as int, 0, t),
        forall|l: int| 0 <= l < __i0 ==> z_tail(#[trigger] __v0@[l], u, n, zk_rng.drawn(), d0.len() + draw_of(l, 0, t)),
@loopstart 0
    let ghost d1 = zk_rng.drawn();
    proof {
        off_next(__i0 as int, t);
        let o = lps[__i0 as int];
        assert(look_sized(o, n as nat) && look_arranged(o, u));
        arranged_products(o.0.evals@, o.1.evals@, o.2.evals@, o.3.evals@, be, ga, u as nat);
        assert(forall|i: int| 0 <= i < u ==> #[trigger] open_pair(o, be, ga, i));
    }
@loopend 0
    proof {
        assert forall|l: int| 0 <= l < __i0 + 1 implies z_tail(#[trigger] __v0@[l], u, n, zk_rng.drawn(), d0.len() + draw_of(l, 0, t)) by {
            let z = __v0@[l];
            let at = d0.len() + draw_of(l, 0, t);
            if l < __i0 {
                assert(l * t + t <= __i0 * t) by(nonlinear_arith) requires l + 1 <= __i0, t >= 0;
                assert(0 <= l * t) by(nonlinear_arith) requires l >= 0, t >= 0;
                assert(z_tail(z, u, n, d1, at));
                assert forall|i: int| 0 <= i < n - 1 - u implies (#[trigger] z.evals@[u + 1 + i])@ == zk_rng.drawn()[at + i] by { assert(zk_rng.drawn()[at + i] == d1[at + i]); }
            } else {
                assert(blinded(z.evals@, u as nat, n as nat, d1, zk_rng.drawn()));
                assert forall|i: int| 0 <= i < n - 1 - u implies (#[trigger] z.evals@[u + 1 + i])@ == zk_rng.drawn()[at + i] by { assert(z.evals@[(u as nat) + 1 + i]@ == zk_rng.drawn()[d1.len() + i]); }
            }
        }
    }
@end
}
pub open spec fn look_sized(o: LookupProverOracles, n: nat) -> bool { o.0.evals@.len() == n && o.1.evals@.len() == n && o.2.evals@.len() == n && o.3.evals@.len() == n }
pub open spec fn look_arranged(o: LookupProverOracles, u: int) -> bool {
    arranged(o.0.evals@.subrange(0, u), o.1.evals@.subrange(0, u), o.2.evals@.subrange(0, u), o.3.evals@.subrange(0, u))
}
}
