verus! {
// An honest batch is accepted: when the verifier's columns carry the
// commitments of the prover's columns and their true values at the points
// they are opened at, whatever the verifier interpolates, its check of the
// combined claim succeeds.
pub open spec fn carries(ck: PC_CommitterKey, o: &dyn CommittedOracle, c: Col, xi: real, w: real, n: nat) -> bool {
    &&& o.s_rots().seq() == c.s
    &&& o.s_com() is Some && o.s_com().unwrap().v() == com_of(ck, c.p, c.r)
    &&& forall|p: real| #[trigger] is_point(c.s, xi, w, n, p) ==> o.s_claim(p) is Some && o.s_claim(p).unwrap()@ == c.p.at(p)
}
pub open spec fn all_carry(ck: PC_CommitterKey, os: Seq<&dyn CommittedOracle>, ps: Seq<Col>, xi: real, w: real, n: nat) -> bool {
    os.len() == ps.len() && forall|j: int| 0 <= j < os.len() ==> carries(ck, #[trigger] os[j], ps[j], xi, w, n)
}
pub proof fn members_carry(ck: PC_CommitterKey, os: Seq<&dyn CommittedOracle>, ps: Seq<Col>, xi: real, w: real, n: nat, k: KeyV, m: nat)
    requires all_carry(ck, os, ps, xi, w, n), m <= os.len()
    ensures members(os, k, m).len() == pmembers(ps, k, m).len(), all_carry(ck, members(os, k, m), pmembers(ps, k, m), xi, w, n),
        forall|i: int| 0 <= i < pmembers(ps, k, m).len() ==> rots_key((#[trigger] pmembers(ps, k, m)[i]).s) == k,
    decreases m
{
    if m > 0 {
        members_carry(ck, os, ps, xi, w, n, k, (m - 1) as nat);
        assert(carries(ck, os[m - 1], ps[m - 1], xi, w, n));
    }
}
pub proof fn keys_carry(ck: PC_CommitterKey, os: Seq<&dyn CommittedOracle>, ps: Seq<Col>, xi: real, w: real, n: nat)
    requires all_carry(ck, os, ps, xi, w, n)
    ensures keys_of(os, os.len()) == pkeys(ps, ps.len())
{
    assert(keys_of(os, os.len()) =~= pkeys(ps, ps.len())) by {
        assert forall|k: KeyV| keys_of(os, os.len()).contains(k) == pkeys(ps, ps.len()).contains(k) by {
            if keys_of(os, os.len()).contains(k) {
                let i = choose|i: int| 0 <= i < os.len() && okey(#[trigger] os[i]) == k;
                assert(carries(ck, os[i], ps[i], xi, w, n));
                assert(rots_key(ps[i].s) == k);
            }
            if pkeys(ps, ps.len()).contains(k) {
                let i = choose|i: int| 0 <= i < ps.len() && rots_key((#[trigger] ps[i]).s) == k;
                assert(carries(ck, os[i], ps[i], xi, w, n));
                assert(okey(os[i]) == k);
            }
        }
    }
}
pub proof fn sums_carry(ck: PC_CommitterKey, g: Seq<&dyn CommittedOracle>, c: Seq<Col>, s: Seq<Rotation>, xi: real, w: real, n: nat, x1: real, m: nat)
    requires all_carry(ck, g, c, xi, w, n), m <= g.len(), forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]).s == s
    ensures q_com(g, x1, m) == pq_com(ck, c, x1, m), forall|p: real| #[trigger] is_point(s, xi, w, n, p) ==> q_val(g, x1, p, m) == pq_at(c, x1, p, m)
    decreases m
{
    if m > 0 {
        let l = (m - 1) as nat;
        sums_carry(ck, g, c, s, xi, w, n, x1, l);
        assert(carries(ck, g[l as int], c[l as int], xi, w, n));
        assert forall|p: real| #[trigger] is_point(s, xi, w, n, p) implies q_val(g, x1, p, m) == pq_at(c, x1, p, m) by {
            assert(c[l as int].s == s);
            let (a, b) = (rpow(x1, l), c[l as int].p.at(p));
            assert(a * b == b * a) by(nonlinear_arith);
        }
    }
}
// what the verifier gets for a group from its claims is the quotient's value
pub proof fn group_quotient(ck: PC_CommitterKey, g: Seq<&dyn CommittedOracle>, c: Seq<Col>, s: Seq<Rotation>, xi: real, w: real, n: nat, x1: real, x3: real, q: real, f: real, h: DensePolynomial)
    requires all_carry(ck, g, c, xi, w, n), forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]).s == s,
        opens(g, s, xi, w, n, x1, x3, q, f), quotient_of(h, c, s, xi, w, n, x1), q == pq_at(c, x1, x3, c.len()),
    ensures f == h.at(x3)
{
    let (pts, r) = choose|pts: Seq<F>, r: DensePolynomial| #[trigger] interpolates(g, s, xi, w, n, x1, pts, r) && #[trigger] divides(f, vanish(pts, pts.len(), x3), q - r.at(x3));
    let (pt2, m) = choose|pt2: Seq<F>, m: DensePolynomial| #[trigger] divided_by(h, c, x1, pt2, m) && points_are(pt2, s, xi, w, n);
    sums_carry(ck, g, c, s, xi, w, n, x1, g.len());
    assert forall|y: real| #[trigger] among(pts, y) implies among(pt2, y) by {
        let i = choose|i: int| 0 <= i < pts.len() && (#[trigger] pts[i])@ == y;
        assert(is_point(s, xi, w, n, y));
    }
    vanish_same(pts, pt2, x3);
    assert forall|i: int| 0 <= i < pts.len() implies psum(r.coeffs@, (#[trigger] pts[i])@) == psum(m.coeffs@, pts[i]@) by {
        let p = pts[i]@;
        assert(is_point(s, xi, w, n, p));
        assert(r.at(p) == q_val(g, x1, p, g.len()));
        assert(among(pts, p));
        assert(exists|j: int| 0 <= j < pt2.len() && (#[trigger] pt2[j])@ == p);
        vanish_roots(pt2, pt2.len(), p);
        assert(pq_at(c, x1, p, c.len()) == h.at(p) * vanish(pt2, pt2.len(), p) + m.at(p));
        assert(h.at(p) * 0real == 0real) by(nonlinear_arith);
    }
    same_poly(r.coeffs@, m.coeffs@, pts);
    assert(r.at(x3) == m.at(x3)) by { assert(psum(r.coeffs@, x3) == psum(m.coeffs@, x3)); }
    let z = vanish(pts, pts.len(), x3);
    assert(pq_at(c, x1, x3, c.len()) == h.at(x3) * z + m.at(x3));
    let t = h.at(x3);
    assert(f == t) by(nonlinear_arith) requires f * z == t * z, z != 0real;
}
pub proof fn fsums(fs: Seq<F>, hs: Seq<DensePolynomial>, x2: real, x3: real, n: nat)
    requires n <= fs.len(), fs.len() == hs.len(), forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i])@ == hs[i].at(x3)
    ensures fsum(fs, x2, n) == pf_at(hs, x2, x3, n)
    decreases n
{
    if n > 0 {
        fsums(fs, hs, x2, x3, (n - 1) as nat);
        let (a, b) = (rpow(x2, (n - 1) as nat), fs[n - 1]@);
        assert(fs[n - 1]@ == hs[n - 1].at(x3));
        assert(a * b == b * a) by(nonlinear_arith);
    }
}
pub proof fn finals(ck: PC_CommitterKey, os: Seq<&dyn CommittedOracle>, gs: Seq<Seq<Col>>, q: Seq<F>, x1: real, x3: real, x4: real, c: real, e: real, n: nat)
    requires n <= gs.len(), gs.len() == q.len(),
        forall|i: int| 0 <= i < gs.len() ==> q_com(group(os, i), x1, group(os, i).len()) == pq_com(ck, #[trigger] gs[i], x1, gs[i].len()),
        forall|i: int| 0 <= i < gs.len() ==> (#[trigger] q[i])@ == pq_at(gs[i], x1, x3, gs[i].len()),
    ensures coms_sum(os, x1, x4, c, n) == pcoms_sum(ck, gs, x1, x4, c, n), evals_sum(q, x4, e, n) == pevals_sum(gs, x1, x4, x3, e, n)
    decreases n
{
    if n > 0 {
        finals(ck, os, gs, q, x1, x3, x4, c, e, (n - 1) as nat);
        assert(q_com(group(os, n - 1), x1, group(os, n - 1).len()) == pq_com(ck, gs[n - 1], x1, gs[n - 1].len()));
        assert(q[n - 1]@ == pq_at(gs[n - 1], x1, x3, gs[n - 1].len()));
        let (a, b) = (rpow(x4, n), q[n - 1]@);
        assert(a * b == b * a) by(nonlinear_arith);
    }
}
pub proof fn honest_batch(ck: PC_CommitterKey, vk: PC_VerifierKey, os: Seq<&dyn CommittedOracle>, ps: Seq<Col>, xi: real, d: GeneralEvaluationDomain, l: Seq<Ev>, p: mo::Proof, fs: Seq<F>)
    requires all_carry(ck, os, ps, xi, d.w(), d.n()), same_setup(ck, vk), mp::honest(ck, pgroups(ps), xi, d, l, p), batch_opens(os, xi, d, l, p, fs),
        is_order(order_of(keys_of(os, os.len())), keys_of(os, os.len())),
    ensures batch_accepts(vk, os, l, p, fs)
{
    let gs = pgroups(ps);
    let (w, n, x1, x2, x3, x4) = (d.w(), d.n(), ch1(l), ch2(l), ch3(l, p), ch4(l, p));
    keys_carry(ck, os, ps, xi, w, n);
    assert(group_count(os) == gs.len());
    let (f, fr) = choose|f: DensePolynomial, fr: PC_Randomness| #[trigger] mp::sent(ck, gs, xi, d, l, p, f, fr);
    let hs = choose|hs: Seq<DensePolynomial>| #[trigger] quotients(hs, gs, xi, w, n, x1) && aggregates(f, hs, x2);
    assert forall|i: int| 0 <= i < gs.len() implies all_carry(ck, group(os, i), #[trigger] gs[i], xi, w, n) && gs[i].len() > 0
        && (forall|j: int| 0 <= j < gs[i].len() ==> (#[trigger] gs[i][j]).s == gs[i][0].s) && rots_of(os, i) == gs[i][0].s by {
        let k = order_of(keys_of(os, os.len()))[i];
        assert(order_of(keys_of(os, os.len())).contains(k));
        members_carry(ck, os, ps, xi, w, n, k, os.len());
        assert(pkeys(ps, ps.len()).contains(k));
        pmembers_of(ps, k, ps.len());
        assert forall|j: int| 0 <= j < gs[i].len() implies (#[trigger] gs[i][j]).s == gs[i][0].s by { same_rots(gs[i][j].s, gs[i][0].s); }
        assert(carries(ck, group(os, i)[0], gs[i][0], xi, w, n));
    }
    assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i])@ == hs[i].at(x3) by {
        assert(all_carry(ck, group(os, i), gs[i], xi, w, n));
        assert(p.q_evals@[i]@ == pq_at(gs[i], x1, x3, gs[i].len()));
        assert(quotient_of(hs[i], gs[i], gs[i][0].s, xi, w, n, x1));
        group_quotient(ck, group(os, i), gs[i], gs[i][0].s, xi, w, n, x1, x3, p.q_evals@[i]@, fs[i]@, hs[i]);
    }
    fsums(fs, hs, x2, x3, fs.len());
    assert(f.at(x3) == pf_at(hs, x2, x3, hs.len()));
    assert forall|i: int| 0 <= i < gs.len() implies q_com(group(os, i), x1, group(os, i).len()) == pq_com(ck, #[trigger] gs[i], x1, gs[i].len()) by {
        assert(all_carry(ck, group(os, i), gs[i], xi, w, n));
        sums_carry(ck, group(os, i), gs[i], gs[i][0].s, xi, w, n, x1, gs[i].len());
    }
    finals(ck, os, gs, p.q_evals@, x1, x3, x4, p.f_commit.v(), f.at(x3), gs.len());
}
// and its columns are complete
pub proof fn honest_complete(ck: PC_CommitterKey, os: Seq<&dyn CommittedOracle>, ps: Seq<Col>, xi: real, d: GeneralEvaluationDomain, l: Seq<Ev>, p: mo::Proof)
    requires all_carry(ck, os, ps, xi, d.w(), d.n()), mp::honest(ck, pgroups(ps), xi, d, l, p), is_order(order_of(keys_of(os, os.len())), keys_of(os, os.len())),
    ensures all_complete(os, xi, d), p.q_evals@.len() == group_count(os)
{
    let gs = pgroups(ps);
    let (w, n) = (d.w(), d.n());
    keys_carry(ck, os, ps, xi, w, n);
    assert forall|i: int| 0 <= i < group_count(os) implies complete(#[trigger] group(os, i), rots_of(os, i), xi, w, n) by {
        let k = order_of(keys_of(os, os.len()))[i];
        assert(order_of(keys_of(os, os.len())).contains(k));
        members_carry(ck, os, ps, xi, w, n, k, os.len());
        assert(pkeys(ps, ps.len()).contains(k));
        pmembers_of(ps, k, ps.len());
        let (g, c) = (group(os, i), gs[i]);
        assert(carries(ck, g[0], c[0], xi, w, n));
        let s = rots_of(os, i);
        assert(points_apart(gs[i][0].s, xi, w, n));
        assert forall|j: int| 0 <= j < g.len() implies (#[trigger] g[j]).s_com() is Some by { assert(carries(ck, g[j], c[j], xi, w, n)); }
        assert forall|a: int| 0 <= a < s.len() implies all_claim(g, point(xi, w, #[trigger] s[a], n)) by {
            assert forall|j: int| 0 <= j < g.len() implies (#[trigger] g[j]).s_claim(point(xi, w, s[a], n)) is Some by {
                assert(carries(ck, g[j], c[j], xi, w, n));
                same_rots(c[j].s, c[0].s);
                assert(is_point(c[j].s, xi, w, n, point(xi, w, s[a], n)));
            }
        }
    }
}
}
