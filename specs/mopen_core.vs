@map R => FS
@map PC::Error => PC_Error
@map Error<PC::Error> => mo::Error
@map "final_poly".to_string() => str_into("final_poly")
verus! {
// A polynomial commitment, by what the verifier uses of it: commitments add
// and scale (com unit), and `check` decides a single opening.
#[verifier::external_body]
pub struct PC_Error { x: u8 }
#[verifier::external_body]
pub struct PC_Proof { x: u8 }
pub uninterp spec fn accepts(vk: PC_VerifierKey, c: real, x: real, y: real, p: PC_Proof) -> bool;
pub struct PC { }
impl PC {
    #[verifier::external_body]
    pub fn zero_comm() -> (r: PC_Commitment) ensures r.v() == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn add(a: &PC_Commitment, b: &PC_Commitment) -> (r: PC_Commitment) ensures r.v() == a.v() + b.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn scale_com(a: &PC_Commitment, s: F) -> (r: PC_Commitment) ensures r.v() == a.v() * s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn check(vk: &PC_VerifierKey, c: &[LabeledCommitment; 1], x: &F, y: [F; 1], p: &PC_Proof, ch: F, rng: Option<u8>) -> (r: Result<bool, PC_Error>)
        ensures (r is Ok && r->Ok_0) == accepts(*vk, c@[0].c().v(), x@, y@[0]@, *p)
    { unimplemented!() }
}
pub open spec fn rots_key(s: Seq<Rotation>) -> KeyV { KeyV::Q(s.map_values(|r: Rotation| (r.sign is Plus, r.degree as nat))) }
impl Key for BTreeSet<Rotation> { open spec fn k(&self) -> KeyV { rots_key(self.seq()) } }
pub proof fn same_rots(a: Seq<Rotation>, b: Seq<Rotation>)
    requires rots_key(a) == rots_key(b)
    ensures a == b
{
    let f = |r: Rotation| (r.sign is Plus, r.degree as nat);
    let (x, y) = (a.map_values(f), b.map_values(f));
    assert(x == y);
    assert(a.len() == x.len() && b.len() == y.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(x[i] == y[i]); assert(x[i] == f(a[i]) && y[i] == f(b[i])); }
    assert(a =~= b);
}
// what the batched check sees of a column
pub trait CommittedOracle {
    spec fn s_rots(&self) -> BTreeSet<Rotation>;
    spec fn s_claim(&self, p: real) -> Option<F>;
    spec fn s_com(&self) -> Option<PC_Commitment>;
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) ensures *r == self.s_rots();
    fn query(&self, challenge: &F) -> (r: Result<F, PiopError>)
        ensures match r { Ok(v) => self.s_claim(challenge@) == Some(v), Err(_) => self.s_claim(challenge@) is None };
    fn get_commitment(&self) -> (r: Result<&PC_Commitment, PiopError>)
        ensures match r { Ok(c) => self.s_com() == Some(*c), Err(_) => self.s_com() is None };
}
// groups: the columns opened at the same set of rotations, in order
pub open spec fn okey(o: &dyn CommittedOracle) -> KeyV { rots_key(o.s_rots().seq()) }
pub open spec fn members(os: Seq<&dyn CommittedOracle>, k: KeyV, n: nat) -> Seq<&dyn CommittedOracle> decreases n {
    if n == 0 { Seq::empty() } else if okey(os[n - 1]) == k { members(os, k, (n - 1) as nat).push(os[n - 1]) } else { members(os, k, (n - 1) as nat) }
}
pub open spec fn keys_of(os: Seq<&dyn CommittedOracle>, n: nat) -> ISet<KeyV> { ISet::new(|k: KeyV| exists|i: int| 0 <= i < n && okey(#[trigger] os[i]) == k) }
pub open spec fn group(os: Seq<&dyn CommittedOracle>, i: int) -> Seq<&dyn CommittedOracle> { members(os, order_of(keys_of(os, os.len()))[i], os.len()) }
pub open spec fn group_count(os: Seq<&dyn CommittedOracle>) -> nat { order_of(keys_of(os, os.len())).len() }
pub open spec fn grouped(m: IMap<KeyV, Vec<&dyn CommittedOracle>>, os: Seq<&dyn CommittedOracle>, n: nat) -> bool {
    m.dom() == keys_of(os, n) && forall|k: KeyV| #[trigger] m.dom().contains(k) ==> m[k]@ == members(os, k, n)
}
pub proof fn members_of(os: Seq<&dyn CommittedOracle>, k: KeyV, n: nat)
    requires n <= os.len()
    ensures members(os, k, n).len() <= n,
        forall|i: int| 0 <= i < members(os, k, n).len() ==> okey(#[trigger] members(os, k, n)[i]) == k && os.contains(members(os, k, n)[i]),
        (exists|i: int| 0 <= i < n && okey(#[trigger] os[i]) == k) ==> members(os, k, n).len() > 0,
        !(exists|i: int| 0 <= i < n && okey(#[trigger] os[i]) == k) ==> members(os, k, n).len() == 0,
    decreases n
{
    if n > 0 {
        members_of(os, k, (n - 1) as nat);
        assert(os.contains(os[n - 1]));
        assert(okey(os[n - 1]) == k || okey(os[n - 1]) != k);
    }
}
pub proof fn grouped_push(m: IMap<KeyV, Vec<&dyn CommittedOracle>>, m2: IMap<KeyV, Vec<&dyn CommittedOracle>>, v: Vec<&dyn CommittedOracle>, os: Seq<&dyn CommittedOracle>, n: nat)
    requires n < os.len(), grouped(m, os, n), m2 == m.insert(okey(os[n as int]), v),
        v@ == (if m.dom().contains(okey(os[n as int])) { m[okey(os[n as int])]@ } else { Seq::empty() }).push(os[n as int])
    ensures grouped(m2, os, n + 1)
{
    let k0 = okey(os[n as int]);
    assert(m2.dom() =~= keys_of(os, n + 1)) by {
        assert forall|k: KeyV| m2.dom().contains(k) == keys_of(os, n + 1).contains(k) by {
            if m2.dom().contains(k) {
                if k == k0 { assert(okey(os[n as int]) == k); } else { assert(keys_of(os, n).contains(k)); let i = choose|i: int| 0 <= i < n && okey(#[trigger] os[i]) == k; assert(okey(os[i]) == k && i < n + 1); }
            }
            if keys_of(os, n + 1).contains(k) && k != k0 {
                let i = choose|i: int| 0 <= i < n + 1 && okey(#[trigger] os[i]) == k;
                assert(0 <= i < n && okey(os[i]) == k);
                assert(keys_of(os, n).contains(k));
            }
        }
    }
    assert forall|k: KeyV| #[trigger] m2.dom().contains(k) implies m2[k]@ == members(os, k, n + 1) by {
        if k == k0 {
            members_of(os, k, n);
            if !m.dom().contains(k) { assert(!keys_of(os, n).contains(k)); assert(members(os, k, n) =~= Seq::empty()); }
        } else { assert(m.dom().contains(k)); }
    }
}
// one claim for a group: its columns weighted by the powers of x1
pub open spec fn q_com(g: Seq<&dyn CommittedOracle>, x1: real, n: nat) -> real decreases n {
    if n == 0 { 0real } else { q_com(g, x1, (n - 1) as nat) + g[n - 1].s_com().unwrap().v() * rpow(x1, (n - 1) as nat) }
}
pub open spec fn q_val(g: Seq<&dyn CommittedOracle>, x1: real, p: real, n: nat) -> real decreases n {
    if n == 0 { 0real } else { q_val(g, x1, p, (n - 1) as nat) + rpow(x1, (n - 1) as nat) * g[n - 1].s_claim(p).unwrap()@ }
}
pub open spec fn point(xi: real, w: real, r: Rotation, n: nat) -> real { xi * rpow(w, shift(r, n)) }
pub open spec fn is_point(s: Seq<Rotation>, xi: real, w: real, n: nat, p: real) -> bool { exists|i: int| 0 <= i < s.len() && p == point(xi, w, #[trigger] s[i], n) }
pub open spec fn points_apart(s: Seq<Rotation>, xi: real, w: real, n: nat) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> point(xi, w, #[trigger] s[i], n) != point(xi, w, #[trigger] s[j], n)
}
pub open spec fn all_committed(g: Seq<&dyn CommittedOracle>) -> bool { forall|j: int| 0 <= j < g.len() ==> (#[trigger] g[j]).s_com() is Some }
pub open spec fn all_claim(g: Seq<&dyn CommittedOracle>, p: real) -> bool { forall|j: int| 0 <= j < g.len() ==> (#[trigger] g[j]).s_claim(p) is Some }
// everything the check needs of a group is there
pub open spec fn complete(g: Seq<&dyn CommittedOracle>, s: Seq<Rotation>, xi: real, w: real, n: nat) -> bool {
    all_committed(g) && points_apart(s, xi, w, n) && forall|i: int| 0 <= i < s.len() ==> all_claim(g, point(xi, w, #[trigger] s[i], n))
}
// q is the claimed value at x3 of the group's combination, f the claimed
// value there of its quotient by the points it is opened at: the combination
// minus the polynomial r through its values at the points, divided by the
// product of x - p
pub open spec fn opens(g: Seq<&dyn CommittedOracle>, s: Seq<Rotation>, xi: real, w: real, n: nat, x1: real, x3: real, q: real, f: real) -> bool {
    exists|pts: Seq<F>, r: DensePolynomial| #[trigger] interpolates(g, s, xi, w, n, x1, pts, r) && #[trigger] divides(f, vanish(pts, pts.len(), x3), q - r.at(x3))
}
pub open spec fn divides(f: real, z: real, d: real) -> bool { f * z == d && z != 0real }
pub open spec fn interpolates(g: Seq<&dyn CommittedOracle>, s: Seq<Rotation>, xi: real, w: real, n: nat, x1: real, pts: Seq<F>, r: DensePolynomial) -> bool {
    &&& distinct(pts) && pts.len() == s.len() && r.coeffs@.len() <= pts.len()
    &&& forall|p: real| #[trigger] is_point(s, xi, w, n, p) <==> exists|i: int| 0 <= i < pts.len() && (#[trigger] pts[i])@ == p
    &&& forall|i: int| 0 <= i < pts.len() ==> r.at((#[trigger] pts[i])@) == q_val(g, x1, pts[i]@, g.len())
}
pub open spec fn fsum(fs: Seq<F>, x: real, n: nat) -> real decreases n { if n == 0 { 0real } else { fsum(fs, x, (n - 1) as nat) + rpow(x, (n - 1) as nat) * fs[n - 1]@ } }
// the rotations of the i-th group
pub open spec fn rots_of(os: Seq<&dyn CommittedOracle>, i: int) -> Seq<Rotation> { group(os, i)[0].s_rots().seq() }
pub open spec fn coms_sum(os: Seq<&dyn CommittedOracle>, x1: real, x4: real, c: real, n: nat) -> real decreases n {
    if n == 0 { c } else { coms_sum(os, x1, x4, c, (n - 1) as nat) + q_com(group(os, n - 1), x1, group(os, n - 1).len()) * rpow(x4, n) }
}
pub open spec fn evals_sum(q: Seq<F>, x4: real, e: real, n: nat) -> real decreases n { if n == 0 { e } else { evals_sum(q, x4, e, (n - 1) as nat) + rpow(x4, n) * q[n - 1]@ } }
// the challenges of the batched opening, drawn after what they depend on
pub open spec fn log1(l: Seq<Ev>, c: PC_Commitment) -> Seq<Ev> { l.push(Ev::Draw).push(Ev::Draw).push(Ev::Absorb(c.bytes())) }
pub open spec fn log2(l: Seq<Ev>, c: PC_Commitment, q: Vec<F>) -> Seq<Ev> { log1(l, c).push(Ev::Draw).push(Ev::Absorb(q.bytes())) }
pub open spec fn ch1(l: Seq<Ev>) -> real { challenge(l) }
pub open spec fn ch2(l: Seq<Ev>) -> real { challenge(l.push(Ev::Draw)) }
pub open spec fn ch3(l: Seq<Ev>, p: mo::Proof) -> real { challenge(log1(l, p.f_commit)) }
pub open spec fn ch4(l: Seq<Ev>, p: mo::Proof) -> real { challenge(log2(l, p.f_commit, p.q_evals)) }
// the batched claim holds, for quotient values f_i that the claims determine
pub open spec fn batch_opens(os: Seq<&dyn CommittedOracle>, xi: real, d: GeneralEvaluationDomain, l: Seq<Ev>, p: mo::Proof, fs: Seq<F>) -> bool {
    &&& fs.len() == group_count(os)
    &&& forall|i: int| 0 <= i < fs.len() ==> opens(group(os, i), rots_of(os, i), xi, d.w(), d.n(), ch1(l), ch3(l, p), p.q_evals@[i]@, (#[trigger] fs[i])@)
}
pub open spec fn batch_accepts(vk: PC_VerifierKey, os: Seq<&dyn CommittedOracle>, l: Seq<Ev>, p: mo::Proof, fs: Seq<F>) -> bool {
    accepts(vk, coms_sum(os, ch1(l), ch4(l, p), p.f_commit.v(), group_count(os)), ch3(l, p),
        evals_sum(p.q_evals@, ch4(l, p), fsum(fs, ch2(l), fs.len()), group_count(os)), p.opening_proof)
}
pub open spec fn all_complete(os: Seq<&dyn CommittedOracle>, xi: real, d: GeneralEvaluationDomain) -> bool {
    forall|i: int| 0 <= i < group_count(os) ==> complete(#[trigger] group(os, i), rots_of(os, i), xi, d.w(), d.n())
}
// no column is opened at x (a random challenge)
pub open spec fn away(os: Seq<&dyn CommittedOracle>, xi: real, d: GeneralEvaluationDomain, x: real) -> bool {
    forall|o: &dyn CommittedOracle| #[trigger] os.contains(o) ==> !is_point(o.s_rots().seq(), xi, d.w(), d.n(), x)
}
// the values the check interpolates through, after the first k points
pub open spec fn valued(m: BTreeMap<F, F>, g: Seq<&dyn CommittedOracle>, s: Seq<Rotation>, k: int, xi: real, w: real, n: nat, x1: real) -> bool {
    &&& m.order().len() == k
    &&& forall|p: real| #[trigger] m.map().dom().contains(KeyV::R(p)) <==> is_point(s.subrange(0, k), xi, w, n, p)
    &&& forall|y: KeyV| #[trigger] m.map().dom().contains(y) ==> y is R
    &&& forall|p: real| #[trigger] m.map().dom().contains(KeyV::R(p)) ==> m.map()[KeyV::R(p)]@ == q_val(g, x1, p, g.len())
    &&& points_apart(s.subrange(0, k), xi, w, n)
    &&& forall|i: int| 0 <= i < k ==> all_claim(g, point(xi, w, #[trigger] s[i], n))
}
pub proof fn valued_step(m: BTreeMap<F, F>, m2: BTreeMap<F, F>, g: Seq<&dyn CommittedOracle>, s: Seq<Rotation>, k: int, xi: real, w: real, n: nat, x1: real, v: F)
    requires 0 <= k < s.len(), valued(m, g, s, k, xi, w, n, x1),
        m2.map() == m.map().insert(KeyV::R(point(xi, w, s[k], n)), v), m2.order().len() == m.order().len() + 1,
        !m.map().dom().contains(KeyV::R(point(xi, w, s[k], n))),
        all_claim(g, point(xi, w, s[k], n)), v@ == q_val(g, x1, point(xi, w, s[k], n), g.len()),
    ensures valued(m2, g, s, k + 1, xi, w, n, x1)
{
    let (a, b) = (s.subrange(0, k), s.subrange(0, k + 1));
    let pk = point(xi, w, s[k], n);
    assert forall|p: real| is_point(b, xi, w, n, p) == (is_point(a, xi, w, n, p) || p == pk) by {
        if is_point(b, xi, w, n, p) {
            let i = choose|i: int| 0 <= i < b.len() && p == point(xi, w, #[trigger] b[i], n);
            if i < k { assert(a[i] == b[i]); }
        }
        if is_point(a, xi, w, n, p) {
            let i = choose|i: int| 0 <= i < a.len() && p == point(xi, w, #[trigger] a[i], n);
            assert(b[i] == a[i]);
        }
        if p == pk { assert(b[k] == s[k]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies point(xi, w, #[trigger] b[i], n) != point(xi, w, #[trigger] b[j], n) by {
        assert(a[i] == b[i]);
        if j < k { assert(a[j] == b[j]); } else { assert(is_point(a, xi, w, n, point(xi, w, b[i], n))); }
    }
    assert forall|p: real| #[trigger] m2.map().dom().contains(KeyV::R(p)) <==> is_point(b, xi, w, n, p) by { assert(m.map().dom().contains(KeyV::R(p)) <==> is_point(a, xi, w, n, p)); }
    assert forall|p: real| #[trigger] m2.map().dom().contains(KeyV::R(p)) implies m2.map()[KeyV::R(p)]@ == q_val(g, x1, p, g.len()) by {
        if p != pk { assert(m.map().dom().contains(KeyV::R(p))); }
    }
    assert forall|y: KeyV| #[trigger] m2.map().dom().contains(y) implies y is R by { if y != KeyV::R(pk) { assert(m.map().dom().contains(y)); } }
}
pub proof fn met_twice(m: BTreeMap<F, F>, g: Seq<&dyn CommittedOracle>, s: Seq<Rotation>, k: int, xi: real, w: real, n: nat, x1: real)
    requires 0 <= k < s.len(), valued(m, g, s, k, xi, w, n, x1), m.map().dom().contains(KeyV::R(point(xi, w, s[k], n)))
    ensures !complete(g, s, xi, w, n)
{
    let a = s.subrange(0, k);
    assert(is_point(a, xi, w, n, point(xi, w, s[k], n)));
    let i = choose|i: int| 0 <= i < a.len() && point(xi, w, s[k], n) == point(xi, w, #[trigger] a[i], n);
    assert(a[i] == s[i]);
}
pub proof fn group_is(m: IMap<KeyV, Vec<&dyn CommittedOracle>>, os: Seq<&dyn CommittedOracle>, i: int)
    requires grouped(m, os, os.len()), is_order(order_of(m.dom()), m.dom()), 0 <= i < order_of(m.dom()).len()
    ensures m.dom().contains(order_of(m.dom())[i]), m[order_of(m.dom())[i]]@ == group(os, i),
        forall|s: Seq<Rotation>| #[trigger] rots_key(s) == order_of(m.dom())[i] ==> s == rots_of(os, i),
        group(os, i).len() > 0, group(os, i).len() <= os.len(), os.contains(group(os, i)[0])
{
    let k = order_of(m.dom())[i];
    assert(order_of(m.dom()).contains(k));
    assert(keys_of(os, os.len()).contains(k));
    members_of(os, k, os.len());
    assert forall|s: Seq<Rotation>| #[trigger] rots_key(s) == k implies s == rots_of(os, i) by { same_rots(s, group(os, i)[0].s_rots().seq()); }
}
pub proof fn groups_are(m: IMap<KeyV, Vec<&dyn CommittedOracle>>, os: Seq<&dyn CommittedOracle>)
    requires grouped(m, os, os.len()), is_order(order_of(m.dom()), m.dom())
    ensures forall|i: int| 0 <= i < order_of(m.dom()).len() ==> m.dom().contains(#[trigger] order_of(m.dom())[i]) && m[order_of(m.dom())[i]]@ == group(os, i) && group(os, i).len() <= os.len(),
        forall|i: int, s: Seq<Rotation>| 0 <= i < order_of(m.dom()).len() && #[trigger] rots_key(s) == #[trigger] order_of(m.dom())[i] ==> s == rots_of(os, i),
{
    assert forall|i: int| 0 <= i < order_of(m.dom()).len() implies m.dom().contains(#[trigger] order_of(m.dom())[i]) && m[order_of(m.dom())[i]]@ == group(os, i) && group(os, i).len() <= os.len() by { group_is(m, os, i); }
    assert forall|i: int, s: Seq<Rotation>| 0 <= i < order_of(m.dom()).len() && #[trigger] rots_key(s) == #[trigger] order_of(m.dom())[i] implies s == rots_of(os, i) by { group_is(m, os, i); }
}
// r goes through the first k of the values and is zero on the other points
pub open spec fn through(r: DensePolynomial, pts: Seq<F>, v: Seq<F>, k: int) -> bool {
    &&& r.coeffs@.len() <= pts.len()
    &&& forall|i: int| 0 <= i < pts.len() ==> r.at((#[trigger] pts[i])@) == if i < k { v[i]@ } else { 0real }
}
pub proof fn through_step(r: DensePolynomial, r2: DensePolynomial, l: DensePolynomial, pts: Seq<F>, v: Seq<F>, k: int)
    requires 0 <= k < pts.len(), through(r, pts, v, k), exists|t: DensePolynomial| is_scaled(t, l, v[k]@) && #[trigger] is_psum(r2, r, t),
        l.coeffs@.len() == pts.len(), l.at(pts[k]@) == 1real, forall|j: int| 0 <= j < pts.len() && j != k ==> l.at((#[trigger] pts[j])@) == 0real,
    ensures through(r2, pts, v, k + 1)
{
    let t = choose|t: DensePolynomial| is_scaled(t, l, v[k]@) && #[trigger] is_psum(r2, r, t);
    assert forall|i: int| 0 <= i < pts.len() implies r2.at((#[trigger] pts[i])@) == if i < k + 1 { v[i]@ } else { 0real } by {
        let x = pts[i]@;
        assert(r2.at(x) == r.at(x) + t.at(x));
        assert(t.at(x) == l.at(x) * v[k]@);
        assert(1real * v[k]@ == v[k]@ && 0real * v[k]@ == 0real) by(nonlinear_arith);
    }
}
// the points, as the map of values lists them
pub proof fn listed(m: BTreeMap<F, F>, g: Seq<&dyn CommittedOracle>, s: Seq<Rotation>, xi: real, w: real, n: nat, x1: real, pts: Seq<F>, v: Seq<F>)
    requires valued(m, g, s, s.len() as int, xi, w, n, x1), is_order(m.order(), m.map().dom()),
        pts.len() == m.order().len(), forall|i: int| 0 <= i < pts.len() ==> (#[trigger] pts[i]).k() == m.order()[i],
        v == Seq::new(m.order().len(), |i: int| m.map()[m.order()[i]]),
    ensures distinct(pts), v.len() == pts.len(), pts.len() == s.len(),
        forall|i: int| 0 <= i < pts.len() ==> (#[trigger] v[i])@ == q_val(g, x1, pts[i]@, g.len()),
        forall|p: real| #[trigger] is_point(s, xi, w, n, p) <==> exists|i: int| 0 <= i < pts.len() && (#[trigger] pts[i])@ == p,
{
    assert(s.subrange(0, s.len() as int) =~= s);
    assert forall|i: int| 0 <= i < pts.len() implies (#[trigger] v[i])@ == q_val(g, x1, pts[i]@, g.len()) by {
        assert(pts[i].k() == m.order()[i]);
        assert(m.order().contains(m.order()[i]));
        assert(m.map().dom().contains(KeyV::R(pts[i]@)));
    }
    assert forall|p: real| #[trigger] is_point(s, xi, w, n, p) <==> exists|i: int| 0 <= i < pts.len() && (#[trigger] pts[i])@ == p by {
        assert(m.map().dom().contains(KeyV::R(p)) <==> is_point(s, xi, w, n, p));
        if is_point(s, xi, w, n, p) {
            assert(m.order().contains(KeyV::R(p)));
            let i = choose|i: int| 0 <= i < m.order().len() && m.order()[i] == KeyV::R(p);
            assert(pts[i].k() == KeyV::R(p));
        }
        if exists|i: int| 0 <= i < pts.len() && (#[trigger] pts[i])@ == p {
            let i = choose|i: int| 0 <= i < pts.len() && (#[trigger] pts[i])@ == p;
            assert(pts[i].k() == m.order()[i]);
            assert(m.order().contains(m.order()[i]));
        }
    }
    assert(distinct(pts)) by {
        assert forall|i: int, j: int| 0 <= i < pts.len() && 0 <= j < pts.len() && i != j implies (#[trigger] pts[i])@ != (#[trigger] pts[j])@ by {
            assert(pts[i].k() == m.order()[i] && pts[j].k() == m.order()[j]);
        }
    }
}
pub proof fn divided(d: real, z: real, i: real)
    requires is_inv(i, z)
    ensures (d * i) * z == d
{ assert((d * i) * z == d * (i * z)) by(nonlinear_arith); assert(d * 1real == d) by(nonlinear_arith); }
pub mod mo {
use super::*;
pub type E = PC_Error;
@item src/multiproof/error.rs Error
impl vstd::std_specs::convert::FromSpecImpl<PiopError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: PiopError) -> Error { Error::PIOPError(e) }
}
impl From<PiopError> for Error {
@fn src/multiproof/error.rs From@Error::from
@end
}
impl Error {
@fn src/multiproof/error.rs Error::from_pc_err
@spec
    ensures r == Error::PolynomialCommitmentError(err)
@end
}
@item src/multiproof/mod.rs Proof
@item src/multiproof/piop/verifier.rs VerifierState
@item src/multiproof/piop/verifier.rs VerifierFirstMsg derive=Copy,Clone
@item src/multiproof/piop/verifier.rs VerifierSecondMsg derive=Copy,Clone
@item src/multiproof/piop/verifier.rs VerifierThirdMsg derive=Copy,Clone
pub struct PIOP { }
impl PIOP {
@fn src/multiproof/piop/verifier.rs PIOP::init_verifier
@spec
    ensures r.first_msg is None, r.second_msg is None, r.third_msg is None,
@end
@fn src/multiproof/piop/verifier.rs PIOP::verifier_first_round strip=R
@spec
    ensures
        final(rng).log() == old(rng).log().push(Ev::Draw).push(Ev::Draw),
        r.1.x1@ == challenge(old(rng).log()), r.1.x2@ == challenge(old(rng).log().push(Ev::Draw)),
        r.0 == (VerifierState { first_msg: Some(r.1), ..state }),
@end
@fn src/multiproof/piop/verifier.rs PIOP::verifier_second_round strip=R
@spec
    ensures
        final(rng).log() == old(rng).log().push(Ev::Draw),
        r.1.x3@ == challenge(old(rng).log()),
        r.0 == (VerifierState { second_msg: Some(r.1), ..state }),
@end
@fn src/multiproof/piop/verifier.rs PIOP::verifier_third_round strip=R
@spec
    ensures
        final(rng).log() == old(rng).log().push(Ev::Draw),
        r.1.x4@ == challenge(old(rng).log()),
        r.0 == (VerifierState { third_msg: Some(r.1), ..state }),
@end
}
pub struct Multiopen { }
impl Multiopen {
@fn src/multiproof/piop/mod.rs Multiopen::verify maps=opening_sets at2 collect5=Vec<F>
@spec
    requires
        domain_size <= max_domain(),
        away(oracles@, evaluation_challenge@, domain_of(domain_size as nat), ch3(old(fs_rng).log(), proof)),
    ensures
        final(fs_rng).log() == log2(old(fs_rng).log(), proof.f_commit, proof.q_evals).push(Ev::Draw),
        r is Ok ==> proof.q_evals@.len() == group_count(oracles@) && all_complete(oracles@, evaluation_challenge@, domain_of(domain_size as nat))
            && exists|fs: Seq<F>| #[trigger] batch_opens(oracles@, evaluation_challenge@, domain_of(domain_size as nat), old(fs_rng).log(), proof, fs)
                && batch_accepts(*vk, oracles@, old(fs_rng).log(), proof, fs),
        r is Err && proof.q_evals@.len() == group_count(oracles@) && all_complete(oracles@, evaluation_challenge@, domain_of(domain_size as nat)) ==>
            exists|fs: Seq<F>| #[trigger] batch_opens(oracles@, evaluation_challenge@, domain_of(domain_size as nat), old(fs_rng).log(), proof, fs)
                && !batch_accepts(*vk, oracles@, old(fs_rng).log(), proof, fs),
@start
    broadcast use {pows_by_steps, pw_by_steps};
    let ghost l0 = old(fs_rng).log();
    let ghost d = domain_of(domain_size as nat);
    let ghost (n, w, xi) = (d.n(), d.w(), evaluation_challenge@);
    let ghost (x1, x2, x3, x4) = (ch1(l0), ch2(l0), ch3(l0, proof), ch4(l0, proof));
    let ghost os = oracles@;
@loop 0
    invariant __n0 == os.len(), grouped(opening_sets.map(), os, __i0 as nat), opening_sets.order().len() <= __i0,
@beforeloop 0
    proof { assert(opening_sets.map().dom() =~= keys_of(os, 0)); opening_sets.ordered(); if opening_sets.order().len() > 0 { assert(opening_sets.order().contains(opening_sets.order()[0])); } }
@loopstart 0
    let ghost m0 = opening_sets.map();
@loopend 0
    proof { grouped_push(m0, opening_sets.map(), opening_sets.map()[okey(os[__i0 as int])], os, __i0 as nat); }
@afterloop 0
    proof { opening_sets.ordered(); }
@closureargs 0
    x1_i: &F
@closure 0
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == x1_i@ * x1
@closureargs 1
    x2_i: &F
@closure 1
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == x2_i@ * x2
@closureargs 2
    x4_i: &F
@closure 2
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == x4_i@ * x4
@afterlet x4_powers
    assert(rpow(x4, 0) == 1real && rpow(x4, 1) == x4 * rpow(x4, 0));
    assert(rpow(x4, 1) == x4) by(nonlinear_arith) requires rpow(x4, 0) == 1real, rpow(x4, 1) == x4 * rpow(x4, 0);
    assert(x4_powers@ == pw(x4, 1, proof.q_evals@.len()));
@beforeloop 7
    assert forall|j: int| 0 <= j < x4_powers@.len() implies (#[trigger] x4_powers@[j])@ == rpow(x4, (1 + j) as nat) by { assert(x4_powers@[j] == pw(x4, 1, x4_powers@.len())[j]); }
@afterlet x1_powers
    proof { assert(ratio(x1)); assert(ratio(x2)); assert(from_power(x4, 1)); }
    assert(is_pows(x1_powers@, x1) && x1_powers@.len() == os.len());
@hoistargs qs
    |rotations: &BTreeSet<Rotation>, oracles: &Vec<&dyn CommittedOracle>| -> (q: Result<(PC_Commitment, BTreeMap<F, F>), Error>)
@hoist qs
    requires oracles@.len() <= x1_powers@.len()
    ensures match q {
        Ok(q) => complete(oracles@, rotations.seq(), xi, w, n) && q.0.v() == q_com(oracles@, x1, oracles@.len()) && valued(q.1, oracles@, rotations.seq(), rotations.seq().len() as int, xi, w, n, x1),
        Err(_) => !complete(oracles@, rotations.seq(), xi, w, n) }
@loop 1
    invariant __n1 == oracles@.len(), q_i.v() == q_com(oracles@, x1, __i1 as nat), forall|j: int| 0 <= j < __i1 ==> (#[trigger] oracles@[j]).s_com() is Some,
@beforeloop 2
    proof { assert(rotations.seq().subrange(0, 0) =~= Seq::empty()); q_i_evals_set.ordered();
        if q_i_evals_set.order().len() > 0 { assert(q_i_evals_set.order().contains(q_i_evals_set.order()[0])); } }
@loop 2
    invariant __n2 == rotations.seq().len(), valued(q_i_evals_set, oracles@, rotations.seq(), __i2 as int, xi, w, n, x1), is_powers(omegas@, w), omegas@.len() == n,
@loopstart 2
    let ghost m1 = q_i_evals_set;
    let ghost p = point(xi, w, rotations.seq()[__i2 as int], n);
@loop 3
    invariant __n3 == oracles@.len(), evaluation@ == q_val(oracles@, x1, p, __i3 as nat), forall|j: int| 0 <= j < __i3 ==> (#[trigger] oracles@[j]).s_claim(p) is Some, evaluation_point@ == p,
@afterlet prev
    proof {
        if prev is Some { met_twice(m1, oracles@, rotations.seq(), __i2 as int, xi, w, n, x1); }
        else { valued_step(m1, q_i_evals_set, oracles@, rotations.seq(), __i2 as int, xi, w, n, x1, evaluation); }
    }
@afterloop 2
    assert(rotations.seq().subrange(0, rotations.seq().len() as int) =~= rotations.seq());
@loop 5
    invariant __n5 == group_count(os), __v5@.len() == __i5,
        forall|j: int| 0 <= j < __i5 ==> opens(group(os, j), rots_of(os, j), xi, w, n, x1, x3, proof.q_evals@[j]@, (#[trigger] __v5@[j])@),
        forall|j: int| 0 <= j < __i5 ==> complete(#[trigger] group(os, j), rots_of(os, j), xi, w, n),
@loopstart 5
    let ghost (g, s) = (group(os, __i5 as int), rots_of(os, __i5 as int));
    proof { group_is(opening_sets.map(), os, __i5 as int); }
@afterlet q_eval_set
    assert(valued(q_eval_set, g, s, s.len() as int, xi, w, n, x1));
    proof { q_eval_set.ordered(); }
@afterlet r_evals
    let ghost pts = evaluation_domain@;
    proof { listed(q_eval_set, g, s, xi, w, n, x1, pts, r_evals@); }
@beforeloop 4
    proof { broadcast use poly_ops; }
@loopstart 4
    let ghost r0 = r_poly;
@loopend 4
    proof { broadcast use poly_ops; through_step(r0, r_poly, lagrange_bases@[__i4 as int], pts, r_evals@, __i4 as int); }
@afterloop 4
    proof {
        vanish_roots(pts, pts.len(), x3);
        assert(os.contains(g[0]));
        assert(!is_point(s, xi, w, n, x3));
        assert(interpolates(g, s, xi, w, n, x1, pts, r_poly));
        let (z, dq) = (vanish(pts, pts.len(), x3), q_eval@ - r_poly.at(x3));
        assert forall|i: real| #[trigger] is_inv(i, z) implies opens(g, s, xi, w, n, x1, x3, q_eval@, dq * i) by {
            divided(dq, z, i);
            assert(divides(dq * i, z, q_eval@ - r_poly.at(x3)));
        }
    }
@loop 4
    invariant __n4 == evaluation_domain@.len(), through(r_poly, evaluation_domain@, r_evals@, __i4 as int),
@afterloop 5
    assert(batch_opens(os, xi, d, l0, proof, __v5@));
@loop 6
    invariant __n6 == f_evals@.len(), final_poly_eval@ == fsum(f_evals@, x2, __i6 as nat),
@beforeloop 7
    proof { groups_are(opening_sets.map(), os); }
@loop 7
    invariant __n7 == group_count(os), final_poly_commitment.v() == coms_sum(os, x1, x4, proof.f_commit.v(), __i7 as nat),
        final_poly_eval@ == evals_sum(proof.q_evals@, x4, fsum(f_evals@, x2, f_evals@.len()), __i7 as nat),
@end
}
}
}
