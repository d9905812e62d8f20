@map dyn Instantiable<F> => dyn Opened
@map LabeledPolynomial<F, DensePolynomial<F>> => LabeledPolynomial
@map LabeledPolynomial::new => labeled_polynomial
@map PC::Randomness::empty => PC_Randomness::empty
@map "q_i".to_string() => str_into("q_i")
@map "f_aggregated".to_string() => str_into("f_aggregated")
@map MpError<PC::Error> => mo::Error
@map Error<PC::Error> => mo::Error
@map FirstRound<'a, F, PC> => (LabeledPolynomial, ProverState<'a>)
@map ThirdRound<F, PC::Randomness> => (LabeledPolynomial, PC_Randomness)
@map OpeningSet<'a, F, PC::Randomness> => BTreeMap<BTreeSet<Rotation>, Vec<(&'a dyn Opened, &'a PC_Randomness)>>
verus! {
// The committing side of the scheme: commitments to a polynomial with its
// randomness are linear in both (com unit), and opening a commitment at a
// point gives a proof that `check` accepts for the polynomial's value there.
impl Clone for LabeledPolynomial {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl LabeledPolynomial {
    pub fn polynomial(&self) -> (r: &DensePolynomial) ensures *r == self.poly { &self.poly }
}
#[verifier::external_body]
pub struct PC_Randomness { x: u8 }
impl Clone for PC_Randomness {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct PC_CommitterKey { x: u8 }
pub uninterp spec fn rand_empty() -> PC_Randomness;
pub uninterp spec fn rand_sum(a: PC_Randomness, b: PC_Randomness) -> PC_Randomness;
pub uninterp spec fn rand_scaled(a: PC_Randomness, s: real) -> PC_Randomness;
pub uninterp spec fn com_of(ck: PC_CommitterKey, p: DensePolynomial, r: PC_Randomness) -> real;
pub uninterp spec fn same_setup(ck: PC_CommitterKey, vk: PC_VerifierKey) -> bool;
#[verifier::external_body]
pub broadcast proof fn com_zero(ck: PC_CommitterKey, p: DensePolynomial) requires p.coeffs@.len() == 0 ensures #[trigger] com_of(ck, p, rand_empty()) == 0real { unimplemented!() }
#[verifier::external_body]
pub broadcast proof fn com_sum(ck: PC_CommitterKey, a: DensePolynomial, b: DensePolynomial, ra: PC_Randomness, rb: PC_Randomness)
    ensures #[trigger] com_of(ck, poly_sum(a, b), rand_sum(ra, rb)) == com_of(ck, a, ra) + com_of(ck, b, rb) { unimplemented!() }
#[verifier::external_body]
pub broadcast proof fn com_scaled(ck: PC_CommitterKey, a: DensePolynomial, s: real, ra: PC_Randomness)
    ensures #[trigger] com_of(ck, poly_scaled(a, s), rand_scaled(ra, s)) == com_of(ck, a, ra) * s { unimplemented!() }
pub broadcast group com_linear { com_zero, com_sum, com_scaled }
impl PC_Randomness {
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r == rand_empty() { unimplemented!() }
}
pub struct Once<A> { pub a: A }
pub fn once<A>(a: A) -> (r: Once<A>) ensures r.a == a { Once { a } }
impl PC {
    #[verifier::external_body]
    pub fn add_rands(a: &PC_Randomness, b: &PC_Randomness) -> (r: PC_Randomness) ensures r == rand_sum(*a, *b) { unimplemented!() }
    #[verifier::external_body]
    pub fn scale_rand(a: &PC_Randomness, s: F) -> (r: PC_Randomness) ensures r == rand_scaled(*a, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn commit(ck: &PC_CommitterKey, p: Once<&LabeledPolynomial>, rng: Option<&mut ZkRng>) -> (r: Result<(Vec<LabeledCommitment>, Vec<PC_Randomness>), PC_Error>)
        requires p.a.hiding is Some ==> rng is Some
        ensures r is Ok ==> r->Ok_0.0@.len() == 1 && r->Ok_0.1@.len() == 1 && r->Ok_0.0@[0].c().v() == com_of(*ck, p.a.poly, r->Ok_0.1@[0])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn open(ck: &PC_CommitterKey, p: Once<&LabeledPolynomial>, c: std::slice::Iter<LabeledCommitment>, x: &F, ch: F, rands: &[PC_Randomness; 1], rng: Option<&mut ZkRng>) -> (r: Result<PC_Proof, PC_Error>)
        ensures r is Ok ==> forall|vk: PC_VerifierKey| #[trigger] same_setup(*ck, vk) ==> accepts(vk, com_of(*ck, p.a.poly, rands@[0]), x@, p.a.poly.at(x@), r->Ok_0)
    { unimplemented!() }
}
// ark-poly's division with remainder
pub open spec fn is_div(q: DensePolynomial, a: DensePolynomial, b: DensePolynomial, m: DensePolynomial) -> bool {
    &&& forall|x: real| #[trigger] a.at(x) == q.at(x) * b.at(x) + m.at(x)
    &&& m.coeffs@.len() < b.coeffs@.len()
}
impl DensePolynomial {
    #[verifier::external_body]
    pub fn div_ref(&self, b: &DensePolynomial) -> (r: DensePolynomial)
        requires b.coeffs@.len() > 0
        ensures exists|m: DensePolynomial| #[trigger] is_div(r, *self, *b, m)
    { unimplemented!() }
}
// what the batched opening sees of a prover's column
pub trait Opened {
    spec fn s_prots(&self) -> BTreeSet<Rotation>;
    spec fn s_poly(&self) -> DensePolynomial;
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) ensures *r == self.s_prots();
    fn polynomial(&self) -> (r: &DensePolynomial) ensures *r == self.s_poly();
    fn query(&self, challenge: &F) -> (r: Result<F, PiopError>) ensures r is Ok, r->Ok_0@ == self.s_poly().at(challenge@);
}
// a column with the randomness it was committed with
pub ghost struct Col { pub s: Seq<Rotation>, pub p: DensePolynomial, pub r: PC_Randomness }
pub open spec fn col(o: &dyn Opened, r: PC_Randomness) -> Col { Col { s: o.s_prots().seq(), p: o.s_poly(), r } }
pub open spec fn cols(v: Seq<(&dyn Opened, &PC_Randomness)>) -> Seq<Col> { v.map_values(|x: (&dyn Opened, &PC_Randomness)| col(x.0, *x.1)) }
pub open spec fn all_cols(os: Seq<&dyn Opened>, rs: Seq<PC_Randomness>) -> Seq<Col> { Seq::new(os.len(), |i: int| col(os[i], rs[i])) }
pub open spec fn pmembers(ps: Seq<Col>, k: KeyV, n: nat) -> Seq<Col> decreases n {
    if n == 0 { Seq::empty() } else if rots_key(ps[n - 1].s) == k { pmembers(ps, k, (n - 1) as nat).push(ps[n - 1]) } else { pmembers(ps, k, (n - 1) as nat) }
}
pub open spec fn pkeys(ps: Seq<Col>, n: nat) -> ISet<KeyV> { ISet::new(|k: KeyV| exists|i: int| 0 <= i < n && rots_key((#[trigger] ps[i]).s) == k) }
pub open spec fn pgroups(ps: Seq<Col>) -> Seq<Seq<Col>> { Seq::new(order_of(pkeys(ps, ps.len())).len(), |i: int| pmembers(ps, order_of(pkeys(ps, ps.len()))[i], ps.len())) }
pub open spec fn pgrouped(m: IMap<KeyV, Vec<(&dyn Opened, &PC_Randomness)>>, ps: Seq<Col>, n: nat) -> bool {
    m.dom() == pkeys(ps, n) && forall|k: KeyV| #[trigger] m.dom().contains(k) ==> cols(m[k]@) == pmembers(ps, k, n)
}
pub proof fn pmembers_of(ps: Seq<Col>, k: KeyV, n: nat)
    requires n <= ps.len()
    ensures pmembers(ps, k, n).len() <= n,
        forall|i: int| 0 <= i < pmembers(ps, k, n).len() ==> rots_key((#[trigger] pmembers(ps, k, n)[i]).s) == k,
        (exists|i: int| 0 <= i < n && rots_key((#[trigger] ps[i]).s) == k) ==> pmembers(ps, k, n).len() > 0,
        !(exists|i: int| 0 <= i < n && rots_key((#[trigger] ps[i]).s) == k) ==> pmembers(ps, k, n).len() == 0,
    decreases n
{
    if n > 0 {
        pmembers_of(ps, k, (n - 1) as nat);
        assert(rots_key(ps[n - 1].s) == k || rots_key(ps[n - 1].s) != k);
    }
}
pub proof fn pgrouped_push(m: IMap<KeyV, Vec<(&dyn Opened, &PC_Randomness)>>, m2: IMap<KeyV, Vec<(&dyn Opened, &PC_Randomness)>>, x: (&dyn Opened, &PC_Randomness), ps: Seq<Col>, n: nat)
    requires n < ps.len(), pgrouped(m, ps, n), col(x.0, *x.1) == ps[n as int],
        ({ let k = rots_key(ps[n as int].s); m2 == m.insert(k, m2[k]) && m2[k]@ == (if m.dom().contains(k) { m[k]@ } else { Seq::empty() }).push(x) })
    ensures pgrouped(m2, ps, n + 1)
{
    let k0 = rots_key(ps[n as int].s);
    assert(m2.dom() =~= pkeys(ps, n + 1)) by {
        assert forall|k: KeyV| m2.dom().contains(k) == pkeys(ps, n + 1).contains(k) by {
            if m2.dom().contains(k) {
                if k == k0 { assert(rots_key(ps[n as int].s) == k); } else { assert(pkeys(ps, n).contains(k)); let i = choose|i: int| 0 <= i < n && rots_key((#[trigger] ps[i]).s) == k; assert(rots_key(ps[i].s) == k && i < n + 1); }
            }
            if pkeys(ps, n + 1).contains(k) && k != k0 {
                let i = choose|i: int| 0 <= i < n + 1 && rots_key((#[trigger] ps[i]).s) == k;
                assert(0 <= i < n && rots_key(ps[i].s) == k);
                assert(pkeys(ps, n).contains(k));
            }
        }
    }
    assert forall|k: KeyV| #[trigger] m2.dom().contains(k) implies cols(m2[k]@) == pmembers(ps, k, n + 1) by {
        if k == k0 {
            pmembers_of(ps, k, n);
            let old = if m.dom().contains(k) { m[k]@ } else { Seq::empty() };
            if !m.dom().contains(k) { assert(!pkeys(ps, n).contains(k)); assert(pmembers(ps, k, n) =~= Seq::empty()); assert(cols(old) =~= Seq::empty()); }
            assert(cols(m2[k]@) =~= cols(old).push(ps[n as int]));
        } else { assert(m.dom().contains(k)); }
    }
}
// the groups as a map holds them, in the order of their keys
pub open spec fn map_groups(m: IMap<KeyV, Vec<(&dyn Opened, &PC_Randomness)>>) -> Seq<Seq<Col>> { Seq::new(order_of(m.dom()).len(), |i: int| cols(m[order_of(m.dom())[i]]@)) }
pub open spec fn keys_fit(m: IMap<KeyV, Vec<(&dyn Opened, &PC_Randomness)>>) -> bool {
    forall|i: int| 0 <= i < map_groups(m).len() ==> (#[trigger] map_groups(m)[i]).len() > 0 && rots_key(map_groups(m)[i][0].s) == order_of(m.dom())[i]
}
pub open spec fn gfits(gs: Seq<Seq<Col>>, n: nat) -> bool { forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).len() <= n }
pub proof fn pgroups_are(m: IMap<KeyV, Vec<(&dyn Opened, &PC_Randomness)>>, ps: Seq<Col>)
    requires pgrouped(m, ps, ps.len()), is_order(order_of(m.dom()), m.dom())
    ensures map_groups(m) == pgroups(ps), keys_fit(m), gfits(pgroups(ps), ps.len()),
{
    let o = order_of(m.dom());
    assert forall|i: int| 0 <= i < o.len() implies cols(m[o[i]]@) == pgroups(ps)[i] && #[trigger] map_groups(m)[i].len() > 0 && pgroups(ps)[i].len() <= ps.len() && rots_key(map_groups(m)[i][0].s) == o[i] by {
        assert(o.contains(o[i]));
        assert(pkeys(ps, ps.len()).contains(o[i]));
        pmembers_of(ps, o[i], ps.len());
    }
    assert forall|i: int| 0 <= i < pgroups(ps).len() implies (#[trigger] pgroups(ps)[i]).len() <= ps.len() by { assert(map_groups(m)[i].len() > 0); }
    assert(map_groups(m) =~= pgroups(ps)) by {
        assert forall|i: int| 0 <= i < o.len() implies #[trigger] map_groups(m)[i] == pgroups(ps)[i] by { assert(map_groups(m)[i].len() > 0); }
    }
}
pub proof fn group_at(m: IMap<KeyV, Vec<(&dyn Opened, &PC_Randomness)>>, n: nat)
    requires keys_fit(m), gfits(map_groups(m), n)
    ensures forall|i: int| 0 <= i < order_of(m.dom()).len() ==> cols((#[trigger] m[order_of(m.dom())[i]])@) == map_groups(m)[i] && m[order_of(m.dom())[i]]@.len() <= n && m[order_of(m.dom())[i]]@.len() == map_groups(m)[i].len(),
        forall|i: int, s: Seq<Rotation>| 0 <= i < order_of(m.dom()).len() && #[trigger] rots_key(s) == #[trigger] order_of(m.dom())[i] ==> s == map_groups(m)[i][0].s,
        map_groups(m).len() == order_of(m.dom()).len(),
{
    let o = order_of(m.dom());
    assert forall|i: int| 0 <= i < o.len() implies cols((#[trigger] m[o[i]])@) == map_groups(m)[i] && m[o[i]]@.len() <= n && m[o[i]]@.len() == map_groups(m)[i].len() by {
        assert(map_groups(m)[i].len() <= n);
        assert(cols(m[o[i]]@).len() == m[o[i]]@.len());
    }
    assert forall|i: int, s: Seq<Rotation>| 0 <= i < o.len() && #[trigger] rots_key(s) == #[trigger] o[i] implies s == map_groups(m)[i][0].s by {
        assert(map_groups(m)[i].len() > 0);
        same_rots(s, map_groups(m)[i][0].s);
    }
}
// a group's combination: its value anywhere and its commitment
pub open spec fn pq_at(g: Seq<Col>, x1: real, x: real, n: nat) -> real decreases n {
    if n == 0 { 0real } else { pq_at(g, x1, x, (n - 1) as nat) + g[n - 1].p.at(x) * rpow(x1, (n - 1) as nat) }
}
pub open spec fn pq_com(ck: PC_CommitterKey, g: Seq<Col>, x1: real, n: nat) -> real decreases n {
    if n == 0 { 0real } else { pq_com(ck, g, x1, (n - 1) as nat) + com_of(ck, g[n - 1].p, g[n - 1].r) * rpow(x1, (n - 1) as nat) }
}
pub open spec fn combines(q: DensePolynomial, r: PC_Randomness, g: Seq<Col>, x1: real, n: nat) -> bool {
    &&& forall|x: real| #[trigger] q.at(x) == pq_at(g, x1, x, n)
    &&& forall|ck: PC_CommitterKey| #[trigger] com_of(ck, q, r) == pq_com(ck, g, x1, n)
}
// the points a group is opened at, as the map of its values lists them
pub open spec fn keyed(m: BTreeMap<F, F>, s: Seq<Rotation>, k: int, xi: real, w: real, n: nat) -> bool {
    &&& m.order().len() == k
    &&& forall|p: real| #[trigger] m.map().dom().contains(KeyV::R(p)) <==> is_point(s.subrange(0, k), xi, w, n, p)
    &&& forall|y: KeyV| #[trigger] m.map().dom().contains(y) ==> y is R
    &&& points_apart(s.subrange(0, k), xi, w, n)
}
pub proof fn keyed_step(m: BTreeMap<F, F>, m2: BTreeMap<F, F>, s: Seq<Rotation>, k: int, xi: real, w: real, n: nat, v: F)
    requires 0 <= k < s.len(), keyed(m, s, k, xi, w, n),
        m2.map() == m.map().insert(KeyV::R(point(xi, w, s[k], n)), v), m2.order().len() == m.order().len() + 1,
        !m.map().dom().contains(KeyV::R(point(xi, w, s[k], n))),
    ensures keyed(m2, s, k + 1, xi, w, n)
{
    let (a, b) = (s.subrange(0, k), s.subrange(0, k + 1));
    let pk = point(xi, w, s[k], n);
    assert forall|p: real| is_point(b, xi, w, n, p) == (is_point(a, xi, w, n, p) || p == pk) by {
        if is_point(b, xi, w, n, p) {
            let i = choose|i: int| 0 <= i < b.len() && p == point(xi, w, #[trigger] b[i], n);
            if i < k { assert(a[i] == b[i]); }
        }
        if is_point(a, xi, w, n, p) {
            let i = choose|i: int| 0 <= i < a.len() && p == point(xi, w, #[trigger] a[i], n);
            assert(b[i] == a[i]);
        }
        if p == pk { assert(b[k] == s[k]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies point(xi, w, #[trigger] b[i], n) != point(xi, w, #[trigger] b[j], n) by {
        assert(a[i] == b[i]);
        if j < k { assert(a[j] == b[j]); } else { assert(is_point(a, xi, w, n, point(xi, w, b[i], n))); }
    }
    assert forall|p: real| #[trigger] m2.map().dom().contains(KeyV::R(p)) <==> is_point(b, xi, w, n, p) by { assert(m.map().dom().contains(KeyV::R(p)) <==> is_point(a, xi, w, n, p)); }
    assert forall|y: KeyV| #[trigger] m2.map().dom().contains(y) implies y is R by { if y != KeyV::R(pk) { assert(m.map().dom().contains(y)); } }
}
pub proof fn keyed_twice(m: BTreeMap<F, F>, s: Seq<Rotation>, k: int, xi: real, w: real, n: nat)
    requires 0 <= k < s.len(), keyed(m, s, k, xi, w, n), m.map().dom().contains(KeyV::R(point(xi, w, s[k], n)))
    ensures !points_apart(s, xi, w, n)
{
    let a = s.subrange(0, k);
    let pk = point(xi, w, s[k], n);
    assert(is_point(a, xi, w, n, pk));
    let i = choose|i: int| 0 <= i < a.len() && pk == point(xi, w, #[trigger] a[i], n);
    assert(a[i] == s[i]);
    assert(point(xi, w, s[i], n) == point(xi, w, s[k], n));
}
// the points of a group
pub open spec fn points_are(pts: Seq<F>, s: Seq<Rotation>, xi: real, w: real, n: nat) -> bool {
    &&& distinct(pts) && pts.len() == s.len()
    &&& forall|p: real| #[trigger] is_point(s, xi, w, n, p) <==> exists|i: int| 0 <= i < pts.len() && (#[trigger] pts[i])@ == p
}
pub proof fn plisted(m: BTreeMap<F, F>, s: Seq<Rotation>, xi: real, w: real, n: nat, pts: Seq<F>)
    requires keyed(m, s, s.len() as int, xi, w, n), is_order(m.order(), m.map().dom()),
        pts.len() == m.order().len(), forall|i: int| 0 <= i < pts.len() ==> (#[trigger] pts[i]).k() == m.order()[i],
    ensures points_are(pts, s, xi, w, n)
{
    assert(s.subrange(0, s.len() as int) =~= s);
    assert forall|p: real| #[trigger] is_point(s, xi, w, n, p) <==> exists|i: int| 0 <= i < pts.len() && (#[trigger] pts[i])@ == p by {
        assert(m.map().dom().contains(KeyV::R(p)) <==> is_point(s, xi, w, n, p));
        if is_point(s, xi, w, n, p) {
            assert(m.order().contains(KeyV::R(p)));
            let i = choose|i: int| 0 <= i < m.order().len() && m.order()[i] == KeyV::R(p);
            assert(pts[i].k() == KeyV::R(p));
        }
        if exists|i: int| 0 <= i < pts.len() && (#[trigger] pts[i])@ == p {
            let i = choose|i: int| 0 <= i < pts.len() && (#[trigger] pts[i])@ == p;
            assert(pts[i].k() == m.order()[i]);
            assert(m.order().contains(m.order()[i]));
        }
    }
    assert(distinct(pts)) by {
        assert forall|i: int, j: int| 0 <= i < pts.len() && 0 <= j < pts.len() && i != j implies (#[trigger] pts[i])@ != (#[trigger] pts[j])@ by {
            assert(pts[i].k() == m.order()[i] && pts[j].k() == m.order()[j]);
        }
    }
}
// f is the quotient of the group's combination by its points: what is left
// is a polynomial shorter than the number of points
pub open spec fn quotient_of(f: DensePolynomial, g: Seq<Col>, s: Seq<Rotation>, xi: real, w: real, n: nat, x1: real) -> bool {
    exists|pts: Seq<F>, m: DensePolynomial| #[trigger] divided_by(f, g, x1, pts, m) && points_are(pts, s, xi, w, n)
}
pub open spec fn divided_by(f: DensePolynomial, g: Seq<Col>, x1: real, pts: Seq<F>, m: DensePolynomial) -> bool {
    &&& forall|x: real| pq_at(g, x1, x, g.len()) == #[trigger] f.at(x) * vanish(pts, pts.len(), x) + m.at(x)
    &&& m.coeffs@.len() <= pts.len()
}
pub open spec fn pf_at(fs: Seq<DensePolynomial>, x2: real, x: real, n: nat) -> real decreases n {
    if n == 0 { 0real } else { pf_at(fs, x2, x, (n - 1) as nat) + fs[n - 1].at(x) * rpow(x2, (n - 1) as nat) }
}
pub open spec fn aggregates(f: DensePolynomial, fs: Seq<DensePolynomial>, x2: real) -> bool { forall|x: real| #[trigger] f.at(x) == pf_at(fs, x2, x, fs.len()) }
pub open spec fn quotients(fs: Seq<DensePolynomial>, gs: Seq<Seq<Col>>, xi: real, w: real, n: nat, x1: real) -> bool {
    fs.len() == gs.len() && forall|i: int| 0 <= i < fs.len() ==> quotient_of(#[trigger] fs[i], gs[i], gs[i][0].s, xi, w, n, x1)
}
pub open spec fn f_is(f: DensePolynomial, gs: Seq<Seq<Col>>, xi: real, w: real, n: nat, x1: real, x2: real) -> bool {
    exists|fs: Seq<DensePolynomial>| #[trigger] quotients(fs, gs, xi, w, n, x1) && aggregates(f, fs, x2)
}
pub open spec fn q_ready(q: Seq<LabeledPolynomial>, r: Seq<PC_Randomness>, gs: Seq<Seq<Col>>, x1: real) -> bool {
    &&& q.len() == gs.len() && r.len() == q.len()
    &&& forall|i: int| 0 <= i < q.len() ==> combines((#[trigger] q[i]).poly, r[i], gs[i], x1, gs[i].len())
}
pub open spec fn pall_apart(gs: Seq<Seq<Col>>, xi: real, w: real, n: nat) -> bool { forall|i: int| 0 <= i < gs.len() ==> points_apart((#[trigger] gs[i])[0].s, xi, w, n) }
pub open spec fn pevals_sum(gs: Seq<Seq<Col>>, x1: real, x4: real, x: real, e: real, n: nat) -> real decreases n {
    if n == 0 { e } else { pevals_sum(gs, x1, x4, x, e, (n - 1) as nat) + pq_at(gs[n - 1], x1, x, gs[n - 1].len()) * rpow(x4, n) }
}
pub open spec fn pcoms_sum(ck: PC_CommitterKey, gs: Seq<Seq<Col>>, x1: real, x4: real, c: real, n: nat) -> real decreases n {
    if n == 0 { c } else { pcoms_sum(ck, gs, x1, x4, c, (n - 1) as nat) + pq_com(ck, gs[n - 1], x1, gs[n - 1].len()) * rpow(x4, n) }
}
pub open spec fn final_is(p: DensePolynomial, r: PC_Randomness, f: DensePolynomial, fr: PC_Randomness, gs: Seq<Seq<Col>>, x1: real, x4: real, n: nat) -> bool {
    &&& forall|x: real| #[trigger] p.at(x) == pevals_sum(gs, x1, x4, x, f.at(x), n)
    &&& forall|ck: PC_CommitterKey| #[trigger] com_of(ck, p, r) == pcoms_sum(ck, gs, x1, x4, com_of(ck, f, fr), n)
}
// the combination, as it is built
pub open spec fn q_fold(g: Seq<Col>, x1: real, n: nat) -> DensePolynomial decreases n {
    if n == 0 { poly_zero() } else { poly_sum(q_fold(g, x1, (n - 1) as nat), poly_scaled(g[n - 1].p, rpow(x1, (n - 1) as nat))) }
}
pub open spec fn r_fold(g: Seq<Col>, x1: real, n: nat) -> PC_Randomness decreases n {
    if n == 0 { rand_empty() } else { rand_sum(r_fold(g, x1, (n - 1) as nat), rand_scaled(g[n - 1].r, rpow(x1, (n - 1) as nat))) }
}
pub proof fn folds_combine(g: Seq<Col>, x1: real, n: nat)
    requires n <= g.len()
    ensures combines(q_fold(g, x1, n), r_fold(g, x1, n), g, x1, n)
    decreases n
{
    broadcast use {poly_ops, com_linear};
    if n == 0 { zero_is(); } else { folds_combine(g, x1, (n - 1) as nat); }
}
#[verifier::external_body]
pub proof fn zero_is() ensures poly_zero().coeffs@.len() == 0, forall|x: real| #[trigger] poly_zero().at(x) == 0real { unimplemented!() }
pub proof fn final_step(a: DensePolynomial, ra: PC_Randomness, f: DensePolynomial, fr: PC_Randomness, gs: Seq<Seq<Col>>, x1: real, x4: real, n: nat, q: DensePolynomial, qr: PC_Randomness)
    requires n < gs.len(), final_is(a, ra, f, fr, gs, x1, x4, n), combines(q, qr, gs[n as int], x1, gs[n as int].len())
    ensures final_is(poly_sum(a, poly_scaled(q, rpow(x4, n + 1))), rand_sum(ra, rand_scaled(qr, rpow(x4, n + 1))), f, fr, gs, x1, x4, n + 1)
{ broadcast use {poly_ops, com_linear}; }
}
verus! {
pub mod mp {
use super::*;
use super::mo::{Error, Proof, VerifierFirstMsg, VerifierSecondMsg, VerifierThirdMsg, PIOP, Multiopen};
@item src/multiproof/piop/prover.rs ProverState
pub open spec fn started(s: ProverState, gs: Seq<Seq<Col>>, d: GeneralEvaluationDomain) -> bool {
    &&& map_groups(s.opening_sets.map()) == gs && keys_fit(s.opening_sets.map()) && gfits(gs, s.num_of_oracles as nat)
    &&& s.domain == d
}
pub open spec fn q_known(s: ProverState, gs: Seq<Seq<Col>>, x1: real) -> bool {
    s.q_polys is Some && s.q_rands is Some && q_ready(s.q_polys->Some_0@, s.q_rands->Some_0@, gs, x1)
}
// what the prover sends for its groups of columns
pub open spec fn honest(ck: PC_CommitterKey, gs: Seq<Seq<Col>>, xi: real, d: GeneralEvaluationDomain, l: Seq<Ev>, p: Proof) -> bool {
    &&& pall_apart(gs, xi, d.w(), d.n())
    &&& p.q_evals@.len() == gs.len()
    &&& forall|i: int| 0 <= i < gs.len() ==> (#[trigger] p.q_evals@[i])@ == pq_at(gs[i], ch1(l), ch3(l, p), gs[i].len())
    &&& exists|f: DensePolynomial, fr: PC_Randomness| #[trigger] sent(ck, gs, xi, d, l, p, f, fr)
}
pub open spec fn sent(ck: PC_CommitterKey, gs: Seq<Seq<Col>>, xi: real, d: GeneralEvaluationDomain, l: Seq<Ev>, p: Proof, f: DensePolynomial, fr: PC_Randomness) -> bool {
    &&& f_is(f, gs, xi, d.w(), d.n(), ch1(l), ch2(l))
    &&& p.f_commit.v() == com_of(ck, f, fr)
    &&& forall|vk: PC_VerifierKey| #[trigger] same_setup(ck, vk) ==> accepts(vk, pcoms_sum(ck, gs, ch1(l), ch4(l, p), p.f_commit.v(), gs.len()), ch3(l, p),
            pevals_sum(gs, ch1(l), ch4(l, p), ch3(l, p), f.at(ch3(l, p)), gs.len()), p.opening_proof)
}
#[verifier::external_body]
pub broadcast proof fn one_in_list(s: Seq<Seq<u8>>) ensures s.len() == 1 ==> #[trigger] list_bytes(1, s) == s[0] { unimplemented!() }
impl PIOP {
@fn src/multiproof/piop/prover.rs PIOP::init_prover maps=opening_sets strip=PC
@spec
    requires domain_size <= max_domain(), oracles@.len() == oracle_rands@.len(),
    ensures r is Ok, started(r->Ok_0, pgroups(all_cols(oracles@, oracle_rands@)), domain_of(domain_size as nat)),
@start
    let ghost ps = all_cols(oracles@, oracle_rands@);
@loop 0
    invariant __n0 == ps.len(), pgrouped(opening_sets.map(), ps, __i0 as nat),
@beforeloop 0
    proof { assert(opening_sets.map().dom() =~= pkeys(ps, 0)); }
@loopstart 0
    let ghost m0 = opening_sets.map();
@loopend 0
    proof { pgrouped_push(m0, opening_sets.map(), (oracle, rand), ps, __i0 as nat); }
@afterloop 0
    proof { opening_sets.ordered(); pgroups_are(opening_sets.map(), ps); }
@end
@fn src/multiproof/piop/prover.rs PIOP::prover_first_round strip=PC refcalls=polynomial at1 maps=state.opening_sets collect3=Vec<LabeledPolynomial> collect4=Vec<PC_Randomness>
@spec
    requires started(state, map_groups(state.opening_sets.map()), state.domain)
    ensures
        ({ let gs = map_groups(state.opening_sets.map()); let d = state.domain; match r {
            Ok(r) => {
                &&& pall_apart(gs, evaluation_challenge@, d.w(), d.n())
                &&& f_is(r.0.poly, gs, evaluation_challenge@, d.w(), d.n(), verifier_first_msg.x1@, verifier_first_msg.x2@)
                &&& r.0.hiding == Some(1usize) && r.0.bound is None
                &&& r.1.f_poly == Some(r.0)
                &&& q_known(r.1, gs, verifier_first_msg.x1@)
            },
            Err(_) => !pall_apart(gs, evaluation_challenge@, d.w(), d.n()),
        } })
@hoistargs qs
    |rotations: &BTreeSet<Rotation>, oracles_rands: &Vec<(&'a dyn Opened, &'a PC_Randomness)>| -> (q: Result<(DensePolynomial, PC_Randomness, BTreeMap<F, F>), PiopError>)
@hoist qs
    requires oracles_rands@.len() <= x1_powers@.len()
    ensures match q {
        Ok(q) => q.0 == q_fold(cols(oracles_rands@), x1, oracles_rands@.len()) && q.1 == r_fold(cols(oracles_rands@), x1, oracles_rands@.len()) && keyed(q.2, rotations.seq(), rotations.seq().len() as int, xi, w, n),
        Err(_) => !points_apart(rotations.seq(), xi, w, n) }
@start
    broadcast use {pows_by_steps, poly_ops, com_linear};
    let ghost gs = map_groups(state.opening_sets.map());
    let ghost os = state.opening_sets;
    let ghost (n, w, xi) = (state.domain.n(), state.domain.w(), evaluation_challenge@);
    let ghost (x1, x2) = (verifier_first_msg.x1@, verifier_first_msg.x2@);
    proof { os.ordered(); group_at(os.map(), state.num_of_oracles as nat); assert(ratio(x1)); assert(ratio(x2)); }
@closureargs 0
    x1_i: &F
@closure 0
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == x1_i@ * x1
@closureargs 1
    x2_i: &F
@closure 1
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == x2_i@ * x2
@afterlet x1_powers
    assert(is_pows(x1_powers@, x1) && x1_powers@.len() == state.num_of_oracles);
@loop 0
    invariant __n0 == oracles_rands@.len(), q_i == q_fold(cols(oracles_rands@), x1, __i0 as nat), q_i_rand == r_fold(cols(oracles_rands@), x1, __i0 as nat),
@beforeloop 1
    proof { assert(rotations.seq().subrange(0, 0) =~= Seq::empty()); q_i_evals_set.ordered();
        if q_i_evals_set.order().len() > 0 { assert(q_i_evals_set.order().contains(q_i_evals_set.order()[0])); } }
@loop 1
    invariant __n1 == rotations.seq().len(), keyed(q_i_evals_set, rotations.seq(), __i1 as int, xi, w, n), is_powers(omegas@, w), omegas@.len() == n,
@loopstart 1
    let ghost m1 = q_i_evals_set;
@loop 2
    invariant __n2 == oracles_rands@.len(), evaluation_point@ == point(xi, w, rotations.seq()[__i1 as int], n),
@loopend 1
    proof { keyed_step(m1, q_i_evals_set, rotations.seq(), __i1 as int, xi, w, n, evaluation); }
@afterloop 1
    assert(rotations.seq().subrange(0, rotations.seq().len() as int) =~= rotations.seq());
@loop 3
    invariant __n3 == gs.len(), __v3@.len() == __i3,
        forall|j: int| 0 <= j < __i3 ==> (#[trigger] __v3@[j]).poly == q_fold(gs[j], x1, gs[j].len()),
@loop 4
    invariant __n4 == gs.len(), __v4@.len() == __i4,
        forall|j: int| 0 <= j < __i4 ==> #[trigger] __v4@[j] == r_fold(gs[j], x1, gs[j].len()),
@loop 5
    invariant __n5 == gs.len(), __v5@.len() == __i5,
        forall|j: int| 0 <= j < __i5 ==> quotient_of(#[trigger] __v5@[j], gs[j], gs[j][0].s, xi, w, n, x1),
        forall|j: int| 0 <= j < __i5 ==> points_apart((#[trigger] gs[j])[0].s, xi, w, n),
@afterlet q_eval_set
    assert(gs[__i5 as int][0].s.subrange(0, gs[__i5 as int][0].s.len() as int) =~= gs[__i5 as int][0].s);
    let ghost (g, s) = (gs[__i5 as int], gs[__i5 as int][0].s);
    proof { q_eval_set.ordered(); folds_combine(g, x1, g.len()); }
    let ghost qp = q_poly;
@afterlet z_h
    proof {
        plisted(q_eval_set, s, xi, w, n, evaluation_domain@);
        assert forall|f: DensePolynomial, m: DensePolynomial| #[trigger] is_div(f, qp, z_h, m) implies quotient_of(f, g, s, xi, w, n, x1) by {
            assert(divided_by(f, g, x1, evaluation_domain@, m)) by {
                assert forall|x: real| pq_at(g, x1, x, g.len()) == #[trigger] f.at(x) * vanish(evaluation_domain@, evaluation_domain@.len(), x) + m.at(x) by { assert(qp.at(x) == f.at(x) * z_h.at(x) + m.at(x)); }
            }
        }
    }
@beforetail
    proof {
        assert(quotients(f_polys@, gs, xi, w, n, x1));
        assert forall|i: int| 0 <= i < gs.len() implies combines(#[trigger] q_fold(gs[i], x1, gs[i].len()), r_fold(gs[i], x1, gs[i].len()), gs[i], x1, gs[i].len()) by { folds_combine(gs[i], x1, gs[i].len()); }
    }
@loop 6
    invariant __n6 == f_polys@.len(), forall|x: real| #[trigger] f_agg_poly.at(x) == pf_at(f_polys@, x2, x, __i6 as nat),
@end
@fn src/multiproof/piop/prover.rs PIOP::prover_second_round strip=PC collect0=Vec<F>
@spec
    requires state.q_polys is Some
    ensures r is Ok, r->Ok_0@.len() == state.q_polys->Some_0@.len(),
        forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i])@ == state.q_polys->Some_0@[i].poly.at(verifier_second_msg.x3@),
@loop 0
    invariant __n0 == q_polys@.len(), __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __v0@[i])@ == q_polys@[i].poly.at(verifier_second_msg.x3@),
@end
@fn src/multiproof/piop/prover.rs PIOP::prover_third_round strip=PC refcalls=polynomial
@spec
    requires state.q_polys is Some, state.q_rands is Some, state.f_poly is Some, state.q_polys->Some_0@.len() == state.q_rands->Some_0@.len(),
    ensures r is Ok, r->Ok_0.0.hiding is None,
        forall|gs: Seq<Seq<Col>>, x1: real| #[trigger] q_known(*state, gs, x1) ==> final_is(r->Ok_0.0.poly, r->Ok_0.1, state.f_poly->Some_0.poly, *f_agg_poly_rand, gs, x1, verifier_third_msg.x4@, gs.len()),
@start
    broadcast use {pw_by_steps, poly_ops, com_linear};
    let ghost x4 = verifier_third_msg.x4@;
    proof { assert(from_power(x4, 1)); }
@closureargs 0
    x4_i: &F
@closure 0
    -> (q: Option<F>) ensures q is Some, q.unwrap()@ == x4_i@ * x4
@afterlet x4_powers
    assert(rpow(x4, 0) == 1real && rpow(x4, 1) == x4 * rpow(x4, 0));
    assert(rpow(x4, 1) == x4) by(nonlinear_arith) requires rpow(x4, 0) == 1real, rpow(x4, 1) == x4 * rpow(x4, 0);
    assert(x4_powers@ == pw(x4, 1, q_polys@.len()));
@beforeloop 0
    assert forall|j: int| 0 <= j < x4_powers@.len() implies (#[trigger] x4_powers@[j])@ == rpow(x4, (1 + j) as nat) by { assert(x4_powers@[j] == pw(x4, 1, x4_powers@.len())[j]); }
@loop 0
    invariant __n0 == q_polys@.len(),
        forall|gs: Seq<Seq<Col>>, x1: real| #[trigger] q_known(*state, gs, x1) ==> final_is(final_poly, final_poly_rand, f_poly.poly, *f_agg_poly_rand, gs, x1, x4, __i0 as nat),
@loopstart 0
    let ghost (fp, fr) = (final_poly, final_poly_rand);
@loopend 0
    proof {
        assert forall|gs: Seq<Seq<Col>>, x1: real| #[trigger] q_known(*state, gs, x1) implies final_is(final_poly, final_poly_rand, f_poly.poly, *f_agg_poly_rand, gs, x1, x4, __i0 as nat + 1) by {
            final_step(fp, fr, f_poly.poly, *f_agg_poly_rand, gs, x1, x4, __i0 as nat, q_polys@[__i0 as int].poly, q_rands@[__i0 as int]);
        }
    }
@end
}
impl Multiopen {
@map R => ZkRng
@fn src/multiproof/piop/mod.rs Multiopen::prove
@spec
    requires domain_size <= max_domain(), oracles@.len() == oracle_rands@.len(),
    ensures ({
        let gs = pgroups(all_cols(oracles@, oracle_rands@)); let d = domain_of(domain_size as nat); let l0 = old(fs_rng).log();
        r is Ok ==> {
            &&& final(fs_rng).log() == log2(l0, r->Ok_0.f_commit, r->Ok_0.q_evals).push(Ev::Draw)
            &&& honest(*ck, gs, evaluation_challenge@, d, l0, r->Ok_0)
        }
    })
@start
    broadcast use one_in_list;
    let ghost (gs, d, l0) = (pgroups(all_cols(oracles@, oracle_rands@)), domain_of(domain_size as nat), old(fs_rng).log());
@afterlet f_agg_poly_commitment
    let ghost cb = f_agg_poly_commitment@[0].c().bytes();
    assert(f_agg_poly_commitment.bytes() == cb) by {
        let m = f_agg_poly_commitment@.map_values(|a: LabeledCommitment| a.bytes());
        assert(m.len() == 1 && m[0] == cb);
        assert(list_bytes(1, m) == m[0]);
    }
@beforetail
    proof {
        assert(fs_rng.log() == log2(l0, proof.f_commit, proof.q_evals).push(Ev::Draw));
        assert(verifier_second_msg.x3@ == ch3(l0, proof));
        assert(verifier_third_msg.x4@ == ch4(l0, proof));
        assert(q_known(prover_state, gs, ch1(l0)));
        assert(sent(*ck, gs, evaluation_challenge@, d, l0, proof, f_agg_poly.poly, f_agg_rand@[0]));
    }
@end
}
}
}
