@include prelude.rs
@include prelude_pow.rs
@include prelude_poly.rs
@include prelude_polyops.rs
@include prelude_rand.rs
@include prelude_map.rs
@include prelude_dom.rs
verus! {
@item src/oracles/rotation.rs Sign derive=Clone,Copy,PartialEq,Eq,Structural
@item src/oracles/rotation.rs Rotation derive=Clone,Copy,PartialEq,Eq,Structural
pub enum VOError { UninitializedExpr, UninitializedLookupExpr, UninitializedLookupTableQuery }
@item src/piop/error.rs Error
pub type PiopError = Error;
pub enum TopError { Piop(PiopError), VO(VOError), QuotientTooSmall }
impl vstd::std_specs::convert::FromSpecImpl<PiopError> for TopError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: PiopError) -> TopError { TopError::Piop(e) }
}
impl From<PiopError> for TopError {
    fn from(e: PiopError) -> (r: TopError) { TopError::Piop(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<VOError> for TopError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: VOError) -> TopError { TopError::VO(e) }
}
impl From<VOError> for TopError {
    fn from(e: VOError) -> (r: TopError) { TopError::VO(e) }
}
}
@map Error<PC::Error> => TopError
@map Error::QuotientTooSmall => TopError::QuotientTooSmall
@include expr_core.vs imported
@include expr_deg.vs imported
@include zhcoset.vs imported
verus! {
impl Clone for OracleQuery {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// ------------------------------------------------------- dependencies
pub trait VirtualOracle {
    spec fn s_expr(&self) -> Option<Expression>;
    fn get_expression(&self) -> (r: Result<&Expression, VOError>)
        ensures match r { Ok(e) => self.s_expr() == Some(*e), Err(_) => self.s_expr() is None };
}
pub trait LookupVirtualOracle {}
// columns, by the contracts proved for them in unit `oracles`
pub trait ConcreteOracle: Sized {
    spec fn lab(&self) -> Seq<char>;
    fn get_label(&self) -> (r: String) ensures r@ == self.lab();
    fn get_degree(&self, domain_size: usize) -> (r: usize) requires domain_size > 0 ensures r == domain_size - 1;
}
pub trait WitnessOracle: ConcreteOracle {
    spec fn s_copy(&self) -> bool;
    fn should_include_in_copy(&self) -> (r: bool) ensures r == self.s_copy();
}
pub trait InstanceOracle: ConcreteOracle {}
pub trait FixedOracle: ConcreteOracle {}
#[verifier::external_body]
pub struct PC_VerifierKey { x: u8 }
impl Clone for PC_VerifierKey {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct SparsePoly { x: u8 }
impl SparsePoly {
    pub uninterp spec fn dense(&self) -> DensePolynomial;
    #[verifier::external_body]
    pub fn into(self) -> (r: DensePolynomial) ensures r == self.dense() { unimplemented!() }
}
impl GeneralEvaluationDomain {
    // x^n - 1
    #[verifier::external_body]
    pub fn vanishing_polynomial(&self) -> (r: SparsePoly)
        ensures r.dense().coeffs@.len() == self.n() + 1, forall|x: real| #[trigger] r.dense().at(x) == rpow(x, self.n()) - 1real
    { unimplemented!() }
    #[verifier::external_body]
    pub fn evaluate_vanishing_polynomial(&self, x: F) -> (r: F) ensures r@ == rpow(x@, self.n()) - 1real { unimplemented!() }
}
// a domain consists of roots of unity, which the coset shift is not
#[verifier::external_body]
pub broadcast proof fn domain_root(d: GeneralEvaluationDomain)
    ensures #![trigger d.w()] rpow(d.w(), d.n()) == 1real, d.n() > 0 {}
#[verifier::external_body]
pub broadcast proof fn shift_outside(d: GeneralEvaluationDomain)
    ensures #![trigger d.n()] rpow(coset_shift(), d.n()) != 1real {}
// the i-th value on the coset is the value at the i-th element of the coset
#[verifier::external_body]
pub broadcast proof fn coset_value(p: DensePolynomial, d: GeneralEvaluationDomain, i: int)
    requires i >= 0
    ensures #[trigger] p.on_coset(d, i) == p.at(coset_elem(d, i as nat)) {}
pub open spec fn same_poly(a: DensePolynomial, b: DensePolynomial) -> bool {
    a.coeffs@.len() == b.coeffs@.len() && forall|x: real| #[trigger] a.at(x) == b.at(x)
}
impl PartialEq for DensePolynomial {
    #[verifier::external_body]
    fn eq(&self, o: &DensePolynomial) -> (r: bool) ensures r ==> same_poly(*self, *o), same_poly(*self, *o) ==> r { unimplemented!() }
}
pub fn batch_inversion(v: &mut Vec<F>)
    ensures final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < final(v)@.len() && old(v)@[i]@ != 0real ==> is_inv((#[trigger] final(v)@[i])@, old(v)@[i]@),
        forall|i: int| 0 <= i < final(v)@.len() && old(v)@[i]@ == 0real ==> (#[trigger] final(v)@[i])@ == 0real,
{
    let ghost w = v@;
    let n = v.len();
    for i in 0..n
        invariant v@.len() == w.len(), n == w.len(),
            forall|j: int| i <= j < w.len() ==> #[trigger] v@[j] == w[j],
            forall|j: int| 0 <= j < i && w[j]@ != 0real ==> is_inv((#[trigger] v@[j])@, w[j]@),
            forall|j: int| 0 <= j < i && w[j]@ == 0real ==> (#[trigger] v@[j])@ == 0real,
    {
        match v[i].inverse() { Some(x) => { v.set(i, x); } None => {} }
    }
}

// ------------------------------------------------------------ the degree
pub open spec fn all_d(n: nat) -> spec_fn(OracleQuery) -> nat { |q: OracleQuery| (n - 1) as nat }
// the degree of a gate over columns of degree n - 1
pub open spec fn gate_deg(e: Expression, n: nat) -> nat { degs(e, all_d(n)) }
pub open spec fn always<O: Fn(&OracleQuery) -> Result<usize, Error>>(o: &O, n: nat) -> bool {
    forall|q: OracleQuery, r: Result<usize, Error>| #[trigger] o.ensures((&q,), r) && r is Ok ==> r->Ok_0 == n - 1
}
pub proof fn gate_deg_is<O: Fn(&OracleQuery) -> Result<usize, Error>>(e: Expression, o: &O, n: nat, d: nat)
    requires
        degrel(e, o, d),
        always(o, n),
        n > 0,
    ensures d == gate_deg(e, n)
{ degrel_degs(e, o, all_d(n), d); }

// the labels of the columns, to positions that exist
pub open spec fn positions(m: IMap<KeyV, usize>, n: nat) -> bool {
    forall|k: KeyV| #[trigger] m.dom().contains(k) ==> m[k] < n
}
// every row of the gates fits a machine word
pub open spec fn gates_fit(vos: Seq<&dyn VirtualOracle>, n: nat, bound: nat) -> bool {
    n - 1 <= dmax() && forall|j: int| 0 <= j < vos.len() && (#[trigger] vos[j]).s_expr() is Some ==> size(vos[j].s_expr().unwrap()) * dmax() <= bound
}
pub open spec fn bounds_all(vos: Seq<&dyn VirtualOracle>, k: int, n: nat, m: nat) -> bool {
    forall|j: int| 0 <= j < k ==> (#[trigger] vos[j]).s_expr() is Some && gate_deg(vos[j].s_expr().unwrap(), n) <= m
}
pub open spec fn reached(vos: Seq<&dyn VirtualOracle>, k: int, n: nat, m: nat) -> bool {
    m == 0 || exists|j: int| 0 <= j < k && #[trigger] gate_deg(vos[j].s_expr().unwrap(), n) == m
}

// Every zero of z_h is a row
pub open spec fn vanishes_inside(z: DensePolynomial, d: GeneralEvaluationDomain) -> bool {
    forall|x: real| #[trigger] z.at(x) == 0real ==> rpow(x, d.n()) == 1real
}
pub proof fn root_power(d: GeneralEvaluationDomain, i: nat)
    ensures rpow(coset_elem(d, i), d.n()) == rpow(coset_shift(), d.n())
{
    domain_root(d);
    coset_power(coset_shift(), d.w(), d.n(), i);
    rpow_mul(d.w(), d.n(), i);
    rpow_one(i);
    let g = rpow(coset_shift(), d.n());
    assert(g * 1real == g) by(nonlinear_arith);
}
// no element of the coset is a row
pub proof fn outside(a: GeneralEvaluationDomain, d: GeneralEvaluationDomain, i: nat)
    requires d.n() % a.n() == 0
    ensures rpow(coset_elem(d, i), a.n()) != 1real
{
    domain_root(a);
    domain_root(d);
    shift_outside(d);
    root_power(d, i);
    let x = coset_elem(d, i);
    let k = d.n() / a.n();
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d.n() as int, a.n() as int);
    if rpow(x, a.n()) == 1real {
        rpow_mul(x, a.n(), k);
        rpow_one(k);
        assert(a.n() * k == d.n());
    }
}
pub proof fn le_double(n: nat, m: nat)
    requires n > 0, m > n, m % n == 0
    ensures 2 * n <= m
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m as int, n as int);
    let k = m / n;
    if k < 2 { assert(n * k <= n) by(nonlinear_arith) requires k <= 1, n > 0; }
    assert(2 * n <= n * k) by(nonlinear_arith) requires k >= 2, n > 0;
}
// sizes are any powers of two up to a limit for which domains exist
pub uninterp spec fn size_limit() -> nat;
pub broadcast proof fn pow2_pos(n: nat)
    requires #[trigger] pow2(n)
    ensures n > 0
{ reveal_with_fuel(pow2, 2); }
pub proof fn pow2_le(a: nat, b: nat)
    requires pow2(a), pow2(b), a < 2 * b
    ensures a <= b
    decreases a
{ if a > 1 && b > 1 { pow2_le(a / 2, b / 2); } }
pub proof fn pow2_exact(a: nat, b: nat)
    requires pow2(a), pow2(b), a >= b, a < 2 * b
    ensures a == b
{ pow2_le(a, b); }
pub proof fn pow2_prod(a: nat, b: nat)
    requires pow2(a), pow2(b)
    ensures pow2(a * b)
    decreases a
{
    pow2_pos(b);
    if a == 1 { assert(1 * b == b); }
    else {
        pow2_prod(a / 2, b);
        let h = a / 2;
        assert(a * b == 2 * (h * b)) by(nonlinear_arith) requires a == 2 * h;
        let p = a * b;
        let q = h * b;
        assert(p == 2 * q && p / 2 == q && p % 2 == 0);
        pow2_pos(q);
    }
}
pub proof fn pow2_quot(a: nat, b: nat)
    requires pow2(a), pow2(b), a <= b
    ensures b % a == 0, pow2(b / a), (b / a) * a == b, b / a >= 1
    decreases a
{
    pow2_pos(a);
    if a == 1 { }
    else {
        pow2_quot(a / 2, b / 2);
        let (h, g) = (a / 2, b / 2);
        let k = g / h;
        pow2_pos(h);
        assert(b == k * a) by(nonlinear_arith) requires b == 2 * g, a == 2 * h, g == k * h;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(b as int, a as int, k as int, 0);
    }
}
// columns take part in the copy constraints
pub open spec fn copied<W: WitnessOracle>(w: Seq<W>, k: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] w[j]).s_copy() }
pub proof fn copied_step<W: WitnessOracle>(w: Seq<W>, k: int)
    requires 0 <= k < w.len()
    ensures copied(w, k + 1) == (copied(w, k) || w[k].s_copy())
{
    if copied(w, k + 1) {
        let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] w[j]).s_copy();
        if j < k { assert(copied(w, k)); }
    }
    if copied(w, k) { let j = choose|j: int| 0 <= j < k && (#[trigger] w[j]).s_copy(); assert(w[j].s_copy() && j < k + 1); }
    if w[k].s_copy() { assert(copied(w, k + 1)); }
}
// a polynomial of degree d, divided by one of degree z, has at most m coefficients
pub open spec fn fits(d: int, z: int, m: int) -> bool { d - z < m }
// the largest products: a grand product over c columns multiplies the row
// selector, the column z and c shifted columns; a lookup's multiplies the
// selector, z and two shifted columns
pub open spec fn copy_deg(n: int, c: int) -> int { (c + 2) * (n - 1) }
pub open spec fn lookup_deg(n: int) -> int { 4 * (n - 1) }
pub proof fn fits_all(n: nat, s: nat, z: nat)
    ensures
        n > 0 && z <= n && n - z <= s ==> fits(copy_deg(n as int, s - 1), z as int, (s * n) as int),
        n > 0 && s >= 4 ==> fits(lookup_deg(n as int), z as int, (s * n) as int),
{
    assert((s - 1 + 2) * (n - 1) == s * n - s + n - 1) by(nonlinear_arith);
    if s >= 4 && n > 0 { assert(s * n >= 4 * n) by(nonlinear_arith) requires s >= 4, n > 0; }
}
// what indexing promises
pub open spec fn indexed(k: VerifierKey, vos: Seq<&dyn VirtualOracle>, n: nat, z_h: DensePolynomial, copies: bool, lookups: nat, info: PermutationInfo, usable: usize) -> bool {
    let m = k.index_info.extended_coset_domain.n();
    let s = m / n;
    // the quotient degree is the largest degree of a gate, less z_h's
    &&& bounds_all(vos, vos.len() as int, n, (k.index_info.quotient_degree + z_h.deg()) as nat)
    &&& reached(vos, vos.len() as int, n, (k.index_info.quotient_degree + z_h.deg()) as nat)
    // every gate, grand product and lookup fits the extended domain
    &&& k.index_info.quotient_degree < m && m % n == 0 && m >= n
    &&& k.index_info.permutation_argument.max_cols == s - 1
    &&& copies ==> s >= 2 && (z_h.deg() <= n && n - z_h.deg() <= s ==> fits(copy_deg(n as int, k.index_info.permutation_argument.max_cols as int), z_h.deg() as int, m as int))
    &&& lookups > 0 ==> fits(lookup_deg(n as int), z_h.deg() as int, m as int)
    &&& k.index_info.permutation_argument.usable_rows == info.u && k.index_info.permutation_argument.deltas@ == info.deltas@
    &&& k.index_info.lookups@.len() == lookups && k.index_info.usable_rows == usable
    // the values of 1 / z_h on its coset
    &&& k.zh_inverses_over_coset@.len() == m
    &&& forall|i: int| 0 <= i < m ==> is_inv((#[trigger] k.zh_inverses_over_coset@[i])@, z_h.on_coset(k.index_info.extended_coset_domain, i))
}
@item src/permutation/mod.rs PermutationArgument
@item src/data_structures.rs PermutationInfo
@item src/data_structures.rs Index
@item src/data_structures.rs VerifierKey
impl PermutationArgument {
@item src/permutation/mod.rs PermutationArgument::MINIMAL_SCALING_FACTOR
@fn src/permutation/mod.rs PermutationArgument::new import=1
@spec
    requires scaling_factor > 0
    ensures r.max_cols == scaling_factor - 1, r.usable_rows == perm_params.u, r.deltas@ == perm_params.deltas@
@end
}
pub struct LookupArgument;
impl LookupArgument {
@item src/lookup/mod.rs LookupArgument::MINIMAL_SCALING_FACTOR
}
pub struct Indexer;
impl Indexer {
@fn src/indexer.rs Indexer::compute_quotient_degree
@spec
    requires
        domain_size > 0,
        positions(witness_oracles_mapping.map(), witness_oracles@.len()),
        positions(instance_oracles_mapping.map(), instance_oracles@.len()),
        positions(fixed_oracles_mapping.map(), fixed_oracles@.len()),
        gates_fit(vos@, domain_size as nat, usize::MAX as nat),
    ensures
        // the largest degree of any gate, less that of the vanishing
        // polynomial; no size is made up when that is negative
        r is Ok ==> bounds_all(vos@, vos@.len() as int, domain_size as nat, (r->Ok_0 + z_h_degree) as nat),
        r is Ok ==> reached(vos@, vos@.len() as int, domain_size as nat, (r->Ok_0 + z_h_degree) as nat),
        r is Ok ==> gates_fit(vos@, domain_size as nat, usize::MAX as nat),
        r is Ok ==> r->Ok_0 + z_h_degree <= usize::MAX,
        r is Ok && gates_fit(vos@, domain_size as nat, size_limit()) ==> r->Ok_0 + z_h_degree <= size_limit(),
@start
    let ghost n = domain_size as nat;
@loop 0
    invariant
        __n0 == vos@.len(),
        n == domain_size,
        bounds_all(vos@, __i0 as int, n, max_degree as nat),
        reached(vos@, __i0 as int, n, max_degree as nat),
        gates_fit(vos@, n, size_limit()) ==> max_degree <= size_limit(),
@loopstart 0
    let ghost m0 = max_degree as nat;
@closurename 0
column_degree
@afterlet vo_degree
    proof {
        let e = vos@[__i0 as int].s_expr().unwrap();
        assert(always(&column_degree, n));
        if vo_degree is Ok { gate_deg_is(e, &column_degree, n, vo_degree->Ok_0 as nat); }
    }
@loopend 0
    proof {
        let e = vos@[__i0 as int].s_expr().unwrap();
        let g = gate_deg(e, n);
        assert(max_degree == if m0 >= g { m0 } else { g });
        if reached(vos@, __i0 as int, n, m0) && m0 > 0 {
            let j = choose|j: int| 0 <= j < __i0 && #[trigger] gate_deg(vos@[j].s_expr().unwrap(), n) == m0;
            assert(gate_deg(vos@[j].s_expr().unwrap(), n) == m0);
        }
    }
@closureargs 0
query: &OracleQuery
@closure 0
-> (d: Result<usize, Error>)
    ensures d is Ok ==> d->Ok_0 == domain_size - 1
@end
@fn src/indexer.rs Indexer::compute_zh_evals collect0=Vec<F>
@spec
    requires
        domain.n() <= extended_coset_domain.n(),
        extended_coset_domain.n() % domain.n() == 0,
        domain.n() * extended_coset_domain.n() <= u64::MAX,
        vanishes_inside(z_h, *domain),
    ensures
        r@.len() == extended_coset_domain.n(),
        // entry by entry the inverse of the vanishing polynomial
        forall|i: int| 0 <= i < r@.len() ==> is_inv((#[trigger] r@[i])@, z_h.on_coset(*extended_coset_domain, i)),
@start
    broadcast use domain_root, shift_outside, coset_value;
    let ghost (n, m) = (domain.n(), extended_coset_domain.n());
    let ghost d = *extended_coset_domain;
    proof {
        assert forall|i: int| 0 <= i < m implies #[trigger] z_h.on_coset(d, i) != 0real by {
            outside(*domain, d, i as nat);
            assert(z_h.on_coset(d, i) == z_h.at(coset_elem(d, i as nat)));
        }
        assert(rpow(coset_shift(), n) != 1real);
        if n == m {
            assert forall|i: int| 0 <= i < m implies rpow(#[trigger] coset_elem(d, i as nat), n) == rpow(coset_shift(), n) by {
                root_power(d, i as nat);
            }
        }
        if z_h.coeffs@.len() == n + 1 && m > n {
            assert(2 * n <= m) by { le_double(n, m); }
        }
        if m > n { le_double(n, m); }
    }
@afterlet vanish_dense
    proof {
        if same_poly(vanish_dense, z_h) {
            assert forall|x: real| #[trigger] z_h.at(x) == rpow(x, n) - 1real by { assert(vanish_dense.at(x) == z_h.at(x)); }
            assert(z_h.coeffs@.len() == n + 1);
        }
    }
@loop 0
    invariant
        __n0 == m,
        m == extended_coset_domain.n(), d == *extended_coset_domain,
        shift@ == coset_shift(),
        __v0@.len() == __i0,
        forall|i: int| 0 <= i < __v0@.len() ==> (#[trigger] __v0@[i])@ == z_h.at(coset_elem(d, i as nat)),
@end
@fn src/indexer.rs Indexer::index collect0=BTreeMap collect1=BTreeMap collect2=BTreeMap
@spec
    requires
        pow2(domain.n()), pow2(size_limit()), size_limit() <= max_domain(),
        4 * domain.n() <= size_limit(), domain.n() * size_limit() <= u64::MAX,
        gates_fit(vos@, domain.n(), usize::MAX as nat), gates_fit(vos@, domain.n(), size_limit()),
        z_h.deg() > 0, vanishes_inside(*z_h, domain),
    ensures
        match r {
            Ok(k) => indexed(k, vos@, domain.n(), *z_h, copied(witness_oracles@, witness_oracles@.len() as int), lookups@.len(), permutation_info, usable_rows),
            Err(e) => true,
        },
@start
    let ghost n = domain.n();
    broadcast use pow2_pos;
    proof {
        pow2_pos(n);
        let (l, x) = (size_limit(), u64::MAX as nat);
        assert(l <= x) by(nonlinear_arith) requires n * l <= x, n >= 1, l >= 0;
    }
@loop 0
    invariant
        __n0 == witness_oracles@.len(),
        positions(__v0.map(), __n0 as nat),
@loop 1
    invariant
        __n1 == instance_oracles@.len(),
        positions(__v1.map(), __n1 as nat),
@loop 2
    invariant
        __n2 == fixed_oracles@.len(),
        positions(__v2.map(), __n2 as nat),
@loop 3
    invariant
        __n3 == witness_oracles@.len(),
        __v3 <= __i3,
        __v3 > 0 <==> copied(witness_oracles@, __i3 as int),
@loopstart 3
    proof { copied_step(witness_oracles@, __i3 as int); }
@afterlet extended_coset_domain 0
    proof {
        assert(quotient_degree + 1 <= size_limit());
        pow2_le(extended_coset_domain.n(), size_limit());
        if extended_coset_domain.n() >= n { pow2_quot(n, extended_coset_domain.n()); }
    }
@afterlet scaling_factor 2
    proof {
        let s = scaling_factor as nat;
        let s0 = extended_coset_domain.n() / n;
        assert(pow2(4) && pow2(2) && pow2(1)) by { reveal_with_fuel(pow2, 4); }
        assert(pow2(s));
        pow2_prod(s, n);
        assert(s0 * n == extended_coset_domain.n());
        assert(s * n >= s0 * n) by(nonlinear_arith) requires s >= s0, n > 0;
        assert(s * n <= size_limit()) by {
            if s == s0 { } else { assert(s <= 4); assert(s * n <= 4 * n) by(nonlinear_arith) requires s <= 4, n > 0; }
        }
        assert(s >= 1);
    }
@afterlet extended_coset_domain 1
    proof {
        let s = scaling_factor as nat;
        pow2_exact(extended_coset_domain.n(), s * n);
        assert((s * n) % n == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(s as int, n as int); }
        assert(n * extended_coset_domain.n() <= n * size_limit()) by(nonlinear_arith) requires extended_coset_domain.n() <= size_limit(), n > 0;
        assert(n <= s * n) by(nonlinear_arith) requires s >= 1, n > 0;
        fits_all(n, s, z_h.deg());
        assert((s * n) / n == s) by { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(s as int, n as int); }
        assert(quotient_degree < extended_coset_domain.n());
    }
@end
}
}
fn main() {}
