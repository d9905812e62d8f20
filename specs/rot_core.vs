verus! {
@item src/oracles/rotation.rs Sign derive=Clone,Copy,PartialEq,Eq,Structural
@item src/oracles/rotation.rs Rotation derive=Clone,Copy,PartialEq,Eq,Structural

// the shift a rotation stands for, as a number of rows forward
pub open spec fn shift(r: Rotation, n: nat) -> nat
    recommends n > 0
{
    match r.sign {
        Sign::Plus => (r.degree as nat) % n,
        Sign::Minus => (n - (r.degree as nat) % n) as nat % n,
    }
}
pub proof fn shift_zero(r: Rotation, n: nat)
    requires n > 0, r.degree == 0
    ensures shift(r, n) == 0
{
    vstd::arithmetic::div_mod::lemma_small_mod(0, n);
    vstd::arithmetic::div_mod::lemma_mod_self_0(n as int);
}
pub uninterp spec fn fmt_spec<A, B>(lit: Seq<char>, a: A, b: B) -> Seq<char>;
#[verifier::external_body]
pub fn fmt2<A, B: ?Sized>(lit: &str, a: &A, b: &B) -> (r: String)
    ensures r@ == fmt_spec(lit@, a, b)
{ unimplemented!() }
#[verifier::external_body]
pub fn str_into(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
@map opening_challenge_label.into() => str_into(opening_challenge_label)

pub proof fn inverse_is_complement(w: real, n: nat, k: nat, inv: real)
    requires n > 0, rpow(w, n) == 1real, inv * rpow(w, k % n) == 1real
    ensures inv == rpow(w, ((n - k % n) as nat) % n)
{
    let m = k % n;
    rpow_add(w, m, (n - m) as nat);
    let x = rpow(w, m);
    let y = rpow(w, (n - m) as nat);
    assert(x * y == 1real);
    assert(inv == y) by(nonlinear_arith) requires inv * x == 1real, x * y == 1real;
    rpow_mod(w, n, (n - m) as nat);
}

impl Rotation {
@fn src/oracles/rotation.rs Rotation::new
@spec
    ensures r.degree == degree, r.sign == sign
@end
@fn src/oracles/rotation.rs Rotation::curr
@spec
    ensures r.degree == 0, r.sign is Plus, forall|n: nat| n > 0 ==> #[trigger] shift(r, n) == 0
@start
    proof { assert forall|x: Rotation, n: nat| n > 0 && x.degree == 0 implies #[trigger] shift(x, n) == 0 by { shift_zero(x, n); } }
@end
@fn src/oracles/rotation.rs Rotation::next
@spec
    ensures r.degree == 1, r.sign is Plus, forall|n: nat| n > 0 ==> #[trigger] shift(r, n) == 1nat % n
@end
@fn src/oracles/rotation.rs Rotation::prev
@spec
    ensures r.degree == 1, r.sign is Minus, forall|n: nat| n > 1 ==> #[trigger] shift(r, n) == (n - 1) as nat
@start
    proof { assert forall|n: nat| n > 1 implies #[trigger] (1nat % n) == 1 && (n - 1) as nat % n == (n - 1) as nat by {
        vstd::arithmetic::div_mod::lemma_small_mod(1, n); vstd::arithmetic::div_mod::lemma_small_mod((n - 1) as nat, n); } }
@end
@fn src/oracles/rotation.rs Rotation::compute_evaluation_point
@spec
    requires omegas@.len() > 0, exists|w: real| is_powers(omegas@, w),
    ensures forall|w: real| #[trigger] is_powers(omegas@, w) ==>
        r@ == evaluation_point@ * rpow(w, shift(*self, omegas@.len())),
@start
    let ghost n = omegas@.len();
    let ghost k = self.degree as nat;
    assert forall|w: real| #[trigger] is_powers(omegas@, w) implies
        omegas@[(k % n) as int]@ == rpow(w, k % n) && rpow(w, k % n) != 0real
        && (forall|inv: real| #[trigger] is_inv(inv, rpow(w, k % n)) ==> inv == rpow(w, ((n - k % n) as nat) % n))
    by {
        rpow_nonzero(w, k % n);
        assert forall|inv: real| #[trigger] is_inv(inv, rpow(w, k % n)) implies inv == rpow(w, ((n - k % n) as nat) % n) by {
            inverse_is_complement(w, n, k, inv);
        }
    }
    assert(evaluation_point@ * 1real == evaluation_point@);
    proof { if self.degree == 0 { shift_zero(*self, n); } }
@end
@fn src/oracles/rotation.rs Rotation::get_point_info
@spec
    requires omegas@.len() > 0, exists|w: real| is_powers(omegas@, w),
    ensures forall|w: real| #[trigger] is_powers(omegas@, w) ==>
        r.1@ == rpow(w, shift(*self, omegas@.len())) * opening_challenge@,
@start
    let ghost n = omegas@.len();
    let ghost k = self.degree as nat;
    assert forall|w: real| #[trigger] is_powers(omegas@, w) implies
        omegas@[(k % n) as int]@ == rpow(w, k % n) && rpow(w, k % n) != 0real
        && (forall|inv: real| #[trigger] is_inv(inv, rpow(w, k % n)) ==> inv == rpow(w, ((n - k % n) as nat) % n))
    by {
        rpow_nonzero(w, k % n);
        assert forall|inv: real| #[trigger] is_inv(inv, rpow(w, k % n)) implies inv == rpow(w, ((n - k % n) as nat) % n) by {
            inverse_is_complement(w, n, k, inv);
        }
    }
    assert(1real * opening_challenge@ == opening_challenge@);
    proof { if self.degree == 0 { shift_zero(*self, n); } }
@end
}

pub trait Instantiable {
    spec fn s_evals(&self) -> Seq<F>;
    spec fn s_ext(&self) -> Option<Seq<F>>;
    fn evals(&self) -> (r: &Vec<F>) ensures r@ == self.s_evals();
    fn get_extended_coset_evals(&self) -> (r: Result<&Vec<F>, Error>)
        ensures match r { Ok(v) => self.s_ext() == Some(v@), Err(_) => self.s_ext() is None };

@fn src/oracles/traits.rs Instantiable::query_in_evals_form
@spec
    requires self.s_evals().len() == lagrange_evals@.len(),
    ensures r@ == dot(self.s_evals(), lagrange_evals@, self.s_evals().len()),
@loop 0
    invariant
        eval@ == dot(self.s_evals(), lagrange_evals@, __i0 as nat),
@end
@fn src/oracles/traits.rs Instantiable::query_in_coset
@spec
    requires
        self.s_ext() is Some ==> {
            let e = self.s_ext().unwrap();
            let n = self.s_evals().len();
            &&& n > 0 && e.len() > 0 && e.len() % n == 0
            &&& omega_index < e.len()
            &&& e.len() <= i64::MAX
            &&& rotation.degree * (e.len() / n) + e.len() <= i64::MAX
        },
    ensures
        match self.s_ext() {
            None => r is Err,
            Some(e) => r is Ok && r->Ok_0 == e[(omega_index
                + shift(rotation, self.s_evals().len()) * (e.len() / self.s_evals().len())) % (e.len() as int)],
        }
@start
    proof {
        if self.s_ext() is Some {
            let e = self.s_ext().unwrap();
            let n = self.s_evals().len();
            let k = e.len() / n;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e.len() as int, n as int);
            assert(e.len() == n * k);
            assert(k > 0) by(nonlinear_arith) requires e.len() == n * k, e.len() > 0, n > 0;
            assert(rotation.degree * k >= 0) by(nonlinear_arith) requires k > 0, rotation.degree >= 0;
            if rotation.degree == 0 { assert(0 * k == 0) by(nonlinear_arith); }
            coset_index(omega_index as int, rotation, n, k);
        }
    }
@end
@fn src/oracles/traits.rs Instantiable::query_at_omega_in_original_domain
@spec
    requires
        omega_index < self.s_evals().len() <= i64::MAX,
        rotation.degree + self.s_evals().len() <= i64::MAX,
    ensures
        r == self.s_evals()[(omega_index + shift(rotation, self.s_evals().len())) % (self.s_evals().len() as int)],
@start
    proof {
        coset_index(omega_index as int, rotation, self.s_evals().len(), 1);
    }
@end
}

// the points a column is opened at
pub trait QuerySetProvider {
    spec fn s_label(&self) -> Seq<char>;
    spec fn s_rotations(&self) -> Seq<Rotation>;
    fn get_label(&self) -> (r: String) ensures r@ == self.s_label();
    fn get_queried_rotations(&self) -> (r: &BTreeSet<Rotation>) ensures r.seq() == self.s_rotations();

@fn src/oracles/traits.rs QuerySetProvider::get_query_set at0
@spec
    requires omegas@.len() > 0, exists|w: real| is_powers(omegas@, w),
    ensures forall|w: real| #[trigger] is_powers(omegas@, w) ==> forall|l: Seq<char>, p: real| #[trigger] r.has(l, p) <==>
        l == self.s_label() && exists|i: int| 0 <= i < self.s_rotations().len()
            && p == rotated(opening_challenge@, w, #[trigger] self.s_rotations()[i], omegas@.len()),
@start
    let ghost w0 = choose|w: real| is_powers(omegas@, w);
@loop 0
    invariant
        forall|w: real| #[trigger] is_powers(omegas@, w) ==> forall|l: Seq<char>, p: real| #[trigger] query_set.has(l, p) <==>
            l == self.s_label() && exists|i: int| 0 <= i < __i0
                && p == rotated(opening_challenge@, w, #[trigger] self.s_rotations()[i], omegas@.len()),
@loopend 0
    proof {
        assert forall|w: real| #[trigger] is_powers(omegas@, w) implies forall|l: Seq<char>, p: real| #[trigger] query_set.has(l, p) <==>
            l == self.s_label() && exists|i: int| 0 <= i < __i0 + 1
                && p == rotated(opening_challenge@, w, #[trigger] self.s_rotations()[i], omegas@.len())
        by {
            assert forall|l: Seq<char>, p: real| #[trigger] query_set.has(l, p) <==>
                l == self.s_label() && exists|i: int| 0 <= i < __i0 + 1
                && p == rotated(opening_challenge@, w, #[trigger] self.s_rotations()[i], omegas@.len())
            by {
                let nw = rotated(opening_challenge@, w, self.s_rotations()[__i0 as int], omegas@.len());
            }
        }
    }
@end
}
pub open spec fn rotated(x: real, w: real, r: Rotation, n: nat) -> real { rpow(w, shift(r, n)) * x }
pub open spec fn dot(a: Seq<F>, b: Seq<F>, n: nat) -> real decreases n {
    if n == 0 { 0real } else { dot(a, b, (n - 1) as nat) + a[n - 1]@ * b[n - 1]@ }
}
// i + shift * k mod n k, in the form the source computes it
pub proof fn coset_index(i: int, rot: Rotation, n: nat, k: nat)
    requires n > 0, k > 0, 0 <= i < n * k
    ensures ({
        let m = (n * k) as int;
        let d = rot.degree as int * k;
        let target = (i + shift(rot, n) * k) % m;
        &&& d >= 0 && (rot.degree == 0 ==> target == i)
        &&& (rot.sign is Plus ==> target == (i + d) % m)
        &&& (rot.sign is Minus && i - d >= 0 ==> target == i - d)
        &&& (rot.sign is Minus && i - d < 0 ==> target == (m - (d - i) % m) % m)
        // the same index, reduced in other orders
        &&& (rot.sign is Plus ==> target == (i + d % m) % m)
        &&& (rot.sign is Minus ==> target == (i - d) % m && target == (i - d % m) % m
            && target == (i + m - d % m) % m)
        &&& 0 <= d % m < m
    })
{
    let m = (n * k) as int;
    let g = rot.degree as int;
    let d = g * k;
    assert(d >= 0) by(nonlinear_arith) requires d == g * k, g >= 0, k > 0;
    assert(m > 0) by(nonlinear_arith) requires m == n * k, n > 0, k > 0;
    let q = g / (n as int);
    let r = g % (n as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(g, n as int);
    vstd::arithmetic::div_mod::lemma_mod_bound(g, n as int);
    assert(d == q * m + r * k) by(nonlinear_arith) requires d == g * k, g == n * q + r, m == n * k;
    assert(q >= 0) by(nonlinear_arith) requires g == n * q + r, r < n, g >= 0, n > 0;
    assert(0 <= r * k <= m - k) by(nonlinear_arith) requires 0 <= r <= n - 1, k > 0, m == n * k;
    if rot.degree == 0 {
        assert(r == 0) by { vstd::arithmetic::div_mod::lemma_small_mod(0, n); }
        assert(shift(rot, n) == 0) by {
            assert(n % n == 0) by(nonlinear_arith) requires n > 0;
            assert(0nat % n == 0);
        }
        assert(0 * k == 0);
        vstd::arithmetic::div_mod::lemma_small_mod(i as nat, m as nat);
    }
    vstd::arithmetic::div_mod::lemma_mod_bound(d, m);
    vstd::arithmetic::div_mod::lemma_add_mod_noop_right(i, d, m);
    vstd::arithmetic::div_mod::lemma_sub_mod_noop_right(i, d, m);
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(i - d % m, m);
    match rot.sign {
        Sign::Plus => {
            // i + d = (i + r k) + q m
            assert(i + d == m * q + (i + r * k)) by(nonlinear_arith) requires d == q * m + r * k;
            vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, i + r * k, m);
            assert((shift(rot, n) * k) as int == r * k);
        }
        Sign::Minus => {
            let s = shift(rot, n) as int;
            // s = 0 when r = 0, n - r otherwise
            if r == 0 {
                assert(s == 0) by { assert(n % n == 0) by(nonlinear_arith) requires n > 0; }
                assert(s * k == 0 && r * k == 0) by(nonlinear_arith) requires s == 0, r == 0;
                vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, i - d, m);
                assert(m * q + (i - d) == i) by(nonlinear_arith) requires d == q * m + r * k, r * k == 0;
            } else {
                vstd::arithmetic::div_mod::lemma_small_mod((n - r) as nat, n);
                assert(s == n - r);
                assert(s * k == m - r * k) by(nonlinear_arith) requires s == n - r, m == n * k;
                vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q + 1, i - d, m);
                assert(m * (q + 1) + (i - d) == i + s * k) by(nonlinear_arith)
                    requires d == q * m + r * k, s * k == m - r * k;
            }
            // (i + s k) mod m = (i - d) mod m
            if i - d >= 0 {
                vstd::arithmetic::div_mod::lemma_small_mod((i - d) as nat, m as nat);
            } else {
                let u = (d - i) / m;
                let v = (d - i) % m;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d - i, m);
                vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(u + 1, i - d, m);
                assert(m * (u + 1) + (i - d) == m - v) by(nonlinear_arith) requires d - i == m * u + v;
            }
        }
    }
}

// the three views of a rotated query agree: if the extended evaluations are
// those of a function on the coset g we^j, and the rows those on w^j with
// w = we^k, then the rotated coset and row queries are the function at the
// rotated point
pub proof fn views_agree(p: spec_fn(real) -> real, ext: Seq<F>, rows: Seq<F>, om: Seq<F>, we: real, g: real, rot: Rotation, j: int, i: int)
    requires
        rows.len() > 0, ext.len() > 0, ext.len() % rows.len() == 0,
        we != 0real, rpow(we, ext.len()) == 1real,
        om.len() == rows.len(), is_powers(om, rpow(we, ext.len() / rows.len())),
        forall|t: int| 0 <= t < ext.len() ==> (#[trigger] ext[t])@ == p(g * rpow(we, t as nat)),
        forall|t: int| 0 <= t < rows.len() ==> (#[trigger] rows[t])@ == p(rpow(rpow(we, ext.len() / rows.len()), t as nat)),
        0 <= j < ext.len(), 0 <= i < rows.len(),
    ensures ({
        let n = rows.len();
        let k = ext.len() / n;
        let w = rpow(we, k);
        &&& ext[(j + shift(rot, n) * k) % (ext.len() as int)]@
              == p((g * rpow(we, j as nat)) * rpow(w, shift(rot, n)))
        &&& rows[(i + shift(rot, n)) % (n as int)]@ == p(rpow(w, i as nat) * rpow(w, shift(rot, n)))
    })
{
    let n = rows.len();
    let k = ext.len() / n;
    let w = rpow(we, k);
    let s = shift(rot, n);
    let t = (j + s * k) as nat;
    assert(s * k >= 0) by(nonlinear_arith) requires s >= 0, k >= 0;
    rpow_mod(we, ext.len(), t);
    rpow_add(we, j as nat, s * k);
    rpow_mul(we, k, s);
    assert(s * k == k * s) by(nonlinear_arith);
    assert((g * rpow(we, j as nat)) * rpow(w, s) == g * (rpow(we, j as nat) * rpow(w, s))) by(nonlinear_arith);
    assert(ext[(t % ext.len()) as int]@ == p(g * rpow(we, t % ext.len())));
    rpow_mod(w, n, (i + s) as nat);
    rpow_add(w, i as nat, s);
    assert(rows[((i + s) as nat % n) as int]@ == p(rpow(w, (i + s) as nat % n)));
}
}
