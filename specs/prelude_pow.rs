verus! {
// ------------------------------------------------------------- powers
pub proof fn rpow_add(x: real, a: nat, b: nat)
    ensures rpow(x, a + b) == rpow(x, a) * rpow(x, b)
    decreases a
{
    if a == 0 {
        assert(rpow(x, 0) == 1real);
        assert(1real * rpow(x, b) == rpow(x, b)) by(nonlinear_arith);
    } else {
        rpow_add(x, (a - 1) as nat, b);
        assert(((a - 1) as nat + b) as nat == (a + b - 1) as nat);
        assert(x * (rpow(x, (a - 1) as nat) * rpow(x, b)) == (x * rpow(x, (a - 1) as nat)) * rpow(x, b)) by(nonlinear_arith);
    }
}
pub proof fn rpow_one(n: nat)
    ensures rpow(1real, n) == 1real
    decreases n
{ if n > 0 { rpow_one((n - 1) as nat); } }
pub proof fn rpow_mul(x: real, a: nat, b: nat)
    ensures rpow(x, a * b) == rpow(rpow(x, a), b)
    decreases b
{
    if b == 0 { assert(a * 0 == 0); }
    else {
        rpow_mul(x, a, (b - 1) as nat);
        assert(a * b == a * ((b - 1) as nat) + a) by(nonlinear_arith) requires b > 0;
        rpow_add(x, a, a * ((b - 1) as nat));
    }
}
pub proof fn rpow_mod(w: real, n: nat, k: nat)
    requires n > 0, rpow(w, n) == 1real
    ensures rpow(w, k) == rpow(w, k % n)
{
    let q = k / n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k as int, n as int);
    assert(k == n * q + k % n);
    rpow_add(w, n * q, k % n);
    rpow_mul(w, n, q);
    rpow_one(q);
    assert(1real * rpow(w, k % n) == rpow(w, k % n)) by(nonlinear_arith);
}
pub proof fn rpow_nonzero(w: real, k: nat)
    requires w != 0real
    ensures rpow(w, k) != 0real
    decreases k
{
    if k > 0 {
        rpow_nonzero(w, (k - 1) as nat);
        let t = rpow(w, (k - 1) as nat);
        assert(w * t != 0real) by(nonlinear_arith) requires w != 0real, t != 0real;
    }
}
// the powers of a generator, as the elements of a domain list them
pub open spec fn is_powers(om: Seq<F>, w: real) -> bool {
    om.len() > 0 && rpow(w, om.len()) == 1real && w != 0real
    && forall|i: int| 0 <= i < om.len() ==> (#[trigger] om[i])@ == rpow(w, i as nat)
}
} // verus!
