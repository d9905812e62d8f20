verus! {
// ------------------------------------------------------------- chunks
// s.chunks(k) of the standard library, as the vector of its items
pub open spec fn chunk_count(n: nat, k: nat) -> nat recommends k > 0 { (n + k - 1) as nat / k }
pub open spec fn chunk_lo(i: int, k: nat) -> int { i * k }
pub open spec fn chunk_hi(i: int, n: nat, k: nat) -> int { if chunk_lo(i, k) + k <= n { chunk_lo(i, k) + k } else { n as int } }
pub open spec fn chunk<T>(s: Seq<T>, i: int, k: nat) -> Seq<T> { s.subrange(chunk_lo(i, k), chunk_hi(i, s.len(), k)) }
pub proof fn chunk_count_is(n: nat, k: nat, c: nat)
    requires k > 0, n <= c * k, c > 0 ==> (c - 1) * k < n, n == 0 ==> c == 0
    ensures chunk_count(n, k) == c
{
    if c == 0 {
        assert(n == 0) by(nonlinear_arith) requires n <= c * k, c == 0;
        assert((n + k - 1) as nat == (k - 1) as nat);
        vstd::arithmetic::div_mod::lemma_basic_div((k - 1) as int, k as int);
    } else {
        let m = (n + k - 1) as int;
        let q = c as int;
        let r = m - q * k;
        assert(0 <= r < k) by(nonlinear_arith) requires r == m - q * k, m == n + k - 1, n <= c * k, (c - 1) * k < n, q == c, c > 0, k > 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m, k as int, q, r);
    }
}
proof fn chunk_count_arith(n: int, k: int, c: int, m: int, r: int)
    requires n >= 0, k > 0, m == n + k - 1, m == k * c + r, 0 <= r < k
    ensures n <= c * k, n > 0 ==> c > 0 && (c - 1) * k < n, n == 0 ==> c == 0
{
    assert((c - 1) * k == c * k - k) by(nonlinear_arith);
    assert(c * k == k * c) by(nonlinear_arith);
    if n > 0 { assert(c > 0) by(nonlinear_arith) requires n <= c * k, n > 0, k > 0; }
    else { assert(c == 0) by(nonlinear_arith) requires c * k >= 0, c * k < k, k > 0; }
}
pub proof fn chunk_count_bounds(n: nat, k: nat)
    requires k > 0
    ensures ({ let c = chunk_count(n, k); n <= c * k && (n > 0 ==> c > 0 && (c - 1) * k < n) && (n == 0 ==> c == 0) })
{
    let m = (n + k - 1) as int;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, k as int);
    vstd::arithmetic::div_mod::lemma_mod_bound(m, k as int);
    chunk_count_arith(n as int, k as int, m / (k as int), m, m % (k as int));
}
pub proof fn chunk_bounds(i: int, n: nat, k: nat)
    requires k > 0, 0 <= i < chunk_count(n, k)
    ensures 0 <= chunk_lo(i, k) < n, chunk_lo(i, k) < chunk_hi(i, n, k) <= n, chunk_hi(i, n, k) - chunk_lo(i, k) <= k,
        i + 1 < chunk_count(n, k) ==> chunk_hi(i, n, k) == chunk_lo(i + 1, k),
        i + 1 == chunk_count(n, k) ==> chunk_hi(i, n, k) == n,
{
    chunk_count_bounds(n, k);
    let c = chunk_count(n, k);
    assert(n > 0) by { if n == 0 { assert(c == 0); } }
    assert(0 <= i * k <= (c - 1) * k) by(nonlinear_arith) requires 0 <= i <= c - 1, k > 0;
    assert((i + 1) * k == i * k + k) by(nonlinear_arith);
    if i + 1 < c { assert((i + 1) * k <= (c - 1) * k) by(nonlinear_arith) requires i + 1 <= c - 1, k > 0; }
}
pub fn vchunks<'a, T>(s: &'a [T], k: usize) -> (r: Vec<&'a [T]>)
    requires k > 0
    ensures r@.len() == chunk_count(s@.len(), k as nat),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == chunk(s@, i, k as nat),
{
    let mut r: Vec<&'a [T]> = Vec::new();
    let mut lo: usize = 0;
    let n = s.len();
    while lo < n
        invariant
            n == s@.len(), k > 0, lo <= n,
            lo < n ==> lo == r@.len() * k,
            n <= r@.len() * k || lo < n,
            r@.len() > 0 ==> (r@.len() - 1) * k < n,
            n == 0 ==> r@.len() == 0,
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == chunk(s@, i, k as nat),
        decreases n - lo
    {
        let hi = if n - lo <= k { n } else { lo + k };
        let t = vstd::slice::slice_subrange(s, lo, hi);
        proof {
            let c = r@.len() as int;
            assert((c + 1) * k == c * k + k) by(nonlinear_arith);
            assert(chunk_lo(c, k as nat) == lo);
        }
        r.push(t);
        lo = hi;
    }
    proof { chunk_count_is(s@.len(), k as nat, r@.len()); }
    r
}
} // verus!
