@include vo_types.vs
verus! {
impl vstd::std_specs::convert::FromSpecImpl<u32> for F {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: u32) -> F { fe(x as real) }
}
impl From<u32> for F { fn from(x: u32) -> (r: F) { F { v: Ghost(x as real) } } }

pub open spec fn wv(i: usize) -> VirtualQuery { VirtualQuery { index: i, rotation: curr_r(), oracle_type: OracleType::Witness } }
pub open spec fn wn(i: usize) -> VirtualQuery { VirtualQuery { index: i, rotation: next_r(), oracle_type: OracleType::Witness } }
pub open spec fn iv(i: usize) -> VirtualQuery { VirtualQuery { index: i, rotation: curr_r(), oracle_type: OracleType::Instance } }
pub open spec fn fx(i: usize) -> VirtualQuery { VirtualQuery { index: i, rotation: curr_r(), oracle_type: OracleType::Fixed } }

// the declared references are exactly those the formula reads
pub open spec fn declared(e: VirtualExpression, qs: Seq<VirtualQuery>) -> bool {
    forall|q: VirtualQuery| #[trigger] qs.contains(q) <==> vuses(e, q)
}

// all ways to write a product of two and of three
pub open spec fn ac2(x: real, y: real) -> bool { x * y == y * x }
pub open spec fn ac3(x: real, y: real, z: real) -> bool {
    let m = x * y * z;
    &&& m == x * z * y && m == y * x * z && m == y * z * x && m == z * x * y && m == z * y * x
    &&& m == x * (y * z) && m == x * (z * y) && m == y * (x * z) && m == y * (z * x) && m == z * (x * y) && m == z * (y * x)
}
pub proof fn ac_all()
    ensures forall|x: real, y: real| ac2(x, y), forall|x: real, y: real, z: real| ac3(x, y, z)
{
    assert forall|x: real, y: real| ac2(x, y) by { assert(x * y == y * x) by(nonlinear_arith); }
    assert forall|x: real, y: real, z: real| ac3(x, y, z) by {
        let m = x * y * z;
        assert(m == x * z * y && m == y * x * z && m == y * z * x && m == z * x * y && m == z * y * x
    && m == x * (y * z) && m == x * (z * y) && m == y * (x * z) && m == y * (z * x) && m == z * (x * y) && m == z * (y * x)) by(nonlinear_arith) requires m == x * y * z;
    }
}
pub struct PrecompiledPlonkArith {}
impl PrecompiledPlonkArith {
@fn src/vo/precompiled/plonk_arith.rs PrecompiledVO@PrecompiledPlonkArith::get_expr_and_queries
@spec
    ensures
        forall|e: VEnv| #[trigger] vmeaning(r.0, e) ==
            e(fx(0)) * e(wv(0)) * e(wv(1)) + e(fx(1)) * e(wv(0)) + e(fx(2)) * e(wv(1)) + e(fx(3)) * e(wv(2)) + e(fx(4)) + e(iv(0)),
        declared(r.0, r.1@),
@start
    assert forall|e: VEnv| #![trigger e(wv(0))] ac3(e(fx(0)), e(wv(0)), e(wv(1))) && ac2(e(fx(1)), e(wv(0))) && ac2(e(fx(2)), e(wv(1))) && ac2(e(fx(3)), e(wv(2))) by { ac_all(); }
@end
}

pub struct PlonkArith4 {}
impl PlonkArith4 {
@fn src/vo/precompiled/plonk_arith.rs PrecompiledVO@PlonkArith4::get_expr_and_queries
@spec
    ensures
        forall|e: VEnv| #[trigger] vmeaning(r.0, e) ==
            e(fx(0)) * e(wv(0)) * e(wv(1)) + e(fx(1)) * e(wv(0)) + e(fx(2)) * e(wv(1)) + e(fx(4)) * e(wv(2)) + e(fx(3)) * e(wv(3)) + e(fx(5)) + e(iv(0)),
        declared(r.0, r.1@),
@start
    assert forall|e: VEnv| #![trigger e(wv(0))] ac3(e(fx(0)), e(wv(0)), e(wv(1))) && ac2(e(fx(1)), e(wv(0))) && ac2(e(fx(2)), e(wv(1))) && ac2(e(fx(4)), e(wv(2))) && ac2(e(fx(3)), e(wv(3))) by { ac_all(); }
@end
}
pub struct PrecompiledMul {}
impl PrecompiledMul {
@fn src/vo/precompiled/mul.rs PrecompiledVO@PrecompiledMul::get_expr_and_queries
@spec
    ensures
        forall|e: VEnv| #[trigger] vmeaning(r.0, e) == e(wv(0)) * e(wv(1)) - e(iv(0)),
        declared(r.0, r.1@),
@start
    assert forall|e: VEnv| #![trigger e(wv(0))] ac2(e(wv(0)), e(wv(1))) by { ac_all(); }
@end
}

// an iterator that has not been consumed is the sequence of its elements
pub struct VIter<T> { pub v: Vec<T> }
impl<T> VIter<T> {
    pub open spec fn seq(&self) -> Seq<T> { self.v@ }
    #[verifier::external_body]
    pub fn map<U, G: Fn(T) -> U>(self, g: G) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self.seq().len() ==> g.requires((#[trigger] self.seq()[i],))
        ensures r.seq().len() == self.seq().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> g.ensures((self.seq()[i],), #[trigger] r.seq()[i])
    { unimplemented!() }
    pub fn chain(self, o: VIter<T>) -> (r: VIter<T>) ensures r.seq() =~= self.seq() + o.seq()
    { let mut a = self.v; let mut b = o.v; a.append(&mut b); VIter { v: a } }
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self.seq() { self.v }
}
impl<T> Clone for VIter<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub fn vrange(a: usize, b: usize) -> (r: VIter<usize>)
    ensures r.seq().len() == if a <= b { b - a } else { 0 }, forall|i: int| 0 <= i < r.seq().len() ==> r.seq()[i] == a + i
{
    let mut v: Vec<usize> = Vec::new();
    let mut k = a;
    while k < b
        invariant a <= k, v@.len() == k - a, a <= b ==> k <= b, a > b ==> k == a, forall|i: int| 0 <= i < v@.len() ==> v@[i] == a + i
        decreases b - k
    { v.push(k); k += 1; }
    VIter { v }
}
pub fn vrange_incl(a: usize, b: usize) -> (r: VIter<usize>)
    requires b < usize::MAX
    ensures r.seq().len() == if a <= b { b + 1 - a } else { 0 }, forall|i: int| 0 <= i < r.seq().len() ==> r.seq()[i] == a + i
{ vrange(a, b + 1) }

pub open spec fn pow5(x: real) -> real { x * x * x * x * x }
// the products a fifth power may be written as
pub broadcast proof fn pow5_forms(x: real)
    ensures #[trigger] pow5(x) == x * x * x * x * x, pow5(x) == x * (x * (x * (x * x))), pow5(x) == (x * x) * (x * x) * x, pow5(x) == x * ((x * x) * (x * x)), pow5(x) == (x * x * x) * (x * x), pow5(x) == (x * x) * (x * x * x), pow5(x) == (x * x) * x * (x * x)
{
    assert(x * x * x * x * x == x * (x * (x * (x * x))) && x * x * x * x * x == (x * x) * (x * x) * x && x * x * x * x * x == x * ((x * x) * (x * x)) && x * x * x * x * x == (x * x * x) * (x * x) && x * x * x * x * x == (x * x) * (x * x * x) && x * x * x * x * x == (x * x) * x * (x * x)) by(nonlinear_arith);
}
pub struct PrecompiledRescue {}
impl PrecompiledRescue {
@fn src/vo/precompiled/rescue.rs PrecompiledVO@PrecompiledRescue::get_expr_and_queries lazy=1
@closureargs 0
index: usize
@closure 0
-> (o: VirtualQuery) ensures o == fx(index)
@closureargs 1
index: usize
@closure 1
-> (o: VirtualQuery) ensures o == wv(index)
@closureargs 2
query: VirtualQuery
@closure 2
-> (o: VirtualExpression) ensures o == VirtualExpression::Oracle(query)
@closureargs 3
query: VirtualQuery
@closure 3
-> (o: VirtualExpression) ensures o == VirtualExpression::Oracle(query)
@closure 4
-> (o: VirtualExpression) ensures forall|env: VEnv| #[trigger] vmeaning(o, env) == pow5(vmeaning(*e, env)), forall|q: VirtualQuery| #[trigger] vuses(o, q) <==> vuses(*e, q)
@spec
    ensures
        forall|e: VEnv| #[trigger] vmeaning(r.0, e) ==
            e(fx(0)) * pow5(e(wv(0))) + e(fx(1)) * pow5(e(wv(1))) + e(fx(2)) * pow5(e(wv(2))) + e(fx(3)) * pow5(e(wv(3))) - e(wv(4)),
        declared(r.0, r.1@),
@start
    broadcast use pow5_forms;
@beforetail
    assert(oracles@.len() == 9);
    assert(oracles@[0] == fx(0) && oracles@[1] == fx(1) && oracles@[2] == fx(2) && oracles@[3] == fx(3)
        && oracles@[4] == wv(0) && oracles@[5] == wv(1) && oracles@[6] == wv(2) && oracles@[7] == wv(3) && oracles@[8] == wv(4));

@end
}
// (x - 3)(x - 2)(x - 1)x: zero exactly on two-bit values
pub open spec fn two_bit(x: real) -> real { (x - 3real) * (x - 2real) * (x - 1real) * x }
pub proof fn two_bit_range(x: real)
    ensures two_bit(x) == 0real <==> x == 0real || x == 1real || x == 2real || x == 3real
{
    if two_bit(x) == 0real {
        let p = (x - 3real) * (x - 2real);
        let q = p * (x - 1real);
        assert(q * x == 0real);
        assert(q == 0real || x == 0real) by(nonlinear_arith) requires q * x == 0real;
        assert(q == 0real ==> p == 0real || x - 1real == 0real) by(nonlinear_arith) requires q == p * (x - 1real);
        assert(p == 0real ==> x - 3real == 0real || x - 2real == 0real) by(nonlinear_arith) requires p == (x - 3real) * (x - 2real);
    } else {
        assert(x != 0real && x != 1real && x != 2real && x != 3real) by {
            if x == 0real { assert(two_bit(x) == 0real) by(nonlinear_arith) requires x == 0real, two_bit(x) == (x - 3real) * (x - 2real) * (x - 1real) * x; }
            if x == 1real { assert(two_bit(x) == 0real) by(nonlinear_arith) requires x == 1real, two_bit(x) == (x - 3real) * (x - 2real) * (x - 1real) * x; }
            if x == 2real { assert(two_bit(x) == 0real) by(nonlinear_arith) requires x == 2real, two_bit(x) == (x - 3real) * (x - 2real) * (x - 1real) * x; }
            if x == 3real { assert(two_bit(x) == 0real) by(nonlinear_arith) requires x == 3real, two_bit(x) == (x - 3real) * (x - 2real) * (x - 1real) * x; }
        }
    }
}
pub broadcast proof fn two_bit_forms(x: real)
    ensures #[trigger] two_bit(x) == x * (x - 1real) * (x - 2real) * (x - 3real), two_bit(x) == (x - 1real) * (x - 2real) * (x - 3real) * x,
        two_bit(x) == x * (x - 3real) * (x - 2real) * (x - 1real),
{
    let a = x - 1real; let b = x - 2real; let c = x - 3real;
    assert(c * b * a * x == x * a * b * c && c * b * a * x == a * b * c * x && c * b * a * x == x * c * b * a) by(nonlinear_arith);
}
pub struct Delta {}
impl Delta {
@fn src/vo/precompiled/logic.rs PrecompiledVO@Delta::get_expr_and_queries
@closure 0
-> (o: VirtualExpression) ensures forall|env: VEnv| #[trigger] vmeaning(o, env) == two_bit(vmeaning(e, env)), forall|q: VirtualQuery| #[trigger] vuses(o, q) <==> vuses(e, q)
@start
    broadcast use two_bit_forms;
@spec
    ensures
        // the gate is zero exactly where the row is the last one or the next
        // accumulator extends this one by two bits
        forall|e: VEnv| #[trigger] vmeaning(r.0, e) == (1real - e(fx(0))) * two_bit(e(wn(0)) - 4real * e(wv(0))),
        declared(r.0, r.1@),
@end
}
// the documented relation of the 2-bit logic gate; d is the result
pub open spec fn xor_and(qc: real, a: real, b: real, c: real, d: real) -> real {
    qc * (9real * d - 3real * (a + b)) + (3real * (a + b + d) - 2real * xor_f(a, b, c))
}
pub open spec fn xor_f(a: real, b: real, c: real) -> real {
    c * (c * (4real * c - 18real * (a + b) + 81real) + 18real * (a * a + b * b) - 81real * (a + b) + 83real)
}
pub open spec fn bit_and(a: int, b: int) -> int { (a % 2) * (b % 2) + 2 * (((a / 2) % 2) * ((b / 2) % 2)) }
pub open spec fn bit_xor(a: int, b: int) -> int { a + b - 2 * bit_and(a, b) }
pub proof fn xor_f_table()
    ensures
        xor_f(0real, 0real, 0real) == 0real,
        xor_f(0real, 1real, 0real) == 0real,
        xor_f(0real, 2real, 0real) == 0real,
        xor_f(0real, 3real, 0real) == 0real,
        xor_f(1real, 0real, 0real) == 0real,
        xor_f(1real, 1real, 1real) == 6real,
        xor_f(1real, 2real, 2real) == 0real,
        xor_f(1real, 3real, 3real) == 6real,
        xor_f(2real, 0real, 0real) == 0real,
        xor_f(2real, 1real, 2real) == 0real,
        xor_f(2real, 2real, 4real) == 12real,
        xor_f(2real, 3real, 6real) == 12real,
        xor_f(3real, 0real, 0real) == 0real,
        xor_f(3real, 1real, 3real) == 6real,
        xor_f(3real, 2real, 6real) == 12real,
        xor_f(3real, 3real, 9real) == 18real,
{}
// on two-bit inputs with c their product the relation holds exactly for the
// AND (selector 1) or the XOR (selector -1)
pub proof fn xor_and_table(x: int, y: int, d: real)
    requires 0 <= x < 4, 0 <= y < 4
    ensures
        xor_and(1real, x as real, y as real, (x * y) as real, d) == 0real <==> d == bit_and(x, y) as real,
        xor_and(-1real, x as real, y as real, (x * y) as real, d) == 0real <==> d == bit_xor(x, y) as real,
{
    xor_f_table();
    let f = xor_f(x as real, y as real, (x * y) as real);
    assert(x == 0 || x == 1 || x == 2 || x == 3);
    assert(y == 0 || y == 1 || y == 2 || y == 3);
    if x == 0 && y == 0 {
        assert(x * y == 0) by(nonlinear_arith) requires x == 0, y == 0;
        assert(f == 0real);
        assert(bit_and(0, 0) == 0) by (compute);
    }
    if x == 0 && y == 1 {
        assert(x * y == 0) by(nonlinear_arith) requires x == 0, y == 1;
        assert(f == 0real);
        assert(bit_and(0, 1) == 0) by (compute);
    }
    if x == 0 && y == 2 {
        assert(x * y == 0) by(nonlinear_arith) requires x == 0, y == 2;
        assert(f == 0real);
        assert(bit_and(0, 2) == 0) by (compute);
    }
    if x == 0 && y == 3 {
        assert(x * y == 0) by(nonlinear_arith) requires x == 0, y == 3;
        assert(f == 0real);
        assert(bit_and(0, 3) == 0) by (compute);
    }
    if x == 1 && y == 0 {
        assert(x * y == 0) by(nonlinear_arith) requires x == 1, y == 0;
        assert(f == 0real);
        assert(bit_and(1, 0) == 0) by (compute);
    }
    if x == 1 && y == 1 {
        assert(x * y == 1) by(nonlinear_arith) requires x == 1, y == 1;
        assert(f == 6real);
        assert(bit_and(1, 1) == 1) by (compute);
    }
    if x == 1 && y == 2 {
        assert(x * y == 2) by(nonlinear_arith) requires x == 1, y == 2;
        assert(f == 0real);
        assert(bit_and(1, 2) == 0) by (compute);
    }
    if x == 1 && y == 3 {
        assert(x * y == 3) by(nonlinear_arith) requires x == 1, y == 3;
        assert(f == 6real);
        assert(bit_and(1, 3) == 1) by (compute);
    }
    if x == 2 && y == 0 {
        assert(x * y == 0) by(nonlinear_arith) requires x == 2, y == 0;
        assert(f == 0real);
        assert(bit_and(2, 0) == 0) by (compute);
    }
    if x == 2 && y == 1 {
        assert(x * y == 2) by(nonlinear_arith) requires x == 2, y == 1;
        assert(f == 0real);
        assert(bit_and(2, 1) == 0) by (compute);
    }
    if x == 2 && y == 2 {
        assert(x * y == 4) by(nonlinear_arith) requires x == 2, y == 2;
        assert(f == 12real);
        assert(bit_and(2, 2) == 2) by (compute);
    }
    if x == 2 && y == 3 {
        assert(x * y == 6) by(nonlinear_arith) requires x == 2, y == 3;
        assert(f == 12real);
        assert(bit_and(2, 3) == 2) by (compute);
    }
    if x == 3 && y == 0 {
        assert(x * y == 0) by(nonlinear_arith) requires x == 3, y == 0;
        assert(f == 0real);
        assert(bit_and(3, 0) == 0) by (compute);
    }
    if x == 3 && y == 1 {
        assert(x * y == 3) by(nonlinear_arith) requires x == 3, y == 1;
        assert(f == 6real);
        assert(bit_and(3, 1) == 1) by (compute);
    }
    if x == 3 && y == 2 {
        assert(x * y == 6) by(nonlinear_arith) requires x == 3, y == 2;
        assert(f == 12real);
        assert(bit_and(3, 2) == 2) by (compute);
    }
    if x == 3 && y == 3 {
        assert(x * y == 9) by(nonlinear_arith) requires x == 3, y == 3;
        assert(f == 18real);
        assert(bit_and(3, 3) == 3) by (compute);
    }
    assert(f == 6real * (bit_and(x, y) as real));
}
pub struct DeltaXorAnd {}
impl DeltaXorAnd {
@fn src/vo/precompiled/logic.rs PrecompiledVO@DeltaXorAnd::get_expr_and_queries
@spec
    ensures
        forall|e: VEnv| #[trigger] vmeaning(r.0, e) == xor_and(e(fx(0)), e(wv(0)), e(wv(1)), e(wv(2)), e(wv(3))),
        declared(r.0, r.1@),
@end
}
pub struct PrecompiledSimple1ArithLookup {}
impl PrecompiledSimple1ArithLookup {
@fn src/vo/precompiled_lookups/simple_1_arith.rs PrecompiledLookupVO@PrecompiledSimple1ArithLookup::get_expressions_and_queries
@spec
    ensures
        r.0@.len() == 1, r.2@.len() == 1,
        forall|e: VEnv| #[trigger] vmeaning(r.0@[0], e) == e(wv(0)),
        r.2@[0] == fx(0),
        forall|q: VirtualQuery| #[trigger] r.1@.contains(q) <==> vuses(r.0@[0], q),
@end
}
pub struct PrecompiledSimple3ArithLookup {}
impl PrecompiledSimple3ArithLookup {
@fn src/vo/precompiled_lookups/simple_3_arith.rs PrecompiledLookupVO@PrecompiledSimple3ArithLookup::get_expressions_and_queries
@spec
    ensures
        r.0@.len() == 3, r.2@.len() == 3,
        forall|e: VEnv| #[trigger] vmeaning(r.0@[0], e) == e(wv(0)),
        forall|e: VEnv| #[trigger] vmeaning(r.0@[1], e) == e(wv(1)),
        forall|e: VEnv| #[trigger] vmeaning(r.0@[2], e) == e(wv(2)),
        r.2@[0] == fx(0), r.2@[1] == fx(1), r.2@[2] == fx(2),
        forall|q: VirtualQuery| #[trigger] r.1@.contains(q) <==> vuses(r.0@[0], q) || vuses(r.0@[1], q) || vuses(r.0@[2], q),
@end
}
}
fn main() {}
