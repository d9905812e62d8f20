@include prelude.rs
@include arranged.rs
verus! {
// sorting is assumed to put equal elements side by side and to keep the
// multiset of the elements
pub open spec fn grouped(a: Seq<F>) -> bool {
    forall|i: int, j: int, k: int| 0 <= i <= j <= k < a.len() && a[i]@ == #[trigger] a[k]@ ==> (#[trigger] a[j])@ == #[trigger] a[i]@
}
pub trait VSort { spec fn vs(&self) -> Seq<F>; fn sort(&mut self) ensures grouped(final(self).vs()), final(self).vs().to_multiset() =~= old(self).vs().to_multiset(), final(self).vs().len() == old(self).vs().len(); }
impl VSort for Vec<F> {
    open spec fn vs(&self) -> Seq<F> { self@ }
    #[verifier::external_body]
    fn sort(&mut self) { unimplemented!() }
}
// std's ordered map from field elements to counts
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl BTreeMap<F, usize> {
    pub uninterp spec fn map(&self) -> Map<real, usize>;
    pub uninterp spec fn seq(&self) -> Seq<(F, usize)>;
    pub open spec fn of(&self, v: real) -> nat { if self.map().dom().contains(v) { self.map()[v] as nat } else { 0 } }
    #[verifier::opaque]
    pub open spec fn lists(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.seq().len() ==> self.map().dom().contains((#[trigger] self.seq()[i]).0@) && self.map()[self.seq()[i].0@] == self.seq()[i].1
        &&& forall|i: int, j: int| 0 <= i < j < self.seq().len() ==> (#[trigger] self.seq()[i]).0@ != (#[trigger] self.seq()[j]).0@
        &&& forall|v: real| #[trigger] self.map().dom().contains(v) ==> exists|i: int| 0 <= i < self.seq().len() && (#[trigger] self.seq()[i]).0@ == v
    }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.map() =~= Map::<real, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_or(&mut self, k: F, d: usize) -> (r: &mut usize)
        ensures *r == (if old(self).map().dom().contains(k@) { old(self).map()[k@] } else { d }),
            final(self).map() == old(self).map().insert(k@, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &F) -> (r: Option<&mut usize>)
        ensures match r {
            Some(p) => old(self).map().dom().contains(k@) && *p == old(self).map()[k@] && final(self).map() == old(self).map().insert(k@, *final(p)),
            None => !old(self).map().dom().contains(k@) && final(self).map() == old(self).map() } { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.seq().len(), self.lists() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: &(F, usize)) requires i < self.seq().len() ensures *r == self.seq()[i as int] { unimplemented!() }
}

// how often v occurs among the first n positions outside `holes`
#[verifier::opaque]
pub open spec fn cnt(t: Seq<F>, holes: ISet<int>, v: real, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { cnt(t, holes, v, (n - 1) as nat) + if !holes.contains(n - 1) && t[n - 1]@ == v { 1nat } else { 0 } }
}
pub proof fn occ_empty(t: Seq<F>, v: real)
    requires t.len() == 0
    ensures occ(t, v) == 0
{ reveal(occ); broadcast use vstd::multiset::group_multiset_axioms; t.to_multiset_ensures(); assert(t.to_multiset().count(fe(v)) <= t.to_multiset().len()); }
pub proof fn same_occ(a: Seq<F>, b: Seq<F>)
    requires a.to_multiset() =~= b.to_multiset()
    ensures forall|v: real| occ(a, v) == #[trigger] occ(b, v)
{ reveal(occ); }

pub proof fn cnt_frame(t: Seq<F>, u: Seq<F>, h: ISet<int>, g: ISet<int>, v: real, n: nat)
    requires n <= t.len(), n <= u.len(), forall|k: int| 0 <= k < n ==> (#[trigger] h.contains(k) <==> g.contains(k)) && (!h.contains(k) ==> t[k] == u[k])
    ensures cnt(t, h, v, n) == cnt(u, g, v, n)
    decreases n
{ reveal(cnt); if n > 0 { cnt_frame(t, u, h, g, v, (n - 1) as nat); assert(h.contains(n - 1) <==> g.contains(n - 1)); } }
pub proof fn cnt_fill(t: Seq<F>, h: ISet<int>, i: int, x: F, v: real, n: nat)
    requires n <= t.len(), 0 <= i < n, h.contains(i)
    ensures cnt(t.update(i, x), h.remove(i), v, n) == cnt(t, h, v, n) + if x@ == v { 1nat } else { 0 }
    decreases n
{ reveal(cnt);
    if i == n - 1 { cnt_frame(t, t.update(i, x), h, h.remove(i), v, (n - 1) as nat); }
    else { cnt_fill(t, h, i, x, v, (n - 1) as nat); }
}
pub proof fn cnt_occ(t: Seq<F>, h: ISet<int>, v: real)
    ensures
        cnt(t, h, v, t.len()) <= occ(t, v),
        (forall|k: int| 0 <= k < t.len() ==> !#[trigger] h.contains(k)) ==> cnt(t, h, v, t.len()) == occ(t, v),
        (exists|k: int| 0 <= k < t.len() && #[trigger] h.contains(k) && t[k]@ == v) ==> cnt(t, h, v, t.len()) < occ(t, v),
    decreases t.len()
{ reveal(cnt); reveal(occ);
    broadcast use vstd::multiset::group_multiset_axioms;
    t.to_multiset_ensures();
    if t.len() > 0 {
        let d = t.drop_last();
        cnt_occ(d, h, v);
        cnt_frame(t, d, h, h, v, d.len());
        assert(t =~= d.push(t.last()));
        d.to_multiset_ensures();
        assert(t.to_multiset() =~= d.to_multiset().insert(t.last()));
        if t.last()@ == v { f_ext(t.last(), fe(v)); }
    } else {
        assert(t.to_multiset().len() == 0);
        if occ(t, v) > 0 { assert(t.to_multiset().count(fe(v)) <= t.to_multiset().len()); }
    }
}
pub proof fn occ_push(t: Seq<F>, n: int, v: real)
    requires 0 <= n < t.len()
    ensures occ(t.take(n + 1), v) == occ(t.take(n), v) + if t[n]@ == v { 1nat } else { 0 }
{ reveal(occ);
    broadcast use vstd::multiset::group_multiset_axioms;
    assert(t.take(n + 1) =~= t.take(n).push(t[n]));
    t.take(n).to_multiset_ensures();
    if t[n]@ == v { f_ext(t[n], fe(v)); }
}
pub proof fn occ_index(t: Seq<F>, i: int)
    requires 0 <= i < t.len()
    ensures occ(t, t[i]@) > 0
{ reveal(occ); t.to_multiset_ensures(); f_ext(t[i], fe(t[i]@)); assert(t.contains(t[i])); }
pub proof fn occ_has(t: Seq<F>, v: real)
    requires occ(t, v) > 0
    ensures exists|i: int| 0 <= i < t.len() && (#[trigger] t[i])@ == v
{ reveal(occ); t.to_multiset_ensures(); assert(t.contains(fe(v))); let i = choose|i: int| 0 <= i < t.len() && t[i] == fe(v); assert(t[i]@ == v); }
// two sequences of one length whose counts are ordered have the same counts
pub proof fn occ_total(t: Seq<F>, s: Seq<F>, v: real)
    requires t.len() == s.len(), forall|x: real| occ(t, x) <= #[trigger] occ(s, x)
    ensures occ(t, v) == occ(s, v)
{ reveal(occ);
    broadcast use vstd::multiset::group_multiset_axioms;
    t.to_multiset_ensures(); s.to_multiset_ensures();
    let (a, b) = (t.to_multiset(), s.to_multiset());
    assert forall|f: F| #[trigger] a.count(f) <= b.count(f) by { f_ext(f, fe(f@)); assert(occ(t, f@) <= occ(s, f@)); }
    assert(a.subset_of(b));
    let c = b.sub(a);
    assert(c.len() == b.len() - a.len());
    assert(c.count(fe(v)) <= c.len());
}
pub proof fn same_from_occ(t: Seq<F>, s: Seq<F>)
    requires forall|x: real| occ(t, x) == #[trigger] occ(s, x)
    ensures same_values(t, s)
{ reveal(occ);
    broadcast use vstd::multiset::group_multiset_axioms;
    assert forall|f: F| t.to_multiset().count(f) == s.to_multiset().count(f) by { f_ext(f, fe(f@)); assert(occ(t, f@) == occ(s, f@)); }
}

pub proof fn all_holes(t: Seq<F>, h: ISet<int>, v: real, n: nat)
    requires n <= t.len(), forall|k: int| 0 <= k < n ==> #[trigger] h.contains(k)
    ensures cnt(t, h, v, n) == 0
    decreases n
{ reveal(cnt); if n > 0 { all_holes(t, h, v, (n - 1) as nat); assert(h.contains(n - 1)); } }
// the count left for v when the first i entries have been worked off
#[verifier::opaque]
pub open spec fn pending(m: BTreeMap<F, usize>, v: real, i: int) -> int {
    if exists|k: int| i <= k < m.seq().len() && (#[trigger] m.seq()[k]).0@ == v { m.of(v) as int } else { 0 }
}
pub proof fn none_pending(m: BTreeMap<F, usize>, v: real)
    ensures pending(m, v, m.seq().len() as int) == 0
{ reveal(pending); }
pub proof fn all_pending(m: BTreeMap<F, usize>)
    ensures m.lists() ==> forall|v: real| #[trigger] pending(m, v, 0) == m.of(v)
{ reveal(pending); reveal(BTreeMap::lists);
    if m.lists() {
        assert forall|v: real| #[trigger] pending(m, v, 0) == m.of(v) by {
            if m.map().dom().contains(v) { }
        }
    }
}
pub proof fn pending_here(m: BTreeMap<F, usize>, i: int)
    requires m.lists(), 0 <= i < m.seq().len()
    ensures pending(m, m.seq()[i].0@, i) == m.seq()[i].1, forall|v: real| #[trigger] pending(m, v, i) >= 0
{ reveal(pending); reveal(BTreeMap::lists); }
pub proof fn pending_step(m: BTreeMap<F, usize>, i: int)
    requires m.lists(), 0 <= i < m.seq().len()
    ensures forall|v: real| #[trigger] pending(m, v, i + 1) == pending(m, v, i) - if v == m.seq()[i].0@ { m.seq()[i].1 as int } else { 0 }
{ reveal(pending); reveal(BTreeMap::lists);
    assert forall|v: real| #[trigger] pending(m, v, i + 1) == pending(m, v, i) - if v == m.seq()[i].0@ { m.seq()[i].1 as int } else { 0 } by {
        if v == m.seq()[i].0@ {
            assert forall|k: int| i + 1 <= k < m.seq().len() implies (#[trigger] m.seq()[k]).0@ != v by { assert(m.seq()[i].0@ != m.seq()[k].0@); }
        } else {
            if exists|k: int| i <= k < m.seq().len() && (#[trigger] m.seq()[k]).0@ == v {
                let k = choose|k: int| i <= k < m.seq().len() && (#[trigger] m.seq()[k]).0@ == v;
                assert(k != i);
            }
        }
    }
}
// every value of s is placed, or is still to be placed by the entries from i
// on, of which `used` copies of el are already placed
#[verifier::opaque]
pub open spec fn bal(m: BTreeMap<F, usize>, t: Seq<F>, h: ISet<int>, s: Seq<F>, i: int, el: real, used: int) -> bool {
    forall|v: real| #[trigger] pending(m, v, i) - (if v == el { used } else { 0 }) + cnt(t, h, v, t.len()) == occ(s, v)
}
pub proof fn bal_start(m: BTreeMap<F, usize>, t: Seq<F>, h: ISet<int>, s: Seq<F>)
    requires forall|v: real| #[trigger] m.of(v) + cnt(t, h, v, t.len()) == occ(s, v)
    ensures m.lists() ==> bal(m, t, h, s, 0, 0real, 0)
{
    reveal(bal);
    all_pending(m);
    if m.lists() {
        assert forall|v: real| #[trigger] pending(m, v, 0) - 0 + cnt(t, h, v, t.len()) == occ(s, v) by { assert(pending(m, v, 0) == m.of(v)); }
    }
}
pub proof fn bal_enter(m: BTreeMap<F, usize>, t: Seq<F>, h: ISet<int>, s: Seq<F>, i: int, e: real, el: real)
    requires bal(m, t, h, s, i, e, 0)
    ensures bal(m, t, h, s, i, el, 0)
{ reveal(bal); }
pub proof fn bal_hole(m: BTreeMap<F, usize>, t: Seq<F>, h: ISet<int>, s: Seq<F>, i: int, used: int) -> (k: int)
    requires m.lists(), 0 <= i < m.seq().len(), bal(m, t, h, s, i, m.seq()[i].0@, used), 0 <= used < m.seq()[i].1, t.len() == s.len()
    ensures 0 <= k < t.len() && h.contains(k)
{
    reveal(bal);
    pending_here(m, i);
    let el = m.seq()[i].0@;
    if forall|k: int| 0 <= k < t.len() ==> !#[trigger] h.contains(k) {
        assert forall|x: real| occ(t, x) <= #[trigger] occ(s, x) by {
            cnt_occ(t, h, x);
            let p = pending(m, x, i);
        }
        cnt_occ(t, h, el);
        occ_total(t, s, el);
        let p = pending(m, el, i);
        assert(false);
    }
    choose|k: int| 0 <= k < t.len() && #[trigger] h.contains(k)
}
pub proof fn bal_fill(m: BTreeMap<F, usize>, t: Seq<F>, h: ISet<int>, s: Seq<F>, i: int, x: F, used: int, k: int)
    requires bal(m, t, h, s, i, x@, used), 0 <= k < t.len(), h.contains(k)
    ensures bal(m, t.update(k, x), h.remove(k), s, i, x@, used + 1)
{
    reveal(bal);
    assert forall|v: real| #[trigger] pending(m, v, i) - (if v == x@ { used + 1 } else { 0 }) + cnt(t.update(k, x), h.remove(k), v, t.len()) == occ(s, v) by {
        cnt_fill(t, h, k, x, v, t.len());
    }
}
pub proof fn bal_leave(m: BTreeMap<F, usize>, t: Seq<F>, h: ISet<int>, s: Seq<F>, i: int)
    requires m.lists(), 0 <= i < m.seq().len(), bal(m, t, h, s, i, m.seq()[i].0@, m.seq()[i].1 as int)
    ensures bal(m, t, h, s, i + 1, 0real, 0)
{
    reveal(bal);
    pending_step(m, i);
    assert forall|v: real| #[trigger] pending(m, v, i + 1) - 0 + cnt(t, h, v, t.len()) == occ(s, v) by { let p = pending(m, v, i); }
}
pub proof fn bal_end(m: BTreeMap<F, usize>, t: Seq<F>, h: ISet<int>, s: Seq<F>)
    requires bal(m, t, h, s, m.seq().len() as int, 0real, 0), t.len() == s.len()
    ensures forall|k: int| 0 <= k < t.len() ==> !#[trigger] h.contains(k), same_values(t, s)
{
    reveal(bal);
    assert forall|x: real| occ(s, x) <= #[trigger] occ(t, x) by {
        cnt_occ(t, h, x);
        none_pending(m, x);
    }
    assert forall|k: int| 0 <= k < t.len() implies !#[trigger] h.contains(k) by {
        if h.contains(k) {
            let v = t[k]@;
            occ_total(s, t, v);
            cnt_occ(t, h, v);
            none_pending(m, v);
        }
    }
    assert forall|x: real| occ(t, x) == #[trigger] occ(s, x) by {
        cnt_occ(t, h, x);
        none_pending(m, x);
    }
    same_from_occ(t, s);
}
// u lists the holes, all below n, once each
#[verifier::opaque]
pub open spec fn stack(u: Seq<usize>, h: ISet<int>, n: int) -> bool {
    &&& forall|k: int| #[trigger] h.contains(k) ==> 0 <= k < n && exists|y: int| 0 <= y < u.len() && #[trigger] u[y] == k
    &&& forall|y: int| 0 <= y < u.len() ==> 0 <= #[trigger] u[y] < n && h.contains(u[y] as int)
    &&& u.no_duplicates()
}
pub open spec fn below(n: int) -> ISet<int> { ISet::new(|k: int| 0 <= k < n) }
pub proof fn stack_has(u: Seq<usize>, h: ISet<int>, n: int, k: int)
    requires stack(u, h, n), h.contains(k)
    ensures u.len() > 0
{ reveal(stack); }
pub proof fn stack_empty(u: Seq<usize>, h: ISet<int>, n: int)
    requires stack(u, h, n), forall|k: int| 0 <= k < n ==> !#[trigger] h.contains(k)
    ensures u.len() == 0
{ reveal(stack); if u.len() > 0 { assert(h.contains(u[0] as int)); } }
pub proof fn stack_pop(u: Seq<usize>, h: ISet<int>, n: int)
    requires stack(u, h, n), u.len() > 0
    ensures h.contains(u.last() as int), 0 <= u.last() < n, stack(u.drop_last(), h.remove(u.last() as int), n)
{
    reveal(stack);
    let l = u.last();
    assert(u[u.len() - 1] == l);
    let g = h.remove(l as int);
    let d = u.drop_last();
    assert forall|k: int| #[trigger] g.contains(k) implies 0 <= k < n && exists|y: int| 0 <= y < d.len() && #[trigger] d[y] == k by {
        assert(h.contains(k));
        let y = choose|y: int| 0 <= y < u.len() && #[trigger] u[y] == k;
        assert(d[y] == k);
    }
    assert forall|y: int| 0 <= y < d.len() implies 0 <= #[trigger] d[y] < n && g.contains(d[y] as int) by { assert(u[y] != u[u.len() - 1]); }
}
pub proof fn stack_wider(u: Seq<usize>, h: ISet<int>, n: int)
    requires stack(u, h, n), n >= 0
    ensures stack(u, h, n + 1)
{ reveal(stack); }
pub proof fn stack_push(u: Seq<usize>, h: ISet<int>, n: int)
    requires stack(u, h, n), 0 <= n <= usize::MAX
    ensures stack(u.push(n as usize), h.insert(n), n + 1)
{
    reveal(stack);
    let d = u.push(n as usize);
    let g = h.insert(n);
    assert forall|k: int| #[trigger] g.contains(k) implies 0 <= k < n + 1 && exists|y: int| 0 <= y < d.len() && #[trigger] d[y] == k by {
        if k == n { assert(d[u.len() as int] == k); }
        else {
            assert(h.contains(k));
            let y = choose|y: int| 0 <= y < u.len() && #[trigger] u[y] == k;
            assert(d[y] == k);
        }
    }
}
pub proof fn stack_start(u: Seq<usize>, h: ISet<int>)
    requires u.len() == 0, h =~= ISet::<int>::empty()
    ensures stack(u, h, 0)
{ reveal(stack); }
// v occurs among the first n of a
pub open spec fn seen(a: Seq<F>, v: real, n: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] a[j]@ == v }

@fn src/lookup/permute.rs permute_for_lookup at2=1 loops=4
@spec
    requires a@.len() == s@.len(),
        all_in(a@, s@),
    ensures arranged(a@, s@, r.0@, r.1@),
@beforeloop 0
    let ghost n = a@.len();
    proof {
        assert forall|i: int| 0 <= i < n implies occ(s@, #[trigger] a_permuted@[i]@) > 0 by {
            occ_index(a_permuted@, i);
            same_occ(a@, a_permuted@);
            assert(occ(a@, a_permuted@[i]@) > 0);
            occ_has(a@, a_permuted@[i]@);
        }
        assert forall|v: real| #[trigger] table_element_counts.of(v) == occ(s@.take(0), v) by { occ_empty(s@.take(0), v); }
    }
@loop 0
    invariant
        a_permuted@.len() == n, s@.len() == n,
        forall|v: real| #[trigger] table_element_counts.of(v) == occ(s@.take(__i0 as int), v),
        forall|v: real| #[trigger] table_element_counts.map().dom().contains(v) ==> table_element_counts.of(v) > 0,
        forall|v: real| #[trigger] table_element_counts.of(v) <= __i0,
@loopstart 0
    let ghost before = table_element_counts;
@loopend 0
    proof {
        assert forall|v: real| #[trigger] table_element_counts.of(v) == occ(s@.take(__i0 + 1), v) by {
            occ_push(s@, __i0 as int, v);
            assert(before.of(v) == occ(s@.take(__i0 as int), v));
            assert(before.of(si@) <= __i0);
        }
        assert forall|v: real| #[trigger] table_element_counts.of(v) <= __i0 + 1 by {
            assert(before.of(v) <= __i0 && before.of(si@) <= __i0);
        }
        assert forall|v: real| #[trigger] table_element_counts.map().dom().contains(v) implies table_element_counts.of(v) > 0 by {
            assert(before.of(v) <= __i0 && before.of(si@) <= __i0);
            if v != si@ { assert(before.map().dom().contains(v)); }
        }
    }
@beforeloop 1
    let ghost counts0 = table_element_counts;
    let ghost mut holes: ISet<int> = ISet::new(|i: int| 0 <= i < n);
    proof {
        assert(s@.take(n as int) =~= s@);
        stack_start(unassigned_indices@, holes.intersect(below(0)));
        assert(holes.intersect(below(n as int)) =~= holes);
        assert forall|v: real| occ(s@, v) > 0 implies #[trigger] table_element_counts.map().dom().contains(v) by { assert(table_element_counts.of(v) == occ(s@, v)); }
        assert forall|v: real| #[trigger] cnt(permuted_table@, holes, v, n) == 0 by { all_holes(permuted_table@, holes, v, n); }
    }
@loop 1
    invariant
        n == a@.len(), a_permuted@.len() == n, s@.len() == n, permuted_table@.len() == n,
        grouped(a_permuted@),
        forall|i: int| 0 <= i < n ==> occ(s@, #[trigger] a_permuted@[i]@) > 0,
        forall|v: real| #[trigger] table_element_counts.of(v) + cnt(permuted_table@, holes, v, n) == occ(s@, v),
        forall|v: real| #[trigger] table_element_counts.of(v) + (if seen(a_permuted@, v, __i1 as int) { 1int } else { 0 }) == occ(s@, v),
        forall|v: real| occ(s@, v) > 0 ==> #[trigger] table_element_counts.map().dom().contains(v),
        forall|k: int| #[trigger] holes.contains(k) ==> 0 <= k < n,
        stack(unassigned_indices@, holes.intersect(below(__i1 as int)), __i1 as int),
        forall|k: int| __i1 <= k < n ==> #[trigger] holes.contains(k),
        forall|k: int| 0 <= k < __i1 && !#[trigger] holes.contains(k) ==> permuted_table@[k] == a_permuted@[k],
        forall|k: int| 0 < k < __i1 && #[trigger] holes.contains(k) ==> a_permuted@[k] == a_permuted@[k - 1],
        __i1 > 0 ==> !holes.contains(0),
@loopstart 1
    let ghost before = table_element_counts;
    let ghost t0 = permuted_table@;
    let ghost u0 = unassigned_indices@;
    let ghost h0 = holes;
    proof {
        let i = __i1 as int;
        let x = a_permuted@[i];
        if i == 0 || x@ != a_permuted@[i - 1]@ {
            assert(!seen(a_permuted@, x@, i)) by {
                if seen(a_permuted@, x@, i) {
                    let j = choose|j: int| 0 <= j < i && #[trigger] a_permuted@[j]@ == x@;
                    assert(a_permuted@[j]@ == a_permuted@[i]@);
                    assert(a_permuted@[i - 1]@ == a_permuted@[j]@);
                }
            }
            assert(before.of(x@) + 0 == occ(s@, x@));
            assert(before.map().dom().contains(x@));
        }
    }
@loopend 1
    proof {
        let i = __i1 as int;
        let x = a_permuted@[i];
        assert forall|v: real| seen(a_permuted@, v, i + 1) <==> seen(a_permuted@, v, i) || v == x@ by {
            if v == x@ { assert(a_permuted@[i]@ == v); }
            if seen(a_permuted@, v, i) { let j = choose|j: int| 0 <= j < i && #[trigger] a_permuted@[j]@ == v; assert(a_permuted@[j]@ == v); }
        }
        if i == 0 || x@ != a_permuted@[i - 1]@ {
            holes = h0.remove(i);
            assert(holes.intersect(below(i + 1)) =~= h0.intersect(below(i)));
            stack_wider(u0, h0.intersect(below(i)), i);
            assert forall|v: real| #[trigger] table_element_counts.of(v) + cnt(permuted_table@, holes, v, n) == occ(s@, v) by {
                cnt_fill(t0, h0, i, x, v, n);
                assert(permuted_table@ =~= t0.update(i, x));
                assert(before.of(v) + cnt(t0, h0, v, n) == occ(s@, v));
                assert(before.of(x@) + 0 == occ(s@, x@));
            }
            assert forall|v: real| #[trigger] table_element_counts.of(v) + (if seen(a_permuted@, v, i + 1) { 1int } else { 0 }) == occ(s@, v) by {
                assert(before.of(v) + (if seen(a_permuted@, v, i) { 1int } else { 0 }) == occ(s@, v));
                assert(before.of(x@) + 0 == occ(s@, x@));
            }
        } else {
            assert(a_permuted@[i - 1]@ == x@);
            f_ext(a_permuted@[i - 1], x);
            assert(seen(a_permuted@, x@, i));
            assert(unassigned_indices@ =~= u0.push(i as usize));
            stack_push(u0, h0.intersect(below(i)), i);
            assert(holes.intersect(below(i + 1)) =~= h0.intersect(below(i)).insert(i));
        }
        assert(holes.intersect(below(n as int)) =~= holes);
    }
@beforeloop 2
    let ghost h1 = holes;
    assert(holes.intersect(below(n as int)) =~= holes);
    proof { bal_start(table_element_counts, permuted_table@, holes, s@); }
@loop 2
    invariant
        n == a@.len(), a_permuted@.len() == n, s@.len() == n, permuted_table@.len() == n,
        table_element_counts.lists(),
        __n2 == table_element_counts.seq().len(),
        bal(table_element_counts, permuted_table@, holes, s@, __i2 as int, 0real, 0),
        stack(unassigned_indices@, holes, n as int),
        forall|k: int| #[trigger] holes.contains(k) ==> h1.contains(k),
        forall|k: int| 0 <= k < n && !#[trigger] h1.contains(k) ==> permuted_table@[k] == a_permuted@[k],
@beforeloop 3
    proof { bal_enter(table_element_counts, permuted_table@, holes, s@, __i2 as int, 0real, el@); }
@loop 3
    invariant
        permuted_table@.len() == n,
        bal(table_element_counts, permuted_table@, holes, s@, __i2 as int, el@, __i3 as int),
        stack(unassigned_indices@, holes, n as int),
        forall|k: int| #[trigger] holes.contains(k) ==> h1.contains(k),
        forall|k: int| 0 <= k < n && !#[trigger] h1.contains(k) ==> permuted_table@[k] == a_permuted@[k],
@loopstart 3
    let ghost t0 = permuted_table@;
    let ghost u0 = unassigned_indices@;
    let ghost h0 = holes;
    proof {
        let k = bal_hole(table_element_counts, permuted_table@, holes, s@, __i2 as int, __i3 as int);
        stack_has(u0, h0, n as int, k);
        stack_pop(u0, h0, n as int);
    }
@loopend 3
    proof {
        let i = index_to_assign as int;
        holes = h0.remove(i);
        assert(unassigned_indices@ =~= u0.drop_last());
        bal_fill(table_element_counts, t0, h0, s@, __i2 as int, el, __i3 as int, i);
        assert(permuted_table@ =~= t0.update(i, el));
    }
@loopend 2
    proof { bal_leave(table_element_counts, permuted_table@, holes, s@, __i2 as int); }
@afterloop 2
    proof {
        bal_end(table_element_counts, permuted_table@, holes, s@);
        stack_empty(unassigned_indices@, holes, n as int);
        assert forall|i: int| 0 < i < n implies #[trigger] a_permuted@[i] == permuted_table@[i] || a_permuted@[i] == a_permuted@[i - 1] by {
            if !h1.contains(i) { } else { assert(a_permuted@[i] == a_permuted@[i - 1]); }
        }
    }
@end
// the same function on any input, a panic ending the run
@fn src/lookup/permute.rs permute_for_lookup rename=permute_or_panic key=permute_for_lookup(any-input) asserts=assumed at2=1 loops=4
@spec
    requires a@.len() == s@.len(),
    ensures arranged(a@, s@, r.0@, r.1@), all_in(a@, s@),
@beforeloop 0
    let ghost n = a@.len();
    proof {
        assert forall|v: real| #[trigger] table_element_counts.of(v) == occ(s@.take(0), v) by { occ_empty(s@.take(0), v); }
    }
@loop 0
    invariant
        a_permuted@.len() == n, s@.len() == n,
        forall|v: real| #[trigger] table_element_counts.of(v) == occ(s@.take(__i0 as int), v),
        forall|v: real| #[trigger] table_element_counts.map().dom().contains(v) ==> table_element_counts.of(v) > 0,
        forall|v: real| #[trigger] table_element_counts.of(v) <= __i0,
@loopstart 0
    let ghost before = table_element_counts;
@loopend 0
    proof {
        assert forall|v: real| #[trigger] table_element_counts.of(v) == occ(s@.take(__i0 + 1), v) by {
            occ_push(s@, __i0 as int, v);
            assert(before.of(v) == occ(s@.take(__i0 as int), v));
            assert(before.of(si@) <= __i0);
        }
        assert forall|v: real| #[trigger] table_element_counts.of(v) <= __i0 + 1 by {
            assert(before.of(v) <= __i0 && before.of(si@) <= __i0);
        }
        assert forall|v: real| #[trigger] table_element_counts.map().dom().contains(v) implies table_element_counts.of(v) > 0 by {
            assert(before.of(v) <= __i0 && before.of(si@) <= __i0);
            if v != si@ { assert(before.map().dom().contains(v)); }
        }
    }
@beforeloop 1
    let ghost counts0 = table_element_counts;
    let ghost mut holes: ISet<int> = ISet::new(|i: int| 0 <= i < n);
    proof {
        assert(s@.take(n as int) =~= s@);
        stack_start(unassigned_indices@, holes.intersect(below(0)));
        assert(holes.intersect(below(n as int)) =~= holes);
        assert forall|v: real| #[trigger] table_element_counts.map().dom().contains(v) implies occ(s@, v) > 0 by { assert(table_element_counts.of(v) == occ(s@, v)); }
        assert forall|v: real| occ(s@, v) > 0 implies #[trigger] table_element_counts.map().dom().contains(v) by { assert(table_element_counts.of(v) == occ(s@, v)); }
        assert forall|v: real| #[trigger] cnt(permuted_table@, holes, v, n) == 0 by { all_holes(permuted_table@, holes, v, n); }
    }
@loop 1
    invariant
        n == a@.len(), a_permuted@.len() == n, s@.len() == n, permuted_table@.len() == n,
        grouped(a_permuted@),
        forall|i: int| 0 <= i < __i1 ==> occ(s@, #[trigger] a_permuted@[i]@) > 0,
        forall|v: real| #[trigger] table_element_counts.map().dom().contains(v) ==> occ(s@, v) > 0,
        forall|v: real| #[trigger] table_element_counts.of(v) + cnt(permuted_table@, holes, v, n) == occ(s@, v),
        forall|v: real| #[trigger] table_element_counts.of(v) + (if seen(a_permuted@, v, __i1 as int) { 1int } else { 0 }) == occ(s@, v),
        forall|v: real| occ(s@, v) > 0 ==> #[trigger] table_element_counts.map().dom().contains(v),
        forall|k: int| #[trigger] holes.contains(k) ==> 0 <= k < n,
        stack(unassigned_indices@, holes.intersect(below(__i1 as int)), __i1 as int),
        forall|k: int| __i1 <= k < n ==> #[trigger] holes.contains(k),
        forall|k: int| 0 <= k < __i1 && !#[trigger] holes.contains(k) ==> permuted_table@[k] == a_permuted@[k],
        forall|k: int| 0 < k < __i1 && #[trigger] holes.contains(k) ==> a_permuted@[k] == a_permuted@[k - 1],
        __i1 > 0 ==> !holes.contains(0),
@loopstart 1
    let ghost before = table_element_counts;
    let ghost t0 = permuted_table@;
    let ghost u0 = unassigned_indices@;
    let ghost h0 = holes;
    proof {
        let i = __i1 as int;
        let x = a_permuted@[i];
        if i == 0 || x@ != a_permuted@[i - 1]@ {
            assert(!seen(a_permuted@, x@, i)) by {
                if seen(a_permuted@, x@, i) {
                    let j = choose|j: int| 0 <= j < i && #[trigger] a_permuted@[j]@ == x@;
                    assert(a_permuted@[j]@ == a_permuted@[i]@);
                    assert(a_permuted@[i - 1]@ == a_permuted@[j]@);
                }
            }
            assert(before.of(x@) + 0 == occ(s@, x@));
            assert(before.map().dom().contains(x@) ==> before.of(x@) > 0);
        }
    }
@loopend 1
    proof {
        let i = __i1 as int;
        let x = a_permuted@[i];
        assert forall|v: real| seen(a_permuted@, v, i + 1) <==> seen(a_permuted@, v, i) || v == x@ by {
            if v == x@ { assert(a_permuted@[i]@ == v); }
            if seen(a_permuted@, v, i) { let j = choose|j: int| 0 <= j < i && #[trigger] a_permuted@[j]@ == v; assert(a_permuted@[j]@ == v); }
        }
        if i == 0 || x@ != a_permuted@[i - 1]@ {
            holes = h0.remove(i);
            assert(holes.intersect(below(i + 1)) =~= h0.intersect(below(i)));
            stack_wider(u0, h0.intersect(below(i)), i);
            assert forall|v: real| #[trigger] table_element_counts.of(v) + cnt(permuted_table@, holes, v, n) == occ(s@, v) by {
                cnt_fill(t0, h0, i, x, v, n);
                assert(permuted_table@ =~= t0.update(i, x));
                assert(before.of(v) + cnt(t0, h0, v, n) == occ(s@, v));
                assert(before.of(x@) + 0 == occ(s@, x@));
            }
            assert forall|v: real| #[trigger] table_element_counts.of(v) + (if seen(a_permuted@, v, i + 1) { 1int } else { 0 }) == occ(s@, v) by {
                assert(before.of(v) + (if seen(a_permuted@, v, i) { 1int } else { 0 }) == occ(s@, v));
                assert(before.of(x@) + 0 == occ(s@, x@));
            }
        } else {
            assert(a_permuted@[i - 1]@ == x@);
            f_ext(a_permuted@[i - 1], x);
            assert(seen(a_permuted@, x@, i));
            assert(unassigned_indices@ =~= u0.push(i as usize));
            stack_push(u0, h0.intersect(below(i)), i);
            assert(holes.intersect(below(i + 1)) =~= h0.intersect(below(i)).insert(i));
        }
        assert(holes.intersect(below(n as int)) =~= holes);
    }
@beforeloop 2
    let ghost h1 = holes;
    assert(holes.intersect(below(n as int)) =~= holes);
    proof { bal_start(table_element_counts, permuted_table@, holes, s@); }
@loop 2
    invariant
        n == a@.len(), a_permuted@.len() == n, s@.len() == n, permuted_table@.len() == n,
        table_element_counts.lists(),
        __n2 == table_element_counts.seq().len(),
        bal(table_element_counts, permuted_table@, holes, s@, __i2 as int, 0real, 0),
        stack(unassigned_indices@, holes, n as int),
        forall|k: int| #[trigger] holes.contains(k) ==> h1.contains(k),
        forall|k: int| 0 <= k < n && !#[trigger] h1.contains(k) ==> permuted_table@[k] == a_permuted@[k],
@beforeloop 3
    proof { bal_enter(table_element_counts, permuted_table@, holes, s@, __i2 as int, 0real, el@); }
@loop 3
    invariant
        permuted_table@.len() == n,
        bal(table_element_counts, permuted_table@, holes, s@, __i2 as int, el@, __i3 as int),
        stack(unassigned_indices@, holes, n as int),
        forall|k: int| #[trigger] holes.contains(k) ==> h1.contains(k),
        forall|k: int| 0 <= k < n && !#[trigger] h1.contains(k) ==> permuted_table@[k] == a_permuted@[k],
@loopstart 3
    let ghost t0 = permuted_table@;
    let ghost u0 = unassigned_indices@;
    let ghost h0 = holes;
    proof {
        let k = bal_hole(table_element_counts, permuted_table@, holes, s@, __i2 as int, __i3 as int);
        stack_has(u0, h0, n as int, k);
        stack_pop(u0, h0, n as int);
    }
@loopend 3
    proof {
        let i = index_to_assign as int;
        holes = h0.remove(i);
        assert(unassigned_indices@ =~= u0.drop_last());
        bal_fill(table_element_counts, t0, h0, s@, __i2 as int, el, __i3 as int, i);
        assert(permuted_table@ =~= t0.update(i, el));
    }
@loopend 2
    proof { bal_leave(table_element_counts, permuted_table@, holes, s@, __i2 as int); }
@afterloop 2
    proof {
        bal_end(table_element_counts, permuted_table@, holes, s@);
        stack_empty(unassigned_indices@, holes, n as int);
        assert forall|i: int| 0 <= i < n implies occ(s@, #[trigger] a@[i]@) > 0 by {
            occ_index(a@, i);
            same_occ(a@, a_permuted@);
            assert(occ(a_permuted@, a@[i]@) > 0);
            occ_has(a_permuted@, a@[i]@);
        }
        assert forall|i: int| 0 < i < n implies #[trigger] a_permuted@[i] == permuted_table@[i] || a_permuted@[i] == a_permuted@[i - 1] by {
            if !h1.contains(i) { } else { assert(a_permuted@[i] == a_permuted@[i - 1]); }
        }
    }
@end
}
fn main() {}
