verus! {
pub trait LookupVirtualOracle {
    spec fn s_inputs(&self) -> Option<Seq<Expression>>;
    spec fn s_tables(&self) -> Option<Seq<OracleQuery>>;
    fn get_expressions(&self) -> (r: Result<&[Expression], VOError>)
        ensures match r { Ok(e) => self.s_inputs() == Some(e@), Err(_) => self.s_inputs() is None };
    fn get_table_queries(&self) -> (r: Result<&[OracleQuery], VOError>)
        ensures match r { Ok(e) => self.s_tables() == Some(e@), Err(_) => self.s_tables() is None };
}
@item src/data_structures.rs Index
@item src/data_structures.rs VerifierKey
pub fn vextend<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ {
    let mut o = o;
    v.append(&mut o);
}
// the five weights of the l-th lookup
pub proof fn chunk_weights(x: real, k: nat, l: nat)
    ensures chunk_count(5 * l, 5) == l, forall|c: int| 0 <= c < l ==> #[trigger] chunk(pw(x, k, 5 * l), c, 5) == look_weights(x, k, c)
{
    chunk_count_is(5 * l, 5, l);
    assert forall|c: int| 0 <= c < l implies #[trigger] chunk(pw(x, k, 5 * l), c, 5) == look_weights(x, k, c) by {
        assert(chunk(pw(x, k, 5 * l), c, 5) =~= look_weights(x, k, c));
    }
}
// the gates, each with the power of the challenge of its position
pub open spec fn gates_sum(vos: Seq<&dyn VirtualOracle>, env: spec_fn(OracleQuery) -> real, x: real, k: nat) -> real decreases k {
    if k == 0 { 0real } else { gates_sum(vos, env, x, (k - 1) as nat) + rpow(x, (k - 1) as nat) * meaning(vos[k - 1].s_expr().unwrap(), env) }
}
// the lookups, five consecutive powers each, from the k-th power on
pub open spec fn look_weights(x: real, k: nat, l: int) -> Seq<F> { pw(x, (k + 5 * l) as nat, 5) }
pub open spec fn looks_sum(ps: Seq<LookAt>, x: real, k: nat, l: nat) -> real decreases l {
    if l == 0 { 0real } else { looks_sum(ps, x, k, (l - 1) as nat) + lookup_value(ps[l - 1], look_weights(x, k, l - 1)) }
}
// every constraint of the circuit with a power of the challenge of its own:
// gates first, then the copy constraints, then the lookups
pub open spec fn combined(vos: Seq<&dyn VirtualOracle>, env: spec_fn(OracleQuery) -> real, copies: Option<PermAt>, zs: nat, ps: Seq<LookAt>, x: real) -> real {
    let k = vos.len();
    let p = (2 * zs + 1) as nat;
    gates_sum(vos, env, x, k)
        + (if copies is Some { perm_value(copies.unwrap(), pw(x, k, p)) } else { 0real })
        + looks_sum(ps, x, (k + p) as nat, ps.len())
}
pub open spec fn vos_answered(vos: Seq<&dyn VirtualOracle>, res: spec_fn(OracleQuery) -> bool, k: nat) -> bool {
    forall|j: int| 0 <= j < k ==> (#[trigger] vos[j]).s_expr() is Some && answered(vos[j].s_expr().unwrap(), res)
}
}
