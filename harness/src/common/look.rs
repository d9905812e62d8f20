//! lookups of a set-up circuit: the crate's columns and what they should hold
use ark_poly::EvaluationDomain;
use std::collections::BTreeMap;
use zero_over_k::lookup::LookupArgument;
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::WitnessProverOracle;
use zok_harness::ideal::*;
use zok_harness::sys::*;
use zok_harness::*;

pub fn names(l: Vec<String>) -> BTreeMap<String, usize> {
    l.into_iter().enumerate().map(|(i, x)| (x, i)).collect()
}
pub type Four = (WitnessProverOracle<Fr>, WitnessProverOracle<Fr>, WitnessProverOracle<Fr>, WitnessProverOracle<Fr>);
pub fn columns(st: &Setup<Ideal>, l: usize, theta: Fr, rec: &mut RecRng) -> Result<Four, String> {
    columns_at(st, l, theta, st.sys.u, rec)
}
pub fn columns_at(st: &Setup<Ideal>, l: usize, theta: Fr, u: usize, rec: &mut RecRng) -> Result<Four, String> {
    let e = st.pvk.index_info.extended_coset_domain;
    let mut wit = st.wit.clone();
    let mut ins = st.ins.clone();
    for o in wit.iter_mut() {
        o.compute_extended_evals(&e);
    }
    for o in ins.iter_mut() {
        o.compute_extended_evals(&e);
    }
    let wm = names(wit.iter().map(|o| o.get_label()).collect());
    let im = names(ins.iter().map(|o| o.get_label()).collect());
    let fm = names(st.ppi.fixed_oracles.iter().map(|o| o.get_label()).collect());
    let tm = names(st.ppi.table_oracles.iter().map(|o| o.get_label()).collect());
    let ex = st.plooks[l].get_expressions().map_err(|e| format!("{:?}", e))?;
    let tq = st.plooks[l].get_table_queries().map_err(|e| format!("{:?}", e))?;
    match guard(|| {
        LookupArgument::construct_a_and_s_polys_prover(
            &wm,
            &im,
            &fm,
            &tm,
            &wit,
            &ins,
            &st.ppi.fixed_oracles,
            &st.ppi.table_oracles,
            u,
            l,
            ex,
            tq,
            theta,
            &st.sys.domain(),
            &e,
            rec,
        )
    }) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error {:?}", e)),
        Err(m) => Err(format!("panic {}", m)),
    }
}
pub fn input_rows(st: &Setup<Ideal>, l: usize, theta: Fr) -> Vec<Fr> {
    let s = &st.sys;
    (0..s.n)
        .map(|i| {
            let mut acc = Fr::zero();
            let mut p = Fr::one();
            for e in &s.looks[l].exprs {
                acc += p * e.eval(&|k, c, r| s.val(k, c, i, r));
                p *= theta;
            }
            acc
        })
        .collect()
}
pub fn table_rows(st: &Setup<Ideal>, l: usize, theta: Fr) -> Vec<Fr> {
    let s = &st.sys;
    (0..s.n)
        .map(|i| {
            let mut acc = Fr::zero();
            let mut p = Fr::one();
            for (t, r) in &s.looks[l].tabs {
                acc += p * at(&s.tab[*t].ev, i, *r);
                p *= theta;
            }
            acc
        })
        .collect()
}
