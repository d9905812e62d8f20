//! The combined constraint of a circuit, rebuilt from what a proof commits to.
use super::tp::*;
#[path = "linear.rs"]
mod linear;
pub use linear::solve;
use std::collections::BTreeMap;
use zok_harness::ideal::*;
use zok_harness::spec::*;
use zok_harness::sys::*;
use zok_harness::*;
use ark_poly::{EvaluationDomain, Polynomial, UVPolynomial};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum S {
    W(usize),
    I(usize),
    X(usize),
    T(usize),
    Sig(usize),
    B,
    Ap(usize),
    Sp(usize),
    Z(usize),
    Lz(usize),
    Q(usize),
}
pub type P = TPProof<Fr, Ideal>;
#[derive(Clone, Debug)]
pub struct Ch {
    pub theta: Fr,
    pub beta: Fr,
    pub gamma: Fr,
    pub alpha: Fr,
    pub xi: Fr,
    pub all: Vec<Fr>,
}
pub fn ch(log: &[Ev]) -> Option<Ch> {
    let c = challenges(log);
    if c.len() < 5 {
        return None;
    }
    Some(Ch { theta: c[0], beta: c[1], gamma: c[2], alpha: c[3], xi: c[4], all: c })
}
pub struct Ctx<'a> {
    pub st: &'a Setup<Ideal>,
    pub polys: BTreeMap<S, Poly>,
    pub n: usize,
    pub chunks: usize,
    pub nz: usize,
    pub zcols: usize,
    pub dom: D,
    pub l0: Poly,
    pub lu: Poly,
}
pub fn unit(s: &Sys, i: usize) -> Poly {
    let mut v = vec![Fr::zero(); s.n];
    v[i] = Fr::one();
    s.poly(&v)
}
pub fn ctx<'a>(st: &'a Setup<Ideal>, p: &P) -> Ctx<'a> {
    let s = &st.sys;
    let mut polys = BTreeMap::new();
    let cm = |c: &Cm| Poly::from_coefficients_vec(c.p.clone());
    for (i, c) in p.witness_commitments.iter().enumerate() {
        polys.insert(S::W(i), cm(c));
    }
    for (i, c) in s.ins.iter().enumerate() {
        polys.insert(S::I(i), s.poly(&c.ev));
    }
    for (i, c) in s.fix.iter().enumerate() {
        polys.insert(S::X(i), s.poly(&c.ev));
    }
    for (i, c) in s.tab.iter().enumerate() {
        polys.insert(S::T(i), s.poly(&c.ev));
    }
    for (i, e) in s.sigma_evals().iter().enumerate() {
        polys.insert(S::Sig(i), s.poly(e));
    }
    polys.insert(S::B, s.poly(&s.q_blind));
    for (i, c) in p.lookup_commitments.chunks(2).enumerate() {
        polys.insert(S::Ap(i), cm(&c[0]));
        if c.len() > 1 {
            polys.insert(S::Sp(i), cm(&c[1]));
        }
    }
    for (i, c) in p.z_commitments.iter().enumerate() {
        polys.insert(S::Z(i), cm(c));
    }
    for (i, c) in p.lookup_z_commitments.iter().enumerate() {
        polys.insert(S::Lz(i), cm(c));
    }
    for (i, c) in p.quotient_chunk_commitments.iter().enumerate() {
        polys.insert(S::Q(i), cm(c));
    }
    let chunks = p.quotient_chunk_commitments.len();
    Ctx {
        st,
        polys,
        n: s.n,
        chunks,
        nz: p.z_commitments.len(),
        zcols: if chunks > 1 { chunks - 1 } else { 1 },
        dom: s.domain(),
        l0: unit(s, 0),
        lu: unit(s, s.perm_u),
    }
}
impl<'a> Ctx<'a> {
    pub fn wpow(&self, r: i64) -> Fr {
        self.dom.element(r.rem_euclid(self.n as i64) as usize)
    }
    pub fn at(&self, s: S, r: i64, x: Fr) -> Fr {
        self.polys[&s].evaluate(&(x * self.wpow(r)))
    }
    /// the separate constraints at a point where `get` reads the columns
    pub fn terms(&self, get: &dyn Fn(S, i64) -> Fr, c: &Ch, x: Fr) -> Vec<Fr> {
        let s = &self.st.sys;
        let rd = |k: K, i: usize, r: i64| match k {
            K::W => get(S::W(i), r),
            K::I => get(S::I(i), r),
            K::X => get(S::X(i), r),
        };
        let mut out: Vec<Fr> = s.gates.iter().map(|g| g.eval(&rd)).collect();
        let (l0, lu) = (self.l0.evaluate(&x), self.lu.evaluate(&x));
        let cp = s.copied();
        if !cp.is_empty() {
            let p = PermAt {
                l0,
                lu,
                qb: get(S::B, 0),
                w: cp.iter().map(|i| get(S::W(*i), 0)).collect(),
                s: (0..cp.len()).map(|i| get(S::Sig(i), 0)).collect(),
                d: s.deltas.clone(),
                z: (0..self.nz).map(|i| get(S::Z(i), 0)).collect(),
                zn: (0..self.nz).map(|i| get(S::Z(i), 1)).collect(),
                zu: (0..self.nz - 1).map(|i| get(S::Z(i), s.perm_u as i64)).collect(),
                beta: c.beta,
                gamma: c.gamma,
                x,
                cols: self.zcols,
            };
            out.extend(p.terms());
        }
        for (l, lk) in s.looks.iter().enumerate() {
            let th = powers(c.theta, lk.exprs.len());
            let a = lk.exprs.iter().zip(&th).map(|(e, t)| e.eval(&rd) * t).sum();
            let sv = lk.tabs.iter().zip(&th).map(|((i, r), t)| get(S::T(*i), *r) * t).sum();
            let la = LookAt {
                l0,
                lu,
                qb: get(S::B, 0),
                a,
                s: sv,
                ap: get(S::Ap(l), 0),
                apb: get(S::Ap(l), -1),
                sp: get(S::Sp(l), 0),
                z: get(S::Lz(l), 0),
                zn: get(S::Lz(l), 1),
                beta: c.beta,
                gamma: c.gamma,
            };
            out.extend(la.terms());
        }
        out
    }
    pub fn t_at(&self, get: &dyn Fn(usize) -> Fr, x: Fr) -> Fr {
        let xn = x.pow([self.n as u64]);
        (0..self.chunks).map(|i| xn.pow([i as u64]) * get(i)).sum()
    }
    /// the weight of each constraint in the prover's quotient
    pub fn weights(&self, c: &Ch, rng: &mut impl Rng) -> Option<Vec<Fr>> {
        let mut rows = vec![];
        let mut rhs = vec![];
        let mut k = 1;
        while rows.len() < k {
            let x = Fr::rand(rng);
            let t = self.terms(&|s, r| self.at(s, r, x), c, x);
            k = t.len();
            rows.push(t);
            rhs.push(self.st.zh.evaluate(&x) * self.t_at(&|i| self.at(S::Q(i), 0, x), x));
        }
        solve(rows, rhs)
    }
    /// the prover's numerator, checked against given weights at fresh points
    pub fn identity(&self, c: &Ch, w: &[Fr], rng: &mut impl Rng) -> bool {
        (0..3).all(|_| {
            let x = Fr::rand(rng);
            let t = self.terms(&|s, r| self.at(s, r, x), c, x);
            weigh(&t, w) == self.st.zh.evaluate(&x) * self.t_at(&|i| self.at(S::Q(i), 0, x), x)
        })
    }
}
pub fn exponent(x: Fr, base: Fr, max: usize) -> Option<usize> {
    let mut p = Fr::one();
    for e in 0..=max {
        if p == x {
            return Some(e);
        }
        p *= base;
    }
    None
}
/// the claimed evaluations of a proof
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Slot {
    pub part: usize,
    pub index: usize,
}
pub const PARTS: [&str; 9] = [
    "witness_evals",
    "fixed_oracle_evals",
    "table_oracle_evals",
    "permutation_oracle_evals",
    "q_blind_eval",
    "lookup_evals",
    "lookup_z_evals",
    "z_evals",
    "quotient_chunks_evals",
];
pub fn part_len(p: &P, part: usize) -> usize {
    match part {
        0 => p.witness_evals.len(),
        1 => p.fixed_oracle_evals.len(),
        2 => p.table_oracle_evals.len(),
        3 => p.permutation_oracle_evals.len(),
        4 => 1,
        5 => p.lookup_evals.len(),
        6 => p.lookup_z_evals.len(),
        7 => p.z_evals.len(),
        _ => p.quotient_chunks_evals.len(),
    }
}
pub fn cell(p: &mut P, s: Slot) -> &mut Fr {
    match s.part {
        0 => &mut p.witness_evals[s.index],
        1 => &mut p.fixed_oracle_evals[s.index],
        2 => &mut p.table_oracle_evals[s.index],
        3 => &mut p.permutation_oracle_evals[s.index],
        4 => &mut p.q_blind_eval,
        5 => &mut p.lookup_evals[s.index],
        6 => &mut p.lookup_z_evals[s.index],
        7 => &mut p.z_evals[s.index],
        _ => &mut p.quotient_chunks_evals[s.index],
    }
}
pub fn slots(p: &P) -> Vec<Slot> {
    (0..9).flat_map(|part| (0..part_len(p, part)).map(move |index| Slot { part, index })).collect()
}
/// which column and row shift each slot carries, found from its honest value
pub fn meaning(cx: &Ctx, p: &P, c: &Ch) -> Result<BTreeMap<Slot, (S, i64)>, String> {
    let mut out = BTreeMap::new();
    let mut q = p.clone();
    for s in slots(p) {
        let v = *cell(&mut q, s);
        let ok = |k: &S| match k {
            S::W(_) => s.part == 0,
            S::X(_) => s.part == 1,
            S::T(_) => s.part == 2,
            S::Sig(_) => s.part == 3,
            S::B => s.part == 4,
            S::Ap(_) | S::Sp(_) => s.part == 5,
            S::Lz(_) => s.part == 6,
            S::Z(_) => s.part == 7,
            S::Q(_) => s.part == 8,
            S::I(_) => false,
        };
        let mut m = vec![];
        for k in cx.polys.keys().filter(|k| ok(k)) {
            for r in 0..cx.n as i64 {
                if cx.at(*k, r, c.xi) == v {
                    m.push((*k, r));
                }
            }
        }
        match m.len() {
            1 => {
                out.insert(s, m[0]);
            }
            0 => return Err(format!("{}[{}] is no column's value at a rotated challenge", PARTS[s.part], s.index)),
            _ => {
                if let Some(k) = m.iter().find(|k| k.0 == S::Q(s.index) && k.1 == 0) {
                    out.insert(s, *k);
                }
            }
        }
    }
    Ok(out)
}
