//! Circuits, described independently of the crate: what they mean row by
//! row, and how to hand them to the crate's prover and verifier.
use crate::*;
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use ark_poly_commit::{LabeledPolynomial, PolynomialCommitment};
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::data_structures::*;
use zero_over_k::indexer::Indexer;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::query::OracleType;
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::virtual_expression::VirtualExpression;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};

pub type D = GeneralEvaluationDomain<Fr>;
pub type Poly = DensePolynomial<Fr>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    W,
    I,
    X,
}
#[derive(Clone, Debug)]
pub enum E {
    C(Fr),
    Q(K, usize, i64),
    Neg(Box<E>),
    Add(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Sc(Box<E>, Fr),
}
pub fn w(i: usize, r: i64) -> E {
    E::Q(K::W, i, r)
}
pub fn ins(i: usize, r: i64) -> E {
    E::Q(K::I, i, r)
}
pub fn fx(i: usize, r: i64) -> E {
    E::Q(K::X, i, r)
}
impl std::ops::Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E::Add(Box::new(self), Box::new(o))
    }
}
impl std::ops::Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        E::Add(Box::new(self), Box::new(E::Neg(Box::new(o))))
    }
}
impl std::ops::Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        E::Mul(Box::new(self), Box::new(o))
    }
}
pub fn rot(r: i64) -> Rotation {
    Rotation::new(r.unsigned_abs() as usize, if r < 0 { Sign::Minus } else { Sign::Plus })
}
fn vq(k: K, i: usize, r: i64) -> VirtualQuery {
    VirtualQuery::new(
        i,
        rot(r),
        match k {
            K::W => OracleType::Witness,
            K::I => OracleType::Instance,
            K::X => OracleType::Fixed,
        },
    )
}
impl E {
    pub fn sc(self, c: Fr) -> E {
        E::Sc(Box::new(self), c)
    }
    pub fn virt(&self) -> VirtualExpression<Fr> {
        match self {
            E::C(c) => VirtualExpression::Constant(*c),
            E::Q(k, i, r) => VirtualExpression::Oracle(vq(*k, *i, *r)),
            E::Neg(a) => VirtualExpression::Negated(Box::new(a.virt())),
            E::Add(a, b) => VirtualExpression::Sum(Box::new(a.virt()), Box::new(b.virt())),
            E::Mul(a, b) => VirtualExpression::Product(Box::new(a.virt()), Box::new(b.virt())),
            E::Sc(a, c) => VirtualExpression::Scaled(Box::new(a.virt()), *c),
        }
    }
    pub fn qs(&self, out: &mut Vec<(K, usize, i64)>) {
        match self {
            E::C(_) => {}
            E::Q(k, i, r) => out.push((*k, *i, *r)),
            E::Neg(a) | E::Sc(a, _) => a.qs(out),
            E::Add(a, b) | E::Mul(a, b) => {
                a.qs(out);
                b.qs(out)
            }
        }
    }
    pub fn queries(&self) -> Vec<VirtualQuery> {
        let mut v = vec![];
        self.qs(&mut v);
        v.into_iter().map(|(k, i, r)| vq(k, i, r)).collect()
    }
    pub fn eval(&self, f: &dyn Fn(K, usize, i64) -> Fr) -> Fr {
        match self {
            E::C(c) => *c,
            E::Q(k, i, r) => f(*k, *i, *r),
            E::Neg(a) => -a.eval(f),
            E::Add(a, b) => a.eval(f) + b.eval(f),
            E::Mul(a, b) => a.eval(f) * b.eval(f),
            E::Sc(a, c) => a.eval(f) * c,
        }
    }
    /// degree of the formula in the degree `d` of the columns
    pub fn deg(&self, d: usize) -> usize {
        match self {
            E::C(_) => 0,
            E::Q(..) => d,
            E::Neg(a) | E::Sc(a, _) => a.deg(d),
            E::Add(a, b) => a.deg(d).max(b.deg(d)),
            E::Mul(a, b) => a.deg(d) + b.deg(d),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub ev: Vec<Fr>,
    pub copy: bool,
}
pub fn col(name: &str, ev: Vec<Fr>) -> Col {
    Col { name: name.into(), ev, copy: false }
}
#[derive(Clone, Debug)]
pub struct Look {
    pub exprs: Vec<E>,
    pub tabs: Vec<(usize, i64)>,
}
#[derive(Clone, Debug)]
pub struct Sys {
    pub what: String,
    pub n: usize,
    pub u: usize,
    pub wit: Vec<Col>,
    pub ins: Vec<Col>,
    pub fix: Vec<Col>,
    pub tab: Vec<Col>,
    pub q_blind: Vec<Fr>,
    pub deltas: Vec<Fr>,
    /// where a cell (copied column, row) points to
    pub sigma: Vec<Vec<(usize, usize)>>,
    pub gates: Vec<E>,
    pub looks: Vec<Look>,
    /// rows the vanishing polynomial leaves out
    pub free: Vec<usize>,
    /// what the vanishing polynomial is multiplied by
    pub zh_by: Fr,
    pub perm_u: usize,
}
pub fn at(ev: &[Fr], i: usize, r: i64) -> Fr {
    let n = ev.len() as i64;
    ev[((i as i64 + r).rem_euclid(n)) as usize]
}
impl Sys {
    pub fn domain(&self) -> D {
        D::new(self.n).unwrap()
    }
    pub fn zh(&self) -> Poly {
        let d = self.domain();
        let mut z = Poly::from_coefficients_slice(&[self.zh_by]);
        for i in 0..self.n {
            if !self.free.contains(&i) {
                z = &z * &Poly::from_coefficients_slice(&[-d.element(i), Fr::one()]);
            }
        }
        z
    }
    pub fn zh_deg(&self) -> usize {
        self.n - self.free.len()
    }
    pub fn cols(&self, k: K) -> &Vec<Col> {
        match k {
            K::W => &self.wit,
            K::I => &self.ins,
            K::X => &self.fix,
        }
    }
    pub fn val(&self, k: K, c: usize, row: usize, r: i64) -> Fr {
        at(&self.cols(k)[c].ev, row, r)
    }
    pub fn copied(&self) -> Vec<usize> {
        (0..self.wit.len()).filter(|&i| self.wit[i].copy).collect()
    }
    pub fn sigma_evals(&self) -> Vec<Vec<Fr>> {
        let d = self.domain();
        self.sigma
            .iter()
            .map(|s| {
                (0..self.n)
                    .map(|i| if i < s.len() { self.deltas[s[i].0] * d.element(s[i].1) } else { Fr::from(999u64) })
                    .collect()
            })
            .collect()
    }
    /// what the circuit demands that its columns do not satisfy
    pub fn broken(&self) -> Vec<String> {
        let mut out = vec![];
        for (g, e) in self.gates.iter().enumerate() {
            for i in 0..self.n {
                if self.free.contains(&i) {
                    continue;
                }
                if !e.eval(&|k, c, r| self.val(k, c, i, r)).is_zero() {
                    out.push(format!("gate {} on row {}", g, i));
                }
            }
        }
        let cp = self.copied();
        for (c, s) in self.sigma.iter().enumerate() {
            for (i, &(c2, i2)) in s.iter().enumerate() {
                if self.wit[cp[c]].ev[i] != self.wit[cp[c2]].ev[i2] {
                    out.push(format!("copy of column {} row {} to column {} row {}", c, i, c2, i2));
                }
            }
        }
        for (l, lk) in self.looks.iter().enumerate() {
            for i in 0..self.u {
                let v: Vec<Fr> = lk.exprs.iter().map(|e| e.eval(&|k, c, r| self.val(k, c, i, r))).collect();
                let found = (0..self.u).any(|j| lk.tabs.iter().zip(&v).all(|((t, r), x)| at(&self.tab[*t].ev, j, *r) == *x));
                if !found {
                    out.push(format!("lookup {} on row {}", l, i));
                }
            }
        }
        out
    }
    pub fn poly(&self, ev: &[Fr]) -> Poly {
        Poly::from_coefficients_slice(&self.domain().ifft(ev))
    }
}

pub struct Setup<PC: HomomorphicCommitment<Fr> + 'static> {
    pub sys: Sys,
    pub zh: Poly,
    pub ck: PC::CommitterKey,
    pub pvk: VerifierKey<'static, Fr, PC>,
    pub vvk: VerifierKey<'static, Fr, PC>,
    pub ppi: ProverPreprocessedInput<Fr, PC>,
    pub vpi: VerifierPreprocessedInput<Fr, PC>,
    pub wit: Vec<WitnessProverOracle<Fr>>,
    pub ins: Vec<InstanceProverOracle<Fr>>,
    pub wver: Vec<WitnessVerifierOracle<Fr, PC>>,
    pub iver: Vec<InstanceVerifierOracle<Fr>>,
    pub pvos: Vec<&'static dyn VirtualOracle<Fr>>,
    pub vvos: Vec<&'static dyn VirtualOracle<Fr>>,
    pub plooks: Vec<&'static dyn LookupVirtualOracle<Fr>>,
    pub vlooks: Vec<&'static dyn LookupVirtualOracle<Fr>>,
}
pub fn gvos(s: &Sys) -> Vec<GenericVO<Fr>> {
    s.gates.iter().map(|g| GenericVO::init((g.virt(), g.queries()))).collect()
}
pub fn lvos(s: &Sys) -> Vec<GenericLookupVO<Fr>> {
    s.looks
        .iter()
        .map(|l| {
            GenericLookupVO::init((
                l.exprs.iter().map(|e| e.virt()).collect(),
                l.exprs.iter().flat_map(|e| e.queries()).collect(),
                l.tabs.iter().map(|(t, r)| vq(K::X, *t, *r)).collect(),
            ))
        })
        .collect()
}
pub fn commit_fixed<PC: HomomorphicCommitment<Fr>>(ck: &PC::CommitterKey, p: &Poly) -> PC::Commitment {
    let l = LabeledPolynomial::new("x".into(), p.clone(), None, None);
    let (c, _) = PC::commit(ck, [&l], None).map_err(|_| "commit").unwrap();
    c[0].commitment().clone()
}
/// hand the circuit to the crate: both sides, indexed and configured
pub fn setup<PC: HomomorphicCommitment<Fr> + 'static>(
    s: &Sys,
    ck: &PC::CommitterKey,
    pcvk: &PC::VerifierKey,
) -> Result<Setup<PC>, String> {
    let zh = s.zh();
    let mut wit: Vec<_> =
        s.wit.iter().map(|c| WitnessProverOracle::new(c.name.clone(), s.poly(&c.ev), &c.ev, c.copy)).collect();
    let mut ins: Vec<_> = s.ins.iter().map(|c| InstanceProverOracle::new(c.name.clone(), s.poly(&c.ev), &c.ev)).collect();
    let mut fix: Vec<_> = s.fix.iter().map(|c| FixedProverOracle::new(c.name.clone(), s.poly(&c.ev), &c.ev)).collect();
    let mut tab: Vec<_> = s.tab.iter().map(|c| FixedProverOracle::new(c.name.clone(), s.poly(&c.ev), &c.ev)).collect();
    let sig = s.sigma_evals();
    let perm: Vec<_> =
        sig.iter().enumerate().map(|(i, e)| FixedProverOracle::new(format!("sigma_{}", i), s.poly(e), e)).collect();
    let qb = FixedProverOracle::new("q_blind", s.poly(&s.q_blind), &s.q_blind);

    let mut wver: Vec<WitnessVerifierOracle<Fr, PC>> =
        s.wit.iter().map(|c| WitnessVerifierOracle::new(c.name.clone(), c.copy)).collect();
    let mut iver: Vec<_> = s.ins.iter().map(|c| InstanceVerifierOracle::new(c.name.clone(), s.poly(&c.ev))).collect();
    let fv = |c: &Col| FixedVerifierOracle::<Fr, PC>::new(c.name.clone(), Some(commit_fixed::<PC>(ck, &s.poly(&c.ev))));
    let mut fixv: Vec<_> = s.fix.iter().map(fv).collect();
    let mut tabv: Vec<_> = s.tab.iter().map(fv).collect();
    let permv: Vec<_> = sig
        .iter()
        .enumerate()
        .map(|(i, e)| FixedVerifierOracle::<Fr, PC>::new(format!("sigma_{}", i), Some(commit_fixed::<PC>(ck, &s.poly(e)))))
        .collect();
    let qbv = FixedVerifierOracle::<Fr, PC>::new("q_blind", Some(commit_fixed::<PC>(ck, &s.poly(&s.q_blind))));

    let mut pg = gvos(s);
    let mut vg = gvos(s);
    let mut pl = lvos(s);
    let mut vl = lvos(s);
    for g in pg.iter_mut() {
        g.configure(&mut wit, &mut ins, &mut fix);
    }
    for g in vg.iter_mut() {
        g.configure(&mut wver, &mut iver, &mut fixv);
    }
    for l in pl.iter_mut() {
        l.configure(&mut wit, &mut ins, &mut fix, &mut tab).map_err(|e| format!("{:?}", e))?;
    }
    for l in vl.iter_mut() {
        l.configure(&mut wver, &mut iver, &mut fixv, &mut tabv).map_err(|e| format!("{:?}", e))?;
    }
    fn leak<T: VirtualOracle<Fr> + 'static>(v: Vec<T>) -> Vec<&'static dyn VirtualOracle<Fr>> {
        v.into_iter().map(|x| &*Box::leak(Box::new(x)) as &'static dyn VirtualOracle<Fr>).collect()
    }
    fn leakl<T: LookupVirtualOracle<Fr> + 'static>(v: Vec<T>) -> Vec<&'static dyn LookupVirtualOracle<Fr>> {
        v.into_iter().map(|x| &*Box::leak(Box::new(x)) as &'static dyn LookupVirtualOracle<Fr>).collect()
    }
    let (pvos, vvos, plooks, vlooks) = (leak(pg), leak(vg), leakl(pl), leakl(vl));
    let info = PermutationInfo { u: s.perm_u, deltas: s.deltas.clone() };
    let pvk = Indexer::<Fr, PC>::index(pcvk, &pvos, plooks.clone(), &wit, &ins, &fix, s.domain(), &zh, info.clone(), s.u)
        .map_err(|e| format!("{:?}", e))?;
    let vvk =
        Indexer::<Fr, PC>::index(pcvk, &vvos, vlooks.clone(), &wver, &iver, &fixv, s.domain(), &zh, info, s.u)
            .map_err(|e| format!("{:?}", e))?;
    let ppi = ProverPreprocessedInput::new(&fix, &perm, &tab, &qb, &pvk.index_info);
    let vpi = VerifierPreprocessedInput::new(fixv, tabv, permv, qbv);
    Ok(Setup { sys: s.clone(), zh, ck: ck.clone(), pvk, vvk, ppi, vpi, wit, ins, wver, iver, pvos, vvos, plooks, vlooks })
}
pub fn keys<PC: HomomorphicCommitment<Fr>>(d: usize, seed: u64) -> (PC::CommitterKey, PC::VerifierKey) {
    let mut rng = ChaChaRng::seed_from_u64(seed);
    let pp = PC::setup(d, None, &mut rng).map_err(|_| "setup").unwrap();
    PC::trim(&pp, d, 1, None).map_err(|_| "trim").unwrap()
}

// ------------------------------------------------------------- generator
#[derive(Clone, Debug)]
pub struct Shape {
    pub n: usize,
    /// rows past the usable ones (at least one more than u when z is needed)
    pub blind: usize,
    pub inputs: usize,
    pub copied: usize,
    pub gates: usize,
    pub degree: usize,
    pub looks: usize,
    pub width: usize,
    pub instances: usize,
    /// the vanishing polynomial leaves the blinded rows out
    pub free: bool,
    pub max_rot: i64,
}
pub fn pick<R: Rng>(rng: &mut R, n: usize) -> usize {
    (rng.next_u64() % n as u64) as usize
}
/// the value, or now and then one that makes a term vanish
pub fn at_special<R: Rng>(rng: &mut R, v: Fr) -> Fr {
    match pick(rng, 6) {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => -Fr::one(),
        _ => v,
    }
}
/// a satisfied circuit of the given shape
pub fn generate<R: Rng>(rng: &mut R, sh: &Shape) -> Sys {
    let n = sh.n;
    let u = n - sh.blind;
    let rnd = |rng: &mut R| Fr::rand(rng);
    // inputs, copied ones first in cycles
    let mut wit: Vec<Col> = (0..sh.inputs)
        .map(|i| Col { name: format!("w{}", i), ev: (0..n).map(|_| rnd(rng)).collect(), copy: i < sh.copied })
        .collect();
    // columns in an order unlike that of their labels
    if pick(rng, 2) == 0 {
        for c in wit.iter_mut() {
            c.name = format!("z{}", 9 - c.name[1..].parse::<usize>().unwrap_or(0) % 10);
        }
    }
    let m = sh.copied;
    let mut deltas = vec![];
    let mut dl = Fr::one();
    for _ in 0..m {
        deltas.push(dl);
        dl *= Fr::from(7u64);
    }
    let mut sigma: Vec<Vec<(usize, usize)>> = (0..m).map(|c| (0..u).map(|i| (c, i)).collect()).collect();
    if m > 0 {
        for _ in 0..(u * m / 2).max(1) {
            // join two cycles: swap images and equalise
            let (c1, i1, c2, i2) = (pick(rng, m), pick(rng, u), pick(rng, m), pick(rng, u));
            let t = sigma[c1][i1];
            sigma[c1][i1] = sigma[c2][i2];
            sigma[c2][i2] = t;
        }
        let mut seen = vec![vec![false; u]; m];
        for c in 0..m {
            for i in 0..u {
                let (mut a, mut b) = (c, i);
                let v = wit[c].ev[i];
                while !seen[a][b] {
                    seen[a][b] = true;
                    wit[a].ev[b] = v;
                    let t = sigma[a][b];
                    a = t.0;
                    b = t.1;
                }
            }
        }
    }
    let ins: Vec<Col> =
        (0..sh.instances).map(|i| col(&format!("pi{}", i), (0..n).map(|_| rnd(rng)).collect())).collect();
    let mut fix: Vec<Col> = vec![];
    let mut gates = vec![];
    // a fixed column besides the selectors, last, read at any rotation
    let konst = (sh.max_rot > 0 && !sh.free && sh.gates > 0).then(|| col("k", (0..n).map(|_| rnd(rng)).collect()));
    // one gate of the full degree, the others up to it, in any order
    let top = if sh.gates > 0 { pick(rng, sh.gates) } else { 0 };
    for g in 0..sh.gates {
        let degree = if g == top || pick(rng, 2) == 0 { sh.degree } else { 1 + pick(rng, sh.degree.max(1)) };
        // f = sum of products of inputs
        let mut f: Option<E> = None;
        for _ in 0..1 + pick(rng, 2) {
            let mut t: Option<E> = None;
            for _ in 0..degree {
                let r = if sh.max_rot == 0 { 0 } else { pick(rng, 2 * sh.max_rot as usize + 1) as i64 - sh.max_rot };
                let q = if sh.instances > 0 && pick(rng, 4) == 0 {
                    ins_q(pick(rng, sh.instances), r)
                } else if konst.is_some() && pick(rng, 5) == 0 {
                    fx(sh.gates, r)
                } else {
                    w(pick(rng, sh.inputs.max(1)), r)
                };
                let q = match pick(rng, 4) {
                    0 => q.sc(rnd(rng)),
                    1 => E::Neg(Box::new(q)),
                    2 => q + E::C(rnd(rng)),
                    _ => q,
                };
                t = Some(match t {
                    None => q,
                    Some(t) => t * q,
                });
            }
            let t = t.unwrap();
            f = Some(match f {
                None => t,
                Some(f) => f + t,
            });
        }
        let f = f.unwrap();
        let o = wit.len();
        let fixed = |fix: &Vec<Col>, c: usize| -> Col { fix.get(c).cloned().unwrap_or_else(|| konst.clone().unwrap()) };
        let mut out: Vec<Fr> = (0..n)
            .map(|i| f.eval(&|k, c, r| match k {
                K::W => at(&wit[c].ev, i, r),
                K::I => at(&ins[c].ev, i, r),
                K::X => at(&fixed(&fix, c).ev, i, r),
            }))
            .collect();
        let mut sel: Vec<Fr> = vec![];
        for i in 0..n {
            let on = i < u && pick(rng, 5) > 0;
            sel.push(if on { rnd(rng) } else { Fr::zero() });
            if (!on && !sh.free) || i >= u {
                out[i] = rnd(rng);
            }
        }
        if sel.iter().all(|x| x.is_zero()) {
            sel[0] = Fr::one();
            out[0] = f.eval(&|k, c, r| match k {
                K::W => at(&wit[c].ev, 0, r),
                K::I => at(&ins[c].ev, 0, r),
                K::X => at(&fixed(&fix, c).ev, 0, r),
            });
        }
        wit.push(Col { name: format!("o{}", g), ev: out, copy: false });
        let body = f - w(o, 0);
        gates.push(if sh.free {
            body
        } else {
            fix.push(col(&format!("q{}", g), sel));
            fx(fix.len() - 1, 0) * body
        });
    }
    fix.extend(konst);
    // lookups
    let mut tab = vec![];
    let mut looks = vec![];
    for l in 0..sh.looks {
        let t0 = tab.len();
        let small = 2 + pick(rng, u);
        for k in 0..sh.width {
            let mut ev: Vec<Fr> = (0..n).map(|_| rnd(rng)).collect();
            // repeated table rows
            for i in 0..u {
                ev[i] = ev[i % small.min(u)];
            }
            tab.push(col(&format!("t{}_{}", l, k), ev));
        }
        let trot: Vec<i64> = (0..sh.width)
            .map(|_| if sh.max_rot == 0 { 0 } else { pick(rng, 2 * sh.max_rot as usize + 1) as i64 - sh.max_rot })
            .collect();
        let choice: Vec<usize> = (0..u).map(|_| if pick(rng, 3) == 0 { 0 } else { pick(rng, u) }).collect();
        let mut exprs = vec![];
        for k in 0..sh.width {
            // a column solved for, at a rotation, plus something else
            let r = if sh.max_rot == 0 { 0 } else { pick(rng, 2 * sh.max_rot as usize + 1) as i64 - sh.max_rot };
            let c = rnd(rng);
            let mut ev: Vec<Fr> = (0..n).map(|_| rnd(rng)).collect();
            let extra: Option<E> = match pick(rng, 4) {
                0 if sh.inputs > 0 => Some(w(pick(rng, sh.inputs), pick(rng, 3) as i64 - 1)),
                1 if sh.instances > 0 => Some(ins_q(pick(rng, sh.instances), 1)),
                2 if !fix.is_empty() => Some(fx(pick(rng, fix.len()), 0)),
                _ => None,
            };
            for i in 0..u {
                let target = at(&tab[t0 + k].ev, choice[i], trot[k]);
                let ex = extra.as_ref().map_or(Fr::zero(), |e| {
                    e.eval(&|kk, cc, rr| match kk {
                        K::W => at(&wit[cc].ev, i, rr),
                        K::I => at(&ins[cc].ev, i, rr),
                        K::X => at(&fix[cc].ev, i, rr),
                    })
                });
                let j = ((i as i64 + r).rem_euclid(n as i64)) as usize;
                ev[j] = (target - ex) * c.inverse().unwrap();
            }
            let idx = wit.len();
            wit.push(col(&format!("l{}_{}", l, k), ev));
            let e = w(idx, r).sc(c);
            exprs.push(match extra {
                Some(x) => e + x,
                None => e,
            });
        }
        looks.push(Look { exprs, tabs: (0..sh.width).map(|k| (t0 + k, trot[k])).collect() });
    }
    let q_blind = (0..n).map(|i| if i > u { Fr::one() } else { Fr::zero() }).collect();
    let free = if sh.free { (u..n).collect() } else { vec![] };
    Sys {
        what: format!("{:?}", sh),
        n,
        u,
        wit,
        ins,
        fix,
        tab,
        q_blind,
        deltas,
        sigma,
        gates,
        looks,
        free,
        zh_by: Fr::one(),
        perm_u: u,
    }
}
fn ins_q(i: usize, r: i64) -> E {
    ins(i, r)
}
