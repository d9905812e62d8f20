//! A prover that cheats on a lookup, written from the protocol alone.
use super::tp::*;
use ark_ff::to_bytes;
use ark_poly::{EvaluationDomain, Polynomial, UVPolynomial};
use zero_over_k::multiproof::piop::Multiopen;
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::{ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::WitnessProverOracle;
use zero_over_k::rng::FiatShamirRng;
use zero_over_k::PIL;
use zok_harness::ideal::*;
use zok_harness::spec::*;
use zok_harness::sys::*;
use zok_harness::*;

type TP = TurboPlonk<Fr, Ideal, Rec>;
fn cm(p: &Poly) -> Cm {
    Cm { p: p.coeffs.clone(), b: vec![] }
}
fn orc(name: String, p: &Poly, rots: &[i64]) -> WitnessProverOracle<Fr> {
    let mut o = WitnessProverOracle::new(name, p.clone(), &[], false);
    for r in rots {
        o.register_rotation(rot(*r));
    }
    o
}
/// a proof of one lookup by a prover that arranges the lookup columns as it likes
fn cheat(st: &Setup<Ideal>, rng: &mut ChaChaRng) -> TPProof<Fr, Ideal> {
    let s = &st.sys;
    let n = s.n;
    let dom = s.domain();
    let wp: Vec<Poly> = s.wit.iter().map(|c| s.poly(&c.ev)).collect();
    let mut fs = Rec::initialize(&to_bytes![&TP::PROTOCOL_NAME].unwrap());
    let wc: Vec<Cm> = wp.iter().map(cm).collect();
    fs.absorb(&to_bytes![wc].unwrap());
    let _theta = Fr::rand(&mut fs);
    let a = s.wit[0].ev.clone();
    let t = s.tab[0].ev.clone();
    let same: Vec<Fr> = (0..n).map(|_| Fr::rand(rng)).collect();
    let ap = s.poly(&same);
    let sp = ap.clone();
    let lc = vec![cm(&ap), cm(&sp)];
    fs.absorb(&to_bytes![lc].unwrap());
    let beta = Fr::rand(&mut fs);
    let gamma = Fr::rand(&mut fs);
    let zc: Vec<Cm> = vec![];
    fs.absorb(&to_bytes![zc].unwrap());
    let mut z: Vec<Fr> = (0..n).map(|_| Fr::rand(rng)).collect();
    z[0] = Fr::one();
    for i in 1..=s.u {
        z[i + 1] = z[i] * (a[i] + beta) * (t[i] + gamma) * ((same[i] + beta) * (same[i] + gamma)).inverse().unwrap();
    }
    let zp = s.poly(&z);
    let lzc = vec![cm(&zp)];
    fs.absorb(&to_bytes![lzc].unwrap());
    let alpha = Fr::rand(&mut fs);
    let ext = st.vvk.index_info.extended_coset_domain;
    let unit = |i: usize| {
        let mut v = vec![Fr::zero(); n];
        v[i] = Fr::one();
        s.poly(&v)
    };
    let (l0, lu, qb) = (unit(0), unit(s.perm_u), s.poly(&s.q_blind));
    let fx: Vec<Poly> = s.fix.iter().map(|c| s.poly(&c.ev)).collect();
    let tb = s.poly(&s.tab[0].ev);
    let w = dom.element(1);
    let num = |x: Fr| {
        let wk = |r: i64| dom.element(r.rem_euclid(n as i64) as usize);
        let mut terms: Vec<Fr> = s
            .gates
            .iter()
            .map(|g| {
                g.eval(&|k, c, r| match k {
                    K::W => wp[c].evaluate(&(x * wk(r))),
                    K::X => fx[c].evaluate(&(x * wk(r))),
                    K::I => Fr::zero(),
                })
            })
            .collect();
        terms.push(Fr::zero());
        terms.extend(
            LookAt {
                l0: l0.evaluate(&x),
                lu: lu.evaluate(&x),
                qb: qb.evaluate(&x),
                a: wp[0].evaluate(&x),
                s: tb.evaluate(&x),
                ap: ap.evaluate(&x),
                apb: ap.evaluate(&(x * wk(-1))),
                sp: sp.evaluate(&x),
                z: zp.evaluate(&x),
                zn: zp.evaluate(&(x * w)),
                beta,
                gamma,
            }
            .terms(),
        );
        weigh(&terms, &powers(alpha, terms.len()))
    };
    let g = Fr::multiplicative_generator();
    let q: Vec<Fr> = (0..ext.size())
        .map(|i| {
            let x = g * ext.element(i);
            num(x) * st.zh.evaluate(&x).inverse().unwrap()
        })
        .collect();
    let q = ext.coset_ifft(&q);
    let tp: Vec<Poly> = q.chunks(n).map(|c| Poly::from_coefficients_slice(c)).collect();
    let tc: Vec<Cm> = tp.iter().map(cm).collect();
    fs.absorb(&to_bytes![tc].unwrap());
    let xi = Fr::rand(&mut fs);
    let mut wo: Vec<WitnessProverOracle<Fr>> = wp.iter().zip(&s.wit).map(|(p, c)| orc(c.name.clone(), p, &[0])).collect();
    wo.push(orc("a'".into(), &ap, &[0, -1]));
    wo.push(orc("s'".into(), &sp, &[0]));
    wo.push(orc("z".into(), &zp, &[0, 1]));
    for (i, t) in tp.iter().enumerate() {
        wo.push(orc(format!("t{}", i), t, &[0]));
    }
    let witness_evals: Vec<Fr> = wp.iter().map(|p| p.evaluate(&xi)).collect();
    let fixed_oracle_evals: Vec<Fr> = fx.iter().map(|p| p.evaluate(&xi)).collect();
    let table_oracle_evals = vec![tb.evaluate(&xi)];
    let permutation_oracle_evals: Vec<Fr> = vec![];
    let q_blind_eval = qb.evaluate(&xi);
    let lookup_evals = vec![ap.evaluate(&xi), ap.evaluate(&(xi * dom.element(n - 1))), sp.evaluate(&xi)];
    let lookup_z_evals = vec![zp.evaluate(&xi), zp.evaluate(&(xi * w))];
    let z_evals: Vec<Fr> = vec![];
    let quotient_chunks_evals: Vec<Fr> = tp.iter().map(|t| t.evaluate(&xi)).collect();
    fs.absorb(
        &to_bytes![
            witness_evals,
            fixed_oracle_evals,
            table_oracle_evals,
            permutation_oracle_evals,
            q_blind_eval,
            lookup_evals,
            lookup_z_evals,
            z_evals,
            quotient_chunks_evals
        ]
        .unwrap(),
    );
    let mut all: Vec<&dyn Instantiable<Fr>> = wo.iter().map(|o| o as &dyn Instantiable<Fr>).collect();
    all.extend(st.ppi.fixed_oracles.iter().map(|o| o as &dyn Instantiable<Fr>));
    all.extend(st.ppi.table_oracles.iter().map(|o| o as &dyn Instantiable<Fr>));
    all.push(&st.ppi.q_blind);
    let rands = vec![Rd::default(); all.len()];
    let multiopen_proof = Multiopen::<Fr, Ideal, Rec>::prove(&st.ck, &all, &rands, xi, n, &mut fs, rng).map_err(|_| "open").unwrap();
    TPProof {
        witness_commitments: wc,
        witness_evals,
        fixed_oracle_evals,
        table_oracle_evals,
        permutation_oracle_evals,
        q_blind_eval,
        lookup_commitments: lc,
        lookup_z_commitments: lzc,
        lookup_evals,
        lookup_z_evals,
        z_commitments: zc,
        z_evals,
        quotient_chunk_commitments: tc,
        quotient_chunks_evals,
        multiopen_proof,
    }
}
pub fn forge(r: &mut Report) {
    let mut rng = r.rng(1909);
    let (ck, vk) = keys::<Ideal>(64, 1);
    for dummy in [true, false] {
        let (n, u) = (8usize, 4usize);
        let col1 = |rng: &mut ChaChaRng| -> Vec<Fr> { (0..n).map(|_| Fr::rand(rng)).collect() };
        let b: Vec<Fr> = col1(&mut rng);
        let s = Sys {
            what: "one lookup of a column in a table, one gate".into(),
            n,
            u,
            wit: vec![col("a", col1(&mut rng)), col("b", b.clone()), col("c", b.iter().map(|x| *x * x).collect())],
            ins: vec![],
            fix: vec![col("q", vec![Fr::one(); n])],
            tab: vec![col("t", col1(&mut rng))],
            q_blind: (0..n).map(|i| if i > u { Fr::one() } else { Fr::zero() }).collect(),
            deltas: vec![],
            sigma: vec![],
            gates: vec![fx(0, 0) * (w(1, 0) * w(1, 0) - w(2, 0))],
            looks: vec![Look { exprs: vec![w(0, 0)], tabs: vec![(0, 0)] }],
            free: vec![],
            perm_u: if dummy { 0 } else { u },
            zh_by: Fr::one(),
        };
        let br = s.broken();
        let res = guard(|| {
            let st = setup::<Ideal>(&s, &ck, &vk)?;
            let p = cheat(&st, &mut rng);
            verify::<Ideal, Rec>(&st, p)
        })
        .unwrap_or_else(|e| Err(e));
        if dummy {
            r.check_key("lookup-without-permutation-info", "a false lookup is accepted when the lookup is indexed with PermutationInfo::dummy() (u = 0): row 0 is masked and the end of the running product is never checked", res.is_err(), || {
                format!("{}; none of the looked up values is in the table ({})", s.what, br.join(", "))
            });
        } else {
            r.check("a false lookup is accepted", res.is_err(), || format!("{}: {}", s.what, br.join(", ")));
        }
        take_log();
    }
}
