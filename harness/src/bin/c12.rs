//! C12: the transcript binds every challenge to everything before it
#[path = "../common/tp.rs"]
mod tp;
use ark_ff::to_bytes;
use tp::*;
use zero_over_k::rng::FiatShamirRng;
use zok_harness::ideal::*;
use zok_harness::sys::*;
use zok_harness::*;

type P = TPProof<Fr, Ideal>;
const NAMES: [&str; 9] = ["theta", "beta", "gamma", "alpha", "xi", "x1", "x2", "x3", "x4"];

fn run(st: &Setup<Ideal>, p: &P) -> (Vec<Ev>, Result<(), String>) {
    take_log();
    let r = verify::<Ideal, Rec>(st, dup(p));
    (take_log(), r)
}
/// what was absorbed before the k-th challenge was drawn
fn before(log: &[Ev], k: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut seen = 0;
    for e in log {
        match e {
            Ev::Init(b) | Ev::Absorb(b) => out.extend_from_slice(b),
            Ev::Draw(_) => {
                seen += challenges(std::slice::from_ref(e)).len();
                if seen > k {
                    return out;
                }
            }
        }
    }
    out
}
fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

fn protocol(r: &mut Report) {
    let reps = r.n(2, 12);
    let mut rng = r.rng(12);
    let (ck, vk) = keys::<Ideal>(512, 7);
    for (si, sh) in shapes().iter().enumerate() {
        for rep in 0..reps {
            let inp = || format!("circuit shape {} ({:?}), instance {}", si, sh, rep);
            let sys = generate(&mut rng, sh);
            let mut st = match setup::<Ideal>(&sys, &ck, &vk) {
                Ok(s) => s,
                Err(e) => {
                    r.check("keys can be made", false, || format!("{}: {}", inp(), e));
                    continue;
                }
            };
            take_log();
            let p = match prove::<Ideal, Rec, _>(&st, &mut rng) {
                Ok(p) => p,
                Err(e) => {
                    r.check("an honest proof is produced", false, || format!("{}: {}", inp(), e));
                    continue;
                }
            };
            let pl = take_log();
            let (vl, res) = run(&st, &p);
            r.check("the honest proof is accepted", res.is_ok(), || format!("{}: {:?}", inp(), res));
            r.check("prover and verifier have the same transcript", pl == vl, inp);
            let honest = challenges(&vl);
            r.check("nine challenges are drawn", honest.len() == 9, || format!("{}: {}", inp(), honest.len()));
            if honest.len() != 9 {
                continue;
            }
            // one message changed: every later challenge changes
            let mut cases: Vec<(String, usize, P)> = vec![];
            macro_rules! com {
                ($f:ident, $k:expr) => {
                    for i in 0..p.$f.len() {
                        let mut q = dup(&p);
                        let mut c = q.$f[i].clone();
                        if c.p.is_empty() {
                            c.p.push(Fr::one());
                        } else {
                            c.p[0] += Fr::one();
                        }
                        q.$f[i] = c;
                        cases.push((format!("{}[{}]", stringify!($f), i), $k, q));
                    }
                };
            }
            com!(witness_commitments, 0);
            com!(lookup_commitments, 1);
            com!(z_commitments, 3);
            com!(lookup_z_commitments, 3);
            com!(quotient_chunk_commitments, 4);
            let mut q = dup(&p);
            q.multiopen_proof.f_commit.b.push(Fr::one());
            cases.push(("multiopen f_commit".into(), 7, q));
            for i in 0..p.multiopen_proof.q_evals.len() {
                let mut q = dup(&p);
                q.multiopen_proof.q_evals[i] += Fr::one();
                cases.push((format!("multiopen q_evals[{}]", i), 8, q));
            }
            for (what, from, q) in &cases {
                let (l, _) = run(&st, q);
                let c = challenges(&l);
                r.check(&format!("{} is drawn after {} is received", NAMES[*from], what), c.len() > *from, inp);
                for k in *from..c.len().min(9) {
                    r.check(&format!("{} depends on {}", NAMES[k], what), c[k] != honest[k], inp);
                }
            }
            for i in 0..st.sys.ins.len() {
                for row in 0..st.sys.n {
                    st.sys.ins[i].ev[row] += Fr::one();
                    let (l, _) = run(&st, &p);
                    st.sys.ins[i].ev[row] -= Fr::one();
                    for (k, c) in challenges(&l).iter().enumerate().take(9) {
                        r.check(&format!("{} depends on row {} of instance {}", NAMES[k], row, i), *c != honest[k], inp);
                    }
                }
            }
            // claimed evaluations are fixed before the opening is challenged
            let b = before(&vl, 5);
            let mut evals: Vec<(&str, &Vec<Fr>)> = vec![
                ("witness_evals", &p.witness_evals),
                ("fixed_oracle_evals", &p.fixed_oracle_evals),
                ("table_oracle_evals", &p.table_oracle_evals),
                ("permutation_oracle_evals", &p.permutation_oracle_evals),
                ("lookup_evals", &p.lookup_evals),
                ("lookup_z_evals", &p.lookup_z_evals),
                ("z_evals", &p.z_evals),
                ("quotient_chunks_evals", &p.quotient_chunks_evals),
            ];
            let qb = vec![p.q_blind_eval];
            evals.push(("q_blind_eval", &qb));
            for (name, v) in evals {
                for (i, x) in v.iter().enumerate() {
                    let e = to_bytes![x].unwrap();
                    r.check(&format!("{}[{}] is absorbed before x1", name, i), contains(&b, &e), inp);
                }
            }
        }
    }
    r.note("17 circuit shapes; every commitment, instance row, claimed evaluation and q evaluation of each proof changed in turn");
}

fn draws(fs: &mut FS) -> Vec<u8> {
    let mut b = vec![0u8; 48];
    fs.fill_bytes(&mut b);
    b
}
fn generator(r: &mut Report) {
    let mut rng = r.rng(121);
    let n = r.n(60, 600);
    for t in 0..n {
        let k = 1 + pick(&mut rng, 5);
        let mut hist: Vec<Vec<u8>> = vec![(0..pick(&mut rng, 32)).map(|_| rng.next_u32() as u8).collect()];
        for _ in 0..k {
            let len = [0, 1, 31, 32, 33, 64, 96, 300][pick(&mut rng, 8)];
            hist.push((0..len).map(|_| rng.next_u32() as u8).collect());
        }
        let go = |h: &Vec<Vec<u8>>, noisy: bool| -> Vec<Vec<u8>> {
            let mut fs = FS::initialize(&h[0]);
            let mut out = vec![draws(&mut fs)];
            for x in &h[1..] {
                if noisy {
                    fs.next_u32();
                }
                fs.absorb(x);
                out.push(draws(&mut fs));
            }
            out
        };
        let base = go(&hist, false);
        let inp = || format!("history {} of lengths {:?}", t, hist.iter().map(|h| h.len()).collect::<Vec<_>>());
        r.check("the generator is a function of what was absorbed", base == go(&hist, false), inp);
        for i in 0..base.len() {
            for j in 0..i {
                r.check("outputs after different absorptions differ", base[i] != base[j], inp);
            }
        }
        // a change anywhere changes everything after it and nothing before
        for i in 0..hist.len() {
            let spots: Vec<usize> = (0..=hist[i].len()).collect();
            for s in spots {
                let mut h = hist.clone();
                if s == h[i].len() {
                    h[i].push(rng.next_u32() as u8);
                } else {
                    h[i][s] ^= 1 << pick(&mut rng, 8);
                }
                let o = go(&h, false);
                r.check("what was drawn before an absorption does not depend on it", o[..i] == base[..i], inp);
                for j in i..o.len() {
                    r.check(&format!("drawing after absorption {} depends on byte {} of absorption {}", j, s, i), o[j] != base[j], inp);
                }
            }
            if i > 0 {
                let mut h = hist.clone();
                h.remove(i);
                let o = go(&h, false);
                r.check("an omitted absorption changes what is drawn at the end", o.last() != base.last(), inp);
                if hist[i - 1] != hist[i] {
                    let mut h = hist.clone();
                    h.swap(i - 1, i);
                    let o = go(&h, false);
                    r.check("exchanged absorptions change what is drawn at the end", o.last() != base.last(), inp);
                }
                if !hist[i].is_empty() && i > 1 {
                    // the same bytes, cut differently
                    let mut h = hist.clone();
                    let b = h[i].remove(0);
                    h[i - 1].push(b);
                    let o = go(&h, false);
                    r.check("bytes moved between absorptions change what is drawn", o.last() != base.last(), inp);
                }
            }
        }
        // the ways of drawing agree with each other and advance
        let mk = || {
            let mut fs = FS::initialize(&hist[0]);
            fs.absorb(&hist[1]);
            fs
        };
        let (mut a, mut b, mut c) = (mk(), mk(), mk());
        let mut x = [0u8; 64];
        let mut y = [0u8; 64];
        a.fill_bytes(&mut x);
        r.check("try_fill_bytes succeeds", b.try_fill_bytes(&mut y).is_ok(), inp);
        r.check("fill_bytes and try_fill_bytes agree", x == y, inp);
        let w: Vec<u8> = (0..8).flat_map(|_| c.next_u64().to_le_bytes()).collect();
        r.check("next_u64 draws fresh values", (0..8).all(|i| (0..i).all(|j| w[8 * i..8 * i + 8] != w[8 * j..8 * j + 8])), inp);
        let mut d = mk();
        let v: Vec<u32> = (0..6).map(|_| d.next_u32()).collect();
        r.check("next_u32 draws fresh values", (0..6).all(|i| (0..i).all(|j| v[i] != v[j])), inp);
        r.check("what is drawn is not constant", x[..32] != x[32..], inp);
    }
    r.note("histories of at most 6 absorptions of at most 300 bytes, every byte changed");
}

fn main() {
    let mut r = Report::new();
    protocol(&mut r);
    generator(&mut r);
    r.finish()
}
