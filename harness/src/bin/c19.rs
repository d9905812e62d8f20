//! C19: accepted means satisfied, satisfied means accepted
#[path = "../common/tp.rs"]
mod tp;
#[path = "../common/forge.rs"]
mod forge;
use tp::*;
use zok_harness::ideal::*;
use zok_harness::sys::*;
use zok_harness::*;

fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(19);
    let (ck, vk) = keys::<Ideal>(256, 1);
    let rounds = r.n(8, 80);
    for round in 0..rounds {
        for sh in shapes() {
            let mut sh = sh.clone();
            if round % 4 == 3 {
                sh.degree = 1 + pick(&mut rng, 5);
                sh.gates = 1 + pick(&mut rng, 4);
                sh.blind = (2 + pick(&mut rng, sh.n / 2)).max(if sh.copied + sh.looks > 0 { 2 } else { 1 });
            }
            let sys = generate(&mut rng, &sh);
            debug_assert!(sys.broken().is_empty());
            let seed = rng.next_u64();
            let linear = !sys.gates.iter().any(|g| g.deg(sys.n - 1) >= sys.zh_deg());
            let st = match setup::<Ideal>(&sys, &ck, &vk) {
                Ok(s) => s,
                Err(e) => {
                    r.check("indexing a circuit within the limits fails", linear || e.contains("QuotientTooSmall"), || format!("{} {}", sys.what, e));
                    continue;
                }
            };
            let pr = prove::<Ideal, Rec, _>(&st, &mut RecRng::new(seed));
            let p = match pr {
                Ok(p) => p,
                Err(e) => {
                    r.check("proving a satisfied circuit fails", false, || format!("{} seed {}: {}", sys.what, seed, e));
                    continue;
                }
            };
            let res = verify::<Ideal, Rec>(&st, p.clone());
            r.check("the proof of a satisfied circuit is refused", res.is_ok(), || format!("{} seed {}: {:?}", sys.what, seed, res));
            // the same proof for another statement
            for k in 0..6 {
                let mut s2 = sys.clone();
                let row = pick(&mut rng, sys.n);
                let d = Fr::rand(&mut rng);
                let what = match k {
                    0 if !s2.ins.is_empty() => {
                        let c = pick(&mut rng, s2.ins.len());
                        s2.ins[c].ev[row] += d;
                        format!("public input {} row {} changed", c, row)
                    }
                    1 if !s2.fix.is_empty() => {
                        let c = pick(&mut rng, s2.fix.len());
                        s2.fix[c].ev[row] += d;
                        format!("fixed column {} row {} changed", c, row)
                    }
                    2 if !s2.tab.is_empty() => {
                        let c = pick(&mut rng, s2.tab.len());
                        s2.tab[c].ev[row] += d;
                        format!("table column {} row {} changed", c, row)
                    }
                    3 if s2.sigma.len() > 1 => {
                        let (c1, c2, i1, i2) = (0, 1, pick(&mut rng, sys.u), pick(&mut rng, sys.u));
                        let t = s2.sigma[c1][i1];
                        s2.sigma[c1][i1] = s2.sigma[c2][i2];
                        s2.sigma[c2][i2] = t;
                        format!("copies of cells (0,{}) and (1,{}) exchanged", i1, i2)
                    }
                    4 => {
                        let c = pick(&mut rng, s2.gates.len());
                        s2.gates[c] = s2.gates[c].clone() + E::C(d);
                        format!("a constant added to gate {}", c)
                    }
                    5 if !s2.looks.is_empty() => {
                        let c = pick(&mut rng, s2.looks.len());
                        s2.looks[c].exprs[0] = s2.looks[c].exprs[0].clone() + E::C(d);
                        format!("a constant added to lookup {}", c)
                    }
                    _ => continue,
                };
                if let Ok(st2) = setup::<Ideal>(&s2, &ck, &vk) {
                    let res = verify::<Ideal, Rec>(&st2, p.clone());
                    r.check("a proof is accepted for another statement than it was made for", res.is_err(), || {
                        format!("{} seed {}: {}", sys.what, seed, what)
                    });
                }
            }
            // witnesses that satisfy all but a little
            let tries = 6 + 2 * sys.gates.len();
            for k in 0..tries {
                let mut s2 = sys.clone();
                let d = Fr::rand(&mut rng);
                let what = if k < tries / 2 || sys.gates.len() < 2 || sys.free.len() > 0 {
                    let c = pick(&mut rng, s2.wit.len());
                    let row = pick(&mut rng, sys.n);
                    if k % 2 == 0 && c > 0 {
                        // a value that is right elsewhere
                        let o = pick(&mut rng, sys.n);
                        s2.wit[c].ev[row] = sys.wit[c].ev[o];
                    } else {
                        s2.wit[c].ev[row] += d;
                    }
                    format!("witness column {} row {} changed", s2.wit[c].name, row)
                } else {
                    // two gates off by amounts that cancel
                    let rows: Vec<usize> = (0..sys.u).filter(|i| sys.fix.iter().all(|f| !f.ev[*i].is_zero())).collect();
                    if rows.is_empty() {
                        continue;
                    }
                    let row = rows[pick(&mut rng, rows.len())];
                    let g1 = pick(&mut rng, sys.gates.len());
                    let g2 = (g1 + 1 + pick(&mut rng, sys.gates.len() - 1)) % sys.gates.len();
                    for (g, s) in [(g1, d), (g2, -d)] {
                        let o = s2.wit.iter().position(|w| w.name == format!("o{}", g)).unwrap();
                        s2.wit[o].ev[row] += s * sys.fix[g].ev[row].inverse().unwrap();
                    }
                    format!("gates {} and {} off by opposite amounts on row {}", g1, g2, row)
                };
                let br = s2.broken();
                if let Ok(st2) = setup::<Ideal>(&s2, &ck, &vk) {
                    let pr = prove::<Ideal, Rec, _>(&st2, &mut RecRng::new(seed));
                    match pr {
                        Ok(p) => {
                            let res = verify::<Ideal, Rec>(&st2, p);
                            if br.is_empty() {
                                r.check("the proof of a satisfied circuit is refused", res.is_ok(), || format!("{} seed {}: {} (allowed): {:?}", sys.what, seed, what, res));
                            } else {
                                r.check("a proof made from a witness that violates the circuit is accepted", res.is_err(), || {
                                    format!("{} seed {}: {}: {}", sys.what, seed, what, br.join(", "))
                                });
                            }
                        }
                        Err(e) => {
                            if br.is_empty() {
                                r.check("proving a satisfied circuit fails", false, || format!("{} seed {}: {} (allowed): {}", sys.what, seed, what, e));
                            }
                        }
                    }
                }
            }
            take_log();
        }
    }
    // with the real commitment scheme and transcript
    let (ck, vk) = keys::<KZG>(128, 1);
    let sel: Vec<usize> = if r.thorough { (0..shapes().len()).collect() } else { vec![1, 4, 9, 11, 13] };
    for i in sel {
        let sys = generate(&mut rng, &shapes()[i]);
        if let Ok(st) = setup::<KZG>(&sys, &ck, &vk) {
            let pr = prove::<KZG, FS, _>(&st, &mut rng.clone());
            let res = pr.and_then(|p| verify::<KZG, FS>(&st, p));
            r.check("the proof of a satisfied circuit is refused", res.is_ok(), || format!("KZG {}: {:?}", sys.what, res));
        }
    }
    forge::forge(&mut r);
    r.note("17 circuit shapes with random gates, copies, lookups and rotations; other statements; witnesses off by one cell or by cancelling amounts");
    r.finish()
}
