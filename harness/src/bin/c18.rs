//! C18: the mock prover reports exactly the broken rows
use zero_over_k::data_structures::ProverKey;
use zero_over_k::verif_hook::MockProver;
use zero_over_k::PIL;
use zok_harness::ideal::*;
use zok_harness::sys::*;
use zok_harness::*;
#[path = "../common/tp.rs"]
mod tp;

fn mock(s: &Setup<Ideal>, seed: u64) -> Result<(), String> {
    let pk = ProverKey::from_ck_and_vk(&s.ck, &s.pvk);
    let mut wit = s.wit.clone();
    let mut ins = s.ins.clone();
    match guard(|| MockProver::<Fr, Ideal, Rec>::prove(&pk, &s.ppi, &mut wit, &mut ins, &s.pvos, s.sys.n, &mut RecRng::new(seed))) {
        Ok(Ok(_)) => Ok(()),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(m) => Err(m),
    }
}
fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}
fn main() {
    let mut r = Report::new();
    let mut rng = r.rng(18);
    let (ck, vk) = keys::<Ideal>(256, 1);
    for _ in 0..r.n(6, 60) {
        let mut shapes = tp::shapes();
        shapes.push(Shape { gates: 5, degree: 2, instances: 2, max_rot: 7, ..shapes[0].clone() });
        shapes.push(Shape { n: 4, blind: 2, gates: 4, degree: 2, instances: 1, max_rot: 3, ..shapes[0].clone() });
        for sh in shapes {
            let mut sh = sh.clone();
            sh.copied = 0;
            sh.looks = 0;
            let base = generate(&mut rng, &sh);
            for k in 0..8 {
                let mut s = base.clone();
                // with the free rows satisfied too when k is even
                if sh.free {
                    let f: Vec<usize> = s.free.clone();
                    if k % 2 == 0 {
                        for g in 0..s.gates.len() {
                            let o = s.wit.iter().position(|w| w.name == format!("o{}", g)).unwrap();
                            for i in &f {
                                let e = s.gates[g].eval(&|k, c, r| s.val(k, c, *i, r));
                                s.wit[o].ev[*i] += e;
                            }
                        }
                    }
                }
                let mut what = String::from("satisfied");
                if k >= 2 {
                    let c = pick(&mut rng, s.wit.len());
                    let row = match k {
                        2 => 0,
                        3 => s.n - 1,
                        4 => s.u - 1,
                        _ => pick(&mut rng, s.n),
                    };
                    s.wit[c].ev[row] += Fr::rand(&mut rng);
                    what = format!("witness column {} row {} changed", s.wit[c].name, row);
                }
                // every row of the domain counts
                let mut whole = s.clone();
                whole.free.clear();
                let br = whole.broken();
                if let Ok(st) = setup::<Ideal>(&s, &ck, &vk) {
                    let a = mock(&st, 1);
                    let b = mock(&st, rng.next_u64());
                    let input = || format!("circuit {}: {}: broken {:?}: {:?}", s.what, what, br, a);
                    r.check("the mock prover depends on randomness", a == b, input);
                    match &a {
                        Ok(()) => r.check("the mock prover passes a witness that breaks a gate", br.is_empty(), input),
                        Err(m) => {
                            r.check("the mock prover fails on a satisfied witness", !br.is_empty(), input);
                            if !br.is_empty() {
                                let nums = numbers(m);
                                let rows: Vec<usize> = br.iter().map(|b| *numbers(b).last().unwrap()).collect();
                                r.check("the mock prover does not name a broken row", rows.iter().any(|x| nums.contains(x)) && nums.len() <= 4, input);
                                let gates: Vec<(usize, usize)> = br.iter().map(|b| (numbers(b)[0], *numbers(b).last().unwrap())).collect();
                                if nums.len() == 2 {
                                    r.check(
                                        "the mock prover names a gate and a row that are not broken together",
                                        gates.contains(&(nums[0], nums[1])) || gates.contains(&(nums[1], nums[0])),
                                        input,
                                    );
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    take_log();
    r.note("gates of 19 circuit shapes with rotations; satisfied witnesses and witnesses with one changed cell");
    r.finish()
}
