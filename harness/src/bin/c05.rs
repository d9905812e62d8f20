//! C05: the arrangement of lookup columns.
use std::collections::BTreeMap;
use zero_over_k::lookup::permute::permute_for_lookup;
use zok_harness::*;

fn counts(v: &[Fr]) -> BTreeMap<Fr, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(*x).or_insert(0) += 1;
    }
    m
}
fn one(r: &mut Report, a: &[Fr], s: &[Fr]) {
    let inp = || {
        if a.len() > 100 {
            return format!("{} inputs with {} values, table of {} rows with {} values, the first input {}", a.len(), counts(a).len(), s.len(), counts(s).len(), a[0]);
        }
        format!(
            "inputs {:?} table {:?}",
            a.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            s.iter().map(|x| x.to_string()).collect::<Vec<_>>()
        )
    };
    let set: std::collections::BTreeSet<&Fr> = s.iter().collect();
    let inside = a.iter().all(|x| set.contains(x));
    match guard(|| permute_for_lookup(a, s)) {
        Err(m) => r.check(
            &format!("a covered input is arranged ({})", m),
            !inside || a.len() != s.len(),
            inp,
        ),
        Ok((ap, sp)) => {
            r.check("an input missing from the table is never arranged", inside, inp);
            r.check("the inputs are permuted", counts(&ap) == counts(a), inp);
            r.check("the table is permuted", counts(&sp) == counts(s), inp);
            let side = ap.len() == sp.len()
                && (0..ap.len()).all(|i| {
                    ap[i] == sp[i] || (i > 0 && ap[i] == ap[i - 1])
                });
            r.check("every row meets its table value or repeats the row above", side, inp);
        }
    }
}
fn main() {
    let mut r = Report::new();
    let big: Vec<Fr> = vec![
        Fr::from(0u64),
        -Fr::from(1u64),
        Fr::from(1u64),
        Fr::from(2u64).inverse().unwrap(),
        Fr::from(u64::MAX) * Fr::from(u64::MAX),
    ];
    let nmax = r.n(3, 4);
    for n in 0..=nmax {
        let k = 4usize;
        let total = k.pow(n as u32);
        for x in 0..total {
            for y in 0..total {
                let dig = |mut v: usize| {
                    (0..n)
                        .map(|_| {
                            let d = v % k;
                            v /= k;
                            big[d]
                        })
                        .collect::<Vec<Fr>>()
                };
                one(&mut r, &dig(x), &dig(y));
            }
        }
    }
    let mut rng = r.rng(5);
    for t in 0..r.n(600, 6000) {
        let n = 1 + rng.gen_range(0..40);
        let pool: Vec<Fr> = (0..1 + rng.gen_range(0..n))
            .map(|i| if t % 3 == 0 { Fr::rand(&mut rng) } else { big[i % 5] + Fr::from((i / 5) as u64) })
            .collect();
        let s: Vec<Fr> = (0..n).map(|_| pool[rng.gen_range(0..pool.len())]).collect();
        let mut a: Vec<Fr> = (0..n).map(|_| s[rng.gen_range(0..n)]).collect();
        if t % 10 == 9 {
            let i = rng.gen_range(0..n);
            a[i] = Fr::rand(&mut rng);
        }
        one(&mut r, &a, &s);
    }
    // tall columns, values repeated often
    for &(n, pool) in &[(300usize, 1usize), (300, 2), (700, 3), (5000, 4), (70_000, 1), (70_000, 3), (1 << 12, 1 << 11)] {
        for k in 0..3u64 {
            let val = |i: usize| if k == 0 { Fr::from(i as u64) } else { big[i % 5] + Fr::from((i / 5) as u64) };
            let s: Vec<Fr> = (0..n).map(|i| val(if i < pool { i } else if k == 2 { 0 } else { rng.gen_range(0..pool) })).collect();
            let a: Vec<Fr> = (0..n).map(|_| val(if k == 2 { pool - 1 } else { rng.gen_range(0..pool) })).collect();
            one(&mut r, &a, &s);
        }
    }
    // different lengths are refused
    for (x, y) in [(1usize, 2usize), (2, 1), (0, 1), (3, 2)] {
        let a = vec![Fr::one(); x];
        let s = vec![Fr::one(); y];
        let refused = match guard(|| permute_for_lookup(&a, &s)) {
            Err(_) => true,
            Ok((ap, sp)) => counts(&ap) == counts(&a) && counts(&sp) == counts(&s) && x == y,
        };
        r.check("columns of different lengths are not arranged", refused, || format!("{} inputs, {} table rows", x, y));
    }
    r.note("all inputs and tables of up to 3 (thorough: 4) rows over 4 values; random ones of up to 40 rows; columns of up to 70000 rows with few values");
    r.finish()
}
