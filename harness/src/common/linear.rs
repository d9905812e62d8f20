//! linear systems
use zok_harness::*;
pub fn solve(mut a: Vec<Vec<Fr>>, mut b: Vec<Fr>) -> Option<Vec<Fr>> {
    let n = a.len();
    for c in 0..n {
        let p = (c..n).find(|&r| !a[r][c].is_zero())?;
        a.swap(c, p);
        b.swap(c, p);
        let i = a[c][c].inverse().unwrap();
        for j in c..n {
            a[c][j] *= i;
        }
        b[c] *= i;
        for r in 0..n {
            if r != c && !a[r][c].is_zero() {
                let f = a[r][c];
                for j in c..n {
                    let t = a[c][j];
                    a[r][j] -= f * t;
                }
                let t = b[c];
                b[r] -= f * t;
            }
        }
    }
    Some(b)
}
