//! The constraints of the permutation and lookup arguments, written from the
//! protocol's description.
use crate::*;

/// what a permutation constraint is made of, at one point
#[derive(Clone, Debug, Default)]
pub struct PermAt {
    pub l0: Fr,
    pub lu: Fr,
    pub qb: Fr,
    pub w: Vec<Fr>,
    pub s: Vec<Fr>,
    pub d: Vec<Fr>,
    pub z: Vec<Fr>,
    pub zn: Vec<Fr>,
    pub zu: Vec<Fr>,
    pub beta: Fr,
    pub gamma: Fr,
    pub x: Fr,
    pub cols: usize,
}
impl PermAt {
    /// the separate constraints, in the order of their weights
    pub fn terms(&self) -> Vec<Fr> {
        let one = Fr::one();
        let k = self.z.len();
        let mut out = vec![self.l0 * (one - self.z[0])];
        for c in 0..k {
            let (mut l, mut r) = (self.zn[c], self.z[c]);
            for j in (c * self.cols)..((c + 1) * self.cols).min(self.w.len()) {
                l *= self.w[j] + self.beta * self.s[j] + self.gamma;
                r *= self.w[j] + self.beta * self.d[j] * self.x + self.gamma;
            }
            out.push((one - (self.lu + self.qb)) * (l - r));
        }
        for c in 0..k - 1 {
            out.push(self.l0 * (self.z[c + 1] - self.zu[c]));
        }
        out.push(self.lu * (self.z[k - 1] * self.z[k - 1] - self.z[k - 1]));
        out
    }
}
#[derive(Clone, Debug, Default)]
pub struct LookAt {
    pub l0: Fr,
    pub lu: Fr,
    pub qb: Fr,
    pub a: Fr,
    pub s: Fr,
    pub ap: Fr,
    /// a' one row back
    pub apb: Fr,
    pub sp: Fr,
    pub z: Fr,
    pub zn: Fr,
    pub beta: Fr,
    pub gamma: Fr,
}
impl LookAt {
    pub fn terms(&self) -> Vec<Fr> {
        let on = Fr::one() - (self.lu + self.qb);
        vec![
            self.l0 * (Fr::one() - self.z),
            on * (self.zn * (self.ap + self.beta) * (self.sp + self.gamma)
                - self.z * (self.a + self.beta) * (self.s + self.gamma)),
            self.lu * (self.z * self.z - self.z),
            self.l0 * (self.ap - self.sp),
            on * (self.ap - self.sp) * (self.ap - self.apb),
        ]
    }
}
pub fn weigh(t: &[Fr], a: &[Fr]) -> Fr {
    t.iter().zip(a).map(|(x, y)| *x * y).sum()
}
pub fn powers(x: Fr, n: usize) -> Vec<Fr> {
    let mut v = vec![];
    let mut p = Fr::one();
    for _ in 0..n {
        v.push(p);
        p *= x;
    }
    v
}
/// the elements a source of randomness gave out, as field elements
pub fn draws(given: &[u64]) -> Vec<Fr> {
    ideal::field_stream(given)
}
