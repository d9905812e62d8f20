//! What the replay harnesses share.
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use ark_bls12_381::{Bls12_381, Fr};
pub use ark_ff::{FftField, Field, One, PrimeField, UniformRand, Zero};
pub use ark_std::rand::{Rng, RngCore, SeedableRng};
pub use rand_chacha::ChaChaRng;

pub mod ideal;
pub mod spec;
pub mod sys;

pub type KZG = zero_over_k::commitment::KZG10<Bls12_381>;
pub type FS = zero_over_k::rng::SimpleHashFiatShamirRng<
    blake2::Blake2s,
    ChaChaRng,
>;

pub struct Report {
    pub evaluations: u64,
    pub failures: Vec<(String, String, String)>,
    pub notes: Vec<String>,
    pub start: std::time::Instant,
    pub thorough: bool,
    pub seed: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn new() -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        Report {
            evaluations: 0,
            failures: vec![],
            notes: vec![],
            start: std::time::Instant::now(),
            thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1),
        }
    }
    pub fn rng(&self, salt: u64) -> ChaChaRng {
        ChaChaRng::seed_from_u64(
            self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ salt,
        )
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            // every quick run still takes seconds
            thorough.min(3 * quick)
        }
    }
    /// one evaluation of the property
    pub fn check(&mut self, what: &str, ok: bool, input: impl Fn() -> String) {
        self.evaluations += 1;
        if !ok && self.failures.len() < 20 {
            self.failures.push((String::new(), what.into(), input()));
        }
    }
    pub fn check_key(
        &mut self,
        key: &str,
        what: &str,
        ok: bool,
        input: impl Fn() -> String,
    ) {
        self.evaluations += 1;
        if !ok && self.failures.len() < 20 {
            self.failures.push((key.into(), what.into(), input()));
        }
    }
    /// a panic of `f` is a failure of the rule
    pub fn run<T>(
        &mut self,
        what: &str,
        input: impl Fn() -> String,
        f: impl FnOnce() -> T,
    ) -> Option<T> {
        match guard(f) {
            Ok(t) => Some(t),
            Err(m) => {
                self.check(&format!("{}: panics ({})", what, m), false, input);
                None
            }
        }
    }
    pub fn note(&mut self, s: &str) {
        if !self.notes.iter().any(|n| n == s) {
            self.notes.push(s.into());
        }
    }
    pub fn finish(self) -> ! {
        let p = std::env::args().nth(1).unwrap_or("/dev/stdout".into());
        let f: Vec<String> = self
            .failures
            .iter()
            .map(|(k, w, i)| {
                format!(
                    "{{\"key\":{},\"what\":{},\"input\":{}}}",
                    esc(k),
                    esc(w),
                    esc(i)
                )
            })
            .collect();
        let n: Vec<String> = self.notes.iter().map(|s| esc(s)).collect();
        let s = format!(
            "{{\"evaluations\":{},\"bound\":[{}],\"wall_s\":{:.1},\"failures\":[{}]}}\n",
            self.evaluations,
            n.join(","),
            self.start.elapsed().as_secs_f64(),
            f.join(",")
        );
        std::fs::write(p, s).unwrap();
        std::process::exit(if self.failures.is_empty() { 0 } else { 1 })
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}
