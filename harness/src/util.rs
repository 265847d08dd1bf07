//! Deterministic random numbers, case bookkeeping, comparison of decimals.
use rust_decimal::Decimal;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, prop: &str, index: u64) -> Self {
        let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ index.wrapping_mul(0xD1B54A32D192ED03);
        for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        let mut r = Rng(h); r.next(); r.next(); r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    /// a..=b
    pub fn r(&mut self, a: usize, b: usize) -> usize { a + self.n(b - a + 1) }
    /// true in k of n cases
    pub fn p(&mut self, k: usize, n: usize) -> bool { self.n(n) < k }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.n(i + 1); v.swap(i, j); } }
}

pub fn d(s: &str) -> Decimal { Decimal::from_str(s).unwrap_or_else(|_| panic!("oracle decimal {s:?}")) }
pub fn qd(q: &ledger_rs_lib::amount::Quantity) -> Decimal { d(&q.to_string()) }
/// equal, or equal up to rounding of a division
pub fn close(a: Decimal, b: Decimal) -> bool {
    if a == b { return true; }
    let e = (a - b).abs();
    let m = a.abs().max(b.abs());
    e <= Decimal::new(1, 20) || e <= m * Decimal::new(1, 20)
}
/// Did the call refuse (panic)?
pub fn refused<R>(f: impl FnOnce() -> R) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() };
        format!("panicked: {m}")
    })
}
pub type Res = Result<(), String>;
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}
pub struct Case { pub text: String, pub trivial: bool, pub run: Box<dyn FnOnce() -> Res> }
pub fn case(text: String, run: impl FnOnce() -> Res + 'static) -> Case { Case { text, trivial: false, run: Box::new(run) } }

pub fn scratch() -> std::path::PathBuf {
    let p = std::env::temp_dir().join(format!("ledger_verif_{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}
