//! Data for the enumerations: small, distinct, deterministic values.
use crate::model::*;

/// Different values for every element, exactly representable in f32.
pub fn vals(n: usize, seed: usize) -> Vec<f64> {
    (0..n)
        .map(|i| {
            let k = (i * 37 + seed * 11 + 5) % 61;
            let s = if (i * 7 + seed) % 3 == 0 { -1.0 } else { 1.0 };
            s * (k as f64 + 1.0 + i as f64 / 64.0) / 16.0
        })
        .collect()
}
/// Positive values between 0.5 and 4
pub fn pos(n: usize, seed: usize) -> Vec<f64> {
    vals(n, seed).iter().map(|x| 0.5 + x.abs() * 0.75).collect()
}
/// Values between -0.9 and 0.9
pub fn unit(n: usize, seed: usize) -> Vec<f64> {
    vals(n, seed).iter().map(|x| (x * 0.875) / 4.0 ).map(|x| x.max(-0.9).min(0.9)).collect()
}

pub fn vec_m(cplx: bool, freq: bool, points: usize, seed: usize) -> M {
    let n = if cplx { 2 * points } else { points };
    M { cplx, freq, delta: 1.0, d: vals(n, seed), err: false }
}
