//! Reference model of correlation and interpolation.
use crate::model::*;
use crate::op::*;
use num_complex::Complex64 as C;
use std::f64::consts::PI;

/// Signed index of the bin k in transform order (the Nyquist bin counts as negative).
pub fn bin(k: usize, n: usize) -> f64 {
    if 2 * k < n { k as f64 } else { k as f64 - n as f64 }
}

/// A vector is convolved with an interpolation function at real positions.
pub fn interpolatef(x: &[C], h: impl Fn(f64) -> f64, n_out: usize, f: f64, delay: f64, conv: usize) -> Vec<C> {
    let n = x.len() as isize;
    let cl = conv.min(x.len() / 2) as isize;
    (0..n_out)
        .map(|i| {
            let c = i as f64 / f;
            let fl = c.floor();
            let mut s = C::new(0.0, 0.0);
            for k in -cl..=cl {
                s += x[(fl as isize + k).rem_euclid(n) as usize] * h(k as f64 - (c - fl) + delay);
            }
            s
        })
        .collect()
}

fn back(m: &M, y: &[C]) -> Vec<f64> {
    if m.cplx { flat(y) } else { y.iter().map(|v| v.re).collect() }
}

pub fn lin(d: &[f64], pos: f64) -> f64 {
    let n = d.len();
    if pos < -1e-9 || pos > n as f64 - 1.0 + 1e-6 {
        return f64::NAN;
    }
    let b = (pos.floor() as usize).min(n - 1);
    let nx = (b + 1).min(n - 1);
    d[b] + (d[nx] - d[b]) * (pos - b as f64)
}

/// Cubic hermite (Catmull-Rom) spline, the signal is continued linearly at its ends.
pub fn hermite(d: &[f64], pos: f64) -> f64 {
    let n = d.len() as isize;
    if pos < -1e-9 || pos > n as f64 - 1.0 + 1e-6 {
        return f64::NAN;
    }
    if n == 1 {
        return d[0];
    }
    let at = |i: isize| -> f64 {
        if i < 0 {
            d[0] + (d[0] - d[1]) * (-i) as f64
        } else if i >= n {
            d[n as usize - 1] + (d[n as usize - 1] - d[n as usize - 2]) * (i - n + 1) as f64
        } else {
            d[i as usize]
        }
    };
    let b = (pos.floor() as isize).min(n - 1);
    let (y0, y1, y2, y3) = (at(b - 1), at(b), at(b + 1), at(b + 2));
    let x = pos - b as f64;
    let a0 = -0.5 * y0 + 1.5 * y1 - 1.5 * y2 + 0.5 * y3;
    let a1 = y0 - 2.5 * y1 + 2.0 * y2 - 0.5 * y3;
    let a2 = -0.5 * y0 + 0.5 * y2;
    a0 * x * x * x + a1 * x * x + a2 * x + y1
}

fn e(m: M) -> Ex {
    Ex { m, args: None, ret: ok(), loose: false, loose_args: false, tol: 1.0, exact: false, unspecified: false, any_err: false }
}
fn rej(m: &M, r: &str) -> Ex {
    Ex { ret: Ret::Err(r.to_string()), exact: true, ..e(m.clone()) }
}
fn unspec(m: &M) -> Ex {
    Ex { unspecified: true, ..e(m.clone()) }
}

pub fn model(op: &Op, m: &M, args: &[M]) -> Ex {
    let p = m.points();
    match op {
        Op::PrepArg | Op::PrepArgPadded => {
            if m.freq || !m.cplx {
                return e(m.fail());
            }
            if p == 0 {
                return unspec(m);
            }
            let mut x = m.c();
            if *op == Op::PrepArgPadded {
                x = pad_points(&x, 2 * p - 1, Pad::Surround);
            }
            let mut y = dft(&x, -1.0);
            y.iter_mut().for_each(|v| *v = v.conj());
            let mut n = M { freq: true, delta: fft_delta(m.delta, x.len()), ..m.clone() };
            n.set_c(&y);
            Ex { tol: (p as f64).max(1.0), ..e(n) }
        }
        Op::Correlate => {
            let a = &args[0];
            let bad = || Ex { ret: Ret::Err("InputMustBeInTimeDomain".into()), loose: true, ..e(m.clone()) };
            if m.freq || !m.cplx || !a.freq || !a.cplx {
                return bad();
            }
            let q = a.points();
            if p == 0 {
                return rej(m, "InputMustNotBeEmpty");
            }
            if q < p {
                return rej(m, "InvalidArgumentLength");
            }
            let x = dft(&pad_points(&m.c(), q, Pad::Surround), -1.0);
            let z: Vec<C> = x.iter().zip(a.c()).map(|(u, v)| u * v).collect();
            let mut y = dft(&z, 1.0);
            y.iter_mut().for_each(|v| *v /= q as f64);
            let mut n = m.clone();
            n.set_c(&fftshift(&y));
            Ex { tol: (q as f64).max(1.0), ..e(n) }
        }
        Op::Interpolatef(r, f, delay, conv) => {
            if p == 0 {
                return unspec(m);
            }
            let len = new_len_interp(p, m.step(), *f);
            let n_out = len / m.step();
            let y = interpolatef(&m.c(), |x| r.t(x), n_out, *f, delay / m.delta, *conv);
            let mut n = m.clone();
            n.d = back(m, &y);
            // The position i / f is only as accurate as its distance from zero
            Ex { tol: (2 * conv + 1 + p) as f64, ..e(n) }
        }
        Op::Interpolatei(r, k) => {
            if *k <= 1 {
                return Ex { exact: true, ..e(m.clone()) };
            }
            if !m.cplx && !r.declared_symmetric() {
                return rej(m, "ArgumentFunctionMustBeSymmetric");
            }
            if p == 0 {
                return unspec(m);
            }
            let k = *k as usize;
            let mut x = vec![C::new(0.0, 0.0); p * k];
            for (i, v) in m.c().into_iter().enumerate() {
                x[i * k] = v;
            }
            let nn = p * k;
            let mut y = dft(&x, -1.0);
            weight(&mut y, *r, k as f64);
            let mut z = dft(&y, 1.0);
            z.iter_mut().for_each(|v| *v /= nn as f64);
            let mut n = m.clone();
            n.d = back(m, &z);
            Ex { tol: nn as f64, ..e(n) }
        }
        Op::Interpft(_) if p == 0 => e(m.fail()),
        Op::Interpft(n) => model(&Op::Interpolate(None, *n, 0.0), m, args),
        Op::Interpolate(r, n_out, delay) => {
            let q = *n_out;
            if let Some(r) = r {
                if !m.cplx && !r.declared_symmetric() {
                    return rej(m, "ArgumentFunctionMustBeSymmetric");
                }
            }
            if p == 0 {
                return rej(m, "InputMustNotBeEmpty");
            }
            if q == 0 {
                return unspec(m);
            }
            let mut x = dft(&m.c(), -1.0);
            let d = delay / m.delta;
            if d != 0.0 {
                for k in 0..p {
                    x[k] *= C::from_polar(1.0, 2.0 * PI * d * bin(k, p) / p as f64);
                }
            }
            let f = q as f64 / p as f64;
            let mut y;
            if q > p {
                y = pad_points(&x, q, Pad::Center);
                match r {
                    None => y.iter_mut().for_each(|v| *v *= f),
                    Some(r) => weight(&mut y, *r, f),
                }
            } else {
                let neg = q / 2;
                y = x[..q - neg].to_vec();
                y.extend_from_slice(&x[p - neg..]);
                if q < p {
                    y.iter_mut().for_each(|v| *v *= f);
                }
            }
            let mut z = dft(&y, 1.0);
            z.iter_mut().for_each(|v| *v /= q as f64);
            let mut n = M { delta: m.delta / f, ..m.clone() };
            n.d = back(m, &z);
            Ex { tol: p.max(q) as f64, ..e(n) }
        }
        Op::InterpolateLin(f, delay) | Op::InterpolateHermite(f, delay) => {
            if m.cplx {
                return e(m.fail());
            }
            if p == 0 {
                return unspec(m);
            }
            let len = ((p - 1) as f64 * f).round() as usize + 1;
            let fun = if let Op::InterpolateLin(..) = op { lin } else { hermite };
            let mut n = m.clone();
            n.d = (0..len).map(|i| fun(&m.d, i as f64 / f + delay)).collect();
            e(n)
        }
        _ => unreachable!(),
    }
}

/// Weights a spectrum in transform order with a frequency response.
pub fn weight(y: &mut [C], r: Resp, ratio: f64) {
    let n = y.len();
    let max = n as f64 / 2.0;
    for (k, v) in y.iter_mut().enumerate() {
        // The Nyquist bin counts as positive here
        let b = if 2 * k <= n { k as f64 } else { k as f64 - n as f64 };
        let x = b / max;
        *v *= r.f(x * ratio) * ratio;
    }
}
