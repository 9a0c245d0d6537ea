//! The reference model: vectors of f64 and the documented meaning of every operation.
use num_complex::Complex64 as C;
use std::f64::consts::PI;

#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub cplx: bool,
    pub freq: bool,
    pub delta: f64,
    pub d: Vec<f64>,
    /// Marked as erroneous (dynamically typed vectors only)
    pub err: bool,
}

impl M {
    pub fn real(freq: bool, d: &[f64]) -> M {
        M { cplx: false, freq, delta: 1.0, d: d.to_vec(), err: false }
    }
    pub fn complex(freq: bool, d: &[f64]) -> M {
        assert!(d.len() % 2 == 0);
        M { cplx: true, freq, delta: 1.0, d: d.to_vec(), err: false }
    }
    pub fn with_delta(mut self, delta: f64) -> M {
        self.delta = delta;
        self
    }
    pub fn step(&self) -> usize {
        if self.cplx { 2 } else { 1 }
    }
    pub fn points(&self) -> usize {
        self.d.len() / self.step()
    }
    pub fn c(&self) -> Vec<C> {
        if self.cplx {
            self.d.chunks(2).map(|x| C::new(x[0], x[1])).collect()
        } else {
            self.d.iter().map(|x| C::new(*x, 0.0)).collect()
        }
    }
    pub fn set_c(&mut self, c: &[C]) {
        self.d = flat(c);
    }
    pub fn fail(&self) -> M {
        M { cplx: self.cplx, freq: self.freq, delta: f64::NAN, d: Vec::new(), err: true }
    }
    pub fn hash(&self) -> u64 {
        let mut h = Fnv::new();
        h.u(self.cplx as u64 | (self.freq as u64) << 1 | (self.err as u64) << 2);
        h.u(self.delta.to_bits());
        for x in &self.d {
            h.u(x.to_bits());
        }
        h.0
    }
}

pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
    pub fn u(&mut self, x: u64) {
        let mut z = self.0 ^ x.wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 32)).wrapping_mul(0xD6E8FEB86659FD93);
        z = (z ^ (z >> 29)).wrapping_mul(0x9FB21C651E98DF25);
        self.0 = z ^ (z >> 32);
    }
    pub fn s(&mut self, x: &str) {
        for b in x.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.u(x.len() as u64);
    }
}

pub fn flat(c: &[C]) -> Vec<f64> {
    c.iter().flat_map(|x| vec![x.re, x.im]).collect()
}

/// Unnormalised DFT, sign -1 for the forward direction.
pub fn dft(x: &[C], sign: f64) -> Vec<C> {
    let n = x.len();
    let tw: Vec<C> = (0..n).map(|k| C::from_polar(1.0, sign * 2.0 * PI * k as f64 / n as f64)).collect();
    (0..n)
        .map(|k| {
            let mut s = C::new(0.0, 0.0);
            for (i, v) in x.iter().enumerate() {
                if v.re != 0.0 || v.im != 0.0 {
                    s += v * tw[(k * i) % n];
                }
            }
            s
        })
        .collect()
}

/// The fftshift of Octave/numpy: the zero frequency goes to the middle.
pub fn fftshift<A: Clone>(x: &[A]) -> Vec<A> {
    let n = x.len();
    (0..n).map(|i| x[(i + n - n / 2) % n].clone()).collect()
}
/// The inverse of `fftshift`.
pub fn ifftshift<A: Clone>(x: &[A]) -> Vec<A> {
    let n = x.len();
    (0..n).map(|i| x[(i + n / 2) % n].clone()).collect()
}

/// Window and filter functions which exist in the library and as user-defined functions.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Win {
    Rect,
    Tri,
    Hamming,
    HammingA(f64),
    Blackman,
    /// User defined, not symmetric: a different weight for each (n, length)
    Ramp,
    /// User defined and symmetric; the flag tells whether it is declared to be symmetric
    Bump(bool),
    /// The triangular/hamming/blackman formula as a user function not declared symmetric
    TriAsym,
    HammingAsym,
    BlackmanAsym,
}

impl Win {
    pub fn w(self, n: usize, len: usize) -> f64 {
        let (x, l) = (n as f64, len as f64);
        match self {
            Win::Rect => 1.0,
            Win::Tri | Win::TriAsym => 1.0 - ((x - (l - 1.0) / 2.0) / (l / 2.0)).abs(),
            Win::Hamming | Win::HammingAsym => 0.54 - 0.46 * (2.0 * PI * x / (l - 1.0)).cos(),
            Win::HammingA(a) => a - (1.0 - a) * (2.0 * PI * x / (l - 1.0)).cos(),
            Win::Blackman | Win::BlackmanAsym => {
                let t = 2.0 * PI * x / (l - 1.0);
                0.35875 - 0.48829 * t.cos() + 0.14128 * (2.0 * t).cos() - 0.01168 * (3.0 * t).cos()
            }
            Win::Ramp => 1.0 + 0.5 * x + 0.03125 * l,
            Win::Bump(_) => {
                let m = x.min(l - 1.0 - x);
                1.5 + 0.25 * m + 0.03125 * l
            }
        }
    }
    pub fn declared_symmetric(self) -> bool {
        !matches!(self, Win::Ramp | Win::Bump(false) | Win::TriAsym | Win::HammingAsym | Win::BlackmanAsym)
    }
}

/// Impulse and frequency responses.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Resp {
    Sinc,
    /// raised cosine with the given rolloff
    Rc(f64),
    /// exp(-x^2), the flag tells whether it is declared to be symmetric
    Gauss(bool),
    /// 1/(1+x^2), the flag tells whether it is declared to be symmetric
    Lorentz(bool),
    /// 2 + 0.5 x + 0.25 x^2, not symmetric
    Poly,
    /// A constant one
    One,
}

impl Resp {
    pub fn declared_symmetric(self) -> bool {
        match self {
            Resp::Gauss(s) | Resp::Lorentz(s) => s,
            Resp::Poly => false,
            _ => true,
        }
    }
    pub fn is_user(self) -> bool {
        !matches!(self, Resp::Sinc | Resp::Rc(_))
    }
    /// Impulse response
    pub fn t(self, x: f64) -> f64 {
        match self {
            Resp::Sinc => {
                if x == 0.0 { 1.0 } else { (PI * x).sin() / (PI * x) }
            }
            Resp::Rc(b) => {
                if x == 0.0 {
                    return 1.0;
                }
                // cos(pi u / 2) / (1 - u^2) with u = 1 + e, which is well defined at e = 0
                let e = (2.0 * b * x).abs() - 1.0;
                let s = if e == 0.0 { 1.0 } else { (PI * e / 2.0).sin() / (PI * e / 2.0) };
                (PI * x).sin() / (PI * x) * (PI / 2.0 * s / (2.0 + e))
            }
            _ => self.user(x),
        }
    }
    /// Frequency response
    pub fn f(self, x: f64) -> f64 {
        match self {
            Resp::Sinc => {
                if x.abs() <= 1.0 { 1.0 } else { 0.0 }
            }
            Resp::Rc(b) => {
                if x.abs() <= 1.0 - b {
                    1.0
                } else if x.abs() <= 1.0 + b {
                    0.5 * (1.0 + (PI / b * (x.abs() - (1.0 - b)) / 2.0).cos())
                } else {
                    0.0
                }
            }
            _ => self.user(x),
        }
    }
    fn user(self, x: f64) -> f64 {
        match self {
            Resp::Gauss(_) => (-x * x).exp(),
            Resp::Lorentz(_) => 1.0 / (1.0 + x * x),
            Resp::Poly => 2.0 + 0.5 * x + 0.25 * x * x,
            _ => 1.0,
        }
    }
    /// Complex variant: an additional imaginary part
    pub fn ct(self, x: f64) -> C {
        C::new(self.t(x), self.im(x))
    }
    pub fn cf(self, x: f64) -> C {
        C::new(self.f(x), self.im(x))
    }
    pub fn im(self, x: f64) -> f64 {
        if self.declared_symmetric() { 0.25 + 0.125 * x * x } else { 0.5 + 0.25 * x }
    }
}
