//! Operations: names, parameters and their meaning on the reference model.
use crate::model::*;
use num_complex::Complex64 as C;
use std::f64::consts::PI;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trig {
    Sin, Cos, Tan, Asin, Acos, Atan, Sinh, Cosh, Tanh, Asinh, Acosh, Atanh,
}
pub const TRIGS: [Trig; 12] = [
    Trig::Sin, Trig::Cos, Trig::Tan, Trig::Asin, Trig::Acos, Trig::Atan,
    Trig::Sinh, Trig::Cosh, Trig::Tanh, Trig::Asinh, Trig::Acosh, Trig::Atanh,
];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add, Sub, Mul, Div,
}
pub const BINS: [Bin; 4] = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pad {
    End, Surround, Center,
}
pub const PADS: [Pad; 3] = [Pad::End, Pad::Surround, Pad::Center];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Part {
    Mag, MagSq, Re, Im, Phase,
}
pub const PARTS: [Part; 5] = [Part::Mag, Part::MagSq, Part::Re, Part::Im, Part::Phase];

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    // scalar arithmetic
    Scale(f64), Offset(f64), ScaleC(f64, f64), OffsetC(f64, f64),
    // real
    Abs, Wrap(f64), Unwrap(f64),
    LnApprox, ExpApprox, SinApprox, CosApprox, LogApprox(f64), ExpfApprox(f64), PowfApprox(f64),
    // complex
    MulCexp(f64, f64), Conj,
    // any
    Trig(Trig), Sqrt, Square, Root(f64), Powf(f64), Ln, Exp, Log(f64), Expf(f64),
    Bin(Bin), BinSmaller(Bin),
    Reverse, SwapHalves,
    ZeroPad(usize, Pad), ZeroPadB(usize, Pad), ZeroInterleave(u32), ZeroInterleaveB(u32),
    Diff, DiffWithStart, CumSum,
    /// all arguments are targets
    SplitInto,
    /// all arguments are sources
    Merge,
    Resize(usize), ResizeB(usize),
    SetDelta(f64),
    // conversions, the flag tells whether the buffered variant is used
    To(Part, bool), ToComplex, ToComplexB,
    /// argument 0 is the destination
    Get(Part), GetRealImag, GetMagPhase, SetRealImag, SetMagPhase,
    // reductions
    Sum(bool), SumSq(bool), Stats(bool), StatsSplit(usize, bool), Dot(bool),
    SumC(bool), SumSqC(bool), StatsC(bool), StatsSplitC(usize, bool), DotC(bool),
    // mapping: value * 3 + index * 7 + argument
    Map(f64), MapC(f64),
    /// sum of value * (index + 1) + argument
    MapAggr(f64), MapAggrC(f64),
    // domain changes
    PlainFft, Fft, WindowedFft(Win), PlainIfft, Ifft, WindowedIfft(Win),
    PlainSfft, Sfft, WindowedSfft(Win), PlainSifft, Sifft, WindowedSifft(Win),
    FftShift, IfftShift, Mirror,
    ApplyWindow(Win), UnapplyWindow(Win),
    // convolution
    ConvolveSignal,
    Convolve(Resp, f64, usize), ConvolveC(Resp, f64, usize),
    MulFreq(Resp, f64), MulFreqC(Resp, f64),
    PrepArg, PrepArgPadded,
    /// argument 0 is a prepared argument
    Correlate,
    // interpolation
    Interpolatef(Resp, f64, f64, usize), Interpolatei(Resp, u32),
    Interpolate(Option<Resp>, usize, f64), Interpft(usize), Decimatei(u32, u32),
    InterpolateLin(f64, f64), InterpolateHermite(f64, f64),
}

impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    /// No result value or `Ok` with the given numbers
    Ok(Vec<f64>),
    Err(String),
}
pub fn ok() -> Ret {
    Ret::Ok(Vec::new())
}
fn er(x: &str) -> Ret {
    Ret::Err(x.to_string())
}

/// What an operation has to do.
#[derive(Clone, Debug)]
pub struct Ex {
    pub m: M,
    /// Expected arguments after the call (None: as before)
    pub args: Option<Vec<M>>,
    pub ret: Ret,
    /// The contents of the vector after the call are not specified (failed consuming operations)
    pub loose: bool,
    /// The contents of the arguments after the call are not specified
    pub loose_args: bool,
    /// Factor for the tolerance
    pub tol: f64,
    /// Data has only been moved, not calculated with
    pub exact: bool,
    /// The result isn't specified for this input at all
    pub unspecified: bool,
    /// The error reason isn't part of what is documented, only that there is an error
    pub any_err: bool,
}

fn val(m: M) -> Ex {
    Ex { m, args: None, ret: ok(), loose: false, loose_args: false, tol: 1.0, exact: false, unspecified: false, any_err: false }
}
fn moved(m: M) -> Ex {
    Ex { exact: true, ..val(m) }
}
fn num(m: &M, n: Vec<f64>) -> Ex {
    Ex { ret: Ret::Ok(n), exact: false, ..val(m.clone()) }
}
fn rej(m: &M, e: &str) -> Ex {
    Ex { ret: er(e), exact: true, ..val(m.clone()) }
}
fn bad(m: &M) -> Ex {
    val(m.fail())
}
fn unspec(m: &M) -> Ex {
    Ex { unspecified: true, ..val(m.clone()) }
}
/// Consuming operation which returned an error
fn consumed(m: &M, e: &str) -> Ex {
    Ex { ret: er(e), loose: true, ..val(m.clone()) }
}

pub fn trig_r(t: Trig, x: f64) -> f64 {
    match t {
        Trig::Sin => x.sin(), Trig::Cos => x.cos(), Trig::Tan => x.tan(),
        Trig::Asin => x.asin(), Trig::Acos => x.acos(), Trig::Atan => x.atan(),
        Trig::Sinh => x.sinh(), Trig::Cosh => x.cosh(), Trig::Tanh => x.tanh(),
        Trig::Asinh => x.asinh(), Trig::Acosh => x.acosh(), Trig::Atanh => x.atanh(),
    }
}
pub fn trig_c(t: Trig, x: C) -> C {
    match t {
        Trig::Sin => x.sin(), Trig::Cos => x.cos(), Trig::Tan => x.tan(),
        Trig::Asin => x.asin(), Trig::Acos => x.acos(), Trig::Atan => x.atan(),
        Trig::Sinh => x.sinh(), Trig::Cosh => x.cosh(), Trig::Tanh => x.tanh(),
        Trig::Asinh => x.asinh(), Trig::Acosh => x.acosh(), Trig::Atanh => x.atanh(),
    }
}

fn elem(m: &M, r: impl Fn(f64) -> f64, c: impl Fn(C) -> C) -> Ex {
    let mut n = m.clone();
    if m.cplx {
        n.set_c(&m.c().into_iter().map(c).collect::<Vec<_>>());
    } else {
        for x in n.d.iter_mut() {
            *x = r(*x);
        }
    }
    val(n)
}
fn elem_real(m: &M, r: impl Fn(f64) -> f64) -> Ex {
    if m.cplx {
        bad(m)
    } else {
        elem(m, r, |c| c)
    }
}
fn elem_c(m: &M, f: impl Fn(usize, C) -> C) -> Ex {
    if !m.cplx {
        return bad(m);
    }
    let mut n = m.clone();
    n.set_c(&m.c().into_iter().enumerate().map(|(i, x)| f(i, x)).collect::<Vec<_>>());
    val(n)
}
pub fn bin_c(b: Bin, x: C, y: C) -> C {
    match b {
        Bin::Add => x + y,
        Bin::Sub => x - y,
        Bin::Mul => x * y,
        Bin::Div => x / y,
    }
}
pub fn bin_r(b: Bin, x: f64, y: f64) -> f64 {
    match b {
        Bin::Add => x + y,
        Bin::Sub => x - y,
        Bin::Mul => x * y,
        Bin::Div => x / y,
    }
}

pub fn meta_ok(a: &M, b: &M) -> bool {
    let r = a.delta / b.delta;
    a.cplx == b.cplx && a.freq == b.freq && !(r > 1.1) && !(r < 0.9)
}

/// Applies a function to lists of points (real vectors: numbers with a zero imaginary part).
fn points_map(m: &M, f: impl Fn(Vec<C>) -> Vec<C>) -> M {
    let mut n = m.clone();
    let r = f(m.c());
    n.d = if m.cplx { flat(&r) } else { r.iter().map(|x| x.re).collect() };
    n
}

pub fn pad_points(x: &[C], points: usize, pad: Pad) -> Vec<C> {
    let z = C::new(0.0, 0.0);
    let diff = points - x.len();
    let mut r = Vec::new();
    match pad {
        Pad::End => {
            r.extend_from_slice(x);
            r.extend(vec![z; diff]);
        }
        Pad::Surround => {
            let right = diff / 2;
            r.extend(vec![z; diff - right]);
            r.extend_from_slice(x);
            r.extend(vec![z; right]);
        }
        Pad::Center => {
            let right = x.len() / 2;
            let left = x.len() - right;
            r.extend_from_slice(&x[..left]);
            r.extend(vec![z; diff]);
            r.extend_from_slice(&x[left..]);
        }
    }
    r
}

fn part(p: Part, x: C) -> f64 {
    match p {
        Part::Mag => x.norm(),
        Part::MagSq => x.norm_sqr(),
        Part::Re => x.re,
        Part::Im => x.im,
        Part::Phase => x.im.atan2(x.re),
    }
}

/// Windows may be undefined (0/0) for tiny lengths; such cases are skipped by the checks.
pub fn win_defined(w: Win, len: usize) -> bool {
    (0..len).all(|i| w.w(i, len).is_finite())
}

fn window(m: &M, w: Win, div: bool) -> Vec<C> {
    let p = m.points();
    m.c()
        .iter()
        .enumerate()
        .map(|(i, x)| if div { x / w.w(i, p) } else { x * w.w(i, p) })
        .collect()
}

pub fn kahan_sum_c(v: &[C]) -> C {
    // The reference adds in f64 (or better): order does not matter at the tolerance used
    let mut s = C::new(0.0, 0.0);
    for x in v {
        s += x;
    }
    s
}

/// sum, count, average, rms, min, min index, max, max index
pub fn stats_r(v: &[f64]) -> Vec<f64> {
    let n = v.len() as f64;
    let sum: f64 = v.iter().sum();
    let sq: f64 = v.iter().map(|x| x * x).sum();
    let (mut mi, mut ma) = (0, 0);
    for i in 0..v.len() {
        if v[i] < v[mi] {
            mi = i;
        }
        if v[i] > v[ma] {
            ma = i;
        }
    }
    vec![sum, n, sum / n, (sq / n).sqrt(), v[mi], mi as f64, v[ma], ma as f64]
}
pub fn stats_c(v: &[C]) -> Vec<f64> {
    let n = v.len() as f64;
    let sum = kahan_sum_c(v);
    let sq = kahan_sum_c(&v.iter().map(|x| x * x).collect::<Vec<_>>());
    let (mut mi, mut ma) = (0, 0);
    for i in 0..v.len() {
        if v[i].norm() < v[mi].norm() {
            mi = i;
        }
        if v[i].norm() > v[ma].norm() {
            ma = i;
        }
    }
    let avg = sum / n;
    let rms = (sq / n).sqrt();
    vec![
        sum.re, sum.im, n, avg.re, avg.im, rms.re, rms.im, v[mi].re, v[mi].im, mi as f64, v[ma].re, v[ma].im,
        ma as f64,
    ]
}

/// The largest number of columns of the split statistics.
pub const SPLIT_MAX: usize = 16;

pub fn new_len_interp(points: usize, step: usize, factor: f64) -> usize {
    let len = points * step;
    let l = (len as f64 * factor).round() as usize;
    l + l % 2
}

/// delta after a transform of n points
pub fn fft_delta(delta: f64, n: usize) -> f64 {
    crate::FFT_DELTA(delta, n)
}

impl Op {
    /// Number of arguments (None: any)
    pub fn args(&self) -> Option<usize> {
        Some(match self {
            Op::Bin(_) | Op::BinSmaller(_) | Op::Get(_) | Op::Dot(_) | Op::DotC(_) | Op::ConvolveSignal | Op::Correlate => 1,
            Op::GetRealImag | Op::GetMagPhase | Op::SetRealImag | Op::SetMagPhase => 2,
            Op::SplitInto | Op::Merge => return None,
            _ => 0,
        })
    }
    pub fn buffered(&self) -> bool {
        matches!(
            self,
            Op::ZeroPadB(..) | Op::ZeroInterleaveB(_) | Op::ResizeB(_) | Op::To(_, true) | Op::ToComplexB
                | Op::PlainFft | Op::Fft | Op::WindowedFft(_) | Op::PlainIfft | Op::Ifft | Op::WindowedIfft(_)
                | Op::PlainSfft | Op::Sfft | Op::WindowedSfft(_) | Op::PlainSifft | Op::Sifft | Op::WindowedSifft(_)
                | Op::Mirror | Op::ConvolveSignal | Op::Convolve(..) | Op::ConvolveC(..) | Op::PrepArg | Op::PrepArgPadded
                | Op::Correlate | Op::Interpolatef(..) | Op::Interpolatei(..) | Op::Interpolate(..) | Op::Interpft(_)
                | Op::InterpolateLin(..) | Op::InterpolateHermite(..)
        )
    }
    /// The result is tagged with the precision of an approximation
    pub fn is_approx(&self) -> bool {
        matches!(
            self,
            Op::LnApprox | Op::ExpApprox | Op::SinApprox | Op::CosApprox | Op::LogApprox(_) | Op::ExpfApprox(_) | Op::PowfApprox(_)
        )
    }

    /// The meaning of the operation on the model. `alloc` is the storage limit
    /// (None: the storage can grow).
    pub fn model(&self, m: &M, args: &[M], alloc: Option<usize>) -> Ex {
        use Op::*;
        let p = m.points();
        let step = m.step();
        let fits = |len: usize| alloc.map_or(true, |a| len <= a);
        match self {
            Scale(k) => elem(m, |x| x * k, |x| x * k),
            Offset(k) => elem(m, |x| x + k, |x| x + k),
            ScaleC(a, b) => elem_c(m, |_, x| x * C::new(*a, *b)),
            OffsetC(a, b) => elem_c(m, |_, x| x + C::new(*a, *b)),
            Abs => elem_real(m, f64::abs),
            Wrap(k) => elem_real(m, |x| x % k),
            Unwrap(k) => {
                if m.cplx {
                    return bad(m);
                }
                let mut n = m.clone();
                for i in 1..n.d.len() {
                    let mut diff = n.d[i] - n.d[i - 1];
                    if diff > k / 2.0 {
                        diff = diff % k - k;
                    } else if diff < -k / 2.0 {
                        diff = diff % k + k;
                    } else {
                        continue;
                    }
                    n.d[i] = n.d[i - 1] + diff;
                }
                val(n)
            }
            LnApprox => elem_real(m, |x| x.ln()),
            ExpApprox => elem_real(m, |x| x.exp()),
            SinApprox => elem_real(m, |x| x.sin()),
            CosApprox => elem_real(m, |x| x.cos()),
            LogApprox(b) => elem_real(m, |x| x.ln() / b.ln()),
            ExpfApprox(b) => elem_real(m, |x| (x * b.ln()).exp()),
            PowfApprox(e) => elem_real(m, |x| (x.ln() * e).exp()),
            MulCexp(a, b) => elem_c(m, |i, x| x * C::from_polar(1.0, (a * i as f64 + b) * m.delta)),
            Conj => Ex { exact: m.cplx, ..elem_c(m, |_, x| x.conj()) },
            Trig(t) => elem(m, |x| trig_r(*t, x), |x| trig_c(*t, x)),
            Sqrt => elem(m, |x| x.sqrt(), |x| x.sqrt()),
            Square => elem(m, |x| x * x, |x| x * x),
            Root(k) => elem(m, |x| x.powf(1.0 / k), |x| x.powf(1.0 / k)),
            Powf(k) => elem(m, |x| x.powf(*k), |x| x.powf(*k)),
            Ln => elem(m, |x| x.ln(), |x| x.ln()),
            Exp => elem(m, |x| x.exp(), |x| x.exp()),
            Log(k) => elem(m, |x| x.ln() / k.ln(), |x| x.ln() / k.ln()),
            Expf(k) => elem(m, |x| (x * k.ln()).exp(), |x| (x * k.ln()).exp()),
            Bin(b) | BinSmaller(b) => {
                let a = &args[0];
                if let Bin(_) = self {
                    if a.d.len() != m.d.len() {
                        return rej(m, "InputMustHaveTheSameSize");
                    }
                } else if a.d.is_empty() || m.d.len() % a.d.len() != 0 {
                    return rej(m, "InvalidArgumentLength");
                }
                if !meta_ok(m, a) {
                    return rej(m, "InputMetaDataMustAgree");
                }
                let mut n = m.clone();
                if m.cplx {
                    let (x, y) = (m.c(), a.c());
                    n.set_c(&(0..x.len()).map(|i| bin_c(*b, x[i], y[i % y.len()])).collect::<Vec<_>>());
                } else {
                    for i in 0..n.d.len() {
                        n.d[i] = bin_r(*b, m.d[i], a.d[i % a.d.len()]);
                    }
                }
                val(n)
            }
            Reverse => moved(points_map(m, |mut x| {
                x.reverse();
                x
            })),
            SwapHalves => moved(points_map(m, |x| fftshift(&x))),
            FftShift | IfftShift => {
                let fwd = *self == FftShift;
                moved(points_map(m, |x| if fwd { fftshift(&x) } else { ifftshift(&x) }))
            }
            ZeroPad(n, o) | ZeroPadB(n, o) => {
                if n * step <= m.d.len() {
                    return rej(m, "InvalidArgumentLength");
                }
                if !fits(n * step) {
                    return rej(m, "TypeCanNotResize");
                }
                moved(points_map(m, |x| pad_points(&x, *n, *o)))
            }
            ZeroInterleave(k) | ZeroInterleaveB(k) => {
                let k = *k as usize;
                if k <= 1 {
                    return moved(m.clone());
                }
                if !fits(k * m.d.len()) {
                    return if let ZeroInterleaveB(_) = self { bad(m) } else { rej(m, "TypeCanNotResize") };
                }
                moved(points_map(m, |x| {
                    let mut r = vec![C::new(0.0, 0.0); x.len() * k];
                    for i in 0..x.len() {
                        r[i * k] = x[i];
                    }
                    r
                }))
            }
            Diff => {
                val(points_map(m, |x| (1..x.len()).map(|i| x[i] - x[i - 1]).collect()))
            }
            DiffWithStart => val(points_map(m, |x| {
                (0..x.len()).map(|i| if i == 0 { x[0] } else { x[i] - x[i - 1] }).collect()
            })),
            CumSum => val(points_map(m, |x| {
                let mut s = C::new(0.0, 0.0);
                x.iter()
                    .map(|v| {
                        s += v;
                        s
                    })
                    .collect()
            })),
            SplitInto => {
                let k = args.len();
                if k == 0 || p % k != 0 {
                    return rej(m, "InvalidArgumentLength");
                }
                let x = m.c();
                let mut a = args.to_vec();
                for (i, t) in a.iter_mut().enumerate() {
                    if t.cplx != m.cplx {
                        return unspec(m);
                    }
                    let y: Vec<C> = (0..p / k).map(|j| x[j * k + i]).collect();
                    t.d = if t.cplx { flat(&y) } else { y.iter().map(|v| v.re).collect() };
                }
                Ex { args: Some(a), ..moved(m.clone()) }
            }
            Merge => {
                let k = args.len();
                if k == 0 || args.iter().any(|a| a.d.len() != args[0].d.len()) {
                    return rej(m, "InvalidArgumentLength");
                }
                if args.iter().any(|a| a.cplx != m.cplx) {
                    return unspec(m);
                }
                if !fits(k * args[0].d.len()) {
                    return rej(m, "TypeCanNotResize");
                }
                let src: Vec<Vec<C>> = args.iter().map(|a| a.c()).collect();
                moved(points_map(m, |_| (0..k * src[0].len()).map(|i| src[i % k][i / k]).collect()))
            }
            Resize(n) | ResizeB(n) => {
                if m.cplx && n % 2 != 0 {
                    return rej(m, "InputMustHaveAnEvenLength");
                }
                if !fits(*n) {
                    return rej(m, "TypeCanNotResize");
                }
                let mut r = m.clone();
                // What new elements contain isn't specified: NaN stands for "any value"
                r.d.resize(*n, f64::NAN);
                Ex { exact: true, ..val(r) }
            }
            SetDelta(d) => moved(M { delta: *d, ..m.clone() }),
            To(q, _) => {
                if !m.cplx {
                    return bad(m);
                }
                let mut n = m.clone();
                n.cplx = false;
                n.d = m.c().iter().map(|x| part(*q, *x)).collect();
                Ex { exact: matches!(q, Part::Re | Part::Im), ..val(n) }
            }
            ToComplex | ToComplexB => {
                if m.cplx {
                    return if *self == ToComplex { consumed(m, "InputMustBeReal") } else { bad(m) };
                }
                if !fits(2 * m.d.len()) {
                    return if *self == ToComplex { consumed(m, "TypeCanNotResize") } else { bad(m) };
                }
                let c = m.c();
                let mut n = M { cplx: true, ..m.clone() };
                n.set_c(&c);
                moved(n)
            }
            Get(_) | GetRealImag | GetMagPhase => {
                let parts = match self {
                    Get(q) => vec![*q],
                    GetRealImag => vec![Part::Re, Part::Im],
                    _ => vec![Part::Mag, Part::Phase],
                };
                let mut a = args.to_vec();
                let fine = m.cplx && a.iter().all(|x| !x.cplx);
                for (t, q) in a.iter_mut().zip(parts) {
                    if fine {
                        t.d = m.c().iter().map(|x| part(q, *x)).collect();
                        t.delta = m.delta;
                    } else {
                        t.d.clear();
                    }
                }
                Ex { args: Some(a), ..val(m.clone()) }
            }
            SetRealImag | SetMagPhase => {
                if !m.cplx {
                    return Ex { ret: er("InputMustBeComplex"), ..bad(m) };
                }
                if args.iter().any(|a| a.cplx) {
                    return rej(m, "InputMustBeReal");
                }
                if args[0].d.len() != args[1].d.len() {
                    return rej(m, "InvalidArgumentLength");
                }
                let mut n = m.clone();
                n.set_c(
                    &args[0]
                        .d
                        .iter()
                        .zip(&args[1].d)
                        .map(|(a, b)| if *self == SetRealImag { C::new(*a, *b) } else { C::from_polar(*a, *b) })
                        .collect::<Vec<_>>(),
                );
                val(n)
            }
            Sum(_) | SumSq(_) => {
                if m.cplx {
                    return num(m, vec![f64::NAN]);
                }
                let sq = matches!(self, SumSq(_));
                num(m, vec![m.d.iter().map(|x| if sq { x * x } else { *x }).sum()])
            }
            SumC(_) | SumSqC(_) => {
                if !m.cplx {
                    return num(m, vec![f64::NAN, f64::NAN]);
                }
                let sq = matches!(self, SumSqC(_));
                let s = kahan_sum_c(&m.c().iter().map(|x| if sq { x * x } else { *x }).collect::<Vec<_>>());
                num(m, vec![s.re, s.im])
            }
            Stats(_) => {
                if m.cplx || m.d.is_empty() {
                    return unspec(m);
                }
                num(m, stats_r(&m.d))
            }
            StatsC(_) => {
                if !m.cplx {
                    // the invalid result
                    return num(m, vec![f64::NAN; 13]);
                }
                if m.d.is_empty() {
                    return unspec(m);
                }
                num(m, stats_c(&m.c()))
            }
            StatsSplit(k, _) | StatsSplitC(k, _) => {
                let c = matches!(self, StatsSplitC(..));
                if c && !m.cplx {
                    return rej(m, "InputMustBeComplex");
                }
                if *k == 0 {
                    return num(m, vec![]);
                }
                if *k > SPLIT_MAX {
                    return rej(m, "InvalidArgumentLength");
                }
                if m.cplx != c || p < *k {
                    return unspec(m);
                }
                let x = m.c();
                let mut r = Vec::new();
                for j in 0..*k {
                    let col: Vec<C> = (0..p).filter(|i| i % k == j).map(|i| x[i]).collect();
                    if c {
                        r.extend(stats_c(&col));
                    } else {
                        r.extend(stats_r(&col.iter().map(|v| v.re).collect::<Vec<_>>()));
                    }
                }
                num(m, r)
            }
            Dot(_) => {
                if m.cplx {
                    return rej(m, "InputMustBeReal");
                }
                let a = &args[0];
                if a.cplx || a.freq != m.freq {
                    return rej(m, "InputMetaDataMustAgree");
                }
                if a.d.len() != m.d.len() {
                    return rej(m, "InputMustHaveTheSameSize");
                }
                num(m, vec![m.d.iter().zip(&a.d).map(|(x, y)| x * y).sum()])
            }
            DotC(_) => {
                if !m.cplx {
                    return rej(m, "InputMustBeComplex");
                }
                let a = &args[0];
                if !a.cplx || a.freq != m.freq {
                    return rej(m, "InputMetaDataMustAgree");
                }
                if a.d.len() != m.d.len() {
                    return rej(m, "InputMustHaveTheSameSize");
                }
                let s = kahan_sum_c(&m.c().iter().zip(a.c()).map(|(x, y)| x * y).collect::<Vec<_>>());
                num(m, vec![s.re, s.im])
            }
            Map(a) => {
                if m.cplx {
                    return bad(m);
                }
                let mut n = m.clone();
                for (i, x) in n.d.iter_mut().enumerate() {
                    *x = *x * 3.0 + i as f64 * 7.0 + a;
                }
                val(n)
            }
            MapC(a) => elem_c(m, |i, x| x * 3.0 + C::new(i as f64 * 7.0, *a)),
            MapAggr(a) => {
                if m.cplx {
                    return rej(m, "InputMustBeReal");
                }
                if m.d.is_empty() {
                    return rej(m, "InputMustNotBeEmpty");
                }
                num(m, vec![m.d.iter().enumerate().map(|(i, x)| x * (i + 1) as f64 + a).sum()])
            }
            MapAggrC(a) => {
                if !m.cplx {
                    return rej(m, "InputMustBeComplex");
                }
                if m.d.is_empty() {
                    return rej(m, "InputMustNotBeEmpty");
                }
                num(m, vec![m.c().iter().enumerate().map(|(i, x)| (x.re + 2.0 * x.im) * (i + 1) as f64 + a).sum()])
            }
            PlainFft | Fft | WindowedFft(_) => {
                if m.freq {
                    return bad(m);
                }
                if !fits(2 * p) {
                    return bad(m);
                }
                let x = match self {
                    WindowedFft(w) => window(m, *w, false),
                    _ => m.c(),
                };
                let mut y = dft(&x, -1.0);
                if *self != PlainFft {
                    y = fftshift(&y);
                }
                let mut n = M { cplx: true, freq: true, delta: fft_delta(m.delta, p), ..m.clone() };
                n.set_c(&y);
                Ex { tol: (p as f64).max(1.0), ..val(n) }
            }
            PlainIfft | Ifft | WindowedIfft(_) => {
                // A real spectrum is accepted and has zero imaginary parts
                if !m.freq {
                    return bad(m);
                }
                if !fits(2 * p) {
                    return unspec(m);
                }
                let mut x = m.c();
                if *self != PlainIfft {
                    x = ifftshift(&x);
                }
                let mut y = dft(&x, 1.0);
                if *self != PlainIfft {
                    y.iter_mut().for_each(|v| *v /= p as f64);
                }
                let mut n = M { cplx: true, freq: false, delta: fft_delta(m.delta, p), ..m.clone() };
                n.set_c(&y);
                if let WindowedIfft(w) = self {
                    let z = window(&n, *w, true);
                    n.set_c(&z);
                }
                Ex { tol: (p as f64).max(1.0), ..val(n) }
            }
            PlainSfft | Sfft | WindowedSfft(_) => {
                if m.freq || m.cplx {
                    return Ex { any_err: m.cplx, ..consumed(m, "InputMustBeInTimeDomain") };
                }
                if p % 2 == 0 {
                    return consumed(m, "InputMustHaveAnOddLength");
                }
                if !fits(2 * p) {
                    return consumed(m, "TypeCanNotResize");
                }
                let x = match self {
                    WindowedSfft(w) => window(m, *w, false),
                    _ => m.c(),
                };
                let y = dft(&x, -1.0);
                let mut n = M { cplx: true, freq: true, delta: fft_delta(m.delta, p), ..m.clone() };
                n.set_c(&y[..p / 2 + 1]);
                Ex { tol: (p as f64).max(1.0), ..val(n) }
            }
            PlainSifft | Sifft | WindowedSifft(_) => {
                if !m.freq || !m.cplx {
                    return Ex { any_err: !m.cplx, ..consumed(m, "InputMustBeInFrequencyDomain") };
                }
                if p > 0 && m.d[1].abs() > 1e-3 {
                    return consumed(m, "InputMustBeConjSymmetric");
                }
                let x = m.c();
                if p == 0 {
                    return unspec(m);
                }
                let n2 = 2 * p - 1;
                // The inverse is done with the mirrored spectrum
                if !fits(2 * n2) {
                    return consumed(m, "TypeCanNotResize");
                }
                let mut full = x.clone();
                for i in (1..p).rev() {
                    full.push(x[i].conj());
                }
                let mut y: Vec<C> = dft(&full, 1.0);
                if *self != PlainSifft {
                    y.iter_mut().for_each(|v| *v /= n2 as f64);
                }
                let mut n = M { cplx: false, freq: false, delta: fft_delta(m.delta, n2), ..m.clone() };
                n.d = y.iter().map(|v| v.re).collect();
                if let WindowedSifft(w) = self {
                    let z = window(&n, *w, true);
                    n.d = z.iter().map(|v| v.re).collect();
                }
                Ex { tol: (p as f64).max(1.0), ..val(n) }
            }
            Mirror => {
                if !m.freq || !m.cplx {
                    return bad(m);
                }
                let x = m.c();
                let mut full = x.clone();
                for i in (1..p).rev() {
                    full.push(x[i].conj());
                }
                if !fits(2 * full.len()) {
                    return bad(m);
                }
                let mut n = m.clone();
                n.set_c(&full);
                moved(n)
            }
            ApplyWindow(w) | UnapplyWindow(w) => {
                if m.freq {
                    return bad(m);
                }
                let z = window(m, *w, matches!(self, UnapplyWindow(_)));
                let mut n = m.clone();
                n.d = if m.cplx { flat(&z) } else { z.iter().map(|v| v.re).collect() };
                val(n)
            }
            ConvolveSignal => {
                let a = &args[0];
                if !meta_ok(m, a) {
                    return rej(m, "InputMetaDataMustAgree");
                }
                if m.freq {
                    return rej(m, "InputMustBeInTimeDomain");
                }
                let q = a.points();
                if p < q {
                    return rej(m, "InvalidArgumentLength");
                }
                let (x, h) = (m.c(), a.c());
                let y: Vec<C> = (0..p)
                    .map(|i| {
                        let mut s = C::new(0.0, 0.0);
                        for k in 0..q {
                            s += x[(i + q - q / 2 - 1 + p - k) % p] * h[k];
                        }
                        s
                    })
                    .collect();
                let mut n = m.clone();
                n.d = if m.cplx { flat(&y) } else { y.iter().map(|v| v.re).collect() };
                Ex { tol: (q as f64).max(1.0), ..val(n) }
            }
            Convolve(r, ratio, len) | ConvolveC(r, ratio, len) => {
                let c = matches!(self, ConvolveC(..));
                if m.freq || (c && !m.cplx) {
                    return bad(m);
                }
                let l = (*len).min(p) as isize;
                let x = m.c();
                let y: Vec<C> = (0..p as isize)
                    .map(|i| {
                        let mut s = C::new(0.0, 0.0);
                        for j in -l..=l {
                            let v = x[(i + j).rem_euclid(p as isize) as usize];
                            let t = -j as f64 * ratio;
                            s += if c { v * r.ct(t) } else { v * r.t(t) };
                        }
                        s
                    })
                    .collect();
                let mut n = m.clone();
                n.d = if m.cplx { flat(&y) } else { y.iter().map(|v| v.re).collect() };
                Ex { tol: (2 * len + 1) as f64, ..val(n) }
            }
            MulFreq(r, ratio) | MulFreqC(r, ratio) => {
                let c = matches!(self, MulFreqC(..));
                if !m.freq || c && !m.cplx {
                    return bad(m);
                }
                // The spectrum has its zero frequency in the middle; x runs from -1 to 1
                let off = p % 2;
                let max = (p - off) as f64 / 2.0;
                let y: Vec<C> = m
                    .c()
                    .iter()
                    .enumerate()
                    .map(|(i, v)| {
                        let x = if p == 1 { 0.0 } else { (i as f64 - max) / max * ratio };
                        // a scale by the ratio keeps the energy of the impulse response
                        if c { v * r.cf(x) * ratio } else { v * r.f(x) * ratio }
                    })
                    .collect();
                let mut n = m.clone();
                n.d = if m.cplx { flat(&y) } else { y.iter().map(|v| v.re).collect() };
                val(n)
            }
            PrepArg | PrepArgPadded | Correlate | Interpolatef(..) | Interpolatei(..) | Interpolate(..) | Interpft(_)
            | InterpolateLin(..) | InterpolateHermite(..) => {
                let e = crate::timefreq::model(self, m, args);
                // Real vectors need room for a complex spectrum
                let need = match self {
                    Interpolatei(_, k) if *k > 1 => 2 * p * *k as usize,
                    Interpolate(_, q, _) | Interpft(q) => 2 * p.max(*q),
                    _ => e.m.d.len(),
                };
                if fits(need) || e.unspecified || !matches!(e.ret, Ret::Ok(_)) {
                    return e;
                }
                // The result doesn't fit into the storage
                match self {
                    Correlate | Interpolatei(..) | Interpolate(..) => rej(m, "TypeCanNotResize"),
                    _ => bad(m),
                }
            }
            Decimatei(k, delay) => {
                if *k == 0 {
                    return unspec(m);
                }
                moved(points_map(m, |x| x.iter().skip(*delay as usize).step_by(*k as usize).cloned().collect()))
            }
        }
    }
}

pub const TWO_PI: f64 = 2.0 * PI;
