//! Convolution with functions, weighting with frequency responses, lookup tables.
use super::common::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::*;
use num_complex::Complex;

const RESPS: [Resp; 9] = [
    Resp::Sinc, Resp::Rc(0.5), Resp::Rc(0.25), Resp::Gauss(true), Resp::Gauss(false), Resp::Lorentz(true), Resp::Lorentz(false), Resp::Poly, Resp::One,
];
const RATIOS: [f64; 5] = [1.0, 0.5, 0.25, 0.3, 1.5];

fn conv<T: Flt>(p: &mut Plan, t: Tier) {
    for n in 0..=t.pick(16usize, 34) {
        p.unit(format!("convolve {} n={}", T::NAME, n), move |ctx| {
            for cplx in [false, true] {
                for l in 0..=n + 2 {
                    for r in RESPS {
                        for ratio in RATIOS {
                            let m = vec_m(cplx, false, n, 2);
                            for (i, cfg) in cfgs(t, n + 2).into_iter().enumerate() {
                                // All storages with one function, all functions with one storage
                                if i == 0 || i == 4 || r == Resp::Poly && ratio == 0.5 {
                                    go::<T>(ctx, &cfg, &m, &[], &Op::Convolve(r, ratio, l));
                                    go::<T>(ctx, &cfg, &m, &[], &Op::ConvolveC(r, ratio, l));
                                }
                            }
                        }
                    }
                    if n <= t.pick(8, 14) {
                        for m in basis(cplx, false, n) {
                            go::<T>(ctx, &Cfg::slice(1).spare(1), &m, &[], &Op::Convolve(Resp::Poly, 1.0, l));
                            go::<T>(ctx, &Cfg::slice(1).spare(1), &m, &[], &Op::ConvolveC(Resp::Poly, 1.0, l));
                        }
                    }
                }
            }
        });
    }
}
/// The vectorised path is used for long vectors and a ratio of one.
fn simd<T: Flt>(p: &mut Plan, t: Tier) {
    let ls = t.pick(vec![0, 1, 2, 3, 4, 5, 6, 7, 49, 50, 51, 100, 101, 201, 202, 203], {
        let mut v: Vec<usize> = (0..=24).collect();
        v.extend(vec![49, 50, 51, 52, 99, 100, 101, 102, 150, 200, 201, 202, 203, 204]);
        v
    });
    for cplx in [false, true] {
        let c = if cplx { 1000usize } else { 2000 };
        let mut lens: Vec<usize> = (c - 1..=c + t.pick(5, 10)).collect();
        if cplx {
            lens.extend(t.pick(vec![5001], vec![5000, 5001, 5002, 6161, 6162, 8192]));
        }
        for n in lens {
            let ls = ls.clone();
            p.unit(format!("vectorised convolve {} n={} cplx={}", T::NAME, n, cplx), move |ctx| {
                let big = BufKind::Fixed(1 << 18);
                let m = vec_m(cplx, false, n, 2);
                for l in ls.iter().cloned() {
                    for r in [Resp::Gauss(true), Resp::Poly, Resp::Lorentz(false), Resp::Sinc] {
                        let r = if l > 10 && r == Resp::Poly { Resp::Lorentz(true) } else { r };
                        for cfg in [Cfg::vec(), Cfg::slice(0).spare(2).buf(big), Cfg::slice(1).buf(big)] {
                            if n > 4000 && (l < 48 || r != Resp::Lorentz(false)) {
                                continue;
                            }
                            go::<T>(ctx, &cfg, &m, &[], &Op::Convolve(r, 1.0, l));
                            if cplx {
                                go::<T>(ctx, &cfg, &m, &[], &Op::ConvolveC(r, 1.0, l));
                            }
                        }
                    }
                }
                // All other ratios around the conditions of the vectorised path
                for l in t.pick(vec![1, 6, 30], vec![1, 2, 5, 6, 7, 30, 60, 101]) {
                    for ratio in [0.2, 0.25, 1.0 / 3.0, 0.4, 0.45, 0.5, 0.55, 0.75, 0.99, 1.0, 1.01, 1.5, 2.0, 3.0, 4.0, 1e7] {
                        for cfg in [Cfg::vec(), Cfg::slice(1).buf(big)] {
                            for r in [Resp::Lorentz(false), Resp::Gauss(true)] {
                                go::<T>(ctx, &cfg, &m, &[], &Op::Convolve(r, ratio, l));
                                if cplx {
                                    go::<T>(ctx, &cfg, &m, &[], &Op::ConvolveC(r, ratio, l));
                                }
                            }
                        }
                    }
                }
            });
        }
    }
}
/// A response with a jump isn't decided if a bin is at the jump.
fn jump(r: Resp, ratio: f64, n: usize) -> bool {
    if r != Resp::Sinc || n < 2 {
        return false;
    }
    let max = ((n - n % 2) / 2) as f64;
    (0..n).any(|i| (((i as f64 - max) / max * ratio).abs() - 1.0).abs() < 1e-5)
}
fn freq<T: Flt>(p: &mut Plan, t: Tier) {
    let mut sizes: Vec<usize> = (0..=t.pick(48, 130)).collect();
    sizes.extend(t.pick(vec![127, 1000], vec![255, 256, 257, 1000, 1001]));
    for n in sizes {
        p.unit(format!("response {} n={}", T::NAME, n), move |ctx| {
            for cplx in [false, true] {
                for r in RESPS {
                    for ratio in [1.0, 0.5, 2.0, 0.3, 1.25] {
                        if jump(r, ratio, n) {
                            continue;
                        }
                        for m in [vec_m(cplx, true, n, 2), M { d: vec![1.0; if cplx { 2 * n } else { n }], ..vec_m(cplx, true, n, 2) }] {
                            for cfg in cfgs(t, 0) {
                                go::<T>(ctx, &cfg, &m, &[], &Op::MulFreq(r, ratio));
                                go::<T>(ctx, &cfg, &m, &[], &Op::MulFreqC(r, ratio));
                            }
                        }
                    }
                }
            }
        });
    }
}

/// Linear interpolation of a table around its center, zero outside.
fn look(table: &[Complex<f64>], delta: f64, x: f64) -> Option<Complex<f64>> {
    let n = table.len() as f64;
    let pos = x / delta + (table.len() / 2) as f64;
    // The border between the outermost interval and the outside isn't decided
    if (pos + 0.5).abs() < 1e-3 || (pos - n + 0.5).abs() < 1e-3 {
        return None;
    }
    if pos < -0.5 || pos > n - 0.5 {
        return Some(Complex::new(0.0, 0.0));
    }
    let pos = pos.max(0.0).min(n - 1.0);
    let b = pos.floor() as usize;
    let nx = (b + 1).min(table.len() - 1);
    Some(table[b] + (table[nx] - table[b]) * (pos - b as f64))
}
trait CF {
    fn cf(self) -> Complex<f64>;
}
impl CF for f32 {
    fn cf(self) -> Complex<f64> {
        Complex::new(self as f64, 0.0)
    }
}
impl CF for f64 {
    fn cf(self) -> Complex<f64> {
        Complex::new(self, 0.0)
    }
}
impl CF for Complex<f32> {
    fn cf(self) -> Complex<f64> {
        Complex::new(self.re as f64, self.im as f64)
    }
}
impl CF for Complex<f64> {
    fn cf(self) -> Complex<f64> {
        self
    }
}
fn cmp_c(what: &str, got: &[Complex<f64>], want: &[Complex<f64>], tol: f64) -> Result<(), String> {
    cmp_data(what, &flat(got), &flat(want), tol, false)
}
const DELTAS: [f64; 4] = [1.0, 0.5, 0.2, 0.125];
/// Without the standard library a table has no more than 64 entries, and its transforms need twice as much
const NO_HEAP: bool = !cfg!(feature = "std");
macro_rules! tables {
    ($name:ident, $t:ident) => {
        fn $name(p: &mut Plan, t: Tier) {
            const EPS: f64 = <$t as Flt>::EPS * 8.0;
            // Each kind of table: raw contents
            macro_rules! raw {
                ($ctx:expr, $ty:ident, $tr:ident, $n:expr, $mk:expr) => {
                    for (di, delta) in DELTAS.iter().enumerate() {
                        let key = format!("{}::calc/{}", stringify!($ty), stringify!($t));
                        $ctx.case(&key, format_args!("{} points delta={}", $n, delta), || {
                            let data: Vec<_> = (0..$n).map($mk).collect();
                            let ty = $ty::<$t>::from_raw_parts(&data, *delta as $t, di % 2 == 0);
                            let tr: &dyn $tr<$t> = &ty;
                            let want: Vec<Complex<f64>> = data.iter().map(|x| x.cf()).collect();
                            cmp_c("table()", &ty.table().iter().map(|x| x.cf()).collect::<Vec<_>>(), &want, 0.0)?;
                            if ty.delta() != *delta as $t || tr.is_symmetric() != (di % 2 == 0) {
                                return Err("delta() or is_symmetric() differ from the arguments".into());
                            }
                            let half = $n as i64 / 2 + 3;
                            // A grid of eight positions for each interval, beyond both ends
                            for k in -8 * half..=8 * half {
                                let x = (k as f64 / 8.0 * delta) as $t;
                                if let Some(w) = look(&want, *delta as $t as f64, x as f64) {
                                    cmp_c(&format!("calc({})", x), &[tr.calc(x).cf()], &[w], EPS)?;
                                }
                            }
                            Ok(())
                        });
                    }
                };
            }
            for n in 1..=t.pick(24usize, if NO_HEAP { 64 } else { 70 }) {
                p.unit(format!("tables {} n={}", stringify!($t), n), move |ctx| {
                    ctx.state(n as u64);
                    let v = vals(2 * n, 1);
                    let v = &v;
                    raw!(ctx, RealTimeLinearTableLookup, RealImpulseResponse, n, |i: usize| v[i] as $t);
                    raw!(ctx, RealFrequencyLinearTableLookup, RealFrequencyResponse, n, |i: usize| v[i] as $t);
                    raw!(ctx, ComplexTimeLinearTableLookup, ComplexImpulseResponse, n, |i: usize| Complex::new(v[i] as $t, v[n + i] as $t));
                    raw!(ctx, ComplexFrequencyLinearTableLookup, ComplexFrequencyResponse, n, |i: usize| Complex::new(v[i] as $t, v[n + i] as $t));
                    if !NO_HEAP || n <= 24 {
                        conversions(ctx, n, v);
                    }
                });
            }
            fn conversions(ctx: &mut Ctx, n: usize, v: &[f64]) {
                for (di, delta) in DELTAS.iter().enumerate() {
                    let delta = *delta as $t;
                    let sym = di % 2 == 1;
                    let re: Vec<$t> = v[..n].iter().map(|x| *x as $t).collect();
                    let cx: Vec<Complex<$t>> = (0..n).map(|i| Complex::new(v[i] as $t, v[n + i] as $t)).collect();
                    let rw: Vec<Complex<f64>> = re.iter().map(|x| x.cf()).collect();
                    let cw: Vec<Complex<f64>> = cx.iter().map(|x| x.cf()).collect();
                    let wre: Vec<Complex<f64>> = cw.iter().map(|x| Complex::new(x.re, 0.0)).collect();
                    macro_rules! same {
                        ($what:expr, $tab:expr, $want:expr, $delta:expr, $eps:expr, $tr:ident) => {{
                            let tab = $tab;
                            cmp_c($what, &tab.table().iter().map(|x| x.cf()).collect::<Vec<_>>(), $want, $eps)?;
                            let d: f64 = $delta;
                            if (tab.delta() as f64 - d).abs() > 1e-5 * d {
                                return Err(format!("{}: delta {} instead of {}", $what, tab.delta(), d));
                            }
                            let tr: &dyn $tr<$t> = &tab;
                            if tr.is_symmetric() != sym {
                                return Err(format!("{}: is_symmetric changed", $what));
                            }
                            tab
                        }};
                    }
                    let (d, nn) = (delta as f64, n as f64);
                    ctx.case(&format!("table conversion/{}", stringify!($t)), format_args!("{} points delta={}", n, delta), || {
                        let rt = || RealTimeLinearTableLookup::<$t>::from_raw_parts(&re, delta, sym);
                        let rf = || RealFrequencyLinearTableLookup::<$t>::from_raw_parts(&re, delta, sym);
                        let ct = || ComplexTimeLinearTableLookup::<$t>::from_raw_parts(&cx, delta, sym);
                        let cf = || ComplexFrequencyLinearTableLookup::<$t>::from_raw_parts(&cx, delta, sym);
                        same!("time to_complex", rt().to_complex(), &rw, d, 0.0, ComplexImpulseResponse);
                        same!("freq to_complex", rf().to_complex(), &rw, d, 0.0, ComplexFrequencyResponse);
                        same!("time to_real", ct().to_real(), &wre, d, 0.0, RealImpulseResponse);
                        same!("freq to_real", cf().to_real(), &wre, d, 0.0, RealFrequencyResponse);
                        let fc = fftshift(&dft(&cw, -1.0));
                        let fr: Vec<Complex<f64>> = fftshift(&dft(&rw, -1.0)).iter().map(|x| Complex::new(x.norm(), 0.0)).collect();
                        let f = same!("complex fft", ct().fft(), &fc, d * nn, EPS * nn, ComplexFrequencyResponse);
                        same!("fft and ifft", f.ifft(), &cw, d, EPS * nn, ComplexImpulseResponse);
                        same!("real fft", rt().fft(), &fr, d * nn, EPS * nn, RealFrequencyResponse);
                        let mut ic = dft(&ifftshift(&cw), 1.0);
                        ic.iter_mut().for_each(|x| *x /= nn);
                        same!("complex ifft", cf().ifft(), &ic, d / nn, EPS * nn, ComplexImpulseResponse);
                        Ok(())
                    });
                }
            }
            // Tables made from functions
            for len in 0..=t.pick(12usize, if NO_HEAP { 31 } else { 40 }) {
                p.unit(format!("table of function {} len={}", stringify!($t), len), move |ctx| {
                    for r in RESPS {
                        for delta in DELTAS {
                            let key = format!("from_conv_function/{}", stringify!($t));
                            ctx.case(&key, format_args!("{:?} delta={} len={}", r, delta, len), || {
                                let d = delta as $t;
                                let u = UResp(r, &NOREC);
                                let xs: Vec<f64> = (0..2 * len + 1).map(|i| ((i as f64 - len as f64) as $t * d) as f64).collect();
                                let rd = |f: f64| Complex::new(f as $t as f64, 0.0);
                                macro_rules! one {
                                    ($ty:ident, $tr:ident, $w:expr) => {{
                                        let tab = $ty::<$t>::from_conv_function(&u as &dyn $tr<$t>, d, len);
                                        let want: Vec<Complex<f64>> = xs.iter().map($w).collect();
                                        cmp_c(stringify!($ty), &tab.table().iter().map(|x| x.cf()).collect::<Vec<_>>(), &want, EPS)?;
                                        let tr: &dyn $tr<$t> = &tab;
                                        if tab.delta() != d || tr.is_symmetric() != r.declared_symmetric() {
                                            return Err(format!("{}: delta or symmetry not taken over", stringify!($ty)));
                                        }
                                        // Exact at the supporting points
                                        for (x, w) in xs.iter().zip(&want) {
                                            cmp_c(stringify!($ty), &[tr.calc(*x as $t).cf()], &[*w], EPS)?;
                                        }
                                    }};
                                }
                                one!(RealTimeLinearTableLookup, RealImpulseResponse, |x: &f64| rd(r.t(*x)));
                                one!(RealFrequencyLinearTableLookup, RealFrequencyResponse, |x: &f64| rd(r.f(*x)));
                                one!(ComplexTimeLinearTableLookup, ComplexImpulseResponse, |x: &f64| r.ct(*x));
                                one!(ComplexFrequencyLinearTableLookup, ComplexFrequencyResponse, |x: &f64| r.cf(*x));
                                Ok(())
                            });
                            // The table in a convolution
                            let n = 7;
                            ctx.case(&format!("convolve with table/{}", stringify!($t)), format_args!("{:?} delta={} len={}", r, delta, len), || {
                                let d = delta as $t;
                                let u = UResp(r, &NOREC);
                                let tab = RealTimeLinearTableLookup::<$t>::from_conv_function(&u as &dyn RealImpulseResponse<$t>, d, len);
                                let want: Vec<Complex<f64>> = tab.table().iter().map(|x| x.cf()).collect();
                                let x = vals(n, 3);
                                let store: arrayvec::ArrayVec<$t, 64> = x.iter().map(|x| *x as $t).collect();
                                let temp: arrayvec::ArrayVec<$t, 64> = (0..64).map(|_| <$t>::NAN).collect();
                                let mut v = store.to_real_time_vec();
                                let mut buffer = FixedLenBuffer::new(temp);
                                v.convolve(&mut buffer, &tab as &dyn RealImpulseResponse<$t>, 0.75, 3);
                                for i in 0..n as i64 {
                                    let mut s = 0.0;
                                    for j in -3..=3i64 {
                                        let w = match look(&want, delta as $t as f64, -j as f64 * 0.75) {
                                            Some(w) => w.re,
                                            None => return Ok(()),
                                        };
                                        s += x[(i + j).rem_euclid(n as i64) as usize] as $t as f64 * w;
                                    }
                                    cmp_data("convolved", &[v[i as usize] as f64], &[s], EPS, false)?;
                                }
                                Ok(())
                            });
                        }
                    }
                });
            }
            // The functions of the library
            for r in [Resp::Sinc, Resp::Rc(0.1), Resp::Rc(0.25), Resp::Rc(0.35), Resp::Rc(0.5), Resp::Rc(0.75), Resp::Rc(1.0)] {
                p.unit(format!("function {:?} {}", r, stringify!($t)), move |ctx| {
                    let mut xs: Vec<$t> = (-80..=80).map(|k| k as $t / 16.0).collect();
                    xs.extend((-60..=60).map(|k| k as $t * 0.1));
                    // Around singularities
                    let mut sp: Vec<$t> = vec![0.0, 1.0, 2.0];
                    if let Resp::Rc(b) = r {
                        let b = b as $t;
                        sp.extend(vec![1.0 / (2.0 * b), 0.5 / b, 1.0 - b, 1.0 + b]);
                    }
                    for s in sp {
                        for k in -4..=4i64 {
                            let x = <$t>::from_bits((s.to_bits() as i64 + k).max(0) as _);
                            xs.push(x);
                            xs.push(-x);
                        }
                        for e in [1e-7, 1e-6, 1e-5, 1e-4, 1e-3] {
                            xs.extend(vec![s + e, s - e, -s - e, -s + e]);
                        }
                    }
                    for x in xs {
                        ctx.case(&format!("calc {:?}/{}", r, stringify!($t)), format_args!("x={:e}", x), || {
                            let f = match r {
                                Resp::Sinc => <$t as Flt>::sinc(),
                                Resp::Rc(b) => <$t as Flt>::rc(b),
                                _ => unreachable!(),
                            };
                            let r = if let Resp::Rc(b) = r { Resp::Rc(b as $t as f64) } else { r };
                            // Cancellation next to the singularities costs half of the digits
                            let tol = <$t>::EPSILON as f64;
                            cmp_data("impulse response", &[f.t().calc(x) as f64], &[r.t(x as f64)], tol.sqrt() * 4.0, false)?;
                            if f.t().calc(x) != f.t().calc(-x) || f.f().calc(x) != f.f().calc(-x) {
                                return Err("not symmetric".into());
                            }
                            if !f.t().is_symmetric() || !f.f().is_symmetric() {
                                return Err("not declared symmetric".into());
                            }
                            let edge = if let Resp::Sinc = r { ((x as f64).abs() - 1.0).abs() < 1e-6 && x.abs() != 1.0 } else { false };
                            if !edge {
                                cmp_data("frequency response", &[f.f().calc(x) as f64], &[r.f(x as f64)], <$t as Flt>::EPS * 4.0, false)?;
                            }
                            Ok(())
                        });
                    }
                });
            }
        }
    };
}
tables!(tables32, f32);
tables!(tables64, f64);

pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "convolution with a function: all points 0..16 (thorough 0..34) x all lengths 0..n+2 x 9 functions x 5 ratios, real/complex data, real/complex function, unit impulses; \
         vectorised path: lengths at its threshold x 16 (38) function lengths x storage positions; frequency responses: all points 0..48 (0..130) x 9 functions x 5 ratios; \
         lookup tables: all sizes 1..24 (1..70) x 4 resolutions, evaluated at 8 positions per interval and beyond both ends, conversions and transforms of tables; \
         the function classes on grids and at the floating point neighbours of their singularities",
    );
    p.assume("a frequency response with a jump is not decided for a bin exactly at the jump");
    both!(conv, &mut p, t);
    both!(simd, &mut p, t);
    both!(freq, &mut p, t);
    tables32(&mut p, t);
    tables64(&mut p, t);
    super::large::large_units(&mut p, t, "C08");
    p
}
