//! Executes operations on the real library.
use crate::flt::*;
use crate::model::*;
use crate::op::*;
use crate::store::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
use num_complex::Complex;
use std::sync::Mutex;

pub type G<T> = GenDspVec<St<T>, T>;

/// Records the arguments with which user functions are called.
#[derive(Default)]
pub struct Rec {
    pub on: bool,
    pub calls: Mutex<Vec<(u64, u64)>>,
}
impl Rec {
    pub fn add(&self, a: u64, b: u64) {
        if self.on {
            self.calls.lock().unwrap_or_else(|e| e.into_inner()).push((a, b));
        }
        crossbeam::mc::yield_here();
    }
    pub fn sorted(&self) -> Vec<(u64, u64)> {
        let mut v = self.calls.lock().unwrap_or_else(|e| e.into_inner()).clone();
        v.sort();
        v
    }
}
pub static NOREC: Rec = Rec { on: false, calls: Mutex::new(Vec::new()) };

struct UWin<'a>(Win, &'a Rec);
impl<'a, T: Flt> WindowFunction<T> for UWin<'a> {
    fn is_symmetric(&self) -> bool {
        self.0.declared_symmetric()
    }
    fn window(&self, n: usize, length: usize) -> T {
        self.1.add(n as u64, length as u64);
        T::of(self.0.w(n, length))
    }
}
pub fn win<'a, T: Flt>(w: Win, rec: &'a Rec) -> Box<dyn WindowFunction<T> + 'a> {
    match w {
        Win::Rect => Box::new(RectangularWindow),
        Win::Tri => Box::new(TriangularWindow),
        Win::Hamming => Box::new(HammingWindow::<T>::default()),
        Win::HammingA(a) => Box::new(HammingWindow::<T>::new(T::of(a))),
        Win::Blackman => Box::new(BlackmanHarrisWindow),
        _ => Box::new(UWin(w, rec)),
    }
}
pub struct UResp<'a>(pub Resp, pub &'a Rec);
impl<'a, T: Flt> RealImpulseResponse<T> for UResp<'a> {
    fn is_symmetric(&self) -> bool {
        self.0.declared_symmetric()
    }
    fn calc(&self, x: T) -> T {
        self.1.add(1, x.f().to_bits());
        T::of(self.0.t(x.f()))
    }
}
impl<'a, T: Flt> RealFrequencyResponse<T> for UResp<'a> {
    fn is_symmetric(&self) -> bool {
        self.0.declared_symmetric()
    }
    fn calc(&self, x: T) -> T {
        self.1.add(2, x.f().to_bits());
        T::of(self.0.f(x.f()))
    }
}
impl<'a, T: Flt> ComplexImpulseResponse<T> for UResp<'a> {
    fn is_symmetric(&self) -> bool {
        self.0.declared_symmetric()
    }
    fn calc(&self, x: T) -> Complex<T> {
        self.1.add(3, x.f().to_bits());
        let c = self.0.ct(x.f());
        Complex::new(T::of(c.re), T::of(c.im))
    }
}
impl<'a, T: Flt> ComplexFrequencyResponse<T> for UResp<'a> {
    fn is_symmetric(&self) -> bool {
        self.0.declared_symmetric()
    }
    fn calc(&self, x: T) -> Complex<T> {
        self.1.add(4, x.f().to_bits());
        let c = self.0.cf(x.f());
        Complex::new(T::of(c.re), T::of(c.im))
    }
}
/// Calls the closure with the function object for the response.
pub fn with_resp<T: Flt, R>(r: Resp, rec: &Rec, f: impl FnOnce(&dyn RealImpulseResponse<T>, &dyn RealFrequencyResponse<T>) -> R) -> R {
    match r {
        Resp::Sinc => {
            let s = T::sinc();
            f(s.t(), s.f())
        }
        Resp::Rc(b) => {
            let s = T::rc(b);
            f(s.t(), s.f())
        }
        _ => {
            let u = UResp(r, rec);
            f(&u, &u)
        }
    }
}

pub fn c<T: Flt>(x: Complex<T>) -> [f64; 2] {
    [x.re.f(), x.im.f()]
}
pub fn stats<T: Flt>(s: &Statistics<T>) -> Vec<f64> {
    vec![s.sum.f(), s.count as f64, s.average.f(), s.rms.f(), s.min.f(), s.min_index as f64, s.max.f(), s.max_index as f64]
}
pub fn statsc<T: Flt>(s: &Statistics<Complex<T>>) -> Vec<f64> {
    let mut v = Vec::new();
    v.extend(c(s.sum));
    v.push(s.count as f64);
    v.extend(c(s.average));
    v.extend(c(s.rms));
    v.extend(c(s.min));
    v.push(s.min_index as f64);
    v.extend(c(s.max));
    v.push(s.max_index as f64);
    v
}
fn er<E: std::fmt::Debug>(e: E) -> Ret {
    Ret::Err(format!("{:?}", e))
}
fn vr(r: VoidResult) -> Ret {
    match r {
        Ok(()) => ok(),
        Err(e) => er(e),
    }
}
pub fn pad(p: Pad) -> PaddingOption {
    match p {
        Pad::End => PaddingOption::End,
        Pad::Surround => PaddingOption::Surround,
        Pad::Center => PaddingOption::Center,
    }
}

/// Executes one operation on the library.
pub fn exec<T: Flt>(mut v: G<T>, op: &Op, args: &mut [G<T>], b: &mut Buf<T>, rec: &Rec) -> (G<T>, Ret) {
    use Op::*;
    macro_rules! void {
        ($e:expr) => {{
            $e;
            (v, ok())
        }};
    }
    macro_rules! res {
        ($e:expr) => {{
            let r = vr($e);
            (v, r)
        }};
    }
    macro_rules! con {
        ($e:expr) => {
            ($e, ok())
        };
    }
    macro_rules! trans {
        ($e:expr) => {
            match $e {
                Ok(x) => (x, ok()),
                Err((e, x)) => (x, er(e)),
            }
        };
    }
    macro_rules! num {
        ($e:expr) => {{
            let r = Ret::Ok($e);
            (v, r)
        }};
    }
    macro_rules! prec {
        ($e:expr) => {{
            let r = T::prec(&v, $e);
            (v, r)
        }};
    }
    let t = |x: f64| T::of(x);
    let cc = |x: f64, y: f64| Complex::new(T::of(x), T::of(y));
    match op {
        Scale(k) => void!(ScaleOps::<T>::scale(&mut v, t(*k))),
        Offset(k) => void!(OffsetOps::<T>::offset(&mut v, t(*k))),
        ScaleC(x, y) => void!(ScaleOps::<Complex<T>>::scale(&mut v, cc(*x, *y))),
        OffsetC(x, y) => void!(OffsetOps::<Complex<T>>::offset(&mut v, cc(*x, *y))),
        Abs => void!(v.abs()),
        Wrap(k) => void!(v.wrap(t(*k))),
        Unwrap(k) => void!(v.unwrap(t(*k))),
        LnApprox => void!(v.ln_approx()),
        ExpApprox => void!(v.exp_approx()),
        SinApprox => void!(v.sin_approx()),
        CosApprox => void!(v.cos_approx()),
        LogApprox(k) => void!(v.log_approx(t(*k))),
        ExpfApprox(k) => void!(v.expf_approx(t(*k))),
        PowfApprox(k) => void!(v.powf_approx(t(*k))),
        MulCexp(x, y) => void!(v.multiply_complex_exponential(t(*x), t(*y))),
        Conj => void!(v.conj()),
        Op::Trig(k) => void!(match k {
            crate::op::Trig::Sin => v.sin(),
            crate::op::Trig::Cos => v.cos(),
            crate::op::Trig::Tan => v.tan(),
            crate::op::Trig::Asin => v.asin(),
            crate::op::Trig::Acos => v.acos(),
            crate::op::Trig::Atan => v.atan(),
            crate::op::Trig::Sinh => v.sinh(),
            crate::op::Trig::Cosh => v.cosh(),
            crate::op::Trig::Tanh => v.tanh(),
            crate::op::Trig::Asinh => v.asinh(),
            crate::op::Trig::Acosh => v.acosh(),
            crate::op::Trig::Atanh => v.atanh(),
        }),
        Sqrt => void!(v.sqrt()),
        Square => void!(v.square()),
        Root(k) => void!(v.root(t(*k))),
        Powf(k) => void!(v.powf(t(*k))),
        Ln => void!(v.ln()),
        Exp => void!(v.exp()),
        Log(k) => void!(v.log(t(*k))),
        Expf(k) => void!(v.expf(t(*k))),
        Op::Bin(k) => res!(match k {
            crate::op::Bin::Add => v.add(&args[0]),
            crate::op::Bin::Sub => v.sub(&args[0]),
            crate::op::Bin::Mul => v.mul(&args[0]),
            crate::op::Bin::Div => v.div(&args[0]),
        }),
        BinSmaller(k) => res!(match k {
            crate::op::Bin::Add => v.add_smaller(&args[0]),
            crate::op::Bin::Sub => v.sub_smaller(&args[0]),
            crate::op::Bin::Mul => v.mul_smaller(&args[0]),
            crate::op::Bin::Div => v.div_smaller(&args[0]),
        }),
        Reverse => void!(v.reverse()),
        SwapHalves => void!(v.swap_halves()),
        ZeroPad(n, o) => res!(v.zero_pad(*n, pad(*o))),
        ZeroPadB(n, o) => res!(v.zero_pad_b(b, *n, pad(*o))),
        ZeroInterleave(k) => res!(v.zero_interleave(*k)),
        ZeroInterleaveB(k) => void!(v.zero_interleave_b(b, *k)),
        Diff => void!(v.diff()),
        DiffWithStart => void!(v.diff_with_start()),
        CumSum => void!(v.cum_sum()),
        SplitInto => {
            let mut ts: Vec<&mut G<T>> = args.iter_mut().collect();
            res!(v.split_into(&mut ts[..]))
        }
        Merge => {
            let ss: Vec<&G<T>> = args.iter().collect();
            res!(v.merge(&ss[..]))
        }
        Op::Resize(n) => res!(ResizeOps::resize(&mut v, *n)),
        ResizeB(n) => res!(v.resize_b(b, *n)),
        SetDelta(d) => void!(v.set_delta(t(*d))),
        To(p, false) => con!(match p {
            Part::Mag => v.magnitude(),
            Part::MagSq => v.magnitude_squared(),
            Part::Re => v.to_real(),
            Part::Im => v.to_imag(),
            Part::Phase => v.phase(),
        }),
        To(p, true) => con!(match p {
            Part::Mag => v.magnitude_b(b),
            Part::MagSq => v.magnitude_squared_b(b),
            Part::Re => v.to_real_b(b),
            Part::Im => v.to_imag_b(b),
            Part::Phase => v.phase_b(b),
        }),
        ToComplex => trans!(v.to_complex()),
        ToComplexB => con!(v.to_complex_b(b)),
        Get(p) => {
            let d = &mut args[0];
            match p {
                Part::Mag => v.get_magnitude(d),
                Part::MagSq => v.get_magnitude_squared(d),
                Part::Re => v.get_real(d),
                Part::Im => v.get_imag(d),
                Part::Phase => v.get_phase(d),
            };
            (v, ok())
        }
        GetRealImag | GetMagPhase => {
            let (x, y) = args.split_at_mut(1);
            if *op == GetRealImag {
                v.get_real_imag(&mut x[0], &mut y[0]);
            } else {
                v.get_mag_phase(&mut x[0], &mut y[0]);
            }
            (v, ok())
        }
        SetRealImag => res!(v.set_real_imag(&args[0], &args[1])),
        SetMagPhase => res!(v.set_mag_phase(&args[0], &args[1])),
        Sum(false) => num!(vec![SumOps::<T>::sum(&v).f()]),
        Sum(true) => prec!(Prec::Sum),
        SumSq(false) => num!(vec![SumOps::<T>::sum_sq(&v).f()]),
        SumSq(true) => prec!(Prec::SumSq),
        SumC(false) => num!(c(SumOps::<Complex<T>>::sum(&v)).to_vec()),
        SumC(true) => prec!(Prec::SumC),
        SumSqC(false) => num!(c(SumOps::<Complex<T>>::sum_sq(&v)).to_vec()),
        SumSqC(true) => prec!(Prec::SumSqC),
        Stats(false) => num!(stats(&StatisticsOps::<T>::statistics(&v))),
        Stats(true) => prec!(Prec::Stats),
        StatsC(false) => num!(statsc(&StatisticsOps::<Complex<T>>::statistics(&v))),
        StatsC(true) => prec!(Prec::StatsC),
        StatsSplit(k, true) => prec!(Prec::Split(*k)),
        StatsSplitC(k, true) => prec!(Prec::SplitC(*k)),
        StatsSplit(k, false) => {
            let r = match StatisticsSplitOps::<T>::statistics_split(&v, *k) {
                Ok(s) => Ret::Ok(s.iter().flat_map(|x| stats(x)).collect()),
                Err(e) => er(e),
            };
            (v, r)
        }
        StatsSplitC(k, false) => {
            let r = match StatisticsSplitOps::<Complex<T>>::statistics_split(&v, *k) {
                Ok(s) => Ret::Ok(s.iter().flat_map(|x| statsc(x)).collect()),
                Err(e) => er(e),
            };
            (v, r)
        }
        Dot(p) => {
            let r: ScalarResult<T> = if *p {
                PreciseDotProductOps::<G<T>, T, T, _, _>::dot_product_prec(&v, &args[0])
            } else {
                DotProductOps::<G<T>, T, T, _, _>::dot_product(&v, &args[0])
            };
            let r = match r {
                Ok(x) => Ret::Ok(vec![x.f()]),
                Err(e) => er(e),
            };
            (v, r)
        }
        DotC(p) => {
            let r: ScalarResult<Complex<T>> = if *p {
                PreciseDotProductOps::<G<T>, Complex<T>, T, _, _>::dot_product_prec(&v, &args[0])
            } else {
                DotProductOps::<G<T>, Complex<T>, T, _, _>::dot_product(&v, &args[0])
            };
            let r = match r {
                Ok(x) => Ret::Ok(c(x).to_vec()),
                Err(e) => er(e),
            };
            (v, r)
        }
        Map(a) => void!(MapInplaceOps::<T>::map_inplace(&mut v, t(*a), &|x, i, a| {
            rec.add(5, i as u64);
            x * T::of(3.0) + T::of(i as f64 * 7.0) + a
        })),
        MapC(a) => void!(MapInplaceOps::<Complex<T>>::map_inplace(&mut v, t(*a), &|x, i, a: T| {
            rec.add(6, i as u64);
            x * T::of(3.0) + Complex::new(T::of(i as f64 * 7.0), a)
        })),
        MapAggr(a) => {
            let r: ScalarResult<T> = MapAggregateOps::<T, T>::map_aggregate(
                &v,
                t(*a),
                &|x, i, a| {
                    rec.add(7, i as u64);
                    x * T::of((i + 1) as f64) + a
                },
                &|x, y| x + y,
            );
            let r = match r {
                Ok(x) => Ret::Ok(vec![x.f()]),
                Err(e) => er(e),
            };
            (v, r)
        }
        MapAggrC(a) => {
            let r: ScalarResult<T> = MapAggregateOps::<Complex<T>, T>::map_aggregate(
                &v,
                t(*a),
                &|x: Complex<T>, i, a| {
                    rec.add(8, i as u64);
                    (x.re + T::of(2.0) * x.im) * T::of((i + 1) as f64) + a
                },
                &|x, y| x + y,
            );
            let r = match r {
                Ok(x) => Ret::Ok(vec![x.f()]),
                Err(e) => er(e),
            };
            (v, r)
        }
        PlainFft => con!(v.plain_fft(b)),
        Fft => con!(v.fft(b)),
        WindowedFft(w) => con!(v.windowed_fft(b, &*win::<T>(*w, rec))),
        PlainIfft => con!(v.plain_ifft(b)),
        Ifft => con!(v.ifft(b)),
        WindowedIfft(w) => con!(v.windowed_ifft(b, &*win::<T>(*w, rec))),
        PlainSfft => trans!(v.plain_sfft(b)),
        Sfft => trans!(v.sfft(b)),
        WindowedSfft(w) => trans!(v.windowed_sfft(b, &*win::<T>(*w, rec))),
        PlainSifft => trans!(v.plain_sifft(b)),
        Sifft => trans!(v.sifft(b)),
        WindowedSifft(w) => trans!(v.windowed_sifft(b, &*win::<T>(*w, rec))),
        FftShift => void!(v.fft_shift()),
        IfftShift => void!(v.ifft_shift()),
        Mirror => void!(v.mirror(b)),
        ApplyWindow(w) => void!(v.apply_window(&*win::<T>(*w, rec))),
        UnapplyWindow(w) => void!(v.unapply_window(&*win::<T>(*w, rec))),
        ConvolveSignal => res!(v.convolve_signal(b, &args[0])),
        Convolve(r, ratio, len) => void!(with_resp::<T, _>(*r, rec, |f, _| v.convolve(b, f, t(*ratio), *len))),
        ConvolveC(r, ratio, len) => {
            let u = UResp(*r, rec);
            void!(v.convolve(b, &u as &dyn ComplexImpulseResponse<T>, t(*ratio), *len))
        }
        MulFreq(r, ratio) => void!(with_resp::<T, _>(*r, rec, |_, f| v.multiply_frequency_response(f, t(*ratio)))),
        MulFreqC(r, ratio) => {
            let u = UResp(*r, rec);
            void!(v.multiply_frequency_response(&u as &dyn ComplexFrequencyResponse<T>, t(*ratio)))
        }
        PrepArg => con!(v.prepare_argument(b)),
        PrepArgPadded => con!(v.prepare_argument_padded(b)),
        Correlate => res!(v.correlate(b, &args[0])),
        Interpolatef(r, f, d, n) => void!(with_resp::<T, _>(*r, rec, |h, _| v.interpolatef(b, h, t(*f), t(*d), *n))),
        Interpolatei(r, k) => res!(with_resp::<T, _>(*r, rec, |_, h| v.interpolatei(b, h, *k))),
        Interpolate(Some(r), n, d) => res!(with_resp::<T, _>(*r, rec, |_, h| v.interpolate(b, Some(h), *n, t(*d)))),
        Interpolate(None, n, d) => res!(v.interpolate(b, None, *n, t(*d))),
        Interpft(n) => void!(v.interpft(b, *n)),
        Decimatei(k, d) => void!(v.decimatei(*k, *d)),
        InterpolateLin(f, d) => void!(v.interpolate_lin(b, t(*f), t(*d))),
        InterpolateHermite(f, d) => void!(v.interpolate_hermite(b, t(*f), t(*d))),
    }
}
