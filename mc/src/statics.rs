//! Executes operations on the statically typed vectors of the library.
use crate::env::*;
use crate::exec::*;
use crate::flt::*;
use crate::model::*;
use crate::op::*;
use crate::store::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::*;
use num_complex::Complex;

type RT<T> = RealTimeVec<St<T>, T>;
type CT<T> = ComplexTimeVec<St<T>, T>;
type RF<T> = RealFreqVec<St<T>, T>;
type CF<T> = ComplexFreqVec<St<T>, T>;
pub type Seen = (Result<M, String>, Vec<Result<M, String>>, Ret);

fn er<E: std::fmt::Debug>(e: E) -> Ret {
    Ret::Err(format!("{:?}", e))
}
fn vr(r: VoidResult) -> Ret {
    match r {
        Ok(()) => ok(),
        Err(e) => er(e),
    }
}
macro_rules! seen {
    ($v:expr, $args:expr, $r:expr) => {{
        let r = $r;
        return Some((observe(&$v), $args.iter().map(|x| observe(x)).collect(), r));
    }};
}
macro_rules! void {
    ($v:ident, $args:expr, $e:expr) => {{
        $e;
        seen!($v, $args, ok())
    }};
}
macro_rules! res {
    ($v:ident, $args:expr, $e:expr) => {{
        let r = vr($e);
        seen!($v, $args, r)
    }};
}
macro_rules! con {
    ($args:expr, $e:expr) => {{
        let v = $e;
        seen!(v, $args, ok())
    }};
}
macro_rules! trans {
    ($args:expr, $e:expr) => {
        match $e {
            Ok(x) => seen!(x, $args, ok()),
            Err((e, x)) => seen!(x, $args, er(e)),
        }
    };
}
macro_rules! num {
    ($v:ident, $args:expr, $e:expr) => {{
        let r = Ret::Ok($e);
        seen!($v, $args, r)
    }};
}
macro_rules! numr {
    ($v:ident, $args:expr, $e:expr, $f:expr) => {{
        let r = match $e {
            Ok(x) => Ret::Ok($f(x)),
            Err(e) => er(e),
        };
        seen!($v, $args, r)
    }};
}
/// Arguments as statically typed vectors, `None` if the types don't fit.
macro_rules! typed {
    ($args:ident, $ty:ident, $cplx:expr, $freq:expr) => {{
        if $args.iter().any(|a| a.is_complex() != $cplx || (a.domain() == DataDomain::Frequency) != $freq) {
            return None;
        }
        $args.into_iter().map(|a| $ty::<T>::rededicate_from_force(a)).collect::<Vec<$ty<T>>>()
    }};
}
macro_rules! general {
    ($T:ident, $Me:ident, $cplx:expr, $freq:expr, $v:ident, $op:ident, $args:ident, $b:ident, $rec:ident) => {{
        let t = |x: f64| $T::of(x);
        let none: Vec<$Me<$T>> = Vec::new();
        match $op {
            Op::Scale(k) => void!($v, none, ScaleOps::<$T>::scale(&mut $v, t(*k))),
            Op::Offset(k) => void!($v, none, OffsetOps::<$T>::offset(&mut $v, t(*k))),
            Op::Trig(k) => void!($v, none, match k {
                crate::op::Trig::Sin => $v.sin(),
                crate::op::Trig::Cos => $v.cos(),
                crate::op::Trig::Tan => $v.tan(),
                crate::op::Trig::Asin => $v.asin(),
                crate::op::Trig::Acos => $v.acos(),
                crate::op::Trig::Atan => $v.atan(),
                crate::op::Trig::Sinh => $v.sinh(),
                crate::op::Trig::Cosh => $v.cosh(),
                crate::op::Trig::Tanh => $v.tanh(),
                crate::op::Trig::Asinh => $v.asinh(),
                crate::op::Trig::Acosh => $v.acosh(),
                crate::op::Trig::Atanh => $v.atanh(),
            }),
            Op::Sqrt => void!($v, none, $v.sqrt()),
            Op::Square => void!($v, none, $v.square()),
            Op::Root(k) => void!($v, none, $v.root(t(*k))),
            Op::Powf(k) => void!($v, none, $v.powf(t(*k))),
            Op::Ln => void!($v, none, $v.ln()),
            Op::Exp => void!($v, none, $v.exp()),
            Op::Log(k) => void!($v, none, $v.log(t(*k))),
            Op::Expf(k) => void!($v, none, $v.expf(t(*k))),
            Op::Bin(k) => {
                let a = typed!($args, $Me, $cplx, $freq);
                res!($v, a, match k {
                    crate::op::Bin::Add => $v.add(&a[0]),
                    crate::op::Bin::Sub => $v.sub(&a[0]),
                    crate::op::Bin::Mul => $v.mul(&a[0]),
                    crate::op::Bin::Div => $v.div(&a[0]),
                })
            }
            Op::BinSmaller(k) => {
                let a = typed!($args, $Me, $cplx, $freq);
                res!($v, a, match k {
                    crate::op::Bin::Add => $v.add_smaller(&a[0]),
                    crate::op::Bin::Sub => $v.sub_smaller(&a[0]),
                    crate::op::Bin::Mul => $v.mul_smaller(&a[0]),
                    crate::op::Bin::Div => $v.div_smaller(&a[0]),
                })
            }
            Op::Reverse => void!($v, none, $v.reverse()),
            Op::SwapHalves => void!($v, none, $v.swap_halves()),
            Op::ZeroPad(n, o) => res!($v, none, $v.zero_pad(*n, pad(*o))),
            Op::ZeroPadB(n, o) => res!($v, none, $v.zero_pad_b($b, *n, pad(*o))),
            Op::ZeroInterleave(k) => res!($v, none, $v.zero_interleave(*k)),
            Op::ZeroInterleaveB(k) => void!($v, none, $v.zero_interleave_b($b, *k)),
            Op::Diff => void!($v, none, $v.diff()),
            Op::DiffWithStart => void!($v, none, $v.diff_with_start()),
            Op::CumSum => void!($v, none, $v.cum_sum()),
            Op::SplitInto => {
                let mut a = typed!($args, $Me, $cplx, $freq);
                let r = {
                    let mut ts: Vec<&mut $Me<$T>> = a.iter_mut().collect();
                    vr($v.split_into(&mut ts[..]))
                };
                seen!($v, a, r)
            }
            Op::Merge => {
                let a = typed!($args, $Me, $cplx, $freq);
                let r = {
                    let ss: Vec<&$Me<$T>> = a.iter().collect();
                    vr($v.merge(&ss[..]))
                };
                seen!($v, a, r)
            }
            Op::Resize(n) => res!($v, none, ResizeOps::resize(&mut $v, *n)),
            Op::ResizeB(n) => res!($v, none, $v.resize_b($b, *n)),
            Op::SetDelta(d) => void!($v, none, $v.set_delta(t(*d))),
            Op::Interpolatef(r, f, d, n) => void!($v, none, with_resp::<$T, _>(*r, $rec, |h, _| $v.interpolatef($b, h, t(*f), t(*d), *n))),
            Op::Interpolatei(r, k) => res!($v, none, with_resp::<$T, _>(*r, $rec, |_, h| $v.interpolatei($b, h, *k))),
            Op::Interpolate(Some(r), n, d) => res!($v, none, with_resp::<$T, _>(*r, $rec, |_, h| $v.interpolate($b, Some(h), *n, t(*d)))),
            Op::Interpolate(None, n, d) => res!($v, none, $v.interpolate($b, None, *n, t(*d))),
            Op::Interpft(n) => void!($v, none, $v.interpft($b, *n)),
            Op::Decimatei(k, d) => void!($v, none, $v.decimatei(*k, *d)),
            _ => {}
        }
    }};
}
macro_rules! real {
    ($T:ident, $Me:ident, $Prec:ident, $freq:expr, $v:ident, $op:ident, $args:ident, $b:ident, $rec:ident) => {{
        let t = |x: f64| $T::of(x);
        let none: Vec<$Me<$T>> = Vec::new();
        match $op {
            Op::Abs => void!($v, none, $v.abs()),
            Op::Wrap(k) => void!($v, none, $v.wrap(t(*k))),
            Op::Unwrap(k) => void!($v, none, $v.unwrap(t(*k))),
            Op::LnApprox => void!($v, none, $v.ln_approx()),
            Op::ExpApprox => void!($v, none, $v.exp_approx()),
            Op::SinApprox => void!($v, none, $v.sin_approx()),
            Op::CosApprox => void!($v, none, $v.cos_approx()),
            Op::LogApprox(k) => void!($v, none, $v.log_approx(t(*k))),
            Op::ExpfApprox(k) => void!($v, none, $v.expf_approx(t(*k))),
            Op::PowfApprox(k) => void!($v, none, $v.powf_approx(t(*k))),
            Op::ToComplex => trans!(none, $v.to_complex()),
            Op::ToComplexB => con!(none, $v.to_complex_b($b)),
            Op::Sum(false) => num!($v, none, vec![$v.sum().f()]),
            Op::SumSq(false) => num!($v, none, vec![$v.sum_sq().f()]),
            Op::Stats(false) => num!($v, none, stats(&$v.statistics())),
            Op::StatsSplit(k, false) => numr!($v, none, $v.statistics_split(*k), |s: StatsVec<Statistics<$T>>| s.iter().flat_map(|x| stats(x)).collect()),
            Op::Sum(true) => seen!($v, none, $T::$Prec(&$v, Prec::Sum)),
            Op::SumSq(true) => seen!($v, none, $T::$Prec(&$v, Prec::SumSq)),
            Op::Stats(true) => seen!($v, none, $T::$Prec(&$v, Prec::Stats)),
            Op::StatsSplit(k, true) => seen!($v, none, $T::$Prec(&$v, Prec::Split(*k))),
            Op::Dot(p) => {
                let a = typed!($args, $Me, false, $freq);
                numr!($v, a, if *p { $v.dot_product_prec(&a[0]) } else { $v.dot_product(&a[0]) }, |x: $T| vec![x.f()])
            }
            Op::Map(a) => void!($v, none, $v.map_inplace(t(*a), &|x, i, a| {
                $rec.add(5, i as u64);
                x * $T::of(3.0) + $T::of(i as f64 * 7.0) + a
            })),
            Op::MapAggr(a) => {
                let r: ScalarResult<$T> = $v.map_aggregate(
                    t(*a),
                    &|x: $T, i, a| {
                        $rec.add(7, i as u64);
                        x * $T::of((i + 1) as f64) + a
                    },
                    &|x, y| x + y,
                );
                numr!($v, none, r, |x: $T| vec![x.f()])
            }
            Op::InterpolateLin(f, d) => void!($v, none, $v.interpolate_lin($b, t(*f), t(*d))),
            Op::InterpolateHermite(f, d) => void!($v, none, $v.interpolate_hermite($b, t(*f), t(*d))),
            _ => {}
        }
    }};
}
macro_rules! complex {
    ($T:ident, $Me:ident, $Re:ident, $Prec:ident, $freq:expr, $v:ident, $op:ident, $args:ident, $b:ident, $rec:ident) => {{
        let t = |x: f64| $T::of(x);
        let cc = |x: f64, y: f64| Complex::new($T::of(x), $T::of(y));
        let none: Vec<$Me<$T>> = Vec::new();
        match $op {
            Op::ScaleC(x, y) => void!($v, none, ScaleOps::<Complex<$T>>::scale(&mut $v, cc(*x, *y))),
            Op::OffsetC(x, y) => void!($v, none, OffsetOps::<Complex<$T>>::offset(&mut $v, cc(*x, *y))),
            Op::MulCexp(x, y) => void!($v, none, $v.multiply_complex_exponential(t(*x), t(*y))),
            Op::Conj => void!($v, none, $v.conj()),
            Op::To(Part::Mag, false) => con!(none, $v.magnitude()),
            Op::To(Part::MagSq, false) => con!(none, $v.magnitude_squared()),
            Op::To(Part::Re, false) => con!(none, $v.to_real()),
            Op::To(Part::Im, false) => con!(none, $v.to_imag()),
            Op::To(Part::Phase, false) => con!(none, $v.phase()),
            Op::To(Part::Mag, true) => con!(none, $v.magnitude_b($b)),
            Op::To(Part::MagSq, true) => con!(none, $v.magnitude_squared_b($b)),
            Op::To(Part::Re, true) => con!(none, $v.to_real_b($b)),
            Op::To(Part::Im, true) => con!(none, $v.to_imag_b($b)),
            Op::To(Part::Phase, true) => con!(none, $v.phase_b($b)),
            Op::Get(p) => {
                let mut a = typed!($args, $Re, false, $freq);
                void!($v, a, match p {
                    Part::Mag => $v.get_magnitude(&mut a[0]),
                    Part::MagSq => $v.get_magnitude_squared(&mut a[0]),
                    Part::Re => $v.get_real(&mut a[0]),
                    Part::Im => $v.get_imag(&mut a[0]),
                    Part::Phase => $v.get_phase(&mut a[0]),
                })
            }
            Op::GetRealImag | Op::GetMagPhase => {
                let mut a = typed!($args, $Re, false, $freq);
                {
                    let (x, y) = a.split_at_mut(1);
                    if *$op == Op::GetRealImag {
                        $v.get_real_imag(&mut x[0], &mut y[0]);
                    } else {
                        $v.get_mag_phase(&mut x[0], &mut y[0]);
                    }
                }
                seen!($v, a, ok())
            }
            Op::SetRealImag => {
                let a = typed!($args, $Re, false, $freq);
                res!($v, a, $v.set_real_imag(&a[0], &a[1]))
            }
            Op::SetMagPhase => {
                let a = typed!($args, $Re, false, $freq);
                res!($v, a, $v.set_mag_phase(&a[0], &a[1]))
            }
            Op::SumC(false) => num!($v, none, c($v.sum()).to_vec()),
            Op::SumSqC(false) => num!($v, none, c($v.sum_sq()).to_vec()),
            Op::StatsC(false) => num!($v, none, statsc(&$v.statistics())),
            Op::StatsSplitC(k, false) => numr!($v, none, $v.statistics_split(*k), |s: StatsVec<Statistics<Complex<$T>>>| s.iter().flat_map(|x| statsc(x)).collect()),
            Op::SumC(true) => seen!($v, none, $T::$Prec(&$v, Prec::SumC)),
            Op::SumSqC(true) => seen!($v, none, $T::$Prec(&$v, Prec::SumSqC)),
            Op::StatsC(true) => seen!($v, none, $T::$Prec(&$v, Prec::StatsC)),
            Op::StatsSplitC(k, true) => seen!($v, none, $T::$Prec(&$v, Prec::SplitC(*k))),
            Op::DotC(p) => {
                let a = typed!($args, $Me, true, $freq);
                numr!($v, a, if *p { $v.dot_product_prec(&a[0]) } else { $v.dot_product(&a[0]) }, |x: Complex<$T>| c(x).to_vec())
            }
            Op::MapC(a) => void!($v, none, $v.map_inplace(t(*a), &|x, i, a: $T| {
                $rec.add(6, i as u64);
                x * $T::of(3.0) + Complex::new($T::of(i as f64 * 7.0), a)
            })),
            Op::MapAggrC(a) => {
                let r: ScalarResult<$T> = $v.map_aggregate(
                    t(*a),
                    &|x: Complex<$T>, i, a| {
                        $rec.add(8, i as u64);
                        (x.re + $T::of(2.0) * x.im) * $T::of((i + 1) as f64) + a
                    },
                    &|x, y| x + y,
                );
                numr!($v, none, r, |x: $T| vec![x.f()])
            }
            _ => {}
        }
    }};
}
macro_rules! time {
    ($T:ident, $Me:ident, $cplx:expr, $v:ident, $op:ident, $args:ident, $b:ident, $rec:ident) => {{
        let t = |x: f64| $T::of(x);
        let none: Vec<$Me<$T>> = Vec::new();
        match $op {
            Op::ApplyWindow(w) => void!($v, none, $v.apply_window(&*win::<$T>(*w, $rec))),
            Op::UnapplyWindow(w) => void!($v, none, $v.unapply_window(&*win::<$T>(*w, $rec))),
            Op::PlainFft => con!(none, $v.plain_fft($b)),
            Op::Fft => con!(none, $v.fft($b)),
            Op::WindowedFft(w) => con!(none, $v.windowed_fft($b, &*win::<$T>(*w, $rec))),
            Op::ConvolveSignal => {
                let a = typed!($args, $Me, $cplx, false);
                res!($v, a, $v.convolve_signal($b, &a[0]))
            }
            Op::Convolve(r, ratio, len) => void!($v, none, with_resp::<$T, _>(*r, $rec, |f, _| $v.convolve($b, f, t(*ratio), *len))),
            _ => {}
        }
    }};
}
macro_rules! freq {
    ($T:ident, $Me:ident, $v:ident, $op:ident, $args:ident, $b:ident, $rec:ident) => {{
        let none: Vec<$Me<$T>> = Vec::new();
        if let Op::MulFreq(r, ratio) = $op {
            void!($v, none, with_resp::<$T, _>(*r, $rec, |_, f| $v.multiply_frequency_response(f, $T::of(*ratio))))
        }
    }};
}

fn rt<T: Flt>(mut v: RT<T>, op: &Op, args: Vec<G<T>>, b: &mut Buf<T>, rec: &Rec) -> Option<Seen> {
    general!(T, RT, false, false, v, op, args, b, rec);
    real!(T, RT, prec_r, false, v, op, args, b, rec);
    time!(T, RT, false, v, op, args, b, rec);
    let none: Vec<RT<T>> = Vec::new();
    match op {
        Op::PlainSfft => trans!(none, v.plain_sfft(b)),
        Op::Sfft => trans!(none, v.sfft(b)),
        Op::WindowedSfft(w) => trans!(none, v.windowed_sfft(b, &*win::<T>(*w, rec))),
        _ => None,
    }
}
fn ct<T: Flt>(mut v: CT<T>, op: &Op, args: Vec<G<T>>, b: &mut Buf<T>, rec: &Rec) -> Option<Seen> {
    general!(T, CT, true, false, v, op, args, b, rec);
    complex!(T, CT, RT, prec_c, false, v, op, args, b, rec);
    time!(T, CT, true, v, op, args, b, rec);
    let none: Vec<CT<T>> = Vec::new();
    match op {
        Op::ConvolveC(r, ratio, len) => {
            let u = UResp(*r, rec);
            void!(v, none, v.convolve(b, &u as &dyn ComplexImpulseResponse<T>, T::of(*ratio), *len))
        }
        Op::PrepArg => con!(none, v.prepare_argument(b)),
        Op::PrepArgPadded => con!(none, v.prepare_argument_padded(b)),
        Op::Correlate => {
            let a = typed!(args, CF, true, true);
            res!(v, a, v.correlate(b, &a[0]))
        }
        _ => None,
    }
}
fn rf<T: Flt>(mut v: RF<T>, op: &Op, args: Vec<G<T>>, b: &mut Buf<T>, rec: &Rec) -> Option<Seen> {
    general!(T, RF, false, true, v, op, args, b, rec);
    real!(T, RF, prec_r, true, v, op, args, b, rec);
    freq!(T, RF, v, op, args, b, rec);
    None
}
fn cf<T: Flt>(mut v: CF<T>, op: &Op, args: Vec<G<T>>, b: &mut Buf<T>, rec: &Rec) -> Option<Seen> {
    general!(T, CF, true, true, v, op, args, b, rec);
    complex!(T, CF, RF, prec_c, true, v, op, args, b, rec);
    freq!(T, CF, v, op, args, b, rec);
    let none: Vec<CF<T>> = Vec::new();
    match op {
        Op::MulFreqC(r, ratio) => {
            let u = UResp(*r, rec);
            void!(v, none, v.multiply_frequency_response(&u as &dyn ComplexFrequencyResponse<T>, T::of(*ratio)))
        }
        Op::PlainIfft => con!(none, v.plain_ifft(b)),
        Op::Ifft => con!(none, v.ifft(b)),
        Op::WindowedIfft(w) => con!(none, v.windowed_ifft(b, &*win::<T>(*w, rec))),
        Op::PlainSifft => trans!(none, v.plain_sifft(b)),
        Op::Sifft => trans!(none, v.sifft(b)),
        Op::WindowedSifft(w) => trans!(none, v.windowed_sifft(b, &*win::<T>(*w, rec))),
        Op::FftShift => void!(v, none, v.fft_shift()),
        Op::IfftShift => void!(v, none, v.ifft_shift()),
        Op::Mirror => void!(v, none, v.mirror(b)),
        _ => None,
    }
}

/// Executes the operation on the statically typed vector with the state of `v`, `None` if the
/// operation isn't available for that type.
pub fn exec_static<T: Flt>(v: G<T>, op: &Op, args: Vec<G<T>>, b: &mut Buf<T>, rec: &Rec) -> Option<Seen> {
    match (v.is_complex(), v.domain() == DataDomain::Frequency) {
        (false, false) => rt(RT::rededicate_from_force(v), op, args, b, rec),
        (true, false) => ct(CT::rededicate_from_force(v), op, args, b, rec),
        (false, true) => rf(RF::rededicate_from_force(v), op, args, b, rec),
        (true, true) => cf(CF::rededicate_from_force(v), op, args, b, rec),
    }
}
