//! Executes operations on the matrix types of the library.
use crate::exec::*;
use crate::flt::*;
use crate::model::*;
use crate::op::*;
use crate::store::*;
use basic_dsp_matrix::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::*;
use num_complex::Complex;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Vec,
    Arr,
}

/// Arguments of an operation on a matrix
pub enum Arg<T: Flt> {
    /// Matrices of the same type as the receiver
    Mats(Vec<Vec<G<T>>>),
    /// A vector for all rows
    Vec(G<T>),
    /// A matrix of impulse responses
    Imp(Vec<Vec<G<T>>>),
    None,
}
impl<T: Flt> Arg<T> {
    pub fn into_rows(self) -> Vec<Vec<G<T>>> {
        match self {
            Arg::Mats(m) => m,
            Arg::Vec(v) => vec![vec![v]],
            Arg::Imp(m) => m,
            Arg::None => Vec::new(),
        }
    }
}

fn er<E: std::fmt::Debug>(e: E) -> Ret {
    Ret::Err(format!("{:?}", e))
}
fn vr(r: VoidResult) -> Ret {
    match r {
        Ok(()) => ok(),
        Err(e) => er(e),
    }
}
/// What the interface of the matrix says about itself
pub struct Meta {
    pub delta: f64,
    pub row_len: usize,
    pub row_points: usize,
    pub col_len: usize,
    pub cplx: bool,
    pub freq: bool,
    pub rows_mut: usize,
    pub got_len: usize,
}
pub struct Done<T: Flt> {
    pub rows: Vec<G<T>>,
    pub meta: Meta,
    pub args: Vec<Vec<G<T>>>,
    pub ret: Ret,
}
pub trait MatFlt: Flt {
    /// `None` if the operation doesn't exist for matrices
    fn exec_mat(shape: Shape, rows: Vec<G<Self>>, op: &Op, arg: Arg<Self>, b: &mut Buf<Self>, rec: &Rec) -> Option<Done<Self>>;
}

macro_rules! imp {
    ($T:ident, $name:ident, $Mat:ident, $vec:ident, $sum:ty, $sump:ty, $into:expr, $back:expr, $imp:expr) => {
        fn $name(rows: Vec<G<$T>>, op: &Op, arg: Arg<$T>, b: &mut Buf<$T>, rec: &Rec) -> Option<Done<$T>> {
            use Op::*;
            type V = G<$T>;
            type M = $Mat<V, St<$T>, $T>;
            let into = $into;
            let mut v: M = into(rows).to_mat();
            let t = |x: f64| x as $T;
            let cc = |x: f64, y: f64| Complex::new(x as $T, y as $T);
            fn done(mut v: M, args: Vec<Vec<G<$T>>>, ret: Ret) -> Option<Done<$T>> {
                let meta = |v: &mut M, l: usize| Meta {
                    delta: v.delta() as f64, row_len: v.row_len(), row_points: v.row_points(), col_len: v.col_len(),
                    cplx: v.is_complex(), freq: v.domain() == DataDomain::Frequency, rows_mut: v.rows_mut().len(), got_len: l,
                };
                let mut m = meta(&mut v, 0);
                let (r, l) = v.get();
                m.got_len = l;
                let back = $back;
                Some(Done { rows: back(r), meta: m, args, ret })
            }
            macro_rules! void {
                ($e:expr) => {{
                    $e;
                    return done(v, Vec::new(), ok());
                }};
            }
            macro_rules! res {
                ($e:expr) => {{
                    let r = vr($e);
                    return done(v, Vec::new(), r);
                }};
            }
            macro_rules! con {
                ($e:expr) => {{
                    let v = $e;
                    return done(v, Vec::new(), ok());
                }};
            }
            macro_rules! trans {
                ($e:expr) => {
                    match $e {
                        Ok(x) => return done(x, Vec::new(), ok()),
                        Err((e, x)) => return done(x, Vec::new(), er(e)),
                    }
                };
            }
            let mut mats: Vec<M> = Vec::new();
            let mut vecs: Vec<V> = Vec::new();
            let mut imps: Vec<Vec<V>> = Vec::new();
            let with_imps = matches!(arg, Arg::Imp(_));
            match arg {
                Arg::Mats(a) => mats = a.into_iter().map(|x| into(x).to_mat()).collect(),
                Arg::Vec(a) => vecs.push(a),
                Arg::Imp(a) => imps = a,
                Arg::None => {}
            }
            let back = |mats: Vec<M>, vecs: Vec<V>| -> Vec<Vec<V>> {
                let back = $back;
                let mut r: Vec<Vec<V>> = mats.into_iter().map(|x| back(x.get().0)).collect();
                r.extend(vecs.into_iter().map(|x| vec![x]));
                r
            };
            match op {
                Scale(k) => void!(ScaleOps::<$T>::scale(&mut v, t(*k))),
                Offset(k) => void!(OffsetOps::<$T>::offset(&mut v, t(*k))),
                ScaleC(x, y) => void!(ScaleOps::<Complex<$T>>::scale(&mut v, cc(*x, *y))),
                OffsetC(x, y) => void!(OffsetOps::<Complex<$T>>::offset(&mut v, cc(*x, *y))),
                Abs => void!(v.abs()),
                Wrap(k) => void!(v.wrap(t(*k))),
                Unwrap(k) => void!(v.unwrap(t(*k))),
                LnApprox => void!(v.ln_approx()),
                ExpApprox => void!(v.exp_approx()),
                SinApprox => void!(v.sin_approx()),
                CosApprox => void!(v.cos_approx()),
                LogApprox(k) => void!(v.log_approx(t(*k))),
                ExpfApprox(k) => void!(v.expf_approx(t(*k))),
                PowfApprox(k) => void!(v.powf_approx(t(*k))),
                MulCexp(x, y) => void!(v.multiply_complex_exponential(t(*x), t(*y))),
                Conj => void!(v.conj()),
                Op::Trig(k) => void!(match k {
                    crate::op::Trig::Sin => v.sin(),
                    crate::op::Trig::Cos => v.cos(),
                    crate::op::Trig::Tan => v.tan(),
                    crate::op::Trig::Asin => v.asin(),
                    crate::op::Trig::Acos => v.acos(),
                    crate::op::Trig::Atan => v.atan(),
                    crate::op::Trig::Sinh => v.sinh(),
                    crate::op::Trig::Cosh => v.cosh(),
                    crate::op::Trig::Tanh => v.tanh(),
                    crate::op::Trig::Asinh => v.asinh(),
                    crate::op::Trig::Acosh => v.acosh(),
                    crate::op::Trig::Atanh => v.atanh(),
                }),
                Sqrt => void!(v.sqrt()),
                Square => void!(v.square()),
                Root(k) => void!(v.root(t(*k))),
                Powf(k) => void!(v.powf(t(*k))),
                Ln => void!(v.ln()),
                Exp => void!(v.exp()),
                Log(k) => void!(v.log(t(*k))),
                Expf(k) => void!(v.expf(t(*k))),
                Op::Bin(k) => {
                    let r = if vecs.is_empty() {
                        match k {
                            crate::op::Bin::Add => v.add(&mats[0]),
                            crate::op::Bin::Sub => v.sub(&mats[0]),
                            crate::op::Bin::Mul => v.mul(&mats[0]),
                            crate::op::Bin::Div => v.div(&mats[0]),
                        }
                    } else {
                        match k {
                            crate::op::Bin::Add => v.add(&vecs[0]),
                            crate::op::Bin::Sub => v.sub(&vecs[0]),
                            crate::op::Bin::Mul => v.mul(&vecs[0]),
                            crate::op::Bin::Div => v.div(&vecs[0]),
                        }
                    };
                    return done(v, back(mats, vecs), vr(r));
                }
                BinSmaller(k) => {
                    let r = if vecs.is_empty() {
                        match k {
                            crate::op::Bin::Add => v.add_smaller(&mats[0]),
                            crate::op::Bin::Sub => v.sub_smaller(&mats[0]),
                            crate::op::Bin::Mul => v.mul_smaller(&mats[0]),
                            crate::op::Bin::Div => v.div_smaller(&mats[0]),
                        }
                    } else {
                        match k {
                            crate::op::Bin::Add => v.add_smaller(&vecs[0]),
                            crate::op::Bin::Sub => v.sub_smaller(&vecs[0]),
                            crate::op::Bin::Mul => v.mul_smaller(&vecs[0]),
                            crate::op::Bin::Div => v.div_smaller(&vecs[0]),
                        }
                    };
                    return done(v, back(mats, vecs), vr(r));
                }
                Reverse => void!(v.reverse()),
                SwapHalves => void!(v.swap_halves()),
                Diff => void!(v.diff()),
                DiffWithStart => void!(v.diff_with_start()),
                CumSum => void!(v.cum_sum()),
                Op::Resize(n) => res!(ResizeOps::resize(&mut v, *n)),
                SetDelta(d) => void!(v.set_delta(t(*d))),
                To(p, false) => con!(match p {
                    Part::Mag => v.magnitude(),
                    Part::MagSq => v.magnitude_squared(),
                    Part::Re => v.to_real(),
                    Part::Im => v.to_imag(),
                    Part::Phase => v.phase(),
                }),
                To(p, true) => con!(match p {
                    Part::Mag => v.magnitude_b(b),
                    Part::MagSq => v.magnitude_squared_b(b),
                    Part::Re => v.to_real_b(b),
                    Part::Im => v.to_imag_b(b),
                    Part::Phase => v.phase_b(b),
                }),
                ToComplex => trans!(v.to_complex()),
                ToComplexB => con!(v.to_complex_b(b)),
                Get(p) => {
                    if mats.is_empty() {
                        return None;
                    }
                    let d = &mut mats[0];
                    match p {
                        Part::Mag => v.get_magnitude(d),
                        Part::MagSq => v.get_magnitude_squared(d),
                        Part::Re => v.get_real(d),
                        Part::Im => v.get_imag(d),
                        Part::Phase => v.get_phase(d),
                    };
                    return done(v, back(mats, vecs), ok());
                }
                GetRealImag | GetMagPhase => {
                    if mats.is_empty() {
                        return None;
                    }
                    {
                        let (x, y) = mats.split_at_mut(1);
                        if *op == GetRealImag {
                            v.get_real_imag(&mut x[0], &mut y[0]);
                        } else {
                            v.get_mag_phase(&mut x[0], &mut y[0]);
                        }
                    }
                    return done(v, back(mats, vecs), ok());
                }
                SetRealImag | SetMagPhase => {
                    if mats.is_empty() {
                        return None;
                    }
                    let r = if *op == SetRealImag { v.set_real_imag(&mats[0], &mats[1]) } else { v.set_mag_phase(&mats[0], &mats[1]) };
                    return done(v, back(mats, vecs), vr(r));
                }
                Op::Sum(false) => {
                    let r: $sum = SumOps::<$sum>::sum(&v);
                    return done(v, Vec::new(), Ret::Ok(r.iter().map(|x| *x as f64).collect()));
                }
                Op::SumSq(false) => {
                    let r: $sum = SumOps::<$sum>::sum_sq(&v);
                    return done(v, Vec::new(), Ret::Ok(r.iter().map(|x| *x as f64).collect()));
                }
                Op::Sum(true) => {
                    let r: $sump = PreciseSumOps::<$sump>::sum_prec(&v);
                    return done(v, Vec::new(), Ret::Ok(r.to_vec()));
                }
                Op::SumSq(true) => {
                    let r: $sump = PreciseSumOps::<$sump>::sum_sq_prec(&v);
                    return done(v, Vec::new(), Ret::Ok(r.to_vec()));
                }
                Dot(p) => {
                    let r = if vecs.is_empty() {
                        if *p {
                            PreciseDotProductOps::<M, $T, $T, meta::RealOrComplex, meta::TimeOrFreq>::dot_product_prec(&v, &mats[0]).map(|x| x.to_vec())
                        } else {
                            DotProductOps::<M, $T, $T, meta::RealOrComplex, meta::TimeOrFreq>::dot_product(&v, &mats[0]).map(|x| x.to_vec())
                        }
                    } else {
                        if *p {
                            PreciseDotProductOps::<V, $T, $T, meta::RealOrComplex, meta::TimeOrFreq>::dot_product_prec(&v, &vecs[0]).map(|x| x.to_vec())
                        } else {
                            DotProductOps::<V, $T, $T, meta::RealOrComplex, meta::TimeOrFreq>::dot_product(&v, &vecs[0]).map(|x| x.to_vec())
                        }
                    };
                    let r = match r {
                        Ok(x) => Ret::Ok(x.iter().map(|x| *x as f64).collect()),
                        Err(e) => er(e),
                    };
                    return done(v, back(mats, vecs), r);
                }
                Map(a) => void!(MapInplaceOps::<$T>::map_inplace(&mut v, t(*a), &|x, i, a| {
                    rec.add(5, i as u64);
                    x * 3.0 + i as $T * 7.0 + a
                })),
                MapC(a) => void!(MapInplaceOps::<Complex<$T>>::map_inplace(&mut v, t(*a), &|x, i, a: $T| {
                    rec.add(6, i as u64);
                    x * 3.0 + Complex::new(i as $T * 7.0, a)
                })),
                MapAggr(a) => {
                    let r = MapAggregateOps::<$T, $T>::map_aggregate(
                        &v,
                        t(*a),
                        &|x: $T, i: usize, a: $T| {
                            rec.add(7, i as u64);
                            x * (i + 1) as $T + a
                        },
                        &|x, y| x + y,
                    );
                    let r = match r {
                        Ok(x) => Ret::Ok(x.iter().map(|x| *x as f64).collect()),
                        Err(e) => er(e),
                    };
                    return done(v, Vec::new(), r);
                }
                PlainFft => con!(v.plain_fft(b)),
                Fft => con!(v.fft(b)),
                WindowedFft(w) => con!(v.windowed_fft(b, &*win::<$T>(*w, rec))),
                PlainIfft => con!(v.plain_ifft(b)),
                Ifft => con!(v.ifft(b)),
                WindowedIfft(w) => con!(v.windowed_ifft(b, &*win::<$T>(*w, rec))),
                PlainSfft => trans!(v.plain_sfft(b)),
                Sfft => trans!(v.sfft(b)),
                WindowedSfft(w) => trans!(v.windowed_sfft(b, &*win::<$T>(*w, rec))),
                PlainSifft => trans!(v.plain_sifft(b)),
                Sifft => trans!(v.sifft(b)),
                WindowedSifft(w) => trans!(v.windowed_sifft(b, &*win::<$T>(*w, rec))),
                FftShift => void!(v.fft_shift()),
                IfftShift => void!(v.ifft_shift()),
                Mirror => void!(v.mirror(b)),
                ApplyWindow(w) => void!(v.apply_window(&*win::<$T>(*w, rec))),
                UnapplyWindow(w) => void!(v.unapply_window(&*win::<$T>(*w, rec))),
                ConvolveSignal => {
                    if !vecs.is_empty() {
                        let r = v.convolve_signal(b, &vecs[0]);
                        return done(v, back(mats, vecs), vr(r));
                    }
                    if !with_imps {
                        return None;
                    }
                    let imp = $imp;
                    let r = match imp(&mut v, b, &imps) {
                        Some(r) => vr(r),
                        None => return None,
                    };
                    return done(v, imps, r);
                }
                Convolve(r, ratio, len) => void!(with_resp::<$T, _>(*r, rec, |f, _| v.convolve(b, f, t(*ratio), *len))),
                ConvolveC(r, ratio, len) => {
                    let u = UResp(*r, rec);
                    void!(v.convolve(b, &u as &dyn ComplexImpulseResponse<$T>, t(*ratio), *len))
                }
                MulFreq(r, ratio) => void!(with_resp::<$T, _>(*r, rec, |_, f| v.multiply_frequency_response(f, t(*ratio)))),
                MulFreqC(r, ratio) => {
                    let u = UResp(*r, rec);
                    void!(v.multiply_frequency_response(&u as &dyn ComplexFrequencyResponse<$T>, t(*ratio)))
                }
                PrepArg => con!(v.prepare_argument(b)),
                PrepArgPadded => con!(v.prepare_argument_padded(b)),
                Correlate => {
                    if mats.is_empty() {
                        return None;
                    }
                    let r = v.correlate(b, &mats[0]);
                    return done(v, back(mats, vecs), vr(r));
                }
                Interpolatef(r, f, d, n) => void!(with_resp::<$T, _>(*r, rec, |h, _| v.interpolatef(b, h, t(*f), t(*d), *n))),
                Interpolatei(r, k) => res!(with_resp::<$T, _>(*r, rec, |_, h| v.interpolatei(b, h, *k))),
                Interpolate(Some(r), n, d) => res!(with_resp::<$T, _>(*r, rec, |_, h| v.interpolate(b, Some(h), *n, t(*d)))),
                Interpolate(None, n, d) => res!(v.interpolate(b, None, *n, t(*d))),
                Interpft(n) => void!(v.interpft(b, *n)),
                Decimatei(k, d) => void!(v.decimatei(*k, *d)),
                InterpolateLin(f, d) => void!(v.interpolate_lin(b, t(*f), t(*d))),
                InterpolateHermite(f, d) => void!(v.interpolate_hermite(b, t(*f), t(*d))),
                _ => {}
            }
            None
        }
    };
}
pub fn fix2<A>(v: Vec<A>) -> [A; 2] {
    v.try_into().ok().expect("harness: rows")
}
pub fn fix3<A>(v: Vec<A>) -> [A; 3] {
    v.try_into().ok().expect("harness: rows")
}
pub fn fix4<A>(v: Vec<A>) -> [A; 4] {
    v.try_into().ok().expect("harness: rows")
}
macro_rules! width {
    ($T:ident, $m:ident, $a:ident, $b:ident, $c:ident) => {
        imp!($T, $m, MatrixMxN, yes, Vec<$T>, Vec<f64>, |r: Vec<V>| r, |r: Vec<V>| r, |v: &mut M, b: &mut Buf<$T>, i: &Vec<Vec<V>>| {
            let r: Vec<Vec<&V>> = i.iter().map(|x| x.iter().collect()).collect();
            let q: Vec<&Vec<&V>> = r.iter().collect();
            Some(v.convolve_signal(b, &q))
        });
        imp!($T, $a, Matrix2xN, no, [$T; 2], [f64; 2], fix2, |r: [V; 2]| -> Vec<V> { r.into_iter().collect() }, |v: &mut M, b: &mut Buf<$T>, i: &Vec<Vec<V>>| {
            if i.len() != 2 || i.iter().any(|x| x.len() != 2) {
                return None;
            }
            let r = fix2(i.iter().map(|x| fix2(x.iter().collect::<Vec<&V>>())).collect());
            Some(v.convolve_signal(b, &r))
        });
        imp!($T, $b, Matrix3xN, no, [$T; 3], [f64; 3], fix3, |r: [V; 3]| -> Vec<V> { r.into_iter().collect() }, |v: &mut M, b: &mut Buf<$T>, i: &Vec<Vec<V>>| {
            if i.len() != 3 || i.iter().any(|x| x.len() != 3) {
                return None;
            }
            let r = fix3(i.iter().map(|x| fix3(x.iter().collect::<Vec<&V>>())).collect());
            Some(v.convolve_signal(b, &r))
        });
        imp!($T, $c, Matrix4xN, no, [$T; 4], [f64; 4], fix4, |r: [V; 4]| -> Vec<V> { r.into_iter().collect() }, |v: &mut M, b: &mut Buf<$T>, i: &Vec<Vec<V>>| {
            if i.len() != 4 || i.iter().any(|x| x.len() != 4) {
                return None;
            }
            let r = fix4(i.iter().map(|x| fix4(x.iter().collect::<Vec<&V>>())).collect());
            Some(v.convolve_signal(b, &r))
        });
        impl MatFlt for $T {
            fn exec_mat(shape: Shape, rows: Vec<G<$T>>, op: &Op, arg: Arg<$T>, b: &mut Buf<$T>, rec: &Rec) -> Option<Done<$T>> {
                match (shape, rows.len()) {
                    (Shape::Vec, _) => $m(rows, op, arg, b, rec),
                    (_, 2) => $a(rows, op, arg, b, rec),
                    (_, 3) => $b(rows, op, arg, b, rec),
                    (_, 4) => $c(rows, op, arg, b, rec),
                    _ => panic!("harness: no such matrix"),
                }
            }
        }
    };
}
width!(f32, m32, a32, b32, c32);
width!(f64, m64, a64, b64, c64);
