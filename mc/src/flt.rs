//! The two floating point widths of the library.
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::*;
use crate::exec::{c, stats, statsc, G};
use crate::op::Ret;
use crate::store::St;

pub trait Flt: RealNumber + 'static {
    const NAME: &'static str;
    /// Base tolerance
    const EPS: f64;
    /// Unit in the last place of 1.0
    const ULP: f64;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
    fn sinc() -> Box<dyn SincLike<Self>>;
    fn rc(b: f64) -> Box<dyn SincLike<Self>>;
    /// The operations with increased precision, which are only available for the concrete types.
    fn prec(v: &G<Self>, op: Prec) -> Ret;
    fn prec_r<D: Domain>(v: &DspVec<St<Self>, Self, meta::Real, D>, op: Prec) -> Ret;
    fn prec_c<D: Domain>(v: &DspVec<St<Self>, Self, meta::Complex, D>, op: Prec) -> Ret;
}
pub enum Prec {
    Sum, SumSq, SumC, SumSqC, Stats, StatsC, Split(usize), SplitC(usize),
}
/// Functions of the library which are both impulse and frequency response.
pub trait SincLike<T: RealNumber> {
    fn t(&self) -> &dyn RealImpulseResponse<T>;
    fn f(&self) -> &dyn RealFrequencyResponse<T>;
}
macro_rules! imp {
    ($t:ident, $n:expr, $e:expr) => {
        impl Flt for $t {
            const NAME: &'static str = $n;
            const EPS: f64 = $e;
            const ULP: f64 = std::$t::EPSILON as f64;
            fn f(self) -> f64 {
                self as f64
            }
            fn of(x: f64) -> $t {
                x as $t
            }
            fn sinc() -> Box<dyn SincLike<$t>> {
                Box::new(SincFunction::new())
            }
            fn rc(b: f64) -> Box<dyn SincLike<$t>> {
                Box::new(RaisedCosineFunction::new(b as $t))
            }
            fn prec(v: &G<$t>, op: Prec) -> Ret {
                use num_complex::Complex;
                let er = |e: ErrorReason| Ret::Err(format!("{:?}", e));
                Ret::Ok(match op {
                    Prec::Sum => vec![PreciseSumOps::<f64>::sum_prec(v)],
                    Prec::SumSq => vec![PreciseSumOps::<f64>::sum_sq_prec(v)],
                    Prec::SumC => c(PreciseSumOps::<Complex<f64>>::sum_prec(v)).to_vec(),
                    Prec::SumSqC => c(PreciseSumOps::<Complex<f64>>::sum_sq_prec(v)).to_vec(),
                    Prec::Stats => stats(&PreciseStatisticsOps::<f64>::statistics_prec(v)),
                    Prec::StatsC => statsc(&PreciseStatisticsOps::<Complex<f64>>::statistics_prec(v)),
                    Prec::Split(k) => match PreciseStatisticsSplitOps::<f64>::statistics_split_prec(v, k) {
                        Ok(s) => s.iter().flat_map(|x| stats(x)).collect(),
                        Err(e) => return er(e),
                    },
                    Prec::SplitC(k) => match PreciseStatisticsSplitOps::<Complex<f64>>::statistics_split_prec(v, k) {
                        Ok(s) => s.iter().flat_map(|x| statsc(x)).collect(),
                        Err(e) => return er(e),
                    },
                })
            }
            fn prec_r<D: Domain>(v: &DspVec<St<$t>, $t, meta::Real, D>, op: Prec) -> Ret {
                let er = |e: ErrorReason| Ret::Err(format!("{:?}", e));
                Ret::Ok(match op {
                    Prec::Sum => vec![v.sum_prec()],
                    Prec::SumSq => vec![v.sum_sq_prec()],
                    Prec::Stats => stats(&v.statistics_prec()),
                    Prec::Split(k) => match v.statistics_split_prec(k) {
                        Ok(s) => s.iter().flat_map(|x| stats(x)).collect(),
                        Err(e) => return er(e),
                    },
                    _ => panic!("harness"),
                })
            }
            fn prec_c<D: Domain>(v: &DspVec<St<$t>, $t, meta::Complex, D>, op: Prec) -> Ret {
                let er = |e: ErrorReason| Ret::Err(format!("{:?}", e));
                Ret::Ok(match op {
                    Prec::SumC => c(v.sum_prec()).to_vec(),
                    Prec::SumSqC => c(v.sum_sq_prec()).to_vec(),
                    Prec::StatsC => statsc(&v.statistics_prec()),
                    Prec::SplitC(k) => match v.statistics_split_prec(k) {
                        Ok(s) => s.iter().flat_map(|x| statsc(x)).collect(),
                        Err(e) => return er(e),
                    },
                    _ => panic!("harness"),
                })
            }
        }
        impl SincLike<$t> for SincFunction<$t> {
            fn t(&self) -> &dyn RealImpulseResponse<$t> {
                self
            }
            fn f(&self) -> &dyn RealFrequencyResponse<$t> {
                self
            }
        }
        impl SincLike<$t> for RaisedCosineFunction<$t> {
            fn t(&self) -> &dyn RealImpulseResponse<$t> {
                self
            }
            fn f(&self) -> &dyn RealFrequencyResponse<$t> {
                self
            }
        }
    };
}
imp!(f32, "f32", 2e-5);
imp!(f64, "f64", 1e-10);
