//! Operations on two vectors refuse mismatched arguments.
use super::common::*;

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    for n in 0..=t.pick3(9usize, 17, 40) {
        p.unit(format!("arguments {} n={}", T::NAME, n), move |ctx| {
            let mut cs = vec![Cfg::vec(), Cfg::slice(1).spare(3), Cfg { akind: Kind::Vec, ..Cfg::slice(0) }];
            cs.extend(vec![Cfg { kind: Kind::Arr, akind: Kind::Box, ..Cfg::slice(0) }, Cfg::vec().spare(5).buf(BufKind::No)]);
            let deltas = [1.0, 1.05, 0.95, 1.25, 0.75, -1.0];
            for cfg in cs {
                for cplx in [false, true] {
                    for freq in [false, true] {
                        let m = vec_m(cplx, freq, n, 2);
                        for acplx in [false, true] {
                            for afreq in [false, true] {
                                for an in 0..=t.pick3(9usize, 17, 40) {
                                    for delta in deltas {
                                        let a = M { delta, d: pos(if acplx { 2 * an } else { an }, 3), ..vec_m(acplx, afreq, an, 3) };
                                        for b in BINS {
                                            go::<T>(ctx, &cfg, &m, &[a.clone()], &Op::Bin(b));
                                            go::<T>(ctx, &cfg, &m, &[a.clone()], &Op::BinSmaller(b));
                                        }
                                        for prec in [false, true] {
                                            go::<T>(ctx, &cfg, &m, &[a.clone()], &Op::Dot(prec));
                                            go::<T>(ctx, &cfg, &m, &[a.clone()], &Op::DotC(prec));
                                        }
                                        go::<T>(ctx, &cfg, &m, &[a.clone()], &Op::ConvolveSignal);
                                        if n > 0 && an > 0 {
                                            go::<T>(ctx, &cfg, &m, &[a.clone()], &Op::Correlate);
                                        }
                                        if delta == 1.0 {
                                            let o = vec_m(false, freq, n, 6);
                                            go::<T>(ctx, &cfg, &m, &[a.clone(), o.clone()], &Op::SetRealImag);
                                            go::<T>(ctx, &cfg, &m, &[o, a.clone()], &Op::SetMagPhase);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        });
    }
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every pair of lengths 0..17 (thorough 0..40) x number space and domain of both vectors (16 combinations) x 6 ratios of the sampling distances x every \
         operation with a vector argument x storage kinds; receiver and argument are compared after the call",
    );
    both!(unit_for, &mut p, t);
    p
}
