//! Dynamically typed vectors.
use super::common::*;

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    for cplx in [false, true] {
        for freq in [false, true] {
            for n in (0..=t.pick3(9usize, 24, 80)).chain(t.pick3(vec![], vec![31, 40], vec![100, 127, 128, 129, 200])) {
                p.unit(format!("gen {} cplx={} freq={} n={}", T::NAME, cplx, freq, n), move |ctx| {
                    for it in catalog(cplx, freq, n) {
                        for cfg in cfgs(t, room(n)) {
                            if !it.fits(&cfg) {
                                continue;
                            }
                            let key = case_key::<T>(&it.op, &it.m);
                            ctx.state(it.m.hash());
                            ctx.case(&key, format_args!("{:?} {} args=[{}] {}", it.op, brief(&it.m), briefs(&it.args), cfg.desc()), || {
                                it.run::<T>(&cfg, &NOREC).map(|_| ())
                            });
                            if type_has(&it.op, cplx, freq) {
                                let key = format!("static {}", key);
                                ctx.case(&key, format_args!("{:?} {} args=[{}] {}", it.op, brief(&it.m), briefs(&it.args), cfg.desc()), || {
                                    if it.run_static::<T>(&cfg, &NOREC)? {
                                        Ok(())
                                    } else {
                                        Err("harness: the operation isn't available".into())
                                    }
                                });
                            }
                            if gives_contents(&it.op) {
                                continue;
                            }
                            let key = format!("erroneous {}", key);
                            ctx.case(&key, format_args!("{:?} {} args=[{}] {}", it.op, brief(&it.m), briefs(&it.args), cfg.desc()), || {
                                erroneous::<T>(&cfg, &it)
                            });
                        }
                    }
                });
            }
        }
    }
}
/// Whether the statically typed vector offers the operation
fn type_has(op: &Op, cplx: bool, freq: bool) -> bool {
    use Op::*;
    match op {
        Abs | Wrap(_) | Unwrap(_) | LnApprox | ExpApprox | SinApprox | CosApprox | LogApprox(_) | ExpfApprox(_) | PowfApprox(_) | ToComplex
        | ToComplexB | Sum(_) | SumSq(_) | Stats(_) | StatsSplit(..) | Dot(_) | Map(_) | MapAggr(_) | InterpolateLin(..) | InterpolateHermite(..) => !cplx,
        ScaleC(..) | OffsetC(..) | MulCexp(..) | Conj | To(..) | Get(_) | GetRealImag | GetMagPhase | SetRealImag | SetMagPhase | SumC(_) | SumSqC(_)
        | StatsC(_) | StatsSplitC(..) | DotC(_) | MapC(_) | MapAggrC(_) => cplx,
        ApplyWindow(_) | UnapplyWindow(_) | PlainFft | Fft | WindowedFft(_) | ConvolveSignal | Convolve(..) => !freq,
        PlainSfft | Sfft | WindowedSfft(_) => !cplx && !freq,
        ConvolveC(..) | PrepArg | PrepArgPadded | Correlate => cplx && !freq,
        MulFreq(..) => freq,
        MulFreqC(..) | PlainIfft | Ifft | WindowedIfft(_) | PlainSifft | Sifft | WindowedSifft(_) | FftShift | IfftShift | Mirror => cplx && freq,
        _ => true,
    }
}
/// Operations which give a vector new contents or another delta regardless of its previous state
pub fn gives_contents(op: &Op) -> bool {
    matches!(op, Op::Resize(_) | Op::ResizeB(_) | Op::ZeroPad(..) | Op::ZeroPadB(..) | Op::Merge | Op::SetRealImag | Op::SetMagPhase | Op::SetDelta(_))
}
/// An erroneous vector stays erroneous, and arguments are left alone
fn erroneous<T: Flt>(cfg: &Cfg, it: &Item) -> Result<(), String> {
    let m = it.m.fail();
    let args: Vec<M> = it.args.iter().map(quant::<T>).collect();
    let mut s = Session::<T>::new(cfg, &m);
    let obs = s.step(&it.op, &args, &NOREC)?;
    if !obs.m.err {
        return Err(format!("the vector isn't erroneous anymore: {:?}, returned {:?}", obs.m, obs.ret));
    }
    if let Op::Get(_) | Op::GetRealImag | Op::GetMagPhase | Op::SplitInto = it.op {
        return Ok(());
    }
    for (i, (a, w)) in obs.args.iter().zip(&args).enumerate() {
        cmp_m(&format!("argument {}", i), a, w, 0.0, true)?;
    }
    Ok(())
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every operation of the library x {real, complex} x {time, frequency} x 0..24, 31, 40 points (thorough 0..80 and up to 200) with arguments on both sides of its preconditions \
         x f32/f64 x storage and buffer configurations; executed on the dynamically typed vector, on the statically typed one where the operation exists, and on an \
         already erroneous vector; all three are compared with the same model",
    );
    p.assume("real valued reductions of a complex vector are only required not to panic");
    both!(unit_for, &mut p, t);
    p
}
