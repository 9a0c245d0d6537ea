//! Vectors which are much longer than the exhaustive part: on both sides of every size threshold in the code and of typical block sizes.
use super::common::*;

/// The property which decides an operation.
pub fn owner(op: &Op) -> &'static str {
    use Op::*;
    match op {
        Sum(_) | SumSq(_) | SumC(_) | SumSqC(_) | Stats(_) | StatsC(_) | StatsSplit(..) | StatsSplitC(..) | Dot(_) | DotC(_) => "C02",
        PlainFft | Fft | PlainIfft | Ifft | WindowedFft(_) | WindowedIfft(_) => "C05",
        PlainSfft | Sfft | PlainSifft | Sifft | WindowedSfft(_) | WindowedSifft(_) | Mirror => "C06",
        ConvolveSignal => "C07",
        Convolve(..) | ConvolveC(..) | MulFreq(..) | MulFreqC(..) => "C08",
        PrepArg | PrepArgPadded | Correlate => "C09",
        Interpolatef(..) | Interpolatei(..) | Interpolate(..) | Interpft(_) | Decimatei(..) => "C10",
        InterpolateLin(..) | InterpolateHermite(..) => "C11",
        Reverse | SwapHalves | FftShift | IfftShift | Diff | DiffWithStart | CumSum | SplitInto | Merge => "C12",
        ZeroPad(..) | ZeroPadB(..) | ZeroInterleave(_) | ZeroInterleaveB(_) | Resize(_) | ResizeB(_) => "C13",
        To(..) | Get(_) | ToComplex | ToComplexB | GetRealImag | GetMagPhase | SetRealImag | SetMagPhase => "C14",
        ApplyWindow(_) | UnapplyWindow(_) => "C15",
        Map(_) | MapC(_) | MapAggr(_) | MapAggrC(_) => "C22",
        _ => "C01",
    }
}
/// Number of steps the model needs
pub fn work(op: &Op, p: usize, args: &[M]) -> f64 {
    use Op::*;
    let n = p as f64;
    match op {
        PlainFft | Fft | PlainIfft | Ifft | WindowedFft(_) | WindowedIfft(_) | PlainSfft | Sfft | PrepArg | WindowedSfft(_) => n * n,
        PlainSifft | Sifft | WindowedSifft(_) | PrepArgPadded => 4.0 * n * n,
        ConvolveSignal => n * args[0].points() as f64,
        Convolve(_, _, l) | ConvolveC(_, _, l) => 20.0 * n * (2 * *l.min(&p) + 1) as f64,
        Correlate => 2.0 * (args[0].points() as f64).powi(2),
        Interpolatef(_, f, _, l) => 20.0 * n * *f as f64 * (2 * *l.min(&p) + 1) as f64,
        Interpolatei(_, f) => n * n * (1 + f * f) as f64,
        Interpolate(_, q, _) | Interpft(q) => n * n + (*q as f64).powi(2),
        _ => n,
    }
}
/// Operations of the property `id` on long vectors.
pub fn large_units(p: &mut Plan, t: Tier, id: &'static str) {
    let (q, th, deep) = (
        vec![100, 255, 1000, 1025, 4097, 5001, 10007],
        vec![
            127, 128, 129, 250, 255, 256, 257, 499, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2048, 2500, 3001, 4095, 4096, 4097, 4999, 5000, 5001, 8192,
            9999, 10000, 10001, 16384, 20000, 20001, 32769, 50001,
        ],
        (100..=300usize).chain((1..200).map(|i| 300 + 37 * i)).chain((1..100).map(|i| 256 * i - 1)).chain((1..100).map(|i| 256 * i + 1)).chain((1..6).map(|i| i * 9999 + 1)).collect::<Vec<_>>(),
    );
    let sizes: Vec<usize> = if cfg!(feature = "std") {
        t.pick3(q, th, deep)
    } else {
        t.pick(vec![255, 1025], vec![255, 256, 1000, 1025, 4097])
    };
    fn add<T: Flt>(p: &mut Plan, t: Tier, id: &'static str, n: usize) {
        for cplx in [false, true] {
            for freq in [false, true] {
                p.unit(format!("long vectors {} n={} cplx={} freq={}", T::NAME, n, cplx, freq), move |ctx| {
                    let big = BufKind::Fixed(2 * room(n) + 4 * n);
                    let cfgs = [Cfg::vec(), Cfg::slice(1).spare(room(n)).buf(big)];
                    for mut item in catalog(cplx, freq, n).into_iter().filter(|i| owner(&i.op) == id && work(&i.op, n, &i.args) <= t.pick(1.1e8, 1.2e9) && !(matches!(i.op, Op::Unwrap(_)) && n > 5001 && T::NAME == "f32")) {
                        // The position of a point is rounded like a number of the vector
                        if matches!(item.op, Op::MulCexp(..) | Op::InterpolateLin(..) | Op::InterpolateHermite(..) | Op::Interpolatef(..)) {
                            item.tol *= (n as f64 / 256.0).max(1.0);
                        }
                        let key = format!("long {}", case_key::<T>(&item.op, &item.m));
                        for cfg in &cfgs[..if work(&item.op, n, &item.args) > 1e7 { 1 } else { 2 }] {
                            ctx.state(item.m.hash() ^ opkey(&item.op).len() as u64);
                            ctx.case(&key, format_args!("{:?} points={} freq={} {}", item.op, n, freq, cfg.desc()), || item.run::<T>(cfg, &NOREC).map(|_| ()));
                        }
                    }
                });
            }
        }
    }
    for n in sizes {
        add::<f32>(p, t, id, n);
        add::<f64>(p, t, id, n);
    }
}
