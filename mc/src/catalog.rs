//! Every operation of the library with data and arguments for a vector of a given kind and size.
use crate::env::*;
use crate::flt::*;
use crate::gens::*;
use crate::model::*;
use crate::op::*;

#[derive(Clone, Debug)]
pub struct Item {
    pub op: Op,
    pub m: M,
    pub args: Vec<M>,
    /// Factor for the tolerance; negative: relative error bound of an approximation
    pub tol: f64,
}

pub fn with_data(cplx: bool, freq: bool, d: Vec<f64>) -> M {
    M { cplx, freq, delta: 0.5, d, err: false }
}

/// Operations without arguments, with the data they are applied to.
pub fn catalog(cplx: bool, freq: bool, p: usize) -> Vec<Item> {
    let n = if cplx { 2 * p } else { p };
    let any = vals(n, 3);
    let posd = pos(n, 2);
    let uni = unit(n, 1);
    let big: Vec<f64> = pos(n, 4).iter().map(|x| x + 1.0).collect();
    let mk = |d: &Vec<f64>| with_data(cplx, freq, d.clone());
    let arg = |q: usize, seed: usize| with_data(cplx, freq, pos(if cplx { 2 * q } else { q }, seed));
    let real = |q: usize, seed: usize| with_data(false, freq, pos(q, seed));
    let mut v: Vec<Item> = Vec::new();
    let mut add = |op: Op, d: &Vec<f64>, args: Vec<M>, tol: f64| v.push(Item { op, m: mk(d), args, tol });
    let none = || Vec::new();
    use Op::*;
    // element-wise
    for op in vec![
        Scale(-2.5), Offset(3.25), ScaleC(0.5, -2.0), OffsetC(1.5, -2.25), Abs, Wrap(1.75), Conj, Square, Reverse, SwapHalves, FftShift, IfftShift,
        Diff, DiffWithStart, CumSum, SetDelta(3.0), Map(1.5), MapC(1.5), MapAggr(0.5), MapAggrC(0.5),
    ] {
        add(op, &any, none(), 4.0);
    }
    add(Unwrap(1.5), &any, none(), 4.0);
    add(MulCexp(0.25, 0.75), &any, none(), 4.0);
    for op in vec![Sqrt, Root(3.0), Powf(1.5), Ln, Log(10.0)] {
        add(op, &posd, none(), 2.0);
    }
    for op in vec![Exp, Expf(10.0)] {
        add(op, &uni, none(), 2.0);
    }
    for t in TRIGS {
        add(Trig(t), if t == crate::op::Trig::Acosh && !cplx { &big } else { &uni }, none(), 4.0);
    }
    for (op, d, tol) in vec![
        (SinApprox, &uni, -1e-5), (CosApprox, &uni, -1e-5), (LnApprox, &big, -0.02), (LogApprox(10.0), &big, -0.02),
        (ExpApprox, &any, -0.02), (ExpfApprox(2.0), &any, -0.02), (PowfApprox(1.0625), &big, -0.03),
    ] {
        add(op, d, none(), if cplx { 1.0 } else { tol });
    }
    for b in BINS {
        add(Bin(b), &any, vec![arg(p, 3)], 2.0);
        for k in [1, 2, 3, 5, 10, 25] {
            if p % k == 0 && p > 0 {
                add(BinSmaller(b), &any, vec![arg(p / k, 3)], 2.0);
            }
        }
    }
    // sizes
    for o in PADS {
        for q in [p + 1, p + 2, 2 * p + 3] {
            add(ZeroPad(q, o), &any, none(), 1.0);
            add(ZeroPadB(q, o), &any, none(), 1.0);
        }
    }
    for k in [2, 3] {
        add(ZeroInterleave(k), &any, none(), 1.0);
        add(ZeroInterleaveB(k), &any, none(), 1.0);
    }
    for q in [0, 2, n.saturating_sub(2), n + 2] {
        add(Resize(q), &any, none(), 1.0);
        add(ResizeB(q), &any, none(), 1.0);
    }
    for k in [1, 2, 3] {
        add(SplitInto, &any, (0..k).map(|i| arg(i, 2)).collect(), 1.0);
        add(Merge, &any, (0..k).map(|i| arg(p, i)).collect(), 1.0);
    }
    // representation
    for q in PARTS {
        add(To(q, false), &any, none(), 2.0);
        add(To(q, true), &any, none(), 2.0);
        add(Get(q), &any, vec![real(p, 1)], 2.0);
        add(Get(q), &any, vec![real(p / 2, 1)], 2.0);
    }
    add(ToComplex, &any, none(), 1.0);
    add(ToComplexB, &any, none(), 1.0);
    add(GetRealImag, &any, vec![real(p, 1), real(1, 2)], 2.0);
    add(GetMagPhase, &any, vec![real(0, 1), real(p, 2)], 2.0);
    add(SetRealImag, &any, vec![real(p, 1), real(p, 2)], 2.0);
    add(SetMagPhase, &any, vec![real(p, 1), real(p, 2)], 4.0);
    // reductions
    for prec in [false, true] {
        for op in vec![Sum(prec), SumSq(prec), SumC(prec), SumSqC(prec), Stats(prec), StatsC(prec)] {
            add(op, &any, none(), (p as f64).max(4.0));
        }
        for k in [1, 2, 3] {
            add(StatsSplit(k, prec), &any, none(), (p as f64).max(4.0));
            add(StatsSplitC(k, prec), &any, none(), (p as f64).max(4.0));
        }
        add(Dot(prec), &any, vec![arg(p, 2)], 4.0 * p as f64 + 4.0);
        add(DotC(prec), &any, vec![arg(p, 2)], 4.0 * p as f64 + 4.0);
    }
    // time and frequency
    let win = [Win::Hamming, Win::Ramp, Win::Bump(true), Win::Tri];
    for op in vec![PlainFft, Fft, PlainIfft, Ifft, PlainSfft, Sfft, Mirror, PrepArg, PrepArgPadded] {
        add(op, &any, none(), 2.0);
    }
    let mut herm = any.clone();
    if cplx && p > 0 {
        herm[1] = 0.0;
    }
    for op in vec![PlainSifft, Sifft] {
        add(op, &herm, none(), 2.0);
    }
    for w in win {
        if p == 0 || win_defined(w, p) {
            add(ApplyWindow(w), &any, none(), 2.0);
            add(WindowedFft(w), &any, none(), 2.0);
            if p % 2 == 1 || p == 0 {
                add(WindowedSfft(w), &any, none(), 2.0);
            }
            if (0..p).all(|i| w.w(i, p).abs() > 1e-3) {
                add(UnapplyWindow(w), &any, none(), 4.0);
                add(WindowedIfft(w), &any, none(), 20.0);
            }
        }
        let q = (2 * p).saturating_sub(1);
        if p == 0 || win_defined(w, q) && (0..q).all(|i| w.w(i, q).abs() > 1e-3) {
            add(WindowedSifft(w), &herm, none(), 20.0);
        }
    }
    for q in [1, 2, 3, p] {
        if q <= p && q > 0 {
            add(ConvolveSignal, &any, vec![arg(q, 2)], 4.0);
        }
    }
    if p > 0 {
        for (r, ratio, len) in vec![(Resp::Gauss(true), 0.5, 3), (Resp::Poly, 1.0, 2), (Resp::Sinc, 0.5, p)] {
            add(Convolve(r, ratio, len), &any, none(), 4.0);
            add(ConvolveC(r, ratio, len), &any, none(), 4.0);
        }
        for r in [Resp::Gauss(true), Resp::Poly, Resp::Rc(0.35)] {
            add(MulFreq(r, 0.5), &any, none(), 4.0);
            add(MulFreqC(r, 1.0), &any, none(), 4.0);
        }
        let pre = |q: usize| M { cplx: true, freq: true, delta: 0.5, d: vals(2 * q, 6), err: false };
        for q in [p, p + 2, 2 * p - 1] {
            if q >= p {
                add(Correlate, &any, vec![pre(q)], 8.0);
            }
        }
        for (r, f, d, c) in vec![(Resp::Gauss(true), 2.0, 0.0, 3), (Resp::Poly, 1.5, 0.25, 2), (Resp::Sinc, 0.5, 0.0, p), (Resp::Rc(0.35), 3.0, 0.0, 4)] {
            add(Interpolatef(r, f, d, c), &any, none(), 8.0);
        }
        for r in [Resp::Gauss(true), Resp::Rc(0.35), Resp::Poly] {
            add(Interpolatei(r, 2), &any, none(), 8.0);
            add(Interpolatei(r, 3), &any, none(), 8.0);
            for (q, d) in [(p + 3, 0.0), (2 * p, 0.25), ((p + 1) / 2, 0.0)] {
                add(Interpolate(Some(r), q, d), &any, none(), 8.0);
            }
        }
        for (q, d) in [(p + 3, 0.0), (2 * p, 0.25), ((p + 1) / 2, 0.0)] {
            add(Interpolate(None, q, d), &any, none(), 8.0);
        }
        for (f, d) in [(2.0, 0.0), (1.5, 0.25), (0.5, 0.0)] {
            add(InterpolateLin(f, d), &any, none(), 4.0);
            add(InterpolateHermite(f, d), &any, none(), 4.0);
        }
    }
    {
        add(Correlate, &any, vec![M { cplx: true, freq: true, delta: 0.5, d: vals(4, 6), err: false }], 8.0);
        add(Interpft(p + 1), &any, none(), 8.0);
        add(Interpolate(None, p + 2, 0.0), &any, none(), 8.0);
        for k in [1, 2, 3] {
            add(Decimatei(k, 0), &any, none(), 1.0);
            add(Decimatei(k, 1), &any, none(), 1.0);
        }
    }
    v
}

/// Room which the operation may need beyond the data.
pub fn room(p: usize) -> usize {
    2 * (6 * p + 16)
}

impl Item {
    pub fn check<T: Flt>(&self, exp: &Ex, obs: &Obs, args: &[M]) -> Result<(), String> {
        if self.tol >= 0.0 {
            return check_tol::<T>(obs, exp, args, T::EPS * self.tol);
        }
        // Within the relative bound of the definition
        let rel = -self.tol;
        if obs.m.d.len() != exp.m.d.len() || obs.m.err != exp.m.err {
            return Err(format!("{:?} instead of {:?}", obs.m, exp.m));
        }
        for i in 0..exp.m.d.len() {
            let (g, w) = (obs.m.d[i], exp.m.d[i]);
            if !((g - w).abs() <= rel * w.abs().max(if rel < 1e-3 { 1.0 } else { 0.05 })) {
                return Err(format!("value {} is {} instead of {} for {}", i, g, w, self.m.d[i]));
            }
        }
        Ok(())
    }
    /// Executes the item and compares with the model
    pub fn run<T: Flt>(&self, cfg: &Cfg, rec: &crate::exec::Rec) -> Result<Obs, String> {
        let m = quant::<T>(&self.m);
        let args: Vec<M> = self.args.iter().map(quant::<T>).collect();
        let mut s = Session::<T>::new(cfg, &m);
        let exp = s.expect(&self.op, &m, &args);
        let obs = s.step(&self.op, &args, rec)?;
        self.check::<T>(&exp, &obs, &args)?;
        Ok(obs)
    }
    /// Like `run` with the statically typed vector; tells whether the operation exists for it
    pub fn run_static<T: Flt>(&self, cfg: &Cfg, rec: &crate::exec::Rec) -> Result<bool, String> {
        let m = quant::<T>(&self.m);
        let args: Vec<M> = self.args.iter().map(quant::<T>).collect();
        let mut s = Session::<T>::new(cfg, &m);
        let exp = s.expect(&self.op, &m, &args);
        match s.step_static(&self.op, &args, rec)? {
            Some(obs) => self.check::<T>(&exp, &obs, &args).map(|_| true),
            None => Ok(false),
        }
    }
    pub fn fits(&self, cfg: &Cfg) -> bool {
        use crate::store::*;
        !(cfg.kind == Kind::Arr && self.m.d.len() + cfg.spare > ARR || cfg.akind == Kind::Arr && self.args.iter().any(|a| a.d.len() + cfg.aspare > ARR))
    }
}
