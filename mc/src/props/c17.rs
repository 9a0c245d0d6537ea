//! Sequences of operations.
use super::c16::gives_contents;
use super::common::*;
use Op::*;

type Move = fn(&M) -> Option<(Op, Vec<M>)>;

fn arg(m: &M, p: usize, seed: usize) -> M {
    M { cplx: m.cplx, freq: m.freq, delta: m.delta, d: unit(if m.cplx { 2 * p } else { p }, seed), err: false }
}
fn reals(m: &M, p: usize, seed: usize) -> M {
    M { cplx: false, freq: m.freq, delta: m.delta, d: unit(p, seed), err: false }
}
/// Values which only differ by rounding errors: which of them is the extreme one is unspecified
fn ties(m: &M) -> bool {
    (0..m.d.len()).any(|i| (0..i).any(|j| (m.d[i] - m.d[j]).abs() < 1e-4))
}
/// The operations of a sequence, parametrised by the vector they are applied to. The flag marks
/// those of the smaller alphabet which is used for longer sequences.
fn moves() -> Vec<(bool, Move)> {
    macro_rules! mv {
        ($core:expr, $m:ident, $op:expr) => {
            ($core, (|$m: &M| { let _ = $m; Some(($op, Vec::new())) }) as Move)
        };
        ($core:expr, $m:ident, $op:expr, $args:expr) => {
            ($core, (|$m: &M| Some(($op, $args))) as Move)
        };
    }
    vec![
        // sizes
        mv!(true, m, ZeroPad(m.points() + 2, Pad::End)),
        mv!(true, m, ZeroPad(m.points() + 1, Pad::Surround)),
        mv!(false, m, ZeroPad(m.points() + 3, Pad::Center)),
        mv!(true, m, ZeroPadB(m.points() + 1, Pad::End)),
        mv!(true, m, ZeroPadB(m.points() + 3, Pad::Surround)),
        mv!(true, m, ZeroPadB(m.points() + 2, Pad::Center)),
        mv!(true, m, ZeroInterleave(2)),
        mv!(true, m, ZeroInterleaveB(2)),
        mv!(true, m, Resize(0)),
        mv!(true, m, Resize(m.step() * (m.points() / 2))),
        mv!(true, m, Resize(m.d.len() + m.step())),
        mv!(true, m, ResizeB(m.d.len() + m.step())),
        mv!(true, m, ResizeB(m.step() * (m.points() / 2))),
        mv!(false, m, Resize(m.d.len() + 1)),
        mv!(true, m, Decimatei(2, 1)),
        mv!(true, m, Merge, vec![arg(m, 2, 3), arg(m, 2, 5)]),
        mv!(false, m, Merge, vec![arg(m, 1, 3)]),
        (true, |m| if m.points() % 2 == 0 { Some((SplitInto, vec![arg(m, 1, 1), arg(m, 9, 2)])) } else { None }),
        // element-wise and positions
        mv!(true, m, Scale(-0.5)),
        mv!(false, m, Offset(1.0)),
        mv!(true, m, OffsetC(0.5, -0.25)),
        mv!(true, m, Abs),
        mv!(false, m, Conj),
        mv!(false, m, Trig(crate::op::Trig::Sin)),
        mv!(false, m, MulCexp(0.5, 0.25)),
        mv!(true, m, Reverse),
        mv!(true, m, SwapHalves),
        mv!(false, m, Diff),
        mv!(true, m, DiffWithStart),
        mv!(true, m, CumSum),
        mv!(false, m, Wrap(0.75)),
        mv!(false, m, Unwrap(1.5)),
        mv!(false, m, Map(0.5)),
        mv!(false, m, MapC(0.5)),
        mv!(false, m, SetDelta(2.0)),
        mv!(true, m, Bin(crate::op::Bin::Add), vec![arg(m, m.points(), 4)]),
        mv!(false, m, Bin(crate::op::Bin::Mul), vec![arg(m, m.points(), 4)]),
        (false, |m| if m.points() > 0 && m.points() % 2 == 0 { Some((BinSmaller(crate::op::Bin::Sub), vec![arg(m, m.points() / 2, 4)])) } else { None }),
        mv!(false, m, Bin(crate::op::Bin::Sub), vec![arg(m, m.points() + 1, 4)]),
        // representation
        mv!(true, m, ToComplex),
        mv!(true, m, ToComplexB),
        mv!(true, m, To(Part::Mag, false)),
        mv!(true, m, To(Part::Re, true)),
        mv!(true, m, To(Part::Im, false)),
        mv!(false, m, To(Part::MagSq, true)),
        mv!(true, m, To(Part::Mag, true)),
        mv!(true, m, SetRealImag, vec![reals(m, 3, 1), reals(m, 3, 2)]),
        mv!(false, m, SetMagPhase, vec![reals(m, 2, 1), reals(m, 2, 2)]),
        mv!(false, m, GetRealImag, vec![reals(m, 1, 1), reals(m, 9, 2)]),
        // reductions
        mv!(false, m, Sum(false)),
        mv!(false, m, SumC(false)),
        (false, |m| if m.cplx || ties(m) { None } else { Some((Stats(false), Vec::new())) }),
        // domains
        mv!(true, m, PlainFft),
        mv!(true, m, Fft),
        mv!(true, m, PlainIfft),
        mv!(true, m, Ifft),
        mv!(true, m, PlainSfft),
        mv!(false, m, Sfft),
        mv!(true, m, PlainSifft),
        mv!(false, m, Sifft),
        mv!(true, m, Mirror),
        mv!(true, m, FftShift),
        mv!(false, m, IfftShift),
        mv!(true, m, PrepArgPadded),
        mv!(false, m, PrepArg),
        (false, |m| Some((Correlate, vec![M { cplx: true, freq: true, delta: 0.5, d: unit(2 * (2 * m.points()).saturating_sub(1).max(1), 6), err: false }]))),
        mv!(true, m, ApplyWindow(Win::Hamming)),
        mv!(false, m, ApplyWindow(Win::Ramp)),
        // filters
        mv!(true, m, ConvolveSignal, vec![arg(m, 2, 3)]),
        mv!(true, m, Convolve(Resp::Poly, 0.5, 2)),
        mv!(false, m, ConvolveC(Resp::Gauss(true), 0.5, 2)),
        mv!(false, m, MulFreq(Resp::Gauss(true), 0.5)),
        // interpolation
        mv!(true, m, Interpolatef(Resp::Gauss(true), 2.0, 0.0, 2)),
        mv!(true, m, Interpolatei(Resp::Gauss(true), 2)),
        mv!(true, m, Interpolate(None, m.points() + 3, 0.25)),
        mv!(false, m, Interpolate(Some(Resp::Poly), m.points() + 2, 0.0)),
        mv!(true, m, Interpft(m.points() + 2)),
        mv!(false, m, Interpft(m.points() / 2 + 1)),
        mv!(true, m, InterpolateLin(1.5, 0.25)),
        mv!(false, m, InterpolateHermite(1.5, 0.0)),
    ]
}

struct Run<'a> {
    cfg: &'a Cfg,
    start: &'a M,
    moves: &'a [Move],
}
/// Outcome of a sequence: the state of the vector or why it is not continued
enum End {
    State(M),
    Stop,
}
impl<'a> Run<'a> {
    fn exec<T: Flt>(&self, seq: &[usize]) -> Result<End, String> {
        let mut m = quant::<T>(self.start);
        let mut s = Session::<T>::new(self.cfg, &m);
        for (i, k) in seq.iter().enumerate() {
            let (op, args) = match (self.moves[*k])(&m) {
                Some(x) => x,
                None => return Ok(End::Stop),
            };
            if let PlainSifft | Sifft = op {
                // whether rounding made the imaginary part of 0 Hz invalid is unspecified
                if m.cplx && m.points() > 0 && m.d[1] != 0.0 && m.d[1].abs() < 1e-2 {
                    return Ok(End::Stop);
                }
            }
            let args: Vec<M> = args.iter().map(quant::<T>).collect();
            let exp = s.expect(&op, &m, &args);
            let obs = s.step(&op, &args, &NOREC).map_err(|e| format!("{:?}: {}", op, e))?;
            if i + 1 < seq.len() {
                // this step has been checked as the end of a shorter sequence
                m = obs.m;
                continue;
            }
            if m.err {
                if !obs.m.err && !gives_contents(&op) {
                    return Err(format!("{:?}: the vector isn't erroneous anymore: {:?}", op, obs.m));
                }
                return Ok(End::Stop);
            }
            let factor = if exp.exact { 1.0 } else { 10.0 };
            check_tol::<T>(&obs, &exp, &args, T::EPS * factor).map_err(|e| format!("{:?} on {:?}: {}", op, m, e))?;
            if exp.unspecified || exp.loose {
                return Ok(End::Stop);
            }
            m = obs.m;
        }
        if m.points() > 40 || m.d.iter().any(|x| !x.is_finite() || x.abs() > 1e3) {
            return Ok(End::Stop);
        }
        Ok(End::State(m))
    }
    fn names(&self, seq: &[usize]) -> String {
        let mut m = self.start.clone();
        let mut v = Vec::new();
        for k in seq {
            match (self.moves[*k])(&m) {
                Some((op, args)) => {
                    v.push(format!("{:?}", op));
                    m = op.model(&m, &args, None).m;
                }
                None => v.push("-".into()),
            }
        }
        v.join(", ")
    }
    fn dfs<T: Flt>(&self, ctx: &mut Ctx, seq: &mut Vec<usize>, depth: usize) {
        if ctx.stopped() {
            return;
        }
        let mut end = End::Stop;
        // the last operation and the type of the vector
        let last = seq.last().and_then(|k| (self.moves[*k])(self.start)).map_or(String::new(), |x| opkey(&x.0));
        let key = format!("{}/{} at the end of a sequence", last, T::NAME);
        ctx.case(&key, format_args!("{} {} {:?}", brief(self.start), self.cfg.desc(), seq), || {
            end = self.exec::<T>(seq).map_err(|e| format!("{} [{}]", e, self.names(seq)))?;
            Ok(())
        });
        if let Some(o) = ctx.replaying() {
            // only the prefixes of the sequence to be replayed are of interest
            let me = format!("{} {} {:?}", brief(self.start), self.cfg.desc(), seq);
            if !o.contains(&me[..me.len() - 1]) {
                return;
            }
            end = self.exec::<T>(seq).unwrap_or(End::Stop);
        }
        if let End::State(m) = end {
            ctx.state(m.hash());
            ctx.note_max("length", m.points() as u64);
            if seq.len() < depth {
                for k in 0..self.moves.len() {
                    seq.push(k);
                    self.dfs::<T>(ctx, seq, depth);
                    seq.pop();
                }
            }
        }
    }
}

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    let cfgs = vec![
        Cfg { junk: Junk::Mid, ..Cfg::vec() },
        Cfg { junk: Junk::Mid, ..Cfg::vec().spare(5).buf(BufKind::Fixed(512)) },
        Cfg { junk: Junk::Mid, ..Cfg::slice(1).spare(9).buf(BufKind::Fixed(512)) },
        Cfg { junk: Junk::Nan, ..Cfg::vec().buf(BufKind::Single(11)).spare(3) },
        Cfg { junk: Junk::Mid, akind: Kind::Vec, ..Cfg { kind: Kind::Arr, ..Cfg::slice(0).spare(2).buf(BufKind::Fixed(512)) } },
    ];
    let short = T::NAME == "f32";
    for (ci, cfg) in cfgs.into_iter().enumerate() {
        for (cplx, freq) in [(false, false), (true, false), (false, true), (true, true)] {
            for n in t.pick(vec![3usize, 4], vec![0, 1, 2, 3, 4, 5]) {
                // (smaller alphabet, depth)
                let mut plans = vec![(false, 2)];
                if !short || t.thorough() {
                    plans.push((true, 3));
                }
                if t.thorough() && (2..=4).contains(&n) && (ci < 3 || !short) {
                    plans.push((false, 3));
                    plans.push((true, 4));
                }
                if !t.thorough() && !short && n == 3 && ci < 3 {
                    plans = vec![(false, 3)];
                }
                if t.thorough() && !short && n == 3 && !freq && ci == 2 {
                    plans.push((true, 5));
                }
                for (core, depth) in plans {
                    let ms: Vec<Move> = moves().into_iter().filter(|x| x.0 || !core).map(|x| x.1).collect();
                    for first in 0..ms.len() {
                        let (ms, cfg) = (ms.clone(), cfg.clone());
                        p.unit(format!("seq {} {} cplx={} freq={} n={} core={} depth={} first={}", T::NAME, ci, cplx, freq, n, core, depth, first), move |ctx| {
                            let start = M { cplx, freq, delta: 0.5, d: unit(if cplx { 2 * n } else { n }, 3), err: false };
                            let r = Run { cfg: &cfg, start: &start, moves: &ms };
                            r.dfs::<T>(ctx, &mut vec![first], depth);
                        });
                    }
                }
            }
        }
    }
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "all sequences of operations up to a depth, by depth first search which re-executes the sequence on a fresh real vector for every node; after every step the whole observable state (contents, length, domain, delta, erroneous or not, results) is compared with the model, and the next step starts from the observed state. Alphabet: 86 parametrised operations (sizes, element-wise, re-ordering, representations, reductions, domains, windows, filters, interpolation, the splitting and merging ones); quick: all pairs of the whole alphabet and all triples of a core of 50 operations, for f64, 3 and 4 points (3 points and 3 of the combinations: all triples of the whole alphabet), 4 types of vector and 5 combinations of storage (vector, slice, array with spare cells full of garbage) and buffer; thorough: also f32, 0..=5 points, all triples of the whole alphabet and all sequences of 4 of the core (3 points, time domain, slice with spare cells: 5). A sequence ends at an erroneous vector, at a step whose result is unspecified, at more than 40 points or at values above 1e3 (so that rounding errors stay comparable)",
    );
    both!(unit_for, &mut p, t);
    p
}
