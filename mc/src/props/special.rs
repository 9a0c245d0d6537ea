//! Special values (NaN, infinities, signed zeros, subnormal, tiny and huge numbers) at every position of a vector.
use super::common::*;

/// Values for which shortcuts of an implementation overflow, underflow or lose a NaN.
pub fn specials<T: Flt>() -> Vec<f64> {
    let wide = T::ULP < 1e-10;
    vec![
        f64::NAN,
        f64::INFINITY,
        f64::NEG_INFINITY,
        0.0,
        -0.0,
        if wide { f64::MIN_POSITIVE } else { f32::MIN_POSITIVE as f64 },
        if wide { 5e-324 } else { 1e-45f32 as f64 },
        if wide { f64::MAX } else { f32::MAX as f64 },
        if wide { -f64::MAX } else { -f32::MAX as f64 },
        if wide { 1e200 } else { 1e25f32 as f64 },
        if wide { -1e-200 } else { -1e-25f32 as f64 },
    ]
}
/// Every element on its own: the error of one element must not depend on its neighbours.
pub fn same_elements<T: Flt>(got: &[f64], want: &[f64], ulps: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} values instead of {}", got.len(), want.len()));
    }
    let tiny = if T::ULP < 1e-10 { 2e-323 } else { 4e-45 };
    for i in 0..got.len() {
        let w = T::of(want[i]).f();
        let g = got[i];
        let ok = g == w || g.is_nan() && w.is_nan() || (g - w).abs() <= ulps * T::ULP * w.abs() + tiny;
        if !ok {
            return Err(format!("value {} is {:e} instead of {:e}: got {:?} want {:?}", i, g, w, short(got), short(want)));
        }
    }
    Ok(())
}
/// `what`: 0 all elements, 1 all but the element `at`, 2 the element `at`
fn compare<T: Flt>(got: &[f64], want: &[f64], at: usize, what: u8) -> Result<(), String> {
    let keep = |v: &[f64]| -> Vec<f64> { v.iter().enumerate().filter(|x| what == 0 || (x.0 == at) == (what == 2)).map(|x| *x.1).collect() };
    if got.len() != want.len() {
        return Err(format!("{} values instead of {}", got.len(), want.len()));
    }
    same_elements::<T>(&keep(got), &keep(want), 8.0)
}
fn one<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, m: &M, args: &[M], op: &Op, at: usize, v: f64) {
    let extreme = !(v.is_nan() || v.is_infinite() || v == 0.0);
    let key = format!("{} value {}", if extreme { "extreme" } else { "special" }, case_key::<T>(op, m));
    ctx.state(m.hash());
    let mag = extreme && matches!(op, Op::To(Part::Mag, _) | Op::Get(Part::Mag));
    for what in if mag { vec![1, 2] } else { vec![0] } {
        let key = if what == 2 { format!("magnitude of an extreme number/{}", T::NAME) } else { key.clone() };
        ctx.case(&key, format_args!("{:?} {} args=[{}] {:e} at {} compare={} {}", op, brief(m), briefs(args), v, at, what, cfg.desc()), || {
            let m = quant::<T>(m);
            let args: Vec<M> = args.iter().map(quant::<T>).collect();
            let mut s = Session::<T>::new(cfg, &m);
            let exp = s.expect(op, &m, &args);
            let o = s.step(op, &args, &NOREC)?;
            if let Ret::Err(e) = &o.ret {
                return Err(format!("failed with {}", e));
            }
            let getter = matches!(op, Op::Get(_));
            compare::<T>(&o.m.d, &exp.m.d, at / 2, if getter { 0 } else { what })?;
            for (a, w) in o.args.iter().zip(exp.args.as_ref().unwrap_or(&args)) {
                compare::<T>(&a.d, &w.d, at / 2, what)?;
            }
            Ok(())
        });
    }
}
pub fn special_units<T: Flt>(p: &mut Plan, t: Tier) {
    use Op::*;
    let per = 64 / std::mem::size_of::<T>();
    for off in 0..t.pick(per / 2, per) {
        p.unit(format!("special values {} offset={}", T::NAME, off), move |ctx| {
            for (n, spare) in t.pick(vec![(per + 3, 0)], vec![(per + 3, 0), (per + 6, 3), (2 * per + 5, 1), (3, 0), (5, 2)]) {
                let cfg = Cfg::slice(off).spare(n + spare);
                for &v in &specials::<T>() {
                    for at in 0..n {
                        let mut m = vec_m(false, false, n, 4);
                        for x in m.d.iter_mut() {
                            *x = x.abs() + 0.25;
                        }
                        let ordinary = m.clone();
                        m.d[at] = v;
                        for op in vec![
                            Scale(-2.5), Offset(3.25), Abs, Square, Sqrt, Ln, Exp, Log(10.0), Expf(2.0), Root(2.0), Powf(2.0), ToComplex, Reverse,
                            Trig(crate::op::Trig::Sin), Trig(crate::op::Trig::Atan), Trig(crate::op::Trig::Tanh), SwapHalves,
                        ] {
                            one::<T>(ctx, &cfg, &m, &[], &op, at, v);
                        }
                        for b in BINS {
                            one::<T>(ctx, &cfg, &m, &[ordinary.clone()], &Bin(b), at, v);
                            one::<T>(ctx, &cfg, &ordinary, &[m.clone()], &Bin(b), at, v);
                        }
                        if at % 2 == 0 || n % 2 == 0 {
                            let q = n - n % 2;
                            if at < q {
                                let c = M { cplx: true, d: m.d[..q].to_vec(), ..m.clone() };
                                let oc = M { cplx: true, d: ordinary.d[..q].to_vec(), ..m.clone() };
                                for op in vec![Scale(-2.5), Conj, OffsetC(1.5, -2.25), Reverse, SwapHalves] {
                                    one::<T>(ctx, &cfg, &c, &[], &op, at, v);
                                }
                                for part in PARTS {
                                    one::<T>(ctx, &cfg, &c, &[], &To(part, false), at, v);
                                    one::<T>(ctx, &cfg, &c, &[], &To(part, true), at, v);
                                    one::<T>(ctx, &cfg, &c, &[M { cplx: false, d: vec![0.0; q / 2], ..m.clone() }], &Get(part), at, v);
                                }
                                one::<T>(ctx, &cfg, &c, &[oc.clone()], &Bin(crate::op::Bin::Add), at, v);
                                one::<T>(ctx, &cfg, &oc, &[c.clone()], &Bin(crate::op::Bin::Sub), at, v);
                            }
                        }
                    }
                }
            }
        });
    }
}
