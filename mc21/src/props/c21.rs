//! The portable, SSE2 and AVX2 builds compute the same: every build is compared with the same model.
use super::common::*;
use super::special::*;
use crate::model::*;

const BACKEND: &str = if cfg!(feature = "use_avx2") {
    "avx2"
} else if cfg!(feature = "use_sse2") {
    "sse2"
} else {
    "portable"
};

fn sizes(t: Tier, per: usize) -> Vec<usize> {
    // All lengths around one to three of the widest registers
    (0..=t.pick(3 * per + 3, 9 * per + 5)).collect()
}

fn items<T: Flt>(p: &mut Plan, t: Tier) {
    let per = 32 / std::mem::size_of::<T>();
    for cplx in [false, true] {
        for n in sizes(t, per) {
            for freq in [false, true] {
                p.unit(format!("{} operations {} n={} cplx={} freq={}", BACKEND, T::NAME, n, cplx, freq), move |ctx| {
                    for off in 0..2 * per {
                        let cfg = Cfg { akind: Kind::Slice((off + 3) % per), aspare: 1, ..Cfg::slice(off).spare(room(n) + off % 3).buf(BufKind::Fixed(1 << 13)) };
                        for it in catalog(cplx, freq, n) {
                            let key = case_key::<T>(&it.op, &it.m);
                            ctx.state(it.m.hash());
                            ctx.case(&key, format_args!("{} {:?} {} args=[{}] {}", BACKEND, it.op, brief(&it.m), briefs(&it.args), cfg.desc()), || {
                                it.run::<T>(&cfg, &NOREC).map(|_| ())
                            });
                        }
                    }
                });
            }
        }
    }
}

/// Every lane: reductions and products of vectors with a single value which stands out.
fn lanes<T: Flt>(p: &mut Plan, t: Tier) {
    let per = 32 / std::mem::size_of::<T>();
    for cplx in [false, true] {
        for n in 1..=t.pick(3 * per + 3, 6 * per + 5) {
            p.unit(format!("{} lanes {} n={} cplx={}", BACKEND, T::NAME, n, cplx), move |ctx| {
                for off in 0..t.pick(per, 2 * per) {
                    let cfg = Cfg { akind: Kind::Slice(off), ..Cfg::slice(off).spare(2 * n) };
                    let len = if cplx { 2 * n } else { n };
                    for at in 0..len {
                        for v in [16.0, -16.0] {
                            let mut m = vec_m(cplx, false, n, 2);
                            m.d[at] = v;
                            let mut ops = vec![
                                Op::Sum(false), Op::SumC(false), Op::SumSq(false), Op::SumSqC(false), Op::Stats(false), Op::StatsC(false), Op::Sum(true), Op::SumC(true),
                                Op::SumSq(true), Op::SumSqC(true), Op::Stats(true), Op::StatsC(true), Op::Diff, Op::CumSum,
                            ];
                            for part in PARTS {
                                ops.push(Op::To(part, false));
                            }
                            for op in ops {
                                // reductions of the other number space: covered by the catalogue
                                if matches!(op, Op::Sum(_) | Op::SumSq(_) | Op::Stats(_)) == cplx && !matches!(op, Op::To(..) | Op::Diff | Op::CumSum) {
                                    continue;
                                }
                                if !cplx && matches!(op, Op::To(..)) {
                                    continue;
                                }
                                let tol = if matches!(op, Op::To(..)) { 2.0 } else { n as f64 + 8.0 };
                                let key = case_key::<T>(&op, &m);
                                ctx.state(m.hash());
                                ctx.case(&key, format_args!("{} {:?} n={} {} at {} {}", BACKEND, op, n, v, at, cfg.desc()), || run_tol::<T>(&cfg, &m, &[], &op, tol));
                            }
                            // one impulse in one operand selects one lane of the other
                            let mut e = vec![0.0; len];
                            e[at] = v;
                            let e = M { d: e, ..m.clone() };
                            for op in [Op::Bin(Bin::Mul), Op::Bin(Bin::Add), Op::Bin(Bin::Sub), if cplx { Op::DotC(false) } else { Op::Dot(false) }] {
                                let key = case_key::<T>(&op, &m);
                                ctx.case(&key, format_args!("{} {:?} n={} impulse {} at {} {}", BACKEND, op, n, v, at, cfg.desc()), || {
                                    run_tol::<T>(&cfg, &e, &[m.clone()], &op, 4.0)?;
                                    run_tol::<T>(&cfg, &m, &[e.clone()], &op, 4.0)
                                });
                            }
                            let op = Op::Bin(Bin::Div);
                            ctx.case(&case_key::<T>(&op, &m), format_args!("{} {:?} n={} impulse {} at {} {}", BACKEND, op, n, v, at, cfg.desc()), || {
                                run_tol::<T>(&cfg, &e, &[M { d: pos(len, 3), ..m.clone() }], &op, 4.0)
                            });
                        }
                    }
                }
            });
        }
    }
}

/// The documented error bounds of the approximations, on a grid of arguments.
fn approx<T: Flt>(p: &mut Plan, t: Tier) {
    let per = 32 / std::mem::size_of::<T>();
    // (operation, definition, arguments, absolute bound, relative bound)
    let fine = t.pick(2, 32);
    let lin = |lo: f64, hi: f64, n: usize| -> Vec<f64> { (0..=n * fine).map(|i| lo + (hi - lo) * i as f64 / (n * fine) as f64).collect() };
    let mut above_one = Vec::new();
    for e in 0..=t.pick(40, 120) {
        for k in 0..=128 * fine {
            let x = (1.0 + k as f64 / (128 * fine) as f64) * 2f64.powi(e);
            if x > 1.0 {
                above_one.push(x);
            }
        }
    }
    let trig = lin(-100.0, 100.0, 8000);
    let mut sets: Vec<(Op, Vec<f64>, f64, f64)> = vec![
        (Op::SinApprox, trig.clone(), 1.1e-6, 0.0),
        (Op::CosApprox, trig, 1.1e-6, 0.0),
        (Op::LnApprox, above_one.clone(), 1e-6, 0.01),
        (Op::ExpApprox, lin(-10.0, 10.0, 8000), 0.0, 0.01),
    ];
    for b in [2.0, 10.0, 1.5, 0.5] {
        sets.push((Op::LogApprox(b), above_one.clone(), 4e-6, 0.01));
        sets.push((Op::ExpfApprox(b), lin(-10.0, 10.0, 4000), 0.0, 0.01));
    }
    for e in [2.0, 0.5, -1.0, 3.0, 1.25, 0.0] {
        sets.push((Op::PowfApprox(e), lin(1.0 / 64.0, 4.0, 4000), 0.0, 0.01));
    }
    for (op, xs, abs, rel) in sets {
        p.unit(format!("{} {:?} {}", BACKEND, op, T::NAME), move |ctx| {
            let chunk = 2 * per + 3;
            for (i, c) in xs.chunks(chunk).enumerate() {
                let cfg = Cfg::slice(2 * (i % per));
                let m = M { cplx: false, freq: false, delta: 1.0, d: c.to_vec(), err: false };
                ctx.state(m.hash());
                ctx.case(&format!("error bound {}", case_key::<T>(&op, &m)), format_args!("{} {:?} {} arguments from {:e} {}", BACKEND, op, c.len(), c[0], cfg.desc()), || {
                    let m = quant::<T>(&m);
                    let mut s = Session::<T>::new(&cfg, &m);
                    let want = s.expect(&op, &m, &[]).m.d;
                    let o = s.step(&op, &[], &NOREC)?;
                    if o.m.d.len() != want.len() {
                        return Err(format!("{} values instead of {}", o.m.d.len(), want.len()));
                    }
                    for k in 0..want.len() {
                        let d = (o.m.d[k] - want[k]).abs();
                        if !(d <= abs + rel * want[k].abs()) {
                            return Err(format!("{:?} of {:e} is {:e} instead of {:e}", op, m.d[k], o.m.d[k], want[k]));
                        }
                    }
                    Ok(())
                });
            }
        });
    }
}

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    items::<T>(p, t);
    lanes::<T>(p, t);
    special_units::<T>(p, t);
    approx::<T>(p, t);
}

pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "the portable, SSE2 and AVX2 builds, each: every operation of the catalogue x every number of points up to three (thorough: nine) AVX \
         registers and a remainder x element offsets of the storage; reductions, products and conversions with an outstanding value in every lane; special values \
         at every position; the approximations on a grid of arguments; the SSE2 and AVX2 builds also explore everything that C01, C02, C07, C08 and C10 explore \
         in the portable build (element-wise operations, reductions, convolutions, interpolations around the thresholds of their vectorised paths)",
    );
    p.assume("the error bounds of the approximations are checked for the documented ranges of arguments, sine and cosine between -100 and 100");
    p.assume("the AVX2 build is skipped on processors without AVX2");
    both!(unit_for, &mut p, t);
    #[cfg(any(feature = "use_sse2", feature = "use_avx2"))]
    {
        use super::*;
        for q in vec![c01::plan(t), c02::plan(t), c07::plan(t), c08::plan(t), c10::plan(t)] {
            for (name, f) in q.units {
                p.units.push((format!("{} {}", BACKEND, name), f));
            }
        }
    }
    p
}
