//! Correlation.
use super::common::*;
use num_complex::Complex64 as C;

/// Prepares `b`, correlates `a` with it and compares with the definition at every lag.
fn corr<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, a: &M, b: &M, padded: bool) {
    let key = format!("correlate {}/{}", if padded { "padded" } else { "cyclic" }, T::NAME);
    ctx.state(a.hash() ^ b.hash().rotate_left(7));
    ctx.case(&key, format_args!("{} with {} {}", brief(a), brief(b), cfg.desc()), || {
        let (a, b) = (quant::<T>(a), quant::<T>(b));
        let (p, n) = (a.points(), b.points());
        let prep = if padded { Op::PrepArgPadded } else { Op::PrepArg };
        let mut s = Session::<T>::new(cfg, &b);
        let o = s.step(&prep, &[], &NOREC)?;
        check::<T>(&o, &prep.model(&b, &[], s.limit()), &[])?;
        let arg = o.m;
        let mut s = Session::<T>::new(cfg, &a);
        // The sampling distance of the argument doesn't matter
        let o = s.step(&Op::Correlate, &[arg.clone()], &NOREC)?;
        let q = arg.points();
        if p > q {
            let e = Op::Correlate.model(&a, &[arg.clone()], s.limit());
            return check::<T>(&o, &e, &[arg]);
        }
        // r[lag] = sum of a[i + lag] * conj(b[i]); both signals in the middle of q points
        let (x, y) = (pad_points(&a.c(), q, Pad::Surround), pad_points(&b.c(), q, Pad::Surround));
        let mut r = Vec::new();
        for i in 0..q {
            let lag = i as i64 - (q / 2) as i64;
            let mut sum = C::new(0.0, 0.0);
            for k in 0..q as i64 {
                sum += x[(k + lag).rem_euclid(q as i64) as usize] * y[k as usize].conj();
            }
            r.push(sum);
        }
        let mut want = a.clone();
        want.set_c(&r);
        if o.ret != ok() {
            return Err(format!("returned {:?}", o.ret));
        }
        let e = T::EPS * 4.0 * (q as f64).max(1.0);
        cmp_m("correlation", &o.m, &want, e, false)?;
        cmp_m("argument", &o.args[0], &arg, 0.0, true)?;
        if padded && p == n {
            // linear correlation: nothing wraps around
            let (u, v) = (a.c(), b.c());
            for i in 0..q {
                let lag = i as i64 - (q / 2) as i64;
                let mut sum = C::new(0.0, 0.0);
                for k in 0..n as i64 {
                    if k + lag >= 0 && k + lag < p as i64 {
                        sum += u[(k + lag) as usize] * v[k as usize].conj();
                    }
                }
                cmp_data("linear correlation", &o.m.d[2 * i..2 * i + 2], &[sum.re, sum.im], e * scale(&want), false)?;
            }
        }
        Ok(())
    });
}
fn scale(m: &M) -> f64 {
    m.d.iter().fold(1.0f64, |a, b| a.max(b.abs()))
}
fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    let mut sizes: Vec<usize> = (1..=t.pick(26, 44)).collect();
    sizes.extend(t.pick(vec![47, 59], vec![47, 53, 59, 60, 61, 64, 97, 101, 127, 128, 211]));
    for n in sizes {
        p.unit(format!("correlation {} n={}", T::NAME, n), move |ctx| {
            for cfg in cfgs(t, 2 * n + 8) {
                for padded in [false, true] {
                    let b = M { delta: 0.5, ..vec_m(true, false, n, 4) };
                    let q = if padded { 2 * n - 1 } else { n };
                    let mut lens = vec![1, n / 2, n - 1, n, n + 1, q, q + 1];
                    if n <= t.pick(16, 24) {
                        lens = (1..=q + 1).collect();
                    }
                    lens.sort();
                    lens.dedup();
                    for pa in lens {
                        // room for the padding
                        let cfg = Cfg { spare: cfg.spare + 2 * (q + 2), aspare: cfg.aspare + 2 * (q + 2), ..cfg.clone() };
                        let arr = |k: Kind, m: usize, s: usize| k == Kind::Arr && m + s > ARR;
                        if pa == 0 || arr(cfg.kind, 2 * pa.max(q), cfg.spare) || arr(cfg.akind, 2 * q, cfg.aspare) {
                            continue;
                        }
                        corr::<T>(ctx, &cfg, &M { delta: 0.5, ..vec_m(true, false, pa, 7) }, &b, padded);
                    }
                    // All shifts of a pulse: the maximum is at the lag of the shift
                    if n <= t.pick(12, 18) && cfg.kind == Kind::Vec {
                        for i in 0..n {
                            for k in 0..n {
                                let pulse = |at: usize, re: f64, im: f64| {
                                    let mut m = vec_m(true, false, n, 0);
                                    m.d.iter_mut().for_each(|x| *x = 0.0);
                                    m.d[2 * at] = re;
                                    m.d[2 * at + 1] = im;
                                    m
                                };
                                corr::<T>(ctx, &cfg, &pulse(i, 1.0, 0.5), &pulse(k, 0.25, -2.0), padded);
                            }
                        }
                    }
                }
            }
        });
        p.unit(format!("correlation, wrong arguments {} n={}", T::NAME, n), move |ctx| {
            for cfg in cfgs(t, 2 * n + 8) {
                for m in states(n) {
                    for a in states(n) {
                        go::<T>(ctx, &cfg, &m, &[a.clone()], &Op::Correlate);
                    }
                    go::<T>(ctx, &cfg, &m, &[], &Op::PrepArg);
                    go::<T>(ctx, &cfg, &m, &[], &Op::PrepArgPadded);
                }
                // No room for the result
                let m = vec_m(true, false, n, 1);
                for a in [n + 1, 2 * n - 1, n + 20] {
                    go::<T>(ctx, &Cfg { spare: 1, ..cfg.clone() }, &m, &[vec_m(true, true, a, 1)], &Op::Correlate);
                }
            }
        });
    }
}
fn states(n: usize) -> Vec<M> {
    vec![vec_m(false, false, n, 1), vec_m(false, true, n, 1), vec_m(true, false, n, 1), vec_m(true, true, n, 1)]
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "all sizes 1..26 (thorough 1..44) and primes above, all lengths of the correlated signal 1..2n (small n) or at the borders, padded and unpadded arguments; all pairs of \
         positions of two pulses up to 12 (18) points; every combination of number space and domain of both vectors; storages, buffers, f32/f64",
    );
    p.assume("the result for empty vectors is not specified");
    both!(unit_for, &mut p, t);
    super::large::large_units(&mut p, t, "C09");
    p
}
