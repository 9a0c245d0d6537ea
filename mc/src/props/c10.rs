//! Interpolation with functions, interpolation in frequency domain, decimation.
use super::common::*;
use num_complex::Complex64 as C;
use std::f64::consts::PI;

const TR: [Resp; 6] = [Resp::Sinc, Resp::Rc(0.25), Resp::Gauss(true), Resp::Gauss(false), Resp::Lorentz(true), Resp::Poly];

fn some(c: Vec<Cfg>, i: usize) -> Vec<Cfg> {
    // All configurations for the first variation, two for the others
    if i == 0 { c } else { vec![c[0].clone(), c[4].clone()] }
}
fn resample<T: Flt>(p: &mut Plan, t: Tier) {
    let mut sizes: Vec<usize> = (1..=t.pick(14, 30)).collect();
    sizes.extend(t.pick(vec![47], vec![37, 47, 59, 64, 101]));
    for n in sizes {
        p.unit(format!("interpolatef {} n={}", T::NAME, n), move |ctx| {
            for cplx in [false, true] {
                let m = M { delta: 0.5, ..vec_m(cplx, false, n, 2) };
                for (i, r) in TR.iter().enumerate() {
                    for f in [1.0, 2.0, 3.0, 1.5, 2.25, 0.5, 0.75] {
                        for delay in [0.0, 0.5, 0.125, -0.25] {
                            for conv in t.pick(vec![0, 1, 3, n / 2, n], (0..=n / 2 + 1).collect()) {
                                for cfg in some(cfgs(t, 8 * n + 8), i) {
                                    go::<T>(ctx, &cfg, &m, &[], &Op::Interpolatef(*r, f, delay, conv));
                                }
                            }
                        }
                    }
                }
            }
        });
        p.unit(format!("interpolate {} n={}", T::NAME, n), move |ctx| {
            for cplx in [false, true] {
                for freq in [false, true] {
                    let ms = if n <= 6 { basis(cplx, freq, n) } else { vec![M { delta: 0.5, ..vec_m(cplx, freq, n, 2) }] };
                    for m in ms {
                        for (i, r) in [None, Some(Resp::Gauss(true)), Some(Resp::Gauss(false)), Some(Resp::Lorentz(true)), Some(Resp::Poly), Some(Resp::Rc(0.25))].iter().enumerate() {
                            for q in (1..=2 * n + 1).chain(vec![3 * n, 4 * n + 1]) {
                                if q > 2 * n && n > 20 || q > 24 && q % 5 != 0 {
                                    continue;
                                }
                                for delay in [0.0, 0.5, 0.2] {
                                    for cfg in some(cfgs(t, 8 * n + 8), i) {
                                        go::<T>(ctx, &cfg, &m, &[], &Op::Interpolate(*r, q, delay));
                                        if i == 0 && delay == 0.0 {
                                            go::<T>(ctx, &cfg, &m, &[], &Op::Interpft(q));
                                        }
                                    }
                                }
                            }
                        }
                        for (i, r) in [Resp::Gauss(true), Resp::Gauss(false), Resp::Lorentz(true), Resp::Poly, Resp::One, Resp::Rc(0.25)].iter().enumerate() {
                            for k in 0..=t.pick(5, 7) {
                                for cfg in some(cfgs(t, 16 * n + 8), i) {
                                    go::<T>(ctx, &cfg, &m, &[], &Op::Interpolatei(*r, k));
                                }
                            }
                        }
                        // No room for the result
                        for cfg in [Cfg::slice(0), Cfg::slice(1).spare(n)] {
                            for op in [Op::Interpolatei(Resp::Gauss(true), 2), Op::Interpolatei(Resp::Gauss(true), 7), Op::Interpolate(None, 2 * n + 2, 0.0), Op::Interpolatef(Resp::Sinc, 3.0, 0.0, 2)] {
                                go::<T>(ctx, &cfg, &m, &[], &op);
                            }
                        }
                    }
                }
            }
        });
        p.unit(format!("decimate {} n={}", T::NAME, n), move |ctx| {
            for cplx in [false, true] {
                let m = vec_m(cplx, false, n, 2);
                for k in 1..=n as u32 + 1 {
                    for delay in 0..=n as u32 + 1 {
                        for cfg in cfgs(t, 0) {
                            go::<T>(ctx, &cfg, &m, &[], &Op::Decimatei(k, delay));
                        }
                    }
                }
            }
        });
    }
}
/// The vectorised path of the interpolation.
fn simd<T: Flt>(p: &mut Plan, t: Tier) {
    for cplx in [false, true] {
        for f in 1..=t.pick(5usize, 9) {
            let c = (if cplx { 1000 } else { 2000 }) / f;
            for n in c - 1..=c + t.pick(4, 9) {
                p.unit(format!("vectorised {} n={} f={} cplx={}", T::NAME, n, f, cplx), move |ctx| {
                    let m = M { delta: 0.5, ..vec_m(cplx, false, n, 2) };
                    let mut cl = t.pick(vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 40, 100], (0..=40).chain(vec![99, 100, 101, 150, 201, 202, 203]).collect());
                    cl.extend(vec![n / 2, n / 2 - 1, n / 2 - f]);
                    for conv in cl {
                        for r in [Resp::Lorentz(true), Resp::Lorentz(false), Resp::Gauss(false), Resp::Sinc] {
                            for delay in [0.0, 0.125, -0.5] {
                                for cfg in [Cfg::vec(), Cfg::slice(1).spare((f - 1) * m.d.len() + 5).buf(BufKind::Fixed(1 << 16)), Cfg::slice(0).spare((f - 1) * m.d.len() + 6).buf(BufKind::Fixed(1 << 16))] {
                                    if (r != Resp::Lorentz(false) || delay != 0.125) && (conv > 8 || cfg.kind != Kind::Vec) {
                                        continue;
                                    }
                                    let op = |delay: f64| Op::Interpolatef(r, f as f64, delay, conv);
                                    if delay == 0.0 {
                                        go::<T>(ctx, &cfg, &m, &[], &op(0.0));
                                        continue;
                                    }
                                    // The direction of the delay is checked on its own (see the known findings)
                                    let key = format!("vectorised interpolatef/{}/{}", T::NAME, cplx);
                                    let dir = "vectorised interpolatef: direction of the delay";
                                    let run = || -> Result<bool, String> {
                                        let x = quant::<T>(&m);
                                        let mut s = Session::<T>::new(&cfg, &x);
                                        let o = s.step(&op(delay), &[], &NOREC)?;
                                        let e = check::<T>(&o, &op(delay).model(&x, &[], s.limit()), &[]);
                                        if e.is_err() && check::<T>(&o, &op(-delay).model(&x, &[], s.limit()), &[]).is_ok() {
                                            return Ok(true);
                                        }
                                        e.map(|_| false)
                                    };
                                    let mut wrong = None;
                                    ctx.state(m.hash());
                                    ctx.case(&key, format_args!("{:?} {} {}", op(delay), brief(&m), cfg.desc()), || {
                                        wrong = Some(run()?);
                                        Ok(())
                                    });
                                    ctx.case(dir, format_args!("{:?} {} {}", op(delay), brief(&m), cfg.desc()), || {
                                        let wrong = match wrong {
                                            Some(w) => w,
                                            None => run().unwrap_or(false),
                                        };
                                        if wrong {
                                            return Err("the vector is moved into the opposite direction".to_string());
                                        }
                                        Ok(())
                                    });
                                }
                            }
                        }
                    }
                });
            }
        }
    }
}
/// What the operations are for: a band-limited signal is reproduced.
fn signal<T: Flt>(p: &mut Plan, t: Tier) {
    for n in 3..=t.pick(20usize, 48) {
        p.unit(format!("band-limited {} n={}", T::NAME, n), move |ctx| {
            for cplx in [false, true] {
                for b in -(((n - 1) / 2) as i64)..=((n - 1) / 2) as i64 {
                    let tone = |q: usize, adv: f64| -> M {
                        let mut m = vec_m(cplx, false, q, 0);
                        for i in 0..q {
                            let ph = 2.0 * PI * b as f64 * (i as f64 / q as f64 + adv / n as f64) + 0.3;
                            let v = C::from_polar(1.0, ph);
                            if cplx {
                                m.d[2 * i] = v.re;
                                m.d[2 * i + 1] = v.im;
                            } else {
                                m.d[i] = v.re;
                            }
                        }
                        m
                    };
                    for q in [2 * n, 3 * n, n + 1, n + 2, n, 2 * n - 1, n - 1] {
                        // The signal must be representable with q points, too
                        if 2 * b.abs() as usize >= q {
                            continue;
                        }
                        for adv in [0.0, 0.25, 1.0] {
                            let key = format!("reproduce/{}/{}", T::NAME, cplx);
                            ctx.case(&key, format_args!("tone {} of {} points to {} points, delay {}", b, n, q, adv), || {
                                let mut s = Session::<T>::new(&Cfg::vec(), &tone(n, 0.0));
                                let o = s.step(&Op::Interpolate(None, q, adv), &[], &NOREC)?;
                                if o.ret != ok() {
                                    return Err(format!("returned {:?}", o.ret));
                                }
                                cmp_data("signal", &o.m.d, &tone(q, adv).d, T::EPS * 4.0 * q as f64, false)
                            });
                        }
                        if q % n == 0 {
                            ctx.case(&format!("reproduce interpolatei/{}", T::NAME), format_args!("tone {} of {} points to {} points {}", b, n, q, cplx), || {
                                let mut s = Session::<T>::new(&Cfg::vec(), &tone(n, 0.0));
                                let k = (q / n) as u32;
                                // An ideal low pass at the old Nyquist frequency
                                let o = s.step(&Op::Interpolatei(Resp::Sinc, k), &[], &NOREC)?;
                                if o.ret != ok() {
                                    return Err(format!("returned {:?}", o.ret));
                                }
                                cmp_data("signal", &o.m.d, &tone(q, 0.0).d, T::EPS * 4.0 * q as f64, false)?;
                                let o = s.step(&Op::Decimatei(k, 0), &[], &NOREC)?;
                                cmp_data("decimated signal", &o.m.d, &tone(n, 0.0).d, T::EPS * 4.0 * q as f64, false)
                            });
                        }
                    }
                }
                // A factor of one is the identity
                let m = vec_m(cplx, false, n, 5);
                for op in [Op::Interpolatei(Resp::Poly, 1), Op::Interpolatei(Resp::Sinc, 0), Op::Interpft(n), Op::Interpolate(None, n, 0.0), Op::Interpolatef(Resp::Sinc, 1.0, 0.0, n)] {
                    if !cplx && n % 2 == 1 && matches!(op, Op::Interpolatef(..)) {
                        continue; // the result is rounded to an even length
                    }
                    ctx.case(&format!("identity {}/{}", opkey(&op), T::NAME), format_args!("{:?} {}", op, brief(&m)), || {
                        let mut s = Session::<T>::new(&Cfg::vec(), &m);
                        let o = s.step(&op, &[], &NOREC)?;
                        cmp_data("signal", &o.m.d, &quant::<T>(&m).d, T::EPS * 4.0 * n as f64, false)
                    });
                }
            }
        });
    }
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "all points 1..14 (thorough 1..30) and some primes: 6 functions x 7 factors x 4 delays x convolution lengths for interpolatef; all target sizes 1..2n+1 and multiples x 6 \
         functions x 3 delays for interpolate, unit impulses up to 6 points; factors 0..5 for interpolatei; all factors and delays of decimatei; vectorised path: lengths at its threshold \
         for all factors 1..5 (1..9) x convolution lengths x functions x delays x storage positions; every representable tone of every length to 20 (48) points is reproduced",
    );
    p.assume("empty vectors and a decimation factor of zero are not specified");
    both!(resample, &mut p, t);
    both!(simd, &mut p, t);
    both!(signal, &mut p, t);
    super::large::large_units(&mut p, t, "C10");
    p
}
