//! Fourier transforms.
use super::common::*;

fn sizes(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=t.pick(33, 48)).collect();
    v.extend(t.pick(vec![31, 64, 101], vec![49, 60, 64, 81, 97, 100, 121, 125, 127, 128, 131, 255, 256, 257, 509, 512]));
    v
}
fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    for n in sizes(t) {
        for cplx in [false, true] {
            p.unit(format!("transforms {} n={} cplx={}", T::NAME, n, cplx), move |ctx| {
                let all = n <= t.pick(33, 64);
                for cfg in cfgs(t, n + 3) {
                    let ms = if all { basis(cplx, false, n) } else { basis(cplx, false, n).into_iter().step_by(n / 3).collect() };
                    for m in ms {
                        for op in [Op::PlainFft, Op::Fft, Op::WindowedFft(Win::Ramp)] {
                            go::<T>(ctx, &cfg, &m, &[], &op);
                        }
                        for op in [[Op::PlainFft, Op::PlainIfft], [Op::Fft, Op::Ifft]] {
                            roundtrip::<T>(ctx, &cfg, &m, &op);
                        }
                        if cplx {
                            let f = M { freq: true, ..m };
                            for op in [Op::PlainIfft, Op::Ifft, Op::WindowedIfft(Win::Ramp), Op::FftShift, Op::IfftShift] {
                                go::<T>(ctx, &cfg, &f, &[], &op);
                            }
                        }
                    }
                }
            });
        }
    }
}
/// Transform and inverse one after the other on the same vector.
fn roundtrip<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, m: &M, ops: &[Op; 2]) {
    if cfg.kind == Kind::Arr && 2 * m.points() + cfg.spare > ARR {
        return;
    }
    let key = format!("roundtrip {}/{}", opkey(&ops[0]), T::NAME);
    ctx.case(&key, format_args!("{} {}", brief(m), cfg.desc()), || {
        let m = quant::<T>(m);
        let mut s = Session::<T>::new(cfg, &m);
        for op in ops {
            s.step(op, &[], &NOREC)?;
        }
        let got = s.sut.m()?;
        let k = if ops[0] == Op::PlainFft { m.points() as f64 } else { 1.0 };
        let mut want = M { cplx: true, ..m.clone() };
        want.set_c(&m.c().iter().map(|x| x * k).collect::<Vec<_>>());
        cmp_m("after transform and inverse", &got, &want, T::EPS * m.points() as f64, false)
    });
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every number of points 1..33 (thorough 1..48) with every unit impulse as input (decides the linear map up to rounding), further sizes (primes, \
         powers of two, products) with selected impulses; f32/f64, real/complex, storage types, offsets, buffer kinds with left over contents",
    );
    both!(unit_for, &mut p, t);
    super::large::large_units(&mut p, t, "C05");
    p
}
