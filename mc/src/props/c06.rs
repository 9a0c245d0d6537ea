//! Symmetric transforms.
use super::common::*;

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    let mut sizes: Vec<usize> = (0..=t.pick(34, 50)).collect();
    sizes.extend(t.pick(vec![51, 97, 101], vec![51, 63, 75, 81, 97, 101, 121, 127, 131, 211, 255, 257, 509]));
    for n in sizes {
        p.unit(format!("symmetric {} n={}", T::NAME, n), move |ctx| {
            let all = n <= t.pick(34, 64);
            for cfg in cfgs(t, n + 3) {
                let pick = |v: Vec<M>| -> Vec<M> { if all { v } else { v.into_iter().step_by(n / 3).collect() } };
                for m in pick(basis(false, false, n)) {
                    for op in [Op::PlainSfft, Op::Sfft, Op::WindowedSfft(Win::Ramp), Op::WindowedSfft(Win::Hamming)] {
                        if let Op::WindowedSfft(w) = op {
                            if n % 2 == 1 && !win_defined(w, n) {
                                continue;
                            }
                        }
                        go::<T>(ctx, &cfg, &m, &[], &op);
                    }
                    if n % 2 == 1 {
                        for seq in [
                            vec![Op::PlainSfft, Op::PlainSifft],
                            vec![Op::Sfft, Op::Sifft],
                            vec![Op::WindowedSfft(Win::Ramp), Op::WindowedSifft(Win::Ramp)],
                            vec![Op::PlainSfft, Op::Mirror, Op::PlainIfft],
                        ] {
                            roundtrip::<T>(ctx, &cfg, &m, &seq);
                        }
                        equals_full::<T>(ctx, &cfg, &m);
                    }
                }
                // half spectra: real zero frequency
                if n > 0 {
                    for mut m in pick(basis(true, true, n)) {
                        m.d[1] = 0.0;
                        for op in [Op::PlainSifft, Op::Sifft, Op::WindowedSifft(Win::Ramp)] {
                            go::<T>(ctx, &cfg, &m, &[], &op);
                        }
                        let roomy = Cfg { spare: cfg.spare + 2 * n, ..cfg.clone() };
                        go::<T>(ctx, &roomy, &m, &[], &Op::Mirror);
                        // not real
                        m.d[1] = 0.5;
                        for op in [Op::PlainSifft, Op::Sifft] {
                            go::<T>(ctx, &cfg, &m, &[], &op);
                        }
                    }
                }
                // refused inputs
                for m in [vec_m(true, false, n, 1), vec_m(true, true, n, 1), vec_m(false, true, n, 1)] {
                    for op in [Op::PlainSfft, Op::Sfft, Op::WindowedSfft(Win::Ramp)] {
                        go::<T>(ctx, &cfg, &m, &[], &op);
                    }
                }
                for m in [vec_m(true, false, n, 1), vec_m(false, false, n, 1), vec_m(false, true, n, 1)] {
                    for op in [Op::PlainSifft, Op::Sifft, Op::WindowedSifft(Win::Ramp), Op::Mirror] {
                        go::<T>(ctx, &cfg, &m, &[], &op);
                    }
                }
            }
        });
    }
}
fn run_seq<T: Flt>(cfg: &Cfg, m: &M, ops: &[Op]) -> Result<M, String> {
    let mut s = Session::<T>::new(cfg, m);
    for op in ops {
        let o = s.step(op, &[], &NOREC)?;
        if let Ret::Err(e) = o.ret {
            return Err(format!("{:?} refused with {}", op, e));
        }
    }
    s.sut.m()
}
fn roundtrip<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, m: &M, ops: &[Op]) {
    if cfg.kind == Kind::Arr && 2 * m.points() + cfg.spare + 2 > ARR {
        return;
    }
    let key = format!("roundtrip {}-{}/{}", opkey(&ops[0]), opkey(&ops[1]), T::NAME);
    let cfg = Cfg { spare: cfg.spare + m.points() + 3, ..cfg.clone() };
    ctx.case(&key, format_args!("{:?} {} {}", ops, brief(m), cfg.desc()), || {
        let m = quant::<T>(m);
        let got = run_seq::<T>(&cfg, &m, ops)?;
        let k = if ops[0] == Op::PlainSfft { m.points() as f64 } else { 1.0 };
        let mut want = m.clone();
        want.d.iter_mut().for_each(|x| *x *= k);
        if ops.len() == 3 {
            want.cplx = true;
            want.set_c(&m.c().iter().map(|x| x * k).collect::<Vec<_>>());
        }
        cmp_m("after the sequence", &got, &want, T::EPS * 4.0 * m.points() as f64, false)
    });
}
/// The half and its mirrored completion are the full transform.
fn equals_full<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, m: &M) {
    if cfg.kind == Kind::Arr && 2 * m.points() + cfg.spare + 2 > ARR {
        return;
    }
    let cfg = Cfg { spare: cfg.spare + m.points() + 3, ..cfg.clone() };
    ctx.case(&format!("half/{}", T::NAME), format_args!("{} {}", brief(m), cfg.desc()), || {
        let m = quant::<T>(m);
        let full = run_seq::<T>(&cfg, &m, &[Op::PlainFft])?;
        let half = run_seq::<T>(&cfg, &m, &[Op::PlainSfft])?;
        let mirrored = run_seq::<T>(&cfg, &m, &[Op::PlainSfft, Op::Mirror])?;
        let n = m.points() + 1;
        cmp_data("half spectrum", &half.d, &full.d[..n], T::EPS * m.points() as f64, false)?;
        cmp_m("mirrored half spectrum", &mirrored, &full, T::EPS * m.points() as f64, false)
    });
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every number of points 0..34 (thorough 0..50) with every unit impulse, larger odd sizes (primes, products) with selected impulses; forward, inverse, \
         mirrored and windowed variants, sequences of them, and every kind of input which has to be refused; f32/f64, storage types, offsets, buffers",
    );
    p.assume("a zero frequency with an imaginary part above 1e-3 counts as not real");
    both!(unit_for, &mut p, t);
    super::large::large_units(&mut p, t, "C06");
    p
}
