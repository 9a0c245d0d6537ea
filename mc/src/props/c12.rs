//! Rearranging operations.
use super::common::*;

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    for cplx in [false, true] {
        for n in 0..=t.pick3(40usize, 132, 400) {
            p.unit(format!("moves {} n={} cplx={}", T::NAME, n, cplx), move |ctx| {
                for freq in [false, true] {
                    let m = vec_m(cplx, freq, n, 2);
                    let mut cs = cfgs(t, 3);
                    cs.push(Cfg { kind: Kind::Box, akind: Kind::Vec, ..Cfg::slice(0) });
                    cs.push(Cfg { kind: Kind::Arr, akind: Kind::Box, ..Cfg::slice(0) }.spare(3));
                    for cfg in cs {
                        for op in [Op::Reverse, Op::SwapHalves, Op::Diff, Op::DiffWithStart, Op::CumSum] {
                            go::<T>(ctx, &cfg, &m, &[], &op);
                        }
                        if cplx && freq {
                            go::<T>(ctx, &cfg, &m, &[], &Op::FftShift);
                            go::<T>(ctx, &cfg, &m, &[], &Op::IfftShift);
                        }
                        for seq in [
                            vec![Op::Reverse, Op::Reverse],
                            vec![Op::FftShift, Op::IfftShift],
                            vec![Op::IfftShift, Op::FftShift],
                            vec![Op::SwapHalves, Op::IfftShift],
                            vec![Op::DiffWithStart, Op::CumSum],
                            vec![Op::CumSum, Op::DiffWithStart],
                        ] {
                            if seq.iter().any(|o| matches!(o, Op::FftShift | Op::IfftShift)) && !(cplx && freq) {
                                continue;
                            }
                            inverse::<T>(ctx, &cfg, &m, &seq);
                        }
                        for k in 1..=t.pick3(5, 8, 12) {
                            split::<T>(ctx, &cfg, &m, k);
                        }
                    }
                }
            });
        }
    }
}
fn inverse<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, m: &M, ops: &[Op]) {
    if cfg.kind == Kind::Arr && m.d.len() + cfg.spare > ARR {
        return;
    }
    let key = format!("inverse {}-{}/{}", opkey(&ops[0]), opkey(&ops[1]), T::NAME);
    ctx.case(&key, format_args!("{} {}", brief(m), cfg.desc()), || {
        let m = quant::<T>(m);
        let mut s = Session::<T>::new(cfg, &m);
        for op in ops {
            s.step(op, &[], &NOREC)?;
        }
        let sums = matches!(ops[0], Op::CumSum | Op::DiffWithStart);
        cmp_m("after the sequence", &s.sut.m()?, &m, T::EPS * m.points() as f64, !sums)
    });
}
/// Splitting into k targets of any previous length, and merging them again.
fn split<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, m: &M, k: usize) {
    let n = m.points();
    for tl in [0, 3, n] {
        // The storage of the targets is big enough, whatever their length was before
        let room = 2 * n.max(3) + 4;
        let cfg = Cfg { aspare: room, akind: if cfg.akind == Kind::Arr { Kind::Vec } else { cfg.akind }, ..cfg.clone() };
        let args: Vec<M> = (0..k).map(|i| vec_m(m.cplx, m.freq, tl, 20 + i)).collect();
        go::<T>(ctx, &cfg, m, &args, &Op::SplitInto);
    }
    // Merge: the receiver had another length before
    let src: Vec<M> = (0..k).map(|i| vec_m(m.cplx, m.freq, n, 30 + i)).collect();
    for rl in [0, 1, n * k, n * k + 2] {
        let r = vec_m(m.cplx, m.freq, rl, 9);
        let room = (n * k).max(rl) * m.step() - r.d.len();
        let cfg = Cfg { spare: room + cfg.spare, akind: if cfg.akind == Kind::Arr { Kind::Vec } else { cfg.akind }, ..cfg.clone() };
        go::<T>(ctx, &cfg, &r, &src, &Op::Merge);
    }
    if n % k != 0 || n == 0 || cfg.kind == Kind::Arr && m.d.len() + cfg.spare > ARR {
        return;
    }
    ctx.case(&format!("inverse SplitInto-Merge/{}", T::NAME), format_args!("k={} {} {}", k, brief(m), cfg.desc()), || {
        let m = quant::<T>(m);
        let mut s = Session::<T>::new(cfg, &m);
        let args: Vec<M> = (0..k).map(|_| vec_m(m.cplx, m.freq, n / k, 0)).collect();
        let o = s.step(&Op::SplitInto, &args, &NOREC)?;
        let z = M { d: vec![0.0; m.d.len()], ..m.clone() };
        let mut s = Session::<T>::new(cfg, &z);
        s.step(&Op::Merge, &o.args, &NOREC)?;
        cmp_m("after split and merge", &s.sut.m()?, &m, 0.0, true)
    });
    // Different lengths are refused
    if k > 1 {
        let mut bad = src.clone();
        bad[k - 1] = vec_m(m.cplx, m.freq, n + 1, 3);
        let cfg = Cfg { akind: if cfg.akind == Kind::Arr { Kind::Vec } else { cfg.akind }, ..cfg.clone() };
        go::<T>(ctx, &cfg, m, &bad, &Op::Merge);
    }
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every number of points 0..132 (thorough 0..400), real/complex, both domains, f32/f64: every rearranging operation, every pair of inverse operations, \
         splitting into and merging of 1..8 (thorough 1..12) vectors whose previous length is shorter, equal or longer; storage types, offsets, spare capacity",
    );
    both!(unit_for, &mut p, t);
    super::large::large_units(&mut p, t, "C12");
    p
}
