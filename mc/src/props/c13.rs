//! Zero padding, zero interleaving and resizing.
use super::common::*;

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    for cplx in [false, true] {
        for n in 0..=t.pick3(18usize, 40, 130) {
            p.unit(format!("padding {} n={} cplx={}", T::NAME, n, cplx), move |ctx| {
                let m = vec_m(cplx, n % 2 == 1, n, 2);
                let step = m.step();
                let targets: Vec<usize> = (0..=n + t.pick3(12, 24, 40)).chain(vec![2 * n, 2 * n + 1, 3 * n + 2]).collect();
                let base = vec![
                    Cfg::vec(),
                    Cfg::vec().buf(BufKind::No),
                    Cfg::vec().spare(7),
                    Cfg::vec().spare(90).buf(BufKind::Single(33)),
                    Cfg { junk: Junk::Big, ..Cfg::vec().spare(20) },
                    Cfg { kind: Kind::Vec, ..Cfg::slice(0) },
                    Cfg { kind: Kind::Arr, ..Cfg::slice(0) },
                    Cfg { kind: Kind::Arr, ..Cfg::slice(0) }.spare(5),
                    Cfg::slice(0),
                    Cfg::slice(1).spare(3),
                    Cfg { junk: Junk::Big, ..Cfg::slice(2).spare(9) },
                    Cfg::slice(3).spare(200),
                    Cfg { kind: Kind::Box, ..Cfg::slice(0) },
                    Cfg { kind: Kind::Box, ..Cfg::slice(0) }.spare(200),
                ];
                for cfg in base {
                    for to in &targets {
                        for o in PADS {
                            go::<T>(ctx, &cfg, &m, &[], &Op::ZeroPad(*to, o));
                            go::<T>(ctx, &cfg, &m, &[], &Op::ZeroPadB(*to, o));
                        }
                        for len in (to * step)..(to + 1) * step {
                            go::<T>(ctx, &cfg, &m, &[], &Op::Resize(len));
                            go::<T>(ctx, &cfg, &m, &[], &Op::ResizeB(len));
                        }
                    }
                    for k in 0..=t.pick3(5, 9, 17) {
                        go::<T>(ctx, &cfg, &m, &[], &Op::ZeroInterleave(k));
                        go::<T>(ctx, &cfg, &m, &[], &Op::ZeroInterleaveB(k));
                    }
                    // Shrink and grow again within the storage: old points must not come back as zeros
                    for (a, b) in [(n / 2, n + 3), (0, n), (1.min(n), 2 * n)] {
                        for o in PADS {
                            seq::<T>(ctx, &cfg, &m, &[Op::Resize(a * step), Op::ZeroPad(b, o)]);
                            seq::<T>(ctx, &cfg, &m, &[Op::ResizeB(a * step), Op::ZeroPadB(b, o)]);
                        }
                        seq::<T>(ctx, &cfg, &m, &[Op::Resize(a * step), Op::ZeroInterleave(2)]);
                        seq::<T>(ctx, &cfg, &m, &[Op::Resize(a * step), Op::ZeroInterleaveB(3)]);
                        seq::<T>(ctx, &cfg, &m, &[Op::ZeroInterleaveB(2), Op::Resize(a * step), Op::ResizeB(b * step)]);
                    }
                }
            });
        }
    }
}
/// A sequence with one vector, every step is compared with the model.
pub fn seq<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, m: &M, ops: &[Op]) {
    if cfg.kind == Kind::Arr && m.d.len() + cfg.spare > ARR {
        return;
    }
    let key = format!("sequence {}/{}", ops.iter().map(opkey).collect::<Vec<_>>().join("-"), T::NAME);
    ctx.case(&key, format_args!("{:?} {} {}", ops, brief(m), cfg.desc()), || {
        let mut m = quant::<T>(m);
        let mut s = Session::<T>::new(cfg, &m);
        for op in ops {
            let exp = op.model(&m, &[], s.limit());
            let o = s.step(op, &[], &NOREC)?;
            check::<T>(&o, &exp, &[]).map_err(|e| format!("{:?}: {}", op, e))?;
            m = o.m;
            if m.err || exp.loose || exp.unspecified {
                break;
            }
        }
        Ok(())
    });
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every number of points 0..40 (thorough 0..130) x every requested number of points from 0 to beyond three times the size x 3 padding options, \
         interleaving factors 0..9 (thorough 0..17), resizing to every length; in place and buffered; storages which can and can't grow, with all amounts of \
         room from none to plenty; sequences which shrink and grow",
    );
    p.assume("the contents of points added by resizing are not specified");
    both!(unit_for, &mut p, t);
    super::large::large_units(&mut p, t, "C13");
    p
}
