//! Changes of the representation.
use super::common::*;

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    let per = 64 / std::mem::size_of::<T>();
    for n in 0..=t.pick3(2 * per + 6, 4 * per + 8, 16 * per + 8) {
        p.unit(format!("representation {} n={}", T::NAME, n), move |ctx| {
            let mut cs = cfgs(t, n + 2);
            for off in 0..t.pick(per / 4 + 1, per) {
                cs.push(Cfg::slice(off).spare(0));
                cs.push(Cfg::slice(off).spare(n + off % 3));
            }
            cs.push(Cfg { kind: Kind::Arr, akind: Kind::Arr, ..Cfg::slice(0) });
            cs.push(Cfg { kind: Kind::Box, akind: Kind::Box, ..Cfg::slice(0) }.spare(n));
            for mut cfg in cs {
                for freq in [false, true] {
                    let r = vec_m(false, freq, n, 4);
                    let c = vec_m(true, freq, n, 5);
                    go::<T>(ctx, &cfg, &r, &[], &Op::ToComplex);
                    go::<T>(ctx, &cfg, &r, &[], &Op::ToComplexB);
                    for q in PARTS {
                        go::<T>(ctx, &cfg, &c, &[], &Op::To(q, false));
                        go::<T>(ctx, &cfg, &c, &[], &Op::To(q, true));
                    }
                    let spare = cfg.aspare;
                    // destinations: shorter, longer, with exactly the required capacity and with more
                    for dl in [0, 1, n, n + 3] {
                        for room in [n.saturating_sub(dl), n.saturating_sub(dl) + 3] {
                            cfg.aspare = room;
                            let d = M { delta: 2.0, ..vec_m(false, freq, dl, 7) };
                            for q in PARTS {
                                go::<T>(ctx, &cfg, &c, &[d.clone()], &Op::Get(q));
                            }
                            let d2 = M { delta: 3.0, ..vec_m(false, freq, n, 8) };
                            go::<T>(ctx, &cfg, &c, &[d.clone(), d2.clone()], &Op::GetRealImag);
                            go::<T>(ctx, &cfg, &c, &[d2, d], &Op::GetMagPhase);
                        }
                    }
                    cfg.aspare = spare;
                    // assembling: receiver shorter, equal, longer
                    let a = M { d: pos(n, 3), ..vec_m(false, freq, n, 3) };
                    let b = M { d: unit(n, 6), ..vec_m(false, freq, n, 6) };
                    for rl in [0, n, n + 2] {
                        let r = vec_m(true, freq, rl, 1);
                        let cfg = Cfg { spare: cfg.spare + 2 * n.saturating_sub(rl), ..cfg.clone() };
                        for op in [Op::SetRealImag, Op::SetMagPhase] {
                            go::<T>(ctx, &cfg, &r, &[a.clone(), b.clone()], &op);
                            go::<T>(ctx, &cfg, &r, &[a.clone(), vec_m(false, freq, n + 1, 1)], &op);
                        }
                    }
                    back::<T>(ctx, &cfg, &c);
                }
            }
        });
    }
    // Signs of zero, axes and extreme magnitudes
    p.unit(format!("axes {}", T::NAME), move |ctx| {
        let al = [0.0, 1.0, -1.0, 3.0, -4.0];
        for n in 1..=t.pick3(2u32, 3, 4) {
            for word in 0..25usize.pow(n) {
                let mut w = word;
                let mut d = Vec::new();
                for _ in 0..2 * n {
                    d.push(al[w % 5]);
                    w /= 5;
                }
                // repeated so that the vectorised part is reached
                let d: Vec<f64> = d.iter().cycle().take(48).cloned().collect();
                let c = M { cplx: true, freq: false, delta: 1.0, d, err: false };
                for cfg in [Cfg::vec(), Cfg::slice(1)] {
                    for q in PARTS {
                        go::<T>(ctx, &cfg, &c, &[], &Op::To(q, false));
                        go::<T>(ctx, &cfg, &c, &[], &Op::To(q, true));
                        go::<T>(ctx, &cfg, &c, &[vec_m(false, false, 24, 1)], &Op::Get(q));
                    }
                    back::<T>(ctx, &cfg, &c);
                }
            }
        }
    });
}
/// Taking a vector apart and putting it together again.
fn back<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, c: &M) {
    if cfg.kind == Kind::Arr && c.d.len() + cfg.spare > ARR {
        return;
    }
    for polar in [false, true] {
        let (get, set) = if polar { (Op::GetMagPhase, Op::SetMagPhase) } else { (Op::GetRealImag, Op::SetRealImag) };
        ctx.case(&format!("apart and together {}/{}", opkey(&get), T::NAME), format_args!("{} {}", brief(c), cfg.desc()), || {
            let m = quant::<T>(c);
            let n = m.points();
            let mut s = Session::<T>::new(cfg, &m);
            let d = vec_m(false, m.freq, n, 1);
            let o = s.step(&get, &[d.clone(), d], &NOREC)?;
            let z = M { d: vec![0.5; m.d.len()], ..m.clone() };
            let mut s = Session::<T>::new(cfg, &z);
            let o = s.step(&set, &o.args, &NOREC)?;
            if let Ret::Err(e) = o.ret {
                return Err(format!("refused with {}", e));
            }
            cmp_m("put together", &s.sut.m()?, &m, T::EPS, !polar)
        });
    }
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every number of points up to four (thorough: sixteen) 64 byte blocks and a remainder x storage offsets and types x room in the storage; conversions in \
         place, buffered and into destinations which are shorter or longer than needed with exactly the required capacity or more; assembling from parts; all \
         complex numbers over a 5 letter alphabet of real and imaginary parts",
    );
    both!(unit_for, &mut p, t);
    super::large::large_units(&mut p, t, "C14");
    p
}
