//! Element-wise operations compute their definition at every position.
use crate::engine::*;
use crate::env::*;
use crate::flt::*;
use crate::gens::*;
use crate::model::*;
use crate::op::*;
use crate::store::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dom {
    Any,
    Pos,
    Unit,
    /// greater than one
    Big,
    Ten,
    Tiny,
}

fn ops(cplx: bool) -> Vec<(Op, Dom, f64)> {
    use Dom::*;
    let mut v = vec![
        (Op::Scale(-2.5), Any, 1.0),
        (Op::Offset(3.25), Any, 1.0),
        (Op::Square, Any, 1.0),
        (Op::Sqrt, Pos, 1.0),
        (Op::Root(3.0), Pos, 1.0),
        (Op::Powf(1.5), Pos, 1.0),
        (Op::Powf(-2.0), Pos, 1.0),
        (Op::Ln, Pos, 1.0),
        (Op::Exp, Unit, 1.0),
        (Op::Log(10.0), Pos, 1.0),
        (Op::Expf(10.0), Unit, 1.0),
    ];
    for t in TRIGS {
        let d = match t {
            Trig::Acosh => if cplx { Pos } else { Big },
            Trig::Tan | Trig::Asin | Trig::Acos | Trig::Atanh => Unit,
            _ => Unit,
        };
        v.push((Op::Trig(t), d, 4.0));
    }
    if cplx {
        v.extend(vec![
            (Op::ScaleC(0.5, -2.0), Any, 1.0),
            (Op::OffsetC(1.5, -2.25), Any, 1.0),
            (Op::Conj, Any, 1.0),
            (Op::MulCexp(0.25, 0.75), Any, 4.0),
        ]);
    } else {
        v.extend(vec![
            (Op::Abs, Any, 1.0),
            (Op::Wrap(1.75), Any, 1.0),
            (Op::Unwrap(1.5), Any, 4.0),
            (Op::Unwrap(6.25), Any, 4.0),
            // documented error bounds, relative to the tolerance of f64
            (Op::SinApprox, Unit, -1e-5),
            (Op::CosApprox, Unit, -1e-5),
            (Op::LnApprox, Big, -0.02),
            (Op::LogApprox(10.0), Big, -0.02),
            (Op::ExpApprox, Ten, -0.02),
            (Op::ExpfApprox(2.0), Ten, -0.02),
            (Op::PowfApprox(1.0625), Tiny, -0.03),
        ]);
    }
    v
}

fn data(d: Dom, n: usize, seed: usize) -> Vec<f64> {
    match d {
        Dom::Any => vals(n, seed),
        Dom::Pos => pos(n, seed),
        Dom::Unit => unit(n, seed),
        Dom::Big => pos(n, seed).iter().map(|x| x + 1.0).collect(),
        Dom::Ten => vals(n, seed).iter().map(|x| x * 2.0).collect(),
        Dom::Tiny => pos(n, seed).iter().map(|x| x + 1.0).collect(),
    }
}

/// All values in `got` are within the relative bound of the definition.
fn approx<T: Flt>(cfg: &Cfg, m: &M, op: &Op, rel: f64) -> Result<(), String> {
    let m = quant::<T>(m);
    let mut s = Session::<T>::new(cfg, &m);
    let exp = s.expect(op, &m, &[]);
    let obs = s.step(op, &[], &crate::exec::NOREC)?;
    if obs.m.d.len() != exp.m.d.len() {
        return Err(format!("{} values instead of {}", obs.m.d.len(), exp.m.d.len()));
    }
    for i in 0..exp.m.d.len() {
        let (g, w) = (obs.m.d[i], exp.m.d[i]);
        if !((g - w).abs() <= rel * w.abs().max(if rel < 1e-3 { 1.0 } else { 0.05 })) {
            return Err(format!("value {} is {} instead of {} for {}", i, g, w, m.d[i]));
        }
    }
    Ok(())
}

pub fn configs(t: Tier, max_off: usize) -> Vec<Cfg> {
    let mut v = Vec::new();
    for off in 0..max_off {
        for spare in t.pick3(vec![0, 3], vec![0, 1, 2, 3, 5, 8], (0..13).collect()) {
            v.push(Cfg::slice(off).spare(spare));
        }
    }
    v.push(Cfg::vec());
    v.push(Cfg::vec().spare(5));
    v.push(Cfg { kind: Kind::Box, akind: Kind::Vec, ..Cfg::slice(0) });
    v.push(Cfg { kind: Kind::Arr, akind: Kind::Box, ..Cfg::slice(0) }.spare(3));
    v
}

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    let per = 64 / std::mem::size_of::<T>();
    let maxp = t.pick3(2 * per + 8, 4 * per + 12, 8 * per + 20);
    for cplx in [false, true] {
        for (op, dom, tol) in ops(cplx) {
            p.unit(format!("{:?} {} cplx={}", op, T::NAME, cplx), move |ctx| {
                let key = format!("{}/{}/{}", opname(&op), T::NAME, if cplx { "complex" } else { "real" });
                for cfg in configs(t, t.pick(per / 2 + 1, per)) {
                    for points in 0..=maxp {
                        let n = if cplx { 2 * points } else { points };
                        if cfg.kind == Kind::Arr && n + cfg.spare > ARR {
                            continue;
                        }
                        for seed in t.pick3(vec![1], vec![1, 4], (1..9).collect()) {
                            let m = M { cplx, freq: points % 2 == 0, delta: 0.5, d: data(dom, n, seed), err: false };
                            ctx.state(m.hash());
                            ctx.case(&key, format_args!("points={} seed={} {}", points, seed, cfg.desc()), || {
                                if tol < 0.0 {
                                    approx::<T>(&cfg, &m, &op, -tol)
                                } else {
                                    run_tol::<T>(&cfg, &m, &[], &op, tol)
                                }
                            });
                        }
                    }
                }
            });
        }
        for b in BINS {
            for smaller in [false, true] {
                p.unit(format!("{:?} smaller={} {} cplx={}", b, smaller, T::NAME, cplx), move |ctx| {
                    let op = if smaller { Op::BinSmaller(b) } else { Op::Bin(b) };
                    let key = format!("{}/{}/{}", opname(&op), T::NAME, if cplx { "complex" } else { "real" });
                    for off in 0..t.pick(per / 2 + 1, per) {
                        for aoff in t.pick(vec![0, 1, 2, 5], (0..per).collect()) {
                            for spare in t.pick3(vec![0, 3], vec![0, 1, 3, 4], (0..9).collect()) {
                                let cfg = Cfg { akind: Kind::Slice(aoff), ..Cfg::slice(off).spare(spare) };
                                for points in 0..=t.pick(maxp.min(32), maxp) {
                                    for arg in 1..=points.max(1) {
                                        if (smaller && points % arg != 0) || (!smaller && arg != points) {
                                            continue;
                                        }
                                        let m = vec_m(cplx, false, points, 1);
                                        let a = M { d: pos(if cplx { 2 * arg } else { arg }, 3), ..vec_m(cplx, false, arg, 2) };
                                        ctx.state(m.hash() ^ a.hash().rotate_left(7));
                                        ctx.case(&key, format_args!("points={} arg={} aoff={} {}", points, arg, aoff, cfg.desc()), || {
                                            run_tol::<T>(&cfg, &m, &[a.clone()], &op, 1.0)
                                        });
                                    }
                                }
                            }
                        }
                    }
                });
            }
        }
    }
}

pub fn opname(op: &Op) -> String {
    let s = format!("{:?}", op);
    s
}

pub fn run_tol<T: Flt>(cfg: &Cfg, m: &M, args: &[M], op: &Op, tol: f64) -> Result<(), String> {
    let m = quant::<T>(m);
    let args: Vec<M> = args.iter().map(quant::<T>).collect();
    let mut s = Session::<T>::new(cfg, &m);
    let exp = s.expect(op, &m, &args);
    let obs = s.step(op, &args, &crate::exec::NOREC)?;
    check_tol::<T>(&obs, &exp, &args, T::EPS * tol)
}

pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every element-wise operation x real/complex x f32/f64 x every number of points up to four (thorough: eight) 64 byte blocks and a \
         remainder x every element offset of the storage from a 64 byte boundary x spare storage x storage type; \
         NaN, infinities, signed zeros, subnormal, tiny and huge numbers at every position",
    );
    p.assume("other values come from a fixed alphabet in the domain of the operation");
    unit_for::<f32>(&mut p, t);
    unit_for::<f64>(&mut p, t);
    super::special::special_units::<f32>(&mut p, t);
    super::special::special_units::<f64>(&mut p, t);
    super::large::large_units(&mut p, t, "C01");
    p
}
