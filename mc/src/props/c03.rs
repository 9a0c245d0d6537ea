//! Worker threads: number, partition, completion order and interleaving.
use super::common::*;
use crossbeam::mc::{explore, run_once};
use std::cell::RefCell;

/// Settings which allow threads for data of any size: all cores, two cores, and mixed ones
fn settings(limit: usize) -> [(usize, usize, usize, usize, usize); 3] {
    [(limit, 0, 0, 0, 0), (limit, 0, 1 << 20, 0, 1 << 20), (limit, 3, 7, 2, 9)]
}
fn spawns<T: Flt>(it: &Item, cfg: &Cfg) -> bool {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_once(Vec::new(), || it.run::<T>(cfg, &NOREC).is_ok()).1.participants));
    r.map_or(true, |n| n > 1)
}
fn calls(rec: &Rec) -> Vec<(u64, f64)> {
    let mut v: Vec<(u64, f64)> = rec
        .sorted()
        .into_iter()
        .map(|(k, x)| if k <= 4 && x > 1 << 40 { (k, f64::from_bits(x)) } else { (k, x as f64) })
        .collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    v.dedup();
    v
}
fn same_calls(got: &[(u64, f64)], want: &[(u64, f64)]) -> Result<(), String> {
    let near = |x: &(u64, f64), v: &[(u64, f64)]| {
        let i = v.partition_point(|y| y.0 < x.0 || y.0 == x.0 && y.1 < x.1);
        v[i.saturating_sub(1)..(i + 1).min(v.len())].iter().any(|y| y.0 == x.0 && (y.1 - x.1).abs() <= 1e-4 * x.1.abs().max(1.0))
    };
    for x in got {
        if !near(x, want) {
            return Err(format!("the user function is called with {:?} only if there are several threads", x));
        }
    }
    for x in want {
        if !near(x, got) {
            return Err(format!("the user function isn't called with {:?} if there are several threads", x));
        }
    }
    Ok(())
}
fn single<T: Flt>(it: &Item, cfg: &Cfg) -> Option<(M, Vec<(u64, f64)>)> {
    let rec = Rec { on: true, ..Default::default() };
    let one = Cfg { mcs: None, ..cfg.clone() };
    let o = it.run::<T>(&one, &rec).ok()?;
    Some((o.m, calls(&rec)))
}
fn config(n: usize, mcs: (usize, usize, usize, usize, usize)) -> Cfg {
    Cfg { mcs: Some(mcs), ..Cfg::slice(n % 5).spare(room(n)).buf(BufKind::Fixed(1 << 14)) }
}
fn desc(it: &Item, cfg: &Cfg) -> String {
    format!("{:?} {} args=[{}] {}", it.op, brief(&it.m), briefs(&it.args), cfg.desc())
}

/// Real threads with every setting, compared with the model and the single-threaded calls
fn sizes<T: Flt>(ctx: &mut Ctx, it: &Item, limits: usize) {
    let n = it.m.points();
    if !spawns::<T>(it, &config(n, (3, 0, 0, 0, 0))) {
        return;
    }
    let base = single::<T>(it, &config(n, (1, 0, 0, 0, 0)));
    ctx.state(it.m.hash());
    for limit in (0..=limits).filter(|l| *l != 1) {
        for mcs in settings(limit) {
            let cfg = config(n, mcs);
            ctx.case(&case_key::<T>(&it.op, &it.m), format_args!("{}", desc(it, &cfg)), || {
                let rec = Rec { on: true, ..Default::default() };
                it.run::<T>(&cfg, &rec)?;
                match &base {
                    Some((_, c)) => same_calls(&calls(&rec), c),
                    None => Err("the single-threaded execution fails".into()),
                }
            });
        }
    }
}
/// All schedules of the workers
fn schedules<T: Flt>(ctx: &mut Ctx, it: &Item, workers: usize, bound: usize, cap: u64) {
    let n = it.m.points();
    let cfg = config(n, (workers, 0, 0, 0, 0));
    if !spawns::<T>(it, &cfg) {
        return;
    }
    let base = single::<T>(it, &cfg);
    let key = format!("schedule {}", case_key::<T>(&it.op, &it.m));
    let stat = RefCell::new((0, 0, 0, true));
    ctx.case(&key, format_args!("{} preemptions<={}", desc(it, &cfg), bound), || {
        let first: RefCell<Option<M>> = RefCell::new(None);
        let (r, choices) = explore(bound, cap, |prefix| {
            let rec = Rec { on: true, ..Default::default() };
            let (r, t) = run_once(prefix.to_vec(), || it.run::<T>(&cfg, &rec));
            let verdict = || -> Result<(), String> {
                if t.deadlock {
                    return Err("no participant can continue".into());
                }
                if t.diverged {
                    return Err("harness: the schedule can't be replayed".into());
                }
                let o = r?;
                if let Some((_, c)) = &base {
                    same_calls(&calls(&rec), c)?;
                }
                let mut f = first.borrow_mut();
                match &*f {
                    None => *f = Some(o.m),
                    Some(m) => cmp_m("compared with another schedule", &o.m, m, T::EPS * it.tol.abs().max(1.0), false)?,
                }
                Ok(())
            };
            (verdict(), t)
        });
        match r {
            Ok(e) => {
                *stat.borrow_mut() = (e.schedules, e.points, e.max_live, e.complete);
                Ok(())
            }
            Err(e) => Err(format!("{} with the schedule {:?}", e, choices)),
        }
    });
    let (s, p, l, complete) = *stat.borrow();
    ctx.note("schedules", s);
    ctx.note("scheduling_points", p);
    ctx.note_max("threads", l as u64);
    ctx.note("capped_explorations", if complete { 0 } else { 1 });
    ctx.note("complete_explorations", if complete && s > 0 { 1 } else { 0 });
}

fn large(cplx: bool) -> Vec<Item> {
    let mut v = Vec::new();
    let mut add = |op: Op, p: usize, args: Vec<M>, tol: f64| v.push(Item { op, m: vec_m(cplx, false, p, 3), args, tol });
    let e = if cplx { 2 } else { 1 };
    let arg = |q: usize| vec_m(cplx, false, q, 2);
    // around the limit of the vectorised convolution
    for (p, q) in vec![(1000, 13), (1001, 12), (1003, 37), (1024, 100), (1031, 101), (1500, 64)] {
        add(Op::ConvolveSignal, p / e + 1, vec![arg(q / e + 1)], 40.0);
    }
    if cplx {
        add(Op::ConvolveSignal, 5003, vec![arg(9)], 40.0);
        add(Op::ConvolveSignal, 5100, vec![arg(130)], 100.0);
    }
    for (p, len) in vec![(2000, 5), (2001, 7), (2016, 40), (2050, 101)] {
        for r in [Resp::Gauss(true), Resp::Poly] {
            add(Op::Convolve(r, 1.0, len / e), p / e + 1, vec![], 40.0);
        }
    }
    for (p, f, len) in vec![(1000, 2.0, 5), (700, 3.0, 12), (1003, 2.0, 50), (2100, 1.0, 3), (333, 7.0, 8)] {
        for r in [Resp::Gauss(true), Resp::Sinc] {
            add(Op::Interpolatef(r, f, 0.0, len), p, vec![], 40.0);
        }
    }
    for w in [Win::Hamming, Win::Ramp, Win::Tri] {
        add(Op::ApplyWindow(w), 1537, vec![], 4.0);
    }
    add(Op::Trig(crate::op::Trig::Sin), 2049, vec![], 4.0);
    v
}

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    for cplx in [false, true] {
        for freq in [false, true] {
            for n in (0..=t.pick(13usize, 26)).chain(t.pick(vec![17, 32], vec![31, 32, 33, 40, 63, 64, 65])) {
                p.unit(format!("sizes {} cplx={} freq={} n={}", T::NAME, cplx, freq, n), move |ctx| {
                    for it in catalog(cplx, freq, n) {
                        sizes::<T>(ctx, &it, t.pick(8, 12));
                    }
                });
            }
            for n in t.pick(vec![1usize, 2, 4, 7], vec![1, 2, 3, 4, 5, 7, 8]) {
                p.unit(format!("schedules {} cplx={} freq={} n={}", T::NAME, cplx, freq, n), move |ctx| {
                    for it in catalog(cplx, freq, n) {
                        for workers in 2..=t.pick(3, 4) {
                            // the schedules don't depend on the width of the numbers
                            let deep = t.thorough() && T::NAME == "f64";
                            schedules::<T>(ctx, &it, workers, if deep { 2 } else { 1 }, if deep { 4_000 } else { 2_000 });
                        }
                    }
                });
            }
        }
        for (i, it) in large(cplx).into_iter().enumerate() {
            p.unit(format!("large {} cplx={} {}", T::NAME, cplx, i), move |ctx| sizes::<T>(ctx, &it, t.pick(4, 8)));
        }
    }
}

/// The settings themselves
fn thresholds(ctx: &mut Ctx, t: Tier) {
    use basic_dsp_vector::MultiCoreSettings as S;
    for limit in [0, 1, 2, 8] {
        let v = [0, 1, 2, 1000, usize::MAX - 1, usize::MAX];
        for a in v {
            for b in v {
                for c in v {
                    for d in v {
                        ctx.case("with_thresholds", format_args!("{} {} {} {} {}", limit, a, b, c, d), || {
                            let s = S::with_thresholds(limit, a, b, c, d);
                            if s.core_limit != limit || s.med_dual_core_threshold != a || s.large_dual_core_threshold != c {
                                return Err(format!("{:?}", s));
                            }
                            if s.med_multi_core_threshold < b.max(a) || s.large_multi_core_threshold < d.max(c) {
                                return Err(format!("more cores are used before the given threshold: {:?}", s));
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    for (name, s) in [("default", S::default()), ("single", S::single_threaded()), ("one", S::new(1)), ("zero", S::new(0))] {
        ctx.case("settings", format_args!("{}", name), || if s.core_limit == 1 { Ok(()) } else { Err(format!("{:?}", s)) });
    }
    // what a user gets without own thresholds, with data which is large enough for threads
    let n = t.pick(201_000usize, 240_001);
    for (name, s) in [("parallel", S::parallel()), ("new", S::new(3))] {
        let mut ops = vec![(Op::Trig(crate::op::Trig::Cos), 0), (Op::ApplyWindow(Win::Hamming), 0), (Op::ApplyWindow(Win::Ramp), 0), (Op::MulFreq(Resp::Gauss(true), 0.5), 0)];
        for r in [Resp::Gauss(true), Resp::Poly] {
            ops.extend(vec![(Op::Convolve(r, 1.0, 5), 0), (Op::Convolve(r, 0.75, 4), 0), (Op::Interpolatef(r, 2.0, 0.0, 5), 0), (Op::Interpolatef(r, 1.5, 0.25, 3), 0)]);
        }
        ops.extend(vec![(Op::ConvolveSignal, 13), (Op::ConvolveSignal, 40), (Op::ConvolveC(Resp::Gauss(true), 1.0, 4), 0), (Op::MulFreqC(Resp::Poly, 1.0), 0), (Op::Map(1.5), 0)]);
        for (op, q) in ops {
            for cplx in [false, true] {
                for n in [n, n / 2 + 13, n / 4 + 1] {
                    let n = if cplx { n / 2 } else { n };
                    let m = vec_m(cplx, matches!(op, Op::MulFreq(..) | Op::MulFreqC(..)), n, 3);
                    let args = if q > 0 { vec![vec_m(cplx, false, q, 2)] } else { Vec::new() };
                    let cfg = Cfg {
                        mcs: Some((s.core_limit, s.med_dual_core_threshold, s.med_multi_core_threshold, s.large_dual_core_threshold, s.large_multi_core_threshold)),
                        ..Cfg::vec()
                    };
                    ctx.case(&format!("{} {}", name, opkey(&op)), format_args!("{:?} cplx={} n={}", op, cplx, n), || run_op::<f64>(&cfg, &m, &args, &op).map(|_| ()));
                }
            }
        }
    }
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every operation which starts threads (decided by running it) x real/complex x time/frequency x f32/f64. Partition: 0..13, 17, 32 points (thorough 0..26 and around \
         32 and 64) and data large enough for the vectorised and block-wise paths x core limits 0, 2..8 (thorough 12) x thresholds for all cores, for two cores and mixed \
         ones. Schedules: 1, 2, 4, 7 points (thorough 1..5, 7, 8) x 2..3 workers (thorough 2..4): all schedules over thread starts, thread ends, joins and calls of user \
         functions with at most 1 (thorough and f64: 2) preemptions, at most 2000 (4000) each, the number of explorations which hit this limit is in the evidence; every execution is compared with the model, with another schedule and \
         with the arguments which user functions see in the single-threaded execution",
    );
    p.assume("workers are scheduled at thread start and end, at joins and at calls of user functions; between these points a worker only accesses its own part of the data, which safe Rust enforces");
    p.unit("thresholds", move |ctx| thresholds(ctx, t));
    both!(unit_for, &mut p, t);
    p
}
