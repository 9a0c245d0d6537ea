//! Reductions: sums, dot products and statistics.
use super::c01::configs;
use crate::engine::*;
use crate::env::*;
use crate::exec::NOREC;
use crate::flt::*;
use crate::gens::*;
use crate::model::*;
use crate::op::*;
use crate::store::*;
use basic_dsp_vector::{Statistics, Stats};
use num_complex::Complex;

fn ops(cplx: bool, points: usize) -> Vec<Op> {
    let mut v = Vec::new();
    for p in [false, true] {
        if cplx {
            v.extend(vec![Op::SumC(p), Op::SumSqC(p), Op::StatsC(p), Op::DotC(p)]);
        } else {
            v.extend(vec![Op::Sum(p), Op::SumSq(p), Op::Stats(p), Op::Dot(p)]);
        }
        for k in 0..=18 {
            if k <= points || k > 16 {
                v.push(if cplx { Op::StatsSplitC(k, p) } else { Op::StatsSplit(k, p) });
            }
        }
    }
    v
}
fn name(op: &Op) -> &'static str {
    match op {
        Op::Sum(false) | Op::SumC(false) => "sum",
        Op::Sum(true) | Op::SumC(true) => "sum_prec",
        Op::SumSq(false) | Op::SumSqC(false) => "sum_sq",
        Op::SumSq(true) | Op::SumSqC(true) => "sum_sq_prec",
        Op::Stats(false) | Op::StatsC(false) => "statistics",
        Op::Stats(true) | Op::StatsC(true) => "statistics_prec",
        Op::StatsSplit(_, false) | Op::StatsSplitC(_, false) => "statistics_split",
        Op::StatsSplit(_, true) | Op::StatsSplitC(_, true) => "statistics_split_prec",
        Op::Dot(false) | Op::DotC(false) => "dot_product",
        _ => "dot_product_prec",
    }
}

/// Distinct values in a given order pattern, so that minimum and maximum are at every position.
fn order(n: usize, pat: usize) -> Vec<f64> {
    (0..n)
        .map(|i| match pat {
            0 => i as f64 + 1.0,
            1 => -(i as f64) - 1.0,
            2 => ((i * 7 + 3) % (n.max(1) * 2 + 1)) as f64 * if i % 2 == 0 { 1.0 } else { -0.5 } + i as f64 / 64.0,
            _ => if i % 2 == 0 { 20.0 - i as f64 } else { -20.0 + i as f64 + 0.25 },
        })
        .collect()
}
/// Distinct magnitudes
fn order_c(n: usize, pat: usize) -> Vec<f64> {
    let o = order(n, pat);
    (0..n)
        .flat_map(|i| {
            let r = match pat {
                0 => o[i],
                1 => 2.0 * n as f64 - i as f64,
                _ => 1.0 + ((i * 5 + 2) % (2 * n + 1)) as f64 + i as f64 / 128.0,
            };
            // the squares don't cancel each other
            let (a, b) = [(0.8, 0.6), (-0.96, 0.28), (0.8, -0.6), (-0.8, -0.6)][i % 4];
            vec![r * a, r * b]
        })
        .collect()
}

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    let per = 64 / std::mem::size_of::<T>();
    let maxp = t.pick3(2 * per + 6, 4 * per + 6, 12 * per + 6);
    for cplx in [false, true] {
        for pat in 0..4 {
            for half in 0..4 {
                p.unit(format!("reductions {} cplx={} pattern={} part {}", T::NAME, cplx, pat, half), move |ctx| {
                    let cfgs: Vec<Cfg> = configs(t, t.pick(per / 4 + 2, per)).into_iter().enumerate().filter(|x| x.0 % 4 == half).map(|x| x.1).collect();
                    for cfg in cfgs {
                        for points in 0..=maxp {
                            let n = if cplx { 2 * points } else { points };
                            if cfg.kind == Kind::Arr && n + cfg.spare > ARR {
                                continue;
                            }
                            let d = if cplx { order_c(points, pat) } else { order(points, pat) };
                            let m = M { cplx, freq: points % 2 == 1, delta: 1.0, d, err: false };
                            ctx.state(m.hash());
                            for op in ops(cplx, points) {
                                let a: Vec<M> = if op.args() == Some(1) { vec![M { freq: m.freq, ..vec_m(cplx, false, points, 9) }] } else { vec![] };
                                let key = format!("{}/{}/{}", name(&op), T::NAME, if cplx { "complex" } else { "real" });
                                ctx.case(&key, format_args!("{:?} points={} pattern={} {}", op, points, pat, cfg.desc()), || {
                                    let mut c = cfg.clone();
                                    c.akind = if points % 2 == 0 { Kind::Slice(1) } else { cfg.kind };
                                    run_op::<T>(&c, &m, &a, &op).map(|_| ())
                                });
                            }
                        }
                    }
                });
            }
        }
    }
    // High precision: the error stays within the bound of compensated summation
    for cplx in [false, true] {
        p.unit(format!("precision {} cplx={}", T::NAME, cplx), move |ctx| {
            for points in t.pick3(vec![1, 7, 64, 1000, 4096, 30000], vec![1, 2, 7, 64, 333, 1000, 4096, 30000, 100000, 300000], vec![1, 2, 3, 5, 7, 16, 33, 64, 127, 333, 1000, 4096, 10007, 30000, 65537, 100000, 300000, 1000000]) {
                for kind in 0..4 {
                    let n = if cplx { 2 * points } else { points };
                    let d: Vec<f64> = (0..n)
                        .map(|i| match kind {
                            0 => 0.1,
                            1 => 1.0 / (i + 1) as f64,
                            // large values which cancel out at the end
                            2 => if i < n / 2 { 3.3e5 + i as f64 } else { -3.3e5 - (n - 1 - i) as f64 + 0.01 },
                            _ => 1e3 + 0.37 * (i % 97) as f64,
                        })
                        .collect();
                    let m = quant::<T>(&M { cplx, freq: false, delta: 1.0, d, err: false });
                    ctx.state(m.hash());
                    let ops = if cplx {
                        vec![Op::SumC(true), Op::SumSqC(true), Op::StatsC(true), Op::DotC(true), Op::StatsSplitC(3, true)]
                    } else {
                        vec![Op::Sum(true), Op::SumSq(true), Op::Stats(true), Op::Dot(true), Op::StatsSplit(3, true)]
                    };
                    for op in ops {
                        if points < 3 && matches!(op, Op::StatsSplit(..) | Op::StatsSplitC(..)) {
                            continue;
                        }
                        let key = format!("precision/{}/{}/{}", name(&op), T::NAME, if cplx { "complex" } else { "real" });
                        ctx.case(&key, format_args!("{:?} points={} kind={}", op, points, kind), || precise::<T>(&m, &op));
                    }
                }
            }
        });
    }
    // Merging of the statistics of all partitions into consecutive pieces
    p.unit(format!("merge {}", T::NAME), move |ctx| {
        let al = [-2.0, 0.5, 3.0];
        for n in 1..=t.pick3(6, 8, 10) {
            for word in 0..3usize.pow(n as u32) {
                let mut w = word;
                let d: Vec<f64> = (0..n)
                    .map(|_| {
                        let x = al[w % 3];
                        w /= 3;
                        x
                    })
                    .collect();
                ctx.state(M::real(false, &d).hash());
                for cuts in 0..(1usize << (n - 1)) {
                    ctx.case(&format!("merge/{}", T::NAME), format_args!("values={:?} cuts={:b}", d, cuts), || merge::<T>(&d, cuts));
                }
            }
        }
    });
}

/// Sums which are exact enough to judge the library's.
fn two_sum(v: impl Iterator<Item = f64>) -> f64 {
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for x in v {
        let t = s + x;
        c += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s };
        s = t;
    }
    s + c
}

fn precise<T: Flt>(m: &M, op: &Op) -> Result<(), String> {
    let cfg = Cfg::vec();
    let mut s = Session::<T>::new(&cfg, m);
    let arg = M { d: m.d.iter().map(|x| T::of(x * 0.5 + 1.0).f()).collect(), ..m.clone() };
    let args = if op.args() == Some(1) { vec![arg.clone()] } else { vec![] };
    let got = match s.step(op, &args, &NOREC)?.ret {
        Ret::Ok(x) => x,
        Ret::Err(e) => return Err(format!("refused with {}", e)),
    };
    // dot products of f32 are calculated in f32, everything else in f64
    let is_dot = matches!(op, Op::Dot(_) | Op::DotC(_));
    let eps = if is_dot { T::ULP } else { f64::EPSILON };
    // products are rounded before they are added
    let bound = |abs: f64| 8.0 * eps * abs + 1e-300;
    let col = |d: &[Complex<f64>], sq: bool, got: &[f64], what: &str| -> Result<(), String> {
        let parts: Vec<(Vec<f64>, f64)> = if !sq {
            vec![(d.iter().map(|x| x.re).collect(), d.iter().map(|x| x.re.abs()).sum()), (d.iter().map(|x| x.im).collect(), d.iter().map(|x| x.im.abs()).sum())]
        } else {
            vec![
                (d.iter().flat_map(|x| vec![x.re * x.re, -x.im * x.im]).collect(), d.iter().map(|x| x.norm_sqr()).sum()),
                (d.iter().map(|x| 2.0 * x.re * x.im).collect(), d.iter().map(|x| x.norm_sqr()).sum()),
            ]
        };
        for (i, g) in got.iter().enumerate() {
            let want = two_sum(parts[i].0.iter().cloned());
            // With f32 data and f64 accumulators plain summation is precise enough
            let plain = if T::NAME == "f32" && !is_dot { d.len() as f64 * f64::EPSILON * parts[i].1 } else { 0.0 };
            if !((g - want).abs() <= bound(parts[i].1) + plain) {
                return Err(format!("{} is {} instead of {}, error {:e}, allowed {:e}", what, g, want, (g - want).abs(), bound(parts[i].1) + plain));
            }
        }
        Ok(())
    };
    let c = m.c();
    let w = m.step();
    match op {
        Op::Sum(_) | Op::SumC(_) => col(&c, false, &got, "sum"),
        Op::SumSq(_) | Op::SumSqC(_) => col(&c, true, &got, "sum of squares"),
        Op::Dot(_) | Op::DotC(_) => {
            let z: Vec<Complex<f64>> = c.iter().zip(arg.c()).map(|(a, b)| a * b).collect();
            let abs: f64 = c.iter().zip(arg.c()).map(|(a, b)| a.norm() * b.norm()).sum();
            for (i, g) in got.iter().enumerate() {
                let want = two_sum(z.iter().map(|x| if i == 0 { x.re } else { x.im }));
                if !((g - want).abs() <= bound(abs)) {
                    return Err(format!("dot product is {} instead of {}, error {:e}, allowed {:e}", g, want, (g - want).abs(), bound(abs)));
                }
            }
            Ok(())
        }
        _ => {
            let k = match op {
                Op::StatsSplit(k, _) | Op::StatsSplitC(k, _) => *k,
                _ => 1,
            };
            let width = if w == 2 { 13 } else { 8 };
            for j in 0..k {
                let sel: Vec<Complex<f64>> = c.iter().enumerate().filter(|x| x.0 % k == j).map(|x| *x.1).collect();
                let g = &got[j * width..(j + 1) * width];
                col(&sel, false, &g[..w], "sum")?;
                let rms = if w == 2 { Complex::new(g[5], g[6]) } else { Complex::new(g[3], 0.0) };
                let sq = rms * rms * sel.len() as f64;
                let want = Complex::new(two_sum(sel.iter().map(|x| (x * x).re)), two_sum(sel.iter().map(|x| (x * x).im)));
                let abs: f64 = sel.iter().map(|x| x.norm_sqr()).sum();
                // the squares are added like in the operation without compensation
                if (sq - want).norm() > (1e-12 + sel.len() as f64 * f64::EPSILON) * abs {
                    return Err(format!("rms {} squared times the count is {} instead of {}", rms, sq, want));
                }
            }
            Ok(())
        }
    }
}

fn merge<T: Flt>(d: &[f64], cuts: usize) -> Result<(), String> {
    let mut parts: Vec<Statistics<T>> = vec![Statistics::<T>::empty()];
    let mut cparts: Vec<Statistics<Complex<T>>> = vec![Statistics::<Complex<T>>::empty()];
    for (i, x) in d.iter().enumerate() {
        parts.last_mut().unwrap().add(T::of(*x), i);
        cparts.last_mut().unwrap().add(Complex::new(T::of(*x), T::of(1.0)), i);
        if i + 1 < d.len() && cuts >> i & 1 == 1 {
            parts.push(Statistics::<T>::empty());
            cparts.push(Statistics::<Complex<T>>::empty());
        }
    }
    let s = Statistics::<T>::merge(&parts);
    let want = stats_r(d);
    let at = |i: usize| d.get(i).cloned().unwrap_or(f64::NAN);
    let got = [s.sum.f(), s.count as f64, s.average.f(), s.rms.f(), s.min.f(), at(s.min_index), s.max.f(), at(s.max_index)];
    let want = [want[0], want[1], want[2], want[3], want[4], want[4], want[6], want[6]];
    for i in 0..8 {
        if !((got[i] - want[i]).abs() < 1e-5) {
            return Err(format!("merged statistics {:?} instead of {:?}", got, want));
        }
    }
    let c = Statistics::<Complex<T>>::merge(&cparts);
    let n = |x: f64| (x * x + 1.0).sqrt();
    let (mut lo, mut hi) = (f64::MAX, 0.0f64);
    for x in d {
        lo = lo.min(n(*x));
        hi = hi.max(n(*x));
    }
    let got = [c.min.norm().f(), n(at(c.min_index)), c.max.norm().f(), n(at(c.max_index)), c.sum.re.f(), c.count as f64];
    let want = [lo, lo, hi, hi, want[0], want[1]];
    for i in 0..6 {
        if !((got[i] - want[i]).abs() < 1e-5) {
            return Err(format!("merged complex statistics {:?} instead of {:?}", got, want));
        }
    }
    Ok(())
}

pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every reduction (normal and precise; split statistics with every number of columns 0..18) x real/complex x f32/f64 x every number of points up to \
         four (thorough: twelve) 64 byte blocks x storage offsets, types and spare capacity x 4 arrangements of the extreme values; all partitions of all words \
         of up to 8 (thorough: 10) symbols for merging; precise variants on 4 ill-conditioned families up to 300000 (thorough: 1000000) points",
    );
    p.assume("positions of minimum and maximum are compared for distinct values only");
    unit_for::<f32>(&mut p, t);
    unit_for::<f64>(&mut p, t);
    super::large::large_units(&mut p, t, "C02");
    p
}
