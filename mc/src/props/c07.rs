//! Convolution of two vectors on all paths.
use super::common::*;

fn cfg_list(t: Tier) -> Vec<Cfg> {
    let big = BufKind::Fixed(1 << 18);
    let mut v = vec![Cfg::vec().buf(BufKind::Single(7)).spare(3), Cfg::slice(1).spare(1).buf(big), Cfg::slice(0).spare(5).buf(big)];
    if t.thorough() {
        v.extend(vec![
            Cfg::slice(2).buf(big),
            Cfg::slice(3).spare(2).buf(big),
            Cfg { akind: Kind::Slice(3), ..Cfg::vec().buf(BufKind::No).spare(6) },
            Cfg { kind: Kind::Box, akind: Kind::Vec, ..Cfg::slice(0).spare(9).buf(big) },
        ]);
    }
    v
}

fn small<T: Flt>(p: &mut Plan, t: Tier) {
    for n in 0..=t.pick(26usize, 72) {
        p.unit(format!("small {} n={}", T::NAME, n), move |ctx| {
            for cplx in [false, true] {
                for q in 0..=n + 2 {
                    let (m, h) = (vec_m(cplx, false, n, 2), vec_m(cplx, false, q, 5));
                    for cfg in cfg_list(t) {
                        go::<T>(ctx, &cfg, &m, &[h.clone()], &Op::ConvolveSignal);
                    }
                    // Bilinear: all pairs of unit impulses
                    if n <= t.pick(6, 9) {
                        for a in basis(cplx, false, n) {
                            for b in basis(cplx, false, q) {
                                go::<T>(ctx, &Cfg::slice(1).spare(1), &a, &[b], &Op::ConvolveSignal);
                            }
                        }
                    }
                }
            }
        });
    }
}
/// Around the thresholds of the vectorised path
fn simd<T: Flt>(p: &mut Plan, t: Tier) {
    let imp = t.pick(
        vec![4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 33, 50, 64, 99, 100, 101, 102, 103, 201, 202, 203],
        (4..=204).collect::<Vec<usize>>(),
    );
    for cplx in [false, true] {
        let c = if cplx { 501usize } else { 1001 };
        for n in c - 3..=c + t.pick(9, 17) {
            let imp = imp.clone();
            p.unit(format!("vectorised {} n={} cplx={}", T::NAME, n, cplx), move |ctx| {
                let m = vec_m(cplx, false, n, 2);
                for q in &imp {
                    let h = vec_m(cplx, false, *q, 5);
                    for cfg in cfg_list(t) {
                        go::<T>(ctx, &cfg, &m, &[h.clone()], &Op::ConvolveSignal);
                    }
                }
            });
        }
    }
}
/// Around the thresholds of the block algorithm and at the ends of its blocks
fn blocks<T: Flt>(p: &mut Plan, t: Tier) {
    let imp: Vec<usize> = t.pick(vec![7, 8, 101, 102, 103, 128, 129, 130, 256, 257, 258, 300, 499, 500], {
        let mut v: Vec<usize> = (99..=140).collect();
        v.extend(vec![7, 8, 200, 255, 256, 257, 258, 300, 400, 498, 499, 500, 501]);
        v
    });
    for q in imp {
        p.unit(format!("blocks {} q={}", T::NAME, q), move |ctx| {
            let mut lens: Vec<usize> = vec![4999, 5000, 5001, 5002, 5009, 10 * q + 1, 10 * q + 7];
            // The positions at which a further block begins
            let fft_len = (4 * (q - 1)).next_power_of_two();
            let step = fft_len - (q - 1);
            let mut x = step;
            while x < t.pick(7000, 9000) {
                for d in [0, 1, 2] {
                    lens.push(x + fft_len + d - 1);
                }
                x += step;
            }
            for k in 1..8 {
                for d in [0, 1] {
                    lens.push(k * fft_len + d);
                }
            }
            lens.retain(|l| *l > 4998 && *l < t.pick(8000, 12000) && *l >= 10 * q);
            lens.sort();
            lens.dedup();
            if !t.thorough() && lens.len() > 14 {
                let s = lens.len() / 14 + 1;
                lens = lens.into_iter().enumerate().filter(|(i, l)| i % s == 0 || *l <= 5001).map(|x| x.1).collect();
            }
            for n in lens {
                let m = vec_m(true, false, n, 2);
                let h = vec_m(true, false, q, 5);
                for cfg in cfg_list(Tier::Quick).into_iter().take(t.pick(1, 2)) {
                    go::<T>(ctx, &cfg, &m, &[h.clone()], &Op::ConvolveSignal);
                }
            }
        });
    }
    if T::NAME == "f64" {
        p.unit("long real", move |ctx| {
            for q in [203usize, 204, 250] {
                for n in [10000usize, 10001, 10002] {
                    go::<T>(ctx, &Cfg::vec(), &vec_m(false, false, n, 2), &[vec_m(false, false, q, 5)], &Op::ConvolveSignal);
                }
            }
        });
    }
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "all points 0..26 (thorough 0..72) x all lengths of the impulse response 0..n+2, real/complex, f32/f64, all pairs of unit impulses up to 6 (9) points; \
         lengths around the threshold of the vectorised path (998..1010 elements, thorough 998..1018) x 26 lengths of the impulse response around 11, 202 and the register \
         widths (thorough: all 4..204) x storage offsets; the block algorithm for 14 (55) impulse responses x lengths at its thresholds and at the ends of its blocks",
    );
    both!(small, &mut p, t);
    both!(simd, &mut p, t);
    both!(blocks, &mut p, t);
    super::large::large_units(&mut p, t, "C07");
    p
}
