//! Linear and spline interpolation of real signals.
use super::common::*;

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    for n in 0..=t.pick3(24usize, 70, 110) {
        p.unit(format!("spline {} n={}", T::NAME, n), move |ctx| {
            let line = M { d: (0..n).map(|i| 1.5 - 0.75 * i as f64).collect(), ..vec_m(false, false, n, 0) };
            let mut ms = vec![vec_m(false, false, n, 2), line, vec_m(false, true, n, 3)];
            if n <= t.pick3(8, 12, 32) {
                ms.extend(basis(false, false, n));
            }
            for m in ms {
                for (i, f) in [1.0, 2.0, 3.0, 4.0, 7.0, 1.5, 2.25, 0.5, 0.75, 0.3, 10.0].iter().enumerate() {
                    for delay in [0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.25, -0.5, -1.0, n as f64, 2.0 * n as f64] {
                        for cfg in cfgs(t, n * 10 + 4) {
                            if i > 2 && cfg.kind != Kind::Vec {
                                continue;
                            }
                            go::<T>(ctx, &cfg, &m, &[], &Op::InterpolateLin(*f, delay));
                            go::<T>(ctx, &cfg, &m, &[], &Op::InterpolateHermite(*f, delay));
                        }
                    }
                }
                if n > 1 {
                    for cfg in [Cfg::slice(0), Cfg::slice(1).spare(2)] {
                        go::<T>(ctx, &cfg, &m, &[], &Op::InterpolateLin(5.0, 0.0));
                        go::<T>(ctx, &cfg, &m, &[], &Op::InterpolateHermite(5.0, 0.0));
                    }
                }
            }
            // Complex vectors have no such operation
            let c = vec_m(true, false, n, 2);
            go::<T>(ctx, &Cfg::vec(), &c, &[], &Op::InterpolateLin(2.0, 0.0));
            go::<T>(ctx, &Cfg::vec(), &c, &[], &Op::InterpolateHermite(2.0, 0.0));
        });
    }
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "all points 0..70 (thorough 0..110) x 11 factors x 12 delays (inside, at and beyond both ends) for arbitrary data, straight lines and all unit impulses (up to 12/32 points); \
         storages with and without room, buffers, f32/f64",
    );
    p.assume("values at positions outside of the signal are not specified, only that the call returns");
    both!(unit_for, &mut p, t);
    super::large::large_units(&mut p, t, "C11");
    p
}
