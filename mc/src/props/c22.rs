//! Mapping and aggregation.
use super::common::*;

fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    for cplx in [false, true] {
        for n in 0..=t.pick3(40usize, 130, 600) {
            p.unit(format!("map {} n={} cplx={}", T::NAME, n, cplx), move |ctx| {
                let mut cs = cfgs(t, 3);
                for limit in 1..=t.pick3(4, 8, 16) {
                    // thresholds which allow several threads for every length
                    for th in [0, 1, 5] {
                        cs.push(Cfg { mcs: Some((limit, th, th, th, th)), ..Cfg::slice(limit).spare(limit) });
                    }
                }
                for cfg in cs {
                    for freq in [false, true] {
                        let m = vec_m(cplx, freq, n, 2);
                        let ops = if cplx { [Op::MapC(1.5), Op::MapAggrC(0.5)] } else { [Op::Map(1.5), Op::MapAggr(0.5)] };
                        for op in ops {
                            go::<T>(ctx, &cfg, &m, &[], &op);
                            once::<T>(ctx, &cfg, &m, &op);
                        }
                        // the wrong number space
                        let ops = if cplx { [Op::Map(1.5), Op::MapAggr(0.5)] } else { [Op::MapC(1.5), Op::MapAggrC(0.5)] };
                        for op in ops {
                            go::<T>(ctx, &cfg, &m, &[], &op);
                        }
                    }
                }
            });
        }
    }
}
fn once<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, m: &M, op: &Op) {
    if cfg.kind == Kind::Arr && m.d.len() + cfg.spare > ARR {
        return;
    }
    let key = format!("calls {}", case_key::<T>(op, m));
    ctx.case(&key, format_args!("{} {}", brief(m), cfg.desc()), || {
        let rec = Rec { on: true, ..Default::default() };
        run_op_rec::<T>(cfg, m, &[], op, &rec)?;
        let got: Vec<u64> = rec.sorted().iter().map(|x| x.1).collect();
        let want: Vec<u64> = (0..m.points() as u64).collect();
        if got != want {
            return Err(format!("the function was called for the indices {:?} instead of 0..{}", got, m.points()));
        }
        Ok(())
    });
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every number of points 0..130 (thorough 0..600), real/complex, both domains, f32/f64, storage types, offsets and spare capacity, core limits 1..8 \
         (thorough 1..16) with thresholds which allow several threads; the calls of the user function are recorded and compared as a multiset",
    );
    p.assume("the aggregation used is associative and commutative");
    both!(unit_for, &mut p, t);
    super::large::large_units(&mut p, t, "C22");
    p
}
