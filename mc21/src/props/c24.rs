//! The library without its feature `std` computes the same: the build is compared with the same model
//! over the spaces which the other checks explore in the build with `std`.
use super::common::*;
use super::*;

pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "the library built without its default features, as its no_std users get it (no threads, no heap storage of its own, internal lists of at most 64 entries): \
         everything that C01, C02, C04 to C17, C22 and C23 explore in the build with the standard library, with the same reference model; convolutions, interpolations \
         and lookup tables on both sides of the sizes at which the internal lists are full",
    );
    p.assume("lookup tables have at most 64 entries, tables which are transformed at most 24: they are stored in lists of a fixed size by design");
    p.assume("storages on the heap and growing buffers are implemented by the harness in this build, the library offers slices, ArrayVec and FixedLenBuffer");
    both!(capacity, &mut p, t);
    for (id, q) in [
        ("C01", c01::plan(t)), ("C02", c02::plan(t)), ("C04", c04::plan(t)), ("C05", c05::plan(t)), ("C06", c06::plan(t)), ("C07", c07::plan(t)),
        ("C08", c08::plan(t)), ("C09", c09::plan(t)), ("C10", c10::plan(t)), ("C11", c11::plan(t)), ("C12", c12::plan(t)), ("C13", c13::plan(t)),
        ("C14", c14::plan(t)), ("C15", c15::plan(t)), ("C16", c16::plan(t)), ("C17", c17::plan(t)), ("C22", c22::plan(t)), ("C23", c23::plan(t)),
    ] {
        for (name, f) in q.units {
            p.units.push((format!("no_std {} {}", id, name), f));
        }
    }
    p
}

/// Impulse responses and functions with lengths around the capacity of the internal lists.
fn capacity<T: Flt>(p: &mut Plan, t: Tier) {
    let big = BufKind::Fixed(1 << 16);
    let lens: Vec<usize> = t.pick(vec![5, 6, 7, 15, 16, 31, 32, 33, 34, 63, 64, 65, 66, 67, 100, 101, 102, 127, 128, 129, 201, 202, 203], (1..=260).collect());
    for cplx in [false, true] {
        for n in [501, 1001, 2001, 5001] {
            let lens = lens.clone();
            p.unit(format!("convolve_signal around the capacity {} n={} cplx={}", T::NAME, n, cplx), move |ctx| {
                let m = vec_m(cplx, false, n, 1);
                for l in &lens {
                    let b = vec_m(cplx, false, *l, 2);
                    for cfg in [Cfg::slice(1).buf(big), Cfg::vec()] {
                        go::<T>(ctx, &cfg, &m, &[b.clone()], &Op::ConvolveSignal);
                    }
                }
            });
            let lens = t.pick(vec![1usize, 7, 8, 15, 16, 31, 32, 33, 64, 100, 101], (1..=110).collect());
            p.unit(format!("convolve around the capacity {} n={} cplx={}", T::NAME, n, cplx), move |ctx| {
                let m = vec_m(cplx, false, n, 1);
                for l in &lens {
                    for ratio in [1.0, 2.0, 3.0] {
                        for cfg in [Cfg::slice(1).buf(big), Cfg::vec()] {
                            go::<T>(ctx, &cfg, &m, &[], &Op::Convolve(Resp::Poly, ratio, *l));
                            if cplx {
                                go::<T>(ctx, &cfg, &m, &[], &Op::ConvolveC(Resp::Poly, ratio, *l));
                            }
                        }
                    }
                }
            });
        }
        p.unit(format!("interpolatef around the capacity {} cplx={}", T::NAME, cplx), move |ctx| {
            for conv_len in t.pick(vec![1usize, 2, 7, 8, 15, 16, 31, 32, 33], (1..=70).collect()) {
                for f in t.pick(vec![1usize, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 65], (1..=70).collect()) {
                    let n = (2000 / f + 2).max(2 * conv_len + 1);
                    let m = vec_m(cplx, false, n, 1);
                    for cfg in [Cfg::slice(0).spare(2 * n * f).buf(big), Cfg::vec()] {
                        go::<T>(ctx, &cfg, &m, &[], &Op::Interpolatef(Resp::Sinc, f as f64, 0.0, conv_len));
                    }
                }
            }
        });
    }
}
