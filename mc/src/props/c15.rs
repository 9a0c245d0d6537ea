//! Windows.
use super::common::*;
use basic_dsp_vector::window_functions::*;

pub const WINS: [Win; 11] = [
    Win::Rect, Win::Tri, Win::Hamming, Win::HammingA(0.6), Win::Blackman, Win::Ramp, Win::Bump(true), Win::Bump(false), Win::TriAsym, Win::HammingAsym,
    Win::BlackmanAsym,
];
fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    let mut sizes: Vec<usize> = (0..=t.pick3(40, 140, 520)).collect();
    sizes.extend(t.pick3(vec![201], vec![200, 201, 511, 512, 1000, 1001], vec![1000, 1001, 2047, 2048, 4000, 4001]));
    for n in sizes {
        for cplx in [false, true] {
            p.unit(format!("windows {} n={} cplx={}", T::NAME, n, cplx), move |ctx| {
                let m = M { delta: 0.5, ..vec_m(cplx, false, n, 2) };
                for cfg in cfgs(t, n + 2) {
                    for w in WINS {
                        if !win_defined(w, n) {
                            continue;
                        }
                        go::<T>(ctx, &cfg, &m, &[], &Op::ApplyWindow(w));
                        // a window may be zero at its ends
                        let div = (0..n).all(|i| w.w(i, n).abs() > 1e-3);
                        if div {
                            go::<T>(ctx, &cfg, &m, &[], &Op::UnapplyWindow(w));
                            restore::<T>(ctx, &cfg, &m, w);
                        }
                        if n == 0 {
                            continue;
                        }
                        go::<T>(ctx, &cfg, &m, &[], &Op::WindowedFft(w));
                        if cplx && div {
                            let f = M { freq: true, ..m.clone() };
                            go::<T>(ctx, &cfg, &f, &[], &Op::WindowedIfft(w));
                        }
                        if !cplx && n % 2 == 1 {
                            go::<T>(ctx, &cfg, &m, &[], &Op::WindowedSfft(w));
                        }
                    }
                }
                // The windows themselves
                for w in WINS {
                    let key = format!("formula {:?}/{}", w, T::NAME);
                    ctx.case(&key, format_args!("n={} cplx={}", n, cplx), || formula::<T>(w, n));
                }
            });
        }
    }
}
fn restore<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, m: &M, w: Win) {
    if cfg.kind == Kind::Arr && m.d.len() + cfg.spare > ARR {
        return;
    }
    ctx.case(&format!("restore {:?}/{}", w, T::NAME), format_args!("{} {}", brief(m), cfg.desc()), || {
        let m = quant::<T>(m);
        let mut s = Session::<T>::new(cfg, &m);
        s.step(&Op::ApplyWindow(w), &[], &NOREC)?;
        s.step(&Op::UnapplyWindow(w), &[], &NOREC)?;
        cmp_m("after applying and un-applying", &s.sut.m()?, &m, T::EPS * 4.0, false)
    });
}
fn formula<T: Flt>(w: Win, n: usize) -> Result<(), String> {
    let f: Box<dyn WindowFunction<T>> = match w {
        Win::Rect => Box::new(RectangularWindow),
        Win::Tri => Box::new(TriangularWindow),
        Win::Hamming => Box::new(HammingWindow::<T>::default()),
        Win::HammingA(a) => Box::new(HammingWindow::<T>::new(T::of(a))),
        Win::Blackman => Box::new(BlackmanHarrisWindow),
        _ => return Ok(()),
    };
    for i in 0..n {
        let (g, e) = (f.window(i, n).f(), w.w(i, n));
        if e.is_finite() && !((g - e).abs() < T::EPS) {
            return Err(format!("window({}, {}) is {} instead of {}", i, n, g, e));
        }
        // What is declared symmetric has to be symmetric
        if f.is_symmetric() && e.is_finite() && !((g - f.window(n - 1 - i, n).f()).abs() < T::EPS) {
            return Err(format!("window({}, {}) isn't symmetric", i, n));
        }
    }
    Ok(())
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every number of points 0..140 (thorough 0..520) and selected larger ones x 11 windows (predefined, and user defined which are symmetric, not symmetric, \
         or symmetric but not declared so) x real/complex x f32/f64 x storage types and buffers; applying, un-applying, both in sequence and the windowed transforms",
    );
    p.assume("windows are un-applied only where all weights are above 1e-3; lengths for which the formula of a window divides by zero are excluded");
    both!(unit_for, &mut p, t);
    super::large::large_units(&mut p, t, "C15");
    p
}
