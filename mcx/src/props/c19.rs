//! A matrix operation is the vector operation applied to every row.
use super::common::*;
use crate::mat::*;
use basic_dsp_matrix::*;
use basic_dsp_vector::*;

/// Data of row `r`: every row is different
fn row(m: &M, r: usize) -> M {
    M { d: m.d.iter().map(|x| x * (1.0 - r as f64 / 8.0)).collect(), ..m.clone() }
}
fn rows(m: &M, n: usize) -> Vec<M> {
    (0..n).map(|r| row(m, r)).collect()
}
/// How the argument of an operation is given
#[derive(Clone, Debug)]
enum A {
    No,
    /// one matrix for each argument
    Mats(Vec<M>),
    Vec(M),
    /// impulse responses [row][column]
    Imp(Vec<Vec<M>>),
}
fn sut<T: Flt>(cfg: &Cfg, m: &M) -> Sut<T> {
    build::<T>(m, cfg.kind, cfg.spare, cfg.junk, cfg.settings())
}
fn asut<T: Flt>(cfg: &Cfg, m: &M) -> Sut<T> {
    build::<T>(m, cfg.akind, cfg.aspare, cfg.junk, cfg.settings())
}
fn take<T: Flt>(s: &mut Vec<Sut<T>>) -> Vec<G<T>> {
    s.iter_mut().map(|x| x.v.take().unwrap()).collect()
}
fn give<T: Flt>(s: &mut [Sut<T>], g: Vec<G<T>>, what: &str) -> Result<Vec<M>, String> {
    if s.len() != g.len() {
        return Err(format!("{}: {} rows instead of {}", what, g.len(), s.len()));
    }
    let mut v = Vec::new();
    for (i, (a, b)) in s.iter_mut().zip(g).enumerate() {
        a.v = Some(b);
        if !a.intact() {
            return Err(format!("memory next to the storage of row {} of {} was overwritten", i, what));
        }
        v.push(a.m().map_err(|e| format!("{} row {}: {}", what, i, e))?);
    }
    Ok(v)
}
/// A matrix and its buffer
struct Mat<T: Flt> {
    cfg: Cfg,
    shape: Shape,
    rows: Vec<Sut<T>>,
    buf: Buf<T>,
}
struct Seen {
    rows: Vec<M>,
    args: Vec<Vec<M>>,
    ret: Ret,
}
impl<T: MatFlt> Mat<T> {
    fn new(cfg: &Cfg, shape: Shape, m: &[M]) -> Mat<T> {
        Mat { cfg: cfg.clone(), shape, rows: m.iter().map(|x| sut(cfg, x)).collect(), buf: Buf::new(cfg.buf, cfg.junk) }
    }
    /// `None` if the operation doesn't exist
    fn step(&mut self, op: &Op, a: &A) -> Result<Option<Seen>, String> {
        let n = self.rows.len();
        let mut s: Vec<Vec<Sut<T>>> = match a {
            A::No => Vec::new(),
            A::Mats(v) => v.iter().map(|m| rows(m, n).iter().map(|x| asut(&self.cfg, x)).collect()).collect(),
            A::Vec(m) => vec![vec![asut(&self.cfg, m)]],
            A::Imp(v) => v.iter().map(|r| r.iter().map(|x| asut(&self.cfg, x)).collect()).collect(),
        };
        let mut g: Vec<Vec<G<T>>> = s.iter_mut().map(take).collect();
        let arg = match a {
            A::No => Arg::None,
            A::Mats(_) => Arg::Mats(g),
            A::Vec(_) => Arg::Vec(g.pop().unwrap().pop().unwrap()),
            A::Imp(_) => Arg::Imp(g),
        };
        let d = match T::exec_mat(self.shape, take(&mut self.rows), op, arg, &mut self.buf, &NOREC) {
            None => return Ok(None),
            Some(d) => d,
        };
        let m = give(&mut self.rows, d.rows, "matrix")?;
        if s.len() != d.args.len() && !d.args.is_empty() {
            return Err(format!("harness: {} arguments instead of {}", d.args.len(), s.len()));
        }
        let mut args = Vec::new();
        for (i, (x, y)) in s.iter_mut().zip(d.args).enumerate() {
            args.push(give(x, y, &format!("argument {}", i))?);
        }
        // What the matrix says about itself
        let t = &d.meta;
        if t.col_len != n || t.rows_mut != n {
            return Err(format!("col_len()={} rows_mut()={} for {} rows", t.col_len, t.rows_mut, n));
        }
        let zero = M { cplx: false, freq: false, delta: 0.0, d: Vec::new(), err: false };
        let f = m.get(0).unwrap_or(&zero);
        if t.row_len != f.d.len() || t.got_len != f.d.len() || t.row_points != f.points() || t.cplx != f.cplx || t.freq != f.freq {
            return Err(format!(
                "row_len()={} get()={} row_points()={} is_complex()={} frequency={} for rows like {:?}",
                t.row_len, t.got_len, t.row_points, t.cplx, t.freq, f
            ));
        }
        if t.delta != f.delta && !(t.delta.is_nan() && f.delta.is_nan()) {
            return Err(format!("delta()={} for rows with {}", t.delta, f.delta));
        }
        for (i, x) in m.iter().enumerate() {
            let same = x.delta == f.delta || x.delta.is_nan() && f.delta.is_nan();
            if x.d.len() != f.d.len() || x.cplx != f.cplx || x.freq != f.freq || !same || x.err != f.err {
                return Err(format!("rows 0 and {} don't agree after {:?}: {:?} and {:?}", i, d.ret, f, x));
            }
        }
        Ok(Some(Seen { rows: m, args, ret: d.ret }))
    }
}
/// The rows as vectors
struct Rows<T: Flt> {
    s: Vec<Session<T>>,
}
impl<T: MatFlt> Rows<T> {
    fn new(cfg: &Cfg, m: &[M]) -> Rows<T> {
        Rows { s: m.iter().map(|x| Session::new(cfg, x)).collect() }
    }
    /// What a matrix has to show: rows (None: not specified), arguments, result
    fn step(&mut self, op: &Op, a: &A) -> Result<(Option<Vec<M>>, Vec<Vec<M>>, Ret), String> {
        let n = self.s.len();
        let mut ms = Vec::new();
        let mut args: Vec<Vec<M>> = match a {
            A::Mats(v) => v.iter().map(|_| Vec::new()).collect(),
            A::Vec(_) => vec![Vec::new()],
            _ => Vec::new(),
        };
        let mut ret = Ret::Ok(Vec::new());
        let before: Vec<M> = self.s.iter().map(|x| x.sut.m()).collect::<Result<_, _>>()?;
        for r in 0..n {
            let given: Vec<M> = match a {
                A::Mats(v) => v.iter().map(|m| row(m, r)).collect(),
                A::Vec(m) => vec![m.clone()],
                _ => Vec::new(),
            };
            let o = self.s[r].step(op, &given, &NOREC).map_err(|e| format!("vector: {}", e))?;
            ms.push(o.m);
            for (x, y) in args.iter_mut().zip(o.args) {
                x.push(y);
            }
            ret = match (ret, o.ret) {
                (Ret::Ok(mut x), Ret::Ok(y)) => {
                    x.extend(y);
                    Ret::Ok(x)
                }
                (Ret::Err(e), _) => Ret::Err(e),
                (_, Ret::Err(e)) => Ret::Err(e),
            };
        }
        if let A::Vec(m) = a {
            args = vec![vec![quant::<T>(m)]];
        }
        if let Ret::Err(_) = ret {
            // A vector which can't hold the result may keep a part of it
            let same = before.iter().zip(&ms).all(|(x, y)| cmp_m("", x, y, 0.0, true).is_ok());
            return Ok((if same || ms.iter().all(|x| x.err) { Some(ms) } else { None }, args, ret));
        }
        Ok((Some(ms), args, ret))
    }
}
fn cmp(seen: &Seen, want: &(Option<Vec<M>>, Vec<Vec<M>>, Ret), tol: f64) -> Result<(), String> {
    match (&seen.ret, &want.2) {
        (Ret::Ok(a), Ret::Ok(b)) => cmp_data("result", a, b, tol, false)?,
        (Ret::Err(a), Ret::Err(b)) if a == b => {}
        (a, b) => return Err(format!("returned {:?}, the vector operation {:?}", a, b)),
    }
    if let Some(w) = &want.0 {
        for (i, (a, b)) in seen.rows.iter().zip(w).enumerate() {
            cmp_m(&format!("row {}", i), a, b, tol, false)?;
        }
    }
    for (k, (a, b)) in seen.args.iter().zip(&want.1).enumerate() {
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            cmp_m(&format!("argument {} row {}", k, i), x, y, tol, false)?;
        }
    }
    Ok(())
}
fn tol<T: Flt>(i: &Item) -> f64 {
    if i.tol < 0.0 || matches!(i.op, Op::SinApprox | Op::CosApprox | Op::LnApprox | Op::LogApprox(_) | Op::ExpApprox | Op::ExpfApprox(_) | Op::PowfApprox(_)) {
        0.05
    } else {
        // The same operation in another place of the memory
        T::EPS * 8.0 * (i.tol + 1.0)
    }
}
/// Operations of vectors which matrices don't have (or which can't be called, see DESIGN.md)
fn vectors_only(op: &Op) -> bool {
    matches!(
        op,
        Op::ZeroPad(..) | Op::ZeroPadB(..) | Op::ZeroInterleave(_) | Op::ZeroInterleaveB(_) | Op::ResizeB(_) | Op::SplitInto | Op::Merge | Op::SumC(_)
            | Op::SumSqC(_) | Op::Stats(_) | Op::StatsC(_) | Op::StatsSplit(..) | Op::StatsSplitC(..) | Op::DotC(_) | Op::MapAggrC(_)
    )
}
/// All ways to give the arguments of the operation
fn ways(i: &Item) -> Vec<A> {
    let mut v = Vec::new();
    let one_vec = matches!(i.op, Op::Bin(_) | Op::BinSmaller(_) | Op::Dot(_) | Op::ConvolveSignal);
    if i.args.is_empty() {
        v.push(A::No);
    } else if i.op != Op::ConvolveSignal {
        v.push(A::Mats(i.args.clone()));
    }
    if one_vec {
        v.push(A::Vec(i.args[0].clone()));
    }
    v
}
fn shapes(t: Tier) -> Vec<(Shape, usize)> {
    let mut v = vec![
        (Shape::Vec, 0), (Shape::Vec, 1), (Shape::Vec, 2), (Shape::Vec, 3), (Shape::Vec, 5),
        (Shape::Arr, 2), (Shape::Arr, 3), (Shape::Arr, 4),
    ];
    if t.thorough() {
        v.extend(vec![(Shape::Vec, 4), (Shape::Vec, 7)]);
    }
    v
}
/// Configurations; growing storages and such with a limit
fn mcfgs(t: Tier, p: usize) -> Vec<Cfg> {
    let big = BufKind::Fixed(1 << 14);
    let mut v = vec![Cfg::vec(), Cfg::slice(1).spare(room(p)).buf(big)];
    if t.thorough() {
        v.push(Cfg::vec().spare(3).buf(BufKind::No));
        v.push(Cfg::slice(0).spare(2).buf(big));
        v.push(Cfg { kind: Kind::Box, akind: Kind::Vec, ..Cfg::slice(0).buf(big) });
    } else {
        v.push(Cfg::slice(0).spare(2).buf(big));
    }
    v
}
fn mkey<T: Flt>(shape: Shape, op: &Op, m: &M) -> String {
    format!("{:?}/{}", shape, case_key::<T>(op, m))
}
fn desc(shape: Shape, n: usize, op: &Op, m: &M, a: &A, cfg: &Cfg) -> String {
    let a = match a {
        A::No => String::new(),
        A::Mats(v) => format!("mat[{}]", briefs(v)),
        A::Vec(m) => format!("vec[{}]", brief(m)),
        A::Imp(v) => v.iter().map(|r| format!("[{}]", briefs(r))).collect::<Vec<_>>().join(" "),
    };
    format!("{:?} x{} {:?} {} args={} {}", shape, n, op, brief(m), a, cfg.desc())
}

fn each<T: MatFlt>(p: &mut Plan, t: Tier) {
    let lens: Vec<usize> = if t.thorough() { (0..=12).chain(vec![15, 16, 17, 31, 32, 33, 40]).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 17] };
    for (shape, n) in shapes(t) {
        for &len in &lens {
            for cplx in [false, true] {
                p.unit(format!("rows/{}/{:?}{}/{}/{}", T::NAME, shape, n, cplx, len), move |ctx| {
                    for freq in [false, true] {
                        for item in catalog(cplx, freq, len) {
                            for a in ways(&item) {
                                for cfg in mcfgs(t, len) {
                                    if ctx.stopped() {
                                        return;
                                    }
                                    one::<T>(ctx, shape, n, &item, &a, &cfg);
                                }
                            }
                        }
                    }
                });
            }
        }
    }
}
fn one<T: MatFlt>(ctx: &mut Ctx, shape: Shape, n: usize, item: &Item, a: &A, cfg: &Cfg) {
    if vectors_only(&item.op) {
        return;
    }
    ctx.state(item.m.hash() ^ n as u64);
    let key = mkey::<T>(shape, &item.op, &item.m);
    ctx.case(&key, format_args!("{}", desc(shape, n, &item.op, &item.m, a, cfg)), || {
        let m = rows(&quant::<T>(&item.m), n);
        let mut mat = Mat::<T>::new(cfg, shape, &m);
        let seen = mat.step(&item.op, a)?.ok_or("harness: the operation doesn't exist")?;
        let want = Rows::<T>::new(cfg, &m).step(&item.op, a)?;
        cmp(&seen, &want, tol::<T>(item))
    });
}

/// Sequences of operations on the same matrix
fn chains<T: MatFlt>(p: &mut Plan, t: Tier) {
    let lens = if t.thorough() { vec![2, 3, 5, 8, 9] } else { vec![3, 4] };
    let shapes = if t.thorough() { vec![(Shape::Vec, 2), (Shape::Vec, 3), (Shape::Arr, 2), (Shape::Arr, 3), (Shape::Arr, 4)] } else { vec![(Shape::Vec, 3), (Shape::Arr, 2), (Shape::Arr, 3), (Shape::Arr, 4)] };
    for (shape, n) in shapes {
        for &len in &lens {
            for cplx in [false, true] {
                for freq in [false, true] {
                    p.unit(format!("chains/{}/{:?}{}/{}/{}/{}", T::NAME, shape, n, cplx, freq, len), move |ctx| {
                        let ops = |c: bool, f: bool, len: usize| -> Vec<Item> {
                            let mut seen = std::collections::HashSet::new();
                            catalog(c, f, len).into_iter().filter(|i| !vectors_only(&i.op) && i.tol >= 0.0 && i.args.len() < 2 && seen.insert(opkey(&i.op))).collect()
                        };
                        let cfg = Cfg::vec();
                        for first in ops(cplx, freq, len) {
                            for a in ways(&first).into_iter().take(1) {
                                let m = rows(&quant::<T>(&first.m), n);
                                // The state after the first operation determines the second ones
                                let mut r = Rows::<T>::new(&cfg, &m);
                                let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.step(&first.op, &a))) {
                                    Ok(Ok((Some(s), _, Ret::Ok(_)))) => s,
                                    _ => continue,
                                };
                                if Mat::<T>::new(&cfg, shape, &m).step(&first.op, &a).ok().and_then(|x| x).is_none() || s[0].err || s[0].points() > 40 {
                                    continue;
                                }
                                for second in ops(s[0].cplx, s[0].freq, s[0].points()) {
                                    for b in ways(&second).into_iter().take(1) {
                                        if ctx.stopped() {
                                            return;
                                        }
                                        // Only operations which are defined for every value
                                        let key = format!("{}>{}", mkey::<T>(shape, &first.op, &first.m), opkey(&second.op));
                                        let mut end = 0;
                                        ctx.case(&key, format_args!("{} > {:?} {:?}", desc(shape, n, &first.op, &first.m, &a, &cfg), second.op, b), || {
                                            let mut mat = Mat::<T>::new(&cfg, shape, &m);
                                            let mut vec = Rows::<T>::new(&cfg, &m);
                                            for (k, (i, x)) in [(&first, &a), (&second, &b)].iter().enumerate() {
                                                let s = mat.step(&i.op, x)?.ok_or("harness: the operation doesn't exist")?;
                                                let w = vec.step(&i.op, x)?;
                                                cmp(&s, &w, tol::<T>(&first).max(tol::<T>(&second)) * 64.0).map_err(|e| format!("operation {}: {}", k + 1, e))?;
                                                end = s.rows.iter().fold(0, |h, m| h ^ m.hash());
                                            }
                                            Ok(())
                                        });
                                        ctx.state(end);
                                    }
                                }
                            }
                        }
                    });
                }
            }
        }
    }
}

/// Combination of rows with a matrix of impulse responses
fn imps<T: MatFlt>(p: &mut Plan, t: Tier) {
    let lens = if t.thorough() { (0..=10).chain(vec![16, 33]).collect() } else { vec![0, 1, 2, 3, 4, 6, 9] };
    for (shape, n) in vec![(Shape::Vec, 0), (Shape::Vec, 1), (Shape::Vec, 2), (Shape::Vec, 3), (Shape::Vec, 5), (Shape::Arr, 2), (Shape::Arr, 3), (Shape::Arr, 4)] {
        for &len in &lens {
            p.unit(format!("impulses/{}/{:?}{}/{}", T::NAME, shape, n, len), move |ctx| {
                for cplx in [false, true] {
                    for il in 1..=len + 2 {
                        for cfg in mcfgs(t, len) {
                            let base = |q: usize, seed: usize| with_data(cplx, false, vals(if cplx { 2 * q } else { q }, seed));
                            let full = |q: usize| -> Vec<Vec<M>> { (0..n).map(|i| (0..n).map(|k| base(q, 3 * i + k)).collect()).collect() };
                            let m = base(len, 3);
                            let mut cases: Vec<(String, bool, Vec<Vec<M>>)> = vec![(format!("len {}", il), false, full(il))];
                            // One impulse response alone: every path through the matrix
                            for i in 0..n {
                                for k in 0..n {
                                    let mut f = full(il);
                                    for (a, r) in f.iter_mut().enumerate() {
                                        for (b, x) in r.iter_mut().enumerate() {
                                            if (a, b) != (i, k) {
                                                x.d.iter_mut().for_each(|y| *y = 0.0);
                                            }
                                        }
                                    }
                                    cases.push((format!("path {},{}", i, k), false, f));
                                }
                            }
                            if n > 1 {
                                // A different length for every output
                                let mut f = full(il);
                                f[0] = (0..n).map(|k| base(1, k)).collect();
                                cases.push(("lengths by row".into(), false, f));
                            }
                            let mut alter = |what: &str, g: &dyn Fn(&mut Vec<Vec<M>>)| {
                                let mut f = full(il);
                                g(&mut f);
                                cases.push((what.to_string(), true, f));
                            };
                            if n > 0 {
                                for i in 0..n {
                                    for k in 0..n {
                                        alter(&format!("frequency {},{}", i, k), &|f| f[i][k].freq = true);
                                        alter(&format!("delta {},{}", i, k), &|f| f[i][k].delta = 4.0);
                                        alter(&format!("space {},{}", i, k), &|f| {
                                            let q = if cplx { il } else { 2 * il };
                                            f[i][k] = with_data(!cplx, false, vals(q, 1));
                                        });
                                        alter(&format!("space and length {},{}", i, k), &|f| f[i][k] = with_data(!cplx, false, vals(4, 1)));
                                        if n > 1 {
                                            alter(&format!("length {},{}", i, k), &|f| f[i][k] = base(il + 1, 2));
                                        }
                                    }
                                }
                                alter("all frequency", &|f| f.iter_mut().flatten().for_each(|x| x.freq = true));
                            }
                            if shape == Shape::Vec {
                                alter("more rows", &|f| f.push((0..n).map(|k| base(il, k)).collect()));
                                if n > 0 {
                                    alter("less rows", &|f| {
                                        f.pop();
                                    });
                                    alter("more columns", &|f| f.last_mut().unwrap().push(base(il, 1)));
                                    alter("less columns", &|f| {
                                        f.last_mut().unwrap().pop();
                                    });
                                    alter("no rows", &|f| f.clear());
                                }
                            }
                            for (what, bad, f) in cases {
                                if ctx.stopped() {
                                    return;
                                }
                                impulse::<T>(ctx, shape, n, &m, il, &what, bad, f, &cfg);
                            }
                            // Only defined in time domain
                            let fm = M { freq: true, ..m.clone() };
                            let mut f = full(il);
                            f.iter_mut().flatten().for_each(|x| x.freq = true);
                            if n > 0 {
                                impulse::<T>(ctx, shape, n, &fm, il, "frequency domain", true, f, &cfg);
                            }
                        }
                    }
                }
            });
        }
    }
}
fn impulse<T: MatFlt>(ctx: &mut Ctx, shape: Shape, n: usize, m: &M, il: usize, what: &str, bad: bool, f: Vec<Vec<M>>, cfg: &Cfg) {
    let key = format!("{:?}/ConvolveSignal/impulses/{}/{}", shape, T::NAME, m.cplx);
    ctx.state(m.hash() ^ (n * 100 + il) as u64);
    ctx.case(&key, format_args!("{} {}", what, desc(shape, n, &Op::ConvolveSignal, m, &A::Imp(f.clone()), cfg)), || {
        let rs = rows(&quant::<T>(m), n);
        let mut mat = Mat::<T>::new(cfg, shape, &rs);
        let s = mat.step(&Op::ConvolveSignal, &A::Imp(f.clone()))?.ok_or("harness: no convolution")?;
        for (i, (a, b)) in s.args.iter().zip(&f).enumerate() {
            for (k, (x, y)) in a.iter().zip(b).enumerate() {
                cmp_m(&format!("impulse response {},{}", i, k), x, &quant::<T>(y), 0.0, true)?;
            }
        }
        if il > m.points() && !bad {
            // What is done with longer impulse responses isn't specified
            return Ok(());
        }
        if bad {
            if s.ret == Ret::Ok(Vec::new()) {
                return Err("accepted".into());
            }
            for (i, (a, b)) in s.rows.iter().zip(&rs).enumerate() {
                cmp_m(&format!("row {} after an error", i), a, b, 0.0, true)?;
            }
            return Ok(());
        }
        if s.ret != Ret::Ok(Vec::new()) {
            return Err(format!("returned {:?}", s.ret));
        }
        for i in 0..n {
            let mut sum = vec![0.0; m.d.len()];
            for k in 0..n {
                let mut v = Session::<T>::new(cfg, &rs[k]);
                let o = v.step(&Op::ConvolveSignal, &[quant::<T>(&f[i][k])], &NOREC)?;
                if o.ret != Ret::Ok(Vec::new()) {
                    return Err(format!("vector: {:?}", o.ret));
                }
                for (x, y) in sum.iter_mut().zip(&o.m.d) {
                    *x += y;
                }
            }
            cmp_m(&format!("row {}", i), &s.rows[i], &M { d: sum, ..rs[i].clone() }, T::EPS * 4.0 * ((n * il) as f64 + 4.0), false)?;
        }
        Ok(())
    });
}

/// Operations which fail for one row only must not leave rows of different sizes
fn partial<T: MatFlt>(p: &mut Plan, _t: Tier) {
    p.unit(format!("partial/{}", T::NAME), move |ctx| {
        for (shape, n) in vec![(Shape::Vec, 1), (Shape::Vec, 2), (Shape::Vec, 3), (Shape::Arr, 2), (Shape::Arr, 3), (Shape::Arr, 4)] {
            for bad in 0..n {
                for cplx in [false, true] {
                    for len in [2, 4, 6] {
                        for to in [0, 2, 4, 6, 8, 12, 3] {
                            let m = with_data(cplx, false, vals(len, 3));
                            let key = format!("{:?}/Resize/partial/{}", shape, T::NAME);
                            ctx.case(&key, format_args!("{:?} x{} {} resize to {} row {} limited", shape, n, brief(&m), to, bad), || {
                                let rs = rows(&quant::<T>(&m), n);
                                let cfg = Cfg::slice(0).spare(8).buf(BufKind::Fixed(1 << 12));
                                let mut mat = Mat::<T>::new(&cfg, shape, &rs);
                                mat.rows[bad] = build::<T>(&rs[bad], Kind::Slice(1), 0, Junk::Nan, cfg.settings());
                                let s = mat.step(&Op::Resize(to), &A::No)?.unwrap();
                                let ok = to <= len && (!cplx || to % 2 == 0);
                                if ok != (s.ret == Ret::Ok(Vec::new())) {
                                    return Err(format!("returned {:?}", s.ret));
                                }
                                for (i, (a, b)) in s.rows.iter().zip(&rs).enumerate() {
                                    let mut b = b.clone();
                                    if ok {
                                        b.d.truncate(to);
                                    }
                                    cmp_m(&format!("row {}", i), a, &b, 0.0, true)?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    });
}

fn vm<T: Flt, N: NumberSpace, D: Domain>(v: &DspVec<Vec<T>, T, N, D>) -> M {
    M {
        cplx: v.is_complex(),
        freq: v.domain() == DataDomain::Frequency,
        delta: v.delta().f(),
        d: v.data(..).iter().map(|x| x.f()).collect(),
        err: v.len() == 0 && v.delta().is_nan(),
    }
}
fn same<T: Flt>(what: &str, got: Vec<M>, want: Vec<M>, meta: [usize; 3]) -> Result<(), String> {
    if got.len() != want.len() || meta[0] != want.len() {
        return Err(format!("{}: {} rows ({}) instead of {}", what, got.len(), meta[0], want.len()));
    }
    if let Some(f) = want.get(0) {
        if meta[1] != f.d.len() || meta[2] != f.d.len() {
            return Err(format!("{}: lengths {:?} for {:?}", what, meta, f));
        }
    }
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        cmp_m(&format!("{} row {}", what, i), a, b, T::EPS * 64.0, false)?;
    }
    Ok(())
}
macro_rules! ends {
    ($T:ident, $m:expr) => {{
        let m = $m;
        let c = m.col_len();
        let l = m.row_len();
        let refs: Vec<M> = m.rows().iter().map(|x| vm(x)).collect();
        let (r, g) = m.get();
        let v: Vec<M> = r.into_iter().map(|x| vm(&x)).collect();
        for (a, b) in v.iter().zip(&refs) {
            cmp_m("rows() and get()", a, b, 0.0, true)?;
        }
        (v, [c, l, g])
    }};
}
macro_rules! make {
    ($name:ident, $Mat:ident, $fix:expr) => {
        /// Creation and static typing
        fn $name<T: MatFlt>(d: &[Vec<T>], which: usize) -> Result<(), String> {
            let s = || {
                let fix = $fix;
                fix(d.to_vec())
            };
            let sv = |f: &dyn Fn(Vec<T>) -> M| -> Vec<M> { d.iter().map(|x| f(x.clone())).collect() };
            let mut b = SingleBuffer::new();
            macro_rules! rows {
                ($what:expr, $m:expr, |$v:ident, $b:ident| $e:expr) => {{
                    let (v, meta) = ends!(T, $m);
                    let w = sv(&|$v| {
                        #[allow(unused_mut, unused_variables)]
                        let mut $b = SingleBuffer::<T>::new();
                        vm(&$e)
                    });
                    return same::<T>($what, v, w, meta);
                }};
            }
            match which {
                0 => rows!("to_gen_dsp_mat(real,time)", s().to_gen_dsp_mat(false, DataDomain::Time), |v, b| v.to_gen_dsp_vec(false, DataDomain::Time)),
                1 => rows!("to_gen_dsp_mat(complex,time)", s().to_gen_dsp_mat(true, DataDomain::Time), |v, b| v.to_gen_dsp_vec(true, DataDomain::Time)),
                2 => rows!("to_gen_dsp_mat(real,freq)", s().to_gen_dsp_mat(false, DataDomain::Frequency), |v, b| v.to_gen_dsp_vec(false, DataDomain::Frequency)),
                3 => rows!("to_gen_dsp_mat(complex,freq)", s().to_gen_dsp_mat(true, DataDomain::Frequency), |v, b| v.to_gen_dsp_vec(true, DataDomain::Frequency)),
                4 => rows!("to_real_time_mat", s().to_real_time_mat(), |v, b| v.to_real_time_vec()),
                5 => rows!("to_real_freq_mat", s().to_real_freq_mat(), |v, b| v.to_real_freq_vec()),
                6 => rows!("to_complex_time_mat", s().to_complex_time_mat(), |v, b| v.to_complex_time_vec()),
                7 => {
                    let m = {
                        let fix = $fix;
                        fix(d.iter().map(|x| x.clone().to_complex_freq_vec()).collect())
                    };
                    rows!("to_mat", m.to_mat(), |v, b| v.to_complex_freq_vec())
                }
                8 => {
                    let m = s().to_complex_time_mat().fft(&mut b).magnitude();
                    rows!("fft, magnitude", m, |v, b| v.to_complex_time_vec().fft(&mut b).magnitude())
                }
                9 => {
                    let m = match s().to_real_time_mat().to_complex() {
                        Ok(m) => m,
                        Err((e, _)) => return Err(format!("to_complex: {:?}", e)),
                    };
                    let mut m = m.fft(&mut b).ifft(&mut b);
                    m.conj();
                    rows!("to_complex, fft, ifft, conj", m, |v, b| {
                        let mut v = v.to_real_time_vec().to_complex().ok().unwrap().fft(&mut b).ifft(&mut b);
                        v.conj();
                        v
                    })
                }
                10 => {
                    let mut m = s().to_real_time_mat();
                    m.scale(T::of(2.5));
                    m.offset(T::of(-0.5));
                    m.cum_sum();
                    m.abs();
                    m.set_delta(T::of(0.125));
                    rows!("scale, offset, cum_sum, abs, set_delta", m, |v, b| {
                        let mut v = v.to_real_time_vec();
                        v.scale(T::of(2.5));
                        v.offset(T::of(-0.5));
                        v.cum_sum();
                        v.abs();
                        v.set_delta(T::of(0.125));
                        v
                    })
                }
                11 => {
                    let mut m = s().to_real_time_mat();
                    let o = s().to_real_time_mat();
                    m.mul(&o).map_err(|e| format!("mul: {:?}", e))?;
                    if let Some(f) = d.get(0) {
                        m.add(&f.clone().to_real_time_vec()).map_err(|e| format!("add: {:?}", e))?;
                    }
                    rows!("mul by a matrix, add a vector", m, |v, b| {
                        let w = v.clone().to_real_time_vec();
                        let mut v = v.to_real_time_vec();
                        v.mul(&w).unwrap();
                        v.add(&d[0].clone().to_real_time_vec()).unwrap();
                        v
                    })
                }
                12 => {
                    // Symmetric transforms need an odd length
                    if d.iter().any(|x| x.len() % 2 == 0) {
                        return Ok(());
                    }
                    let m = match s().to_real_time_mat().sfft(&mut b) {
                        Ok(m) => m,
                        Err((e, _)) => return Err(format!("sfft: {:?}", e)),
                    };
                    rows!("sfft", m, |v, b| v.to_real_time_vec().sfft(&mut b).ok().unwrap())
                }
                13 => {
                    let m = s().to_complex_time_mat().prepare_argument_padded(&mut b);
                    rows!("prepare_argument_padded", m, |v, b| v.to_complex_time_vec().prepare_argument_padded(&mut b))
                }
                14 => rows!("phase_b", s().to_complex_time_mat().phase_b(&mut b), |v, b| v.to_complex_time_vec().phase_b(&mut b)),
                15 => rows!("to_imag", s().to_complex_time_mat().to_imag(), |v, b| v.to_complex_time_vec().to_imag()),
                16 => {
                    let m = s().to_complex_time_mat();
                    let mut n = s().to_complex_time_mat();
                    ScaleOps::<num_complex::Complex<T>>::scale(&mut n, num_complex::Complex::new(T::of(0.5), T::of(2.0)));
                    n.sub(&m).map_err(|e| format!("sub: {:?}", e))?;
                    n.reverse();
                    rows!("complex scale, sub, reverse", n, |v, b| {
                        let w = v.clone().to_complex_time_vec();
                        let mut v = v.to_complex_time_vec();
                        ScaleOps::<num_complex::Complex<T>>::scale(&mut v, num_complex::Complex::new(T::of(0.5), T::of(2.0)));
                        v.sub(&w).unwrap();
                        v.reverse();
                        v
                    })
                }
                17 => {
                    let m: $Mat<ComplexFreqVec<Vec<T>, T>, Vec<T>, T> = RededicateForceOps::rededicate_from_force(s().to_real_time_mat());
                    rows!("rededicate_from_force", m, |v, b| ComplexFreqVec::<Vec<T>, T>::rededicate_from_force(v.to_real_time_vec()))
                }
                18 => {
                    let m: $Mat<GenDspVec<Vec<T>, T>, Vec<T>, T> = RededicateForceOps::rededicate_with_runtime_data(s().to_complex_time_mat(), false, DataDomain::Frequency);
                    rows!("rededicate_with_runtime_data", m, |v, b| GenDspVec::<Vec<T>, T>::rededicate_with_runtime_data(v.to_complex_time_vec(), false, DataDomain::Frequency))
                }
                19 => {
                    let m: $Mat<RealTimeVec<Vec<T>, T>, Vec<T>, T> = RededicateForceOps::rededicate_from_force(s().to_gen_dsp_mat(true, DataDomain::Frequency));
                    rows!("rededicate_from_force", m, |v, b| RealTimeVec::<Vec<T>, T>::rededicate_from_force(v.to_gen_dsp_vec(true, DataDomain::Frequency)))
                }
                _ => unreachable!(),
            }
        }
    };
}
const MAKES: usize = 20;
make!(make_m, MatrixMxN, |x: Vec<_>| x);
make!(make_2, Matrix2xN, fix2);
make!(make_3, Matrix3xN, fix3);
make!(make_4, Matrix4xN, fix4);

fn makes<T: MatFlt>(p: &mut Plan, t: Tier) {
    for (shape, n) in shapes(t) {
        p.unit(format!("creation/{}/{:?}{}", T::NAME, shape, n), move |ctx| {
            for len in 0..=9 {
                // The last row may be shorter or longer than the other ones
                for last in if n > 1 { vec![len, 0, len + 1] } else { vec![len] } {
                    let d: Vec<Vec<T>> = (0..n).map(|r| vals(if r + 1 == n { last } else { len }, r + 1).iter().map(|x| T::of(*x)).collect()).collect();
                    for which in 0..MAKES {
                        if last != len && which > 7 {
                            continue;
                        }
                        let key = format!("{:?}/creation/{}", shape, T::NAME);
                        ctx.case(&key, format_args!("{:?} x{} rows of {} last {} #{}", shape, n, len, last, which), || match (shape, n) {
                            (Shape::Vec, _) => make_m::<T>(&d, which),
                            (_, 2) => make_2::<T>(&d, which),
                            (_, 3) => make_3::<T>(&d, which),
                            _ => make_4::<T>(&d, which),
                        });
                    }
                }
            }
        });
    }
}

pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new("every operation of the matrix type with growable rows (0,1,2,3,5 rows; thorough: also 4,7) and with 2, 3, 4 fixed rows x real/complex x time/frequency x row lengths 0..5,7..9,17 (thorough: 0..12,15..17,31..33,40), arguments as matrix and as vector, 3 (thorough: 5) storage/buffer configurations; all pairs of operations on 4 (5) matrix forms; matrices of impulse responses up to 5x5 of 1..len+2 taps incl. every single path and every single deviating entry; creation, static types and re-typing; failure of one row");
    p.assume("the oracle is the vector operation on each row alone (its own meaning is decided by C01..C18)");
    p.assume("impulse responses in a matrix which are longer than the rows: only memory safety and consistency");
    both!(each, &mut p, t);
    both!(chains, &mut p, t);
    both!(imps, &mut p, t);
    both!(partial, &mut p, t);
    both!(makes, &mut p, t);
    p
}
