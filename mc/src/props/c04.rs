//! Scratch buffers, storage types and left over contents.
use super::common::*;

fn desc(it: &Item, cfg: &Cfg) -> String {
    format!("{:?} {} args=[{}] {}", it.op, brief(&it.m), briefs(&it.args), cfg.desc())
}
/// Number of buffer elements which the operation asks for
fn need<T: Flt>(it: &Item, cfg: &Cfg) -> usize {
    let m = quant::<T>(&it.m);
    let args: Vec<M> = it.args.iter().map(quant::<T>).collect();
    let mut s = Session::<T>::new(cfg, &m);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _ = s.step(&it.op, &args, &NOREC);
        s.buf.most
    }));
    r.unwrap_or(0)
}
fn configs<T: Flt>(t: Tier, it: &Item) -> Vec<Cfg> {
    let n = it.m.points();
    let mut v = Vec::new();
    // everything with a limited storage, the buffer has exactly the size which is needed
    let mut exact = |junk: Junk, c: Cfg| {
        let b = need::<T>(it, &Cfg { buf: BufKind::Fixed(1 << 14), ..c.clone() });
        for b in [b, b + 4] {
            v.push(Cfg { junk, buf: BufKind::Fixed(b), ..c.clone() });
        }
    };
    for junk in [Junk::Nan, Junk::Big] {
        for off in 0..t.pick3(2usize, 5, 16) {
            for spare in [0, 1, room(n), room(n) + 1] {
                exact(junk, Cfg::slice(off).spare(spare));
            }
        }
        for spare in [0, 5, room(n)] {
            exact(junk, Cfg { kind: Kind::Box, akind: Kind::Vec, ..Cfg::slice(0).spare(spare) });
            if it.m.d.len() + spare <= ARR {
                exact(junk, Cfg { kind: Kind::Arr, akind: Kind::Arr, ..Cfg::slice(0).spare(spare) });
            }
            exact(junk, Cfg { kind: Kind::Vec, akind: Kind::Box, ..Cfg::slice(0).spare(spare) });
        }
    }
    for spare in t.pick3(vec![0usize, 1, 7], vec![0, 1, 2, 3, 7, 40], (0..10).chain(vec![16, 31, 40, 100]).collect()) {
        let need = need::<T>(it, &Cfg::vec().spare(spare));
        let mut bufs = vec![BufKind::No, BufKind::Single(0), BufKind::Single(1), BufKind::Single(need + 5), BufKind::Fixed(need), BufKind::Fixed(need + 3)];
        if need > 1 {
            bufs.extend([BufKind::Single(need - 1), BufKind::Single(need)]);
        }
        if t.thorough() {
            bufs.extend([BufKind::Single(2 * need + 64), BufKind::Fixed(2 * need + 64)]);
        }
        for junk in [Junk::Nan, Junk::Big] {
            for b in &bufs {
                v.push(Cfg { junk, ..Cfg::vec().spare(spare).buf(*b) });
            }
        }
    }
    v
}
fn singles<T: Flt>(p: &mut Plan, t: Tier) {
    for cplx in [false, true] {
        for freq in [false, true] {
            for n in (0..=t.pick3(6usize, 12, 20)).chain(t.pick3(vec![9], vec![17, 33], vec![24, 31, 32, 33, 64, 65, 100])) {
                p.unit(format!("single {} cplx={} freq={} n={}", T::NAME, cplx, freq, n), move |ctx| {
                    for it in catalog(cplx, freq, n) {
                        ctx.state(it.m.hash());
                        for cfg in configs::<T>(t, &it) {
                            if it.fits(&cfg) {
                                ctx.case(&case_key::<T>(&it.op, &it.m), format_args!("{}", desc(&it, &cfg)), || it.run::<T>(&cfg, &NOREC).map(|_| ()));
                            }
                        }
                    }
                });
            }
        }
    }
}
/// One item per operation which uses the buffer
fn users<T: Flt>(cplx: bool, freq: bool, n: usize) -> Vec<Item> {
    let mut seen = std::collections::HashSet::new();
    catalog(cplx, freq, n)
        .into_iter()
        .filter(|it| need::<T>(it, &Cfg::vec()) > 0 && seen.insert(opkey(&it.op)))
        .collect()
}
/// Two operations on different vectors share a buffer
fn pairs<T: Flt>(p: &mut Plan, t: Tier) {
    let sizes = t.pick(vec![(2usize, 5usize), (7, 4)], vec![(0, 3), (1, 4), (2, 5), (3, 3), (5, 2), (7, 4), (9, 6), (16, 5)]);
    let sizes = if t == Tier::Deep { (0..10usize).flat_map(|a| (0..10usize).map(move |b| (a, b))).chain(sizes).collect() } else { sizes };
    for (n1, n2) in sizes {
        for s1 in [(false, false), (true, false), (true, true)] {
            for s2 in [(false, false), (true, false), (false, true), (true, true)] {
                p.unit(format!("pairs {} {:?} {:?} {} {}", T::NAME, s1, s2, n1, n2), move |ctx| {
                    let a = users::<T>(s1.0, s1.1, n1);
                    let b = users::<T>(s2.0, s2.1, n2);
                    for x in &a {
                        for y in &b {
                            for cfg in [Cfg::vec(), Cfg::vec().buf(BufKind::Single(9)).spare(2), Cfg::slice(1).spare(room(n1.max(n2))).buf(BufKind::Fixed(1 << 10))] {
                                let key = format!("{} after {}/{}", opkey(&y.op), opkey(&x.op), T::NAME);
                                ctx.case(&key, format_args!("{} then {}", desc(x, &cfg), desc(y, &cfg)), || pair::<T>(x, y, &cfg));
                            }
                        }
                    }
                });
            }
        }
    }
}
fn pair<T: Flt>(x: &Item, y: &Item, cfg: &Cfg) -> Result<(), String> {
    let one = |it: &Item, s: &mut Session<T>| -> Result<(), String> {
        let m = quant::<T>(&it.m);
        let args: Vec<M> = it.args.iter().map(quant::<T>).collect();
        let exp = s.expect(&it.op, &m, &args);
        let obs = s.step(&it.op, &args, &NOREC)?;
        it.check::<T>(&exp, &obs, &args)
    };
    let mut a = Session::<T>::new(cfg, &quant::<T>(&x.m));
    one(x, &mut a).map_err(|e| format!("first operation: {}", e))?;
    let mut b = Session::<T>::new(cfg, &quant::<T>(&y.m));
    std::mem::swap(&mut a.buf, &mut b.buf);
    one(y, &mut b).map_err(|e| format!("second operation: {}", e))?;
    // and back: the buffer must not be an alias of the first vector
    let before = a.sut.m()?;
    std::mem::swap(&mut a.buf, &mut b.buf);
    let c = Session::<T>::new(cfg, &quant::<T>(&y.m));
    std::mem::swap(&mut b.buf, &mut a.buf);
    let mut c = Session { buf: b.buf, ..c };
    one(y, &mut c).map_err(|e| format!("third operation: {}", e))?;
    let after = a.sut.m()?;
    cmp_m("first vector after operations on other vectors", &after, &before, 0.0, true)
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "every operation x real/complex x time/frequency x 0..12, 17, 33 points (thorough 0..20 and up to 100) x f32/f64 x {no buffer kept, growing buffer without, with smaller, \
         exactly sized, larger left over contents, fixed buffer of exactly the size which is asked for and larger} x {Vec, slice at several offsets, boxed slice, ArrayVec} x \
         spare capacity 0, 1, 2, 3, 7, 40 (thorough: 14 values) and enough for every result x left over NaN or large values; every pair of operations which use a buffer with one shared buffer on \
         vectors of different sizes and types, followed by a third operation",
    );
    p.assume("a fixed length buffer which is smaller than what is asked for panics by design");
    both!(singles, &mut p, t);
    both!(pairs, &mut p, t);
    p
}
