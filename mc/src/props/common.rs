//! Helpers for the sweeps over operations.
pub use crate::catalog::*;
pub use super::c01::{opname, run_tol};
pub use crate::engine::*;
pub use crate::env::*;
pub use crate::exec::*;
pub use crate::flt::*;
pub use crate::gens::*;
pub use crate::model::*;
pub use crate::op::*;
pub use crate::store::*;

/// Name of the operation without its parameters.
pub fn opkey(op: &Op) -> String {
    let s = format!("{:?}", op);
    let n = s.find('(').unwrap_or(s.len());
    match op {
        Op::Trig(_) | Op::Bin(_) | Op::BinSmaller(_) | Op::To(..) | Op::Get(_) => s,
        Op::WindowedFft(w) | Op::WindowedIfft(w) | Op::WindowedSfft(w) | Op::WindowedSifft(w) | Op::ApplyWindow(w) | Op::UnapplyWindow(w) => {
            format!("{}({:?})", &s[..n], w)
        }
        Op::ZeroPad(_, p) | Op::ZeroPadB(_, p) => format!("{}({:?})", &s[..n], p),
        Op::Sum(_) | Op::SumC(_) | Op::SumSq(_) | Op::SumSqC(_) | Op::Stats(_) | Op::StatsC(_) | Op::Dot(_) | Op::DotC(_) => s,
        _ => s[..n].to_string(),
    }
}
pub fn brief(m: &M) -> String {
    format!(
        "{}{}{}/{}#{:x}",
        if m.err { "erroneous " } else { "" },
        if m.cplx { "complex" } else { "real" },
        if m.freq { "-freq" } else { "-time" },
        m.points(),
        m.hash() & 0xffff_ffff
    )
}
pub fn briefs(a: &[M]) -> String {
    a.iter().map(brief).collect::<Vec<_>>().join(",")
}
pub fn case_key<T: Flt>(op: &Op, m: &M) -> String {
    format!("{}/{}/{}", opkey(op), T::NAME, if m.cplx { "complex" } else { "real" })
}
/// One operation on one configuration.
pub fn go<T: Flt>(ctx: &mut Ctx, cfg: &Cfg, m: &M, args: &[M], op: &Op) {
    if cfg.kind == Kind::Arr && m.d.len() + cfg.spare > ARR || cfg.akind == Kind::Arr && args.iter().any(|a| a.d.len() + cfg.aspare > ARR) {
        return;
    }
    let key = case_key::<T>(op, m);
    ctx.state(m.hash());
    ctx.case(&key, format_args!("{:?} {} args=[{}] {}", op, brief(m), briefs(args), cfg.desc()), || run_op::<T>(cfg, m, args, op).map(|_| ()));
}
/// Storages and buffers with enough room for results which are longer by `grow` elements.
pub fn cfgs(t: Tier, grow: usize) -> Vec<Cfg> {
    let big = BufKind::Fixed(1 << 14);
    let mut v = vec![
        Cfg::vec(),
        Cfg::vec().buf(BufKind::No).spare(3),
        Cfg::vec().buf(BufKind::Single(37)).spare(1),
        Cfg::slice(0).spare(grow).buf(big),
        Cfg::slice(1).spare(grow + 1).buf(big),
    ];
    if t.thorough() {
        v.extend(vec![
            Cfg::slice(2).spare(grow + 2).buf(big),
            Cfg::slice(3).spare(grow + 3).buf(big),
            Cfg { junk: Junk::Big, ..Cfg::slice(5).spare(grow + 7).buf(big) },
            Cfg { kind: Kind::Box, akind: Kind::Vec, ..Cfg::slice(0).spare(grow).buf(big) },
            Cfg { kind: Kind::Arr, akind: Kind::Box, ..Cfg::slice(0).spare(3).buf(big) },
            Cfg { kind: Kind::Vec, ..Cfg::slice(0).spare(grow + 5).buf(big) },
            Cfg { junk: Junk::Big, ..Cfg::vec().spare(5) },
        ]);
    }
    v
}
/// All unit impulses and one dense vector: decides operations which are linear in the data.
pub fn basis(cplx: bool, freq: bool, points: usize) -> Vec<M> {
    let mut v = vec![vec_m(cplx, freq, points, 3)];
    let n = if cplx { 2 * points } else { points };
    for i in 0..n {
        let mut d = vec![0.0; n];
        d[i] = 1.0;
        v.push(M { cplx, freq, delta: 0.25, d, err: false });
    }
    v
}
#[macro_export]
macro_rules! both {
    ($f:ident, $p:expr, $t:expr) => {
        $f::<f32>($p, $t);
        $f::<f64>($p, $t);
    };
}
