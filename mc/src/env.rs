//! Sets up vectors and buffers, runs operations on them and observes everything a user can see.
use crate::exec::*;
use crate::flt::*;
use crate::model::*;
use crate::op::*;
use crate::store::*;
use arrayvec::ArrayVec;
use basic_dsp_vector::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub kind: Kind,
    /// Spare elements in the storage behind the valid data
    pub spare: usize,
    pub junk: Junk,
    pub buf: BufKind,
    pub akind: Kind,
    pub aspare: usize,
    /// core limit, thresholds of medium (dual, multi) and large (dual, multi) complexity
    pub mcs: Option<(usize, usize, usize, usize, usize)>,
}
impl Cfg {
    pub fn vec() -> Cfg {
        Cfg { kind: Kind::Vec, spare: 0, junk: Junk::Nan, buf: BufKind::Single(0), akind: Kind::Vec, aspare: 0, mcs: None }
    }
    pub fn slice(off: usize) -> Cfg {
        Cfg { kind: Kind::Slice(off), akind: Kind::Slice(off), buf: BufKind::Fixed(5000), ..Cfg::vec() }
    }
    pub fn spare(mut self, n: usize) -> Cfg {
        self.spare = n;
        self.aspare = n;
        self
    }
    pub fn buf(mut self, b: BufKind) -> Cfg {
        self.buf = b;
        self
    }
    pub fn desc(&self) -> String {
        format!("{:?}+{} junk={:?} buf={:?} arg={:?}+{} mc={:?}", self.kind, self.spare, self.junk, self.buf, self.akind, self.aspare, self.mcs)
    }
    pub fn settings(&self) -> MultiCoreSettings {
        match self.mcs {
            None => MultiCoreSettings::default(),
            Some((c, a, b, x, y)) => MultiCoreSettings::with_thresholds(c, a, b, x, y),
        }
    }
}

/// A vector of the library with everything around it.
pub struct Sut<T: Flt> {
    pub v: Option<G<T>>,
    arena: Option<Arena<T>>,
    storage: usize,
}

pub fn build<T: Flt>(m: &M, kind: Kind, spare: usize, junk: Junk, mcs: MultiCoreSettings) -> Sut<T> {
    let len = m.d.len();
    let total = len + spare;
    let it = (0..total).map(|i| if i < len { T::of(m.d[i]) } else { junk.v(i) });
    let mut arena = None;
    let st = match kind {
        Kind::Slice(off) => {
            let mut a = Arena::new(off, total);
            let mut r = a.raw();
            for (x, y) in r.m().iter_mut().zip(it) {
                *x = y;
            }
            arena = Some(a);
            St::S(r)
        }
        Kind::Vec => {
            let mut v: Vec<T> = Vec::with_capacity(total);
            v.extend(it);
            St::V(v)
        }
        Kind::Box => St::B(it.collect::<Vec<T>>().into_boxed_slice()),
        Kind::Arr => {
            let mut a = ArrayVec::new();
            for x in it {
                a.push(x);
            }
            St::A(Box::new(a))
        }
    };
    let dom = if m.freq { DataDomain::Frequency } else { DataDomain::Time };
    let mut v: G<T> = GenDspVec::rededicate_with_runtime_data(RealTimeVec::from(st), m.cplx, dom);
    ResizeOps::resize(&mut v, len).expect("harness: resize");
    v.set_delta(T::of(m.delta));
    v.set_multicore_settings(mcs);
    let storage = v.data.to_slice().len();
    Sut { v: Some(v), arena, storage }
}

/// What can be seen of a vector.
pub fn observe<T: Flt, N: NumberSpace, D: Domain>(v: &DspVec<St<T>, T, N, D>) -> Result<M, String> {
    let len = v.len();
    let alloc = v.data.to_slice().len();
    if len > alloc {
        return Err(format!("valid length {} exceeds the storage of {} elements", len, alloc));
    }
    if v.is_complex() && len % 2 != 0 {
        return Err(format!("complex vector with the odd length {}", len));
    }
    if v.points() != if v.is_complex() { len / 2 } else { len } {
        return Err(format!("points()={} for len()={}", v.points(), len));
    }
    Ok(M {
        cplx: v.is_complex(),
        freq: v.domain() == DataDomain::Frequency,
        delta: v.delta().f(),
        d: v.data(..).iter().map(|x| x.f()).collect(),
        err: len == 0 && v.delta().is_nan(),
    })
}

impl<T: Flt> Sut<T> {
    pub fn m(&self) -> Result<M, String> {
        observe(self.v.as_ref().unwrap())
    }
    /// Storage limit: `None` if the storage can grow
    pub fn limit(&self, kind: Kind) -> Option<usize> {
        if kind.grows() { None } else if kind == Kind::Arr { Some(ARR.max(self.storage)) } else { Some(self.storage) }
    }
    pub fn intact(&self) -> bool {
        self.arena.as_ref().map_or(true, |a| a.intact())
    }
}

/// Result of one operation on the library.
pub struct Obs {
    pub m: M,
    pub args: Vec<M>,
    pub ret: Ret,
}

pub struct Step<'a> {
    pub op: &'a Op,
    pub args: &'a [M],
    /// Spare capacity of the arguments
    pub aspare: usize,
}

/// Rounds the model to what the library is given.
pub fn quant<T: Flt>(m: &M) -> M {
    M { d: m.d.iter().map(|x| T::of(*x).f()).collect(), delta: T::of(m.delta).f(), ..m.clone() }
}

/// A session with one receiver.
pub struct Session<T: Flt> {
    pub cfg: Cfg,
    pub sut: Sut<T>,
    pub buf: Buf<T>,
}
impl<T: Flt> Session<T> {
    pub fn new(cfg: &Cfg, m: &M) -> Session<T> {
        let sut = build::<T>(m, cfg.kind, cfg.spare, cfg.junk, cfg.settings());
        Session { cfg: cfg.clone(), sut, buf: Buf::new(cfg.buf, cfg.junk) }
    }
    pub fn limit(&self) -> Option<usize> {
        // With a buffer which is a `Vec` of its own the storage may be swapped
        self.sut.limit(self.cfg.kind)
    }
    /// The expectation with regard to storage limits of the vector and the arguments.
    pub fn expect(&self, op: &Op, m: &M, args: &[M]) -> Ex {
        let mut e = op.model(m, args, self.limit());
        let fits = |a: &M, n: usize| match self.cfg.akind {
            Kind::Vec => true,
            Kind::Arr => n <= ARR.max(a.d.len() + self.cfg.aspare),
            _ => n <= a.d.len() + self.cfg.aspare,
        };
        if let Some(want) = &mut e.args {
            if want.iter().zip(args).any(|(w, a)| !fits(a, w.d.len())) {
                match op {
                    Op::Get(_) | Op::GetRealImag | Op::GetMagPhase => {
                        for (w, a) in want.iter_mut().zip(args) {
                            *w = M { d: Vec::new(), ..a.clone() };
                        }
                    }
                    Op::SplitInto => {
                        e.ret = Ret::Err("TypeCanNotResize".into());
                        e.loose_args = true;
                    }
                    _ => {}
                }
            }
        }
        e
    }
    /// Like `step` with the statically typed vector, `None` if the operation doesn't exist for it.
    pub fn step_static(&mut self, op: &Op, args: &[M], rec: &Rec) -> Result<Option<Obs>, String> {
        let mut a: Vec<Sut<T>> = args
            .iter()
            .map(|x| build::<T>(x, self.cfg.akind, self.cfg.aspare, self.cfg.junk, self.cfg.settings()))
            .collect();
        let gs: Vec<G<T>> = a.iter_mut().map(|x| x.v.take().unwrap()).collect();
        let v = self.sut.v.take().unwrap();
        let (m, am, ret) = match crate::statics::exec_static(v, op, gs, &mut self.buf, rec) {
            Some(x) => x,
            None => return Ok(None),
        };
        if !self.sut.intact() {
            return Err("memory next to the storage of the vector was overwritten".into());
        }
        let mut args = Vec::new();
        for (x, m) in a.iter().zip(am) {
            if !x.intact() {
                return Err("memory next to the storage of an argument was overwritten".into());
            }
            args.push(m.map_err(|e| format!("argument: {}", e))?);
        }
        Ok(Some(Obs { m: m?, args, ret }))
    }
    pub fn step(&mut self, op: &Op, args: &[M], rec: &Rec) -> Result<Obs, String> {
        let mut a: Vec<Sut<T>> = args
            .iter()
            .map(|x| build::<T>(x, self.cfg.akind, self.cfg.aspare, self.cfg.junk, self.cfg.settings()))
            .collect();
        let mut gs: Vec<G<T>> = a.iter_mut().map(|x| x.v.take().unwrap()).collect();
        let v = self.sut.v.take().unwrap();
        let (v, ret) = exec(v, op, &mut gs, &mut self.buf, rec);
        self.sut.v = Some(v);
        for (x, g) in a.iter_mut().zip(gs) {
            x.v = Some(g);
        }
        if !self.sut.intact() {
            return Err("memory next to the storage of the vector was overwritten".into());
        }
        let mut am = Vec::new();
        for x in &a {
            if !x.intact() {
                return Err("memory next to the storage of an argument was overwritten".into());
            }
            am.push(x.m().map_err(|e| format!("argument: {}", e))?);
        }
        Ok(Obs { m: self.sut.m()?, args: am, ret })
    }
}

pub fn close(got: f64, want: f64, tol: f64) -> bool {
    if want.is_nan() {
        return true;
    }
    if got == want {
        return true;
    }
    (got - want).abs() <= tol
}

pub fn cmp_data(what: &str, got: &[f64], want: &[f64], tol: f64, exact: bool) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} values instead of {}: got {:?} want {:?}", what, got.len(), want.len(), short(got), short(want)));
    }
    let scale = want.iter().filter(|x| x.is_finite()).fold(1.0f64, |a, b| a.max(b.abs()));
    for i in 0..got.len() {
        let good = if exact { want[i].is_nan() || got[i] == want[i] } else { close(got[i], want[i], tol * scale) };
        if !good {
            return Err(format!("{}: value {} is {} instead of {}: got {:?} want {:?}", what, i, got[i], want[i], short(got), short(want)));
        }
    }
    Ok(())
}
pub fn short(v: &[f64]) -> String {
    if v.len() <= 40 {
        format!("{:?}", v)
    } else {
        format!("{:?}... ({} values)", &v[..40], v.len())
    }
}

pub fn cmp_m(what: &str, got: &M, want: &M, tol: f64, exact: bool) -> Result<(), String> {
    if want.err {
        if !got.err {
            return Err(format!("{}: vector isn't marked as erroneous: {:?}", what, got));
        }
        return Ok(());
    }
    if got.err {
        return Err(format!("{}: vector is marked as erroneous, expected {:?}", what, want));
    }
    cmp_data(what, &got.d, &want.d, tol, exact)?;
    if got.cplx != want.cplx || got.freq != want.freq {
        return Err(format!(
            "{}: is_complex={} frequency={} instead of is_complex={} frequency={}",
            what, got.cplx, got.freq, want.cplx, want.freq
        ));
    }
    let dt = 1e-5 * want.delta.abs();
    if !want.d.is_empty() && !(got.delta == want.delta || (got.delta - want.delta).abs() <= dt) {
        return Err(format!("{}: delta is {} instead of {}", what, got.delta, want.delta));
    }
    Ok(())
}

/// Compares an observation with the expectation.
pub fn check<T: Flt>(obs: &Obs, exp: &Ex, args: &[M]) -> Result<(), String> {
    check_tol::<T>(obs, exp, args, T::EPS)
}
pub fn check_tol<T: Flt>(obs: &Obs, exp: &Ex, args: &[M], eps: f64) -> Result<(), String> {
    if exp.unspecified {
        return Ok(());
    }
    match (&obs.ret, &exp.ret) {
        (Ret::Err(_), Ret::Err(_)) if exp.any_err => {}
        (Ret::Err(a), Ret::Err(b)) if a == b => {}
        (Ret::Ok(a), Ret::Ok(b)) => cmp_data("result", a, b, eps * exp.tol, false)?,
        (a, b) => return Err(format!("returned {:?} instead of {:?}", a, b)),
    }
    if !exp.loose {
        cmp_m("vector", &obs.m, &exp.m, eps * exp.tol, exp.exact)?;
    }
    let want: &[M] = match &exp.args {
        Some(a) => a,
        None => args,
    };
    for (i, (a, w)) in obs.args.iter().zip(want).enumerate().filter(|_| !exp.loose_args) {
        cmp_m(&format!("argument {}", i), a, w, eps * exp.tol, exp.args.is_none() || exp.exact)?;
    }
    Ok(())
}

/// Builds the vector, executes one operation and compares with the model.
pub fn run_op<T: Flt>(cfg: &Cfg, m: &M, args: &[M], op: &Op) -> Result<M, String> {
    run_op_rec::<T>(cfg, m, args, op, &NOREC).map(|o| o.m)
}
pub fn run_op_rec<T: Flt>(cfg: &Cfg, m: &M, args: &[M], op: &Op, rec: &Rec) -> Result<Obs, String> {
    let m = quant::<T>(m);
    let args: Vec<M> = args.iter().map(quant::<T>).collect();
    let mut s = Session::<T>::new(cfg, &m);
    let exp = s.expect(op, &m, &args);
    let obs = s.step(op, &args, rec)?;
    check::<T>(&obs, &exp, &args)?;
    Ok(obs)
}
