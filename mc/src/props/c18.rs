//! Wrapping, unwrapping, indexing, cloning and re-typing.
use super::common::*;
use arrayvec::ArrayVec;
use basic_dsp_vector::*;
use num_complex::Complex;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Res = Result<(), String>;
const CAP: usize = 16;

/// A vector of one of the types of the library
enum W<S: ToSlice<T>, T: Flt> {
    RT(RealTimeVec<S, T>),
    RF(RealFreqVec<S, T>),
    CT(ComplexTimeVec<S, T>),
    CF(ComplexFreqVec<S, T>),
    G(GenDspVec<S, T>),
}
macro_rules! each {
    ($w:expr, $v:ident => $e:expr) => {
        match $w {
            W::RT($v) => $e,
            W::RF($v) => $e,
            W::CT($v) => $e,
            W::CF($v) => $e,
            W::G($v) => $e,
        }
    };
}
const GEN: usize = 4;
/// What is expected of a vector
#[derive(Clone, Debug)]
struct Want {
    ty: usize,
    cplx: bool,
    freq: bool,
    delta: f64,
    /// the multi-core settings in use, as text
    mcs: String,
    d: Vec<f64>,
}
fn of_type(ty: usize) -> (bool, bool) {
    [(false, false), (false, true), (true, false), (true, true)][ty]
}
fn mcs_text(m: &MultiCoreSettings) -> String {
    format!("{:?}", m)
}
fn nums<T: Flt>(x: &[T]) -> Vec<f64> {
    x.iter().map(|x| x.f()).collect()
}
fn cnums<T: Flt>(x: &[Complex<T>]) -> Vec<f64> {
    x.iter().flat_map(|z| vec![z.re.f(), z.im.f()]).collect()
}
fn eq(what: &str, got: &[f64], want: &[f64]) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}", what, got, want))
    }
}
fn that(ok: bool, what: impl FnOnce() -> String) -> Res {
    if ok {
        Ok(())
    } else {
        Err(what())
    }
}
fn refuses<R>(what: &str, f: impl FnOnce() -> R) -> Res {
    match catch_unwind(AssertUnwindSafe(|| {
        f();
    })) {
        Ok(()) => Err(format!("{} is accepted although it isn't valid", what)),
        Err(_) => Ok(()),
    }
}
/// All ways to read from an indexable object: `$get` maps an index to the object.
macro_rules! reads {
    ($name:expr, $get:ident, $v:expr, $n:expr, $step:expr, $flat:expr, $one:expr, $d:expr, $panics:expr) => {{
        let (n, st, d): (usize, usize, &[f64]) = ($n, $step, $d);
        eq(concat!($name, "(..)"), &$flat($get!($v, ..)), d)?;
        for i in 0..n {
            eq(concat!($name, "(i)"), &$one($get!($v, i)), &d[i * st..(i + 1) * st])?;
            eq(concat!($name, "(i..)"), &$flat($get!($v, i..)), &d[i * st..])?;
            eq(concat!($name, "(..i)"), &$flat($get!($v, ..i)), &d[..i * st])?;
            for j in i..=n {
                eq(concat!($name, "(i..j)"), &$flat($get!($v, i..j)), &d[i * st..j * st])?;
            }
        }
        eq(concat!($name, "(n..)"), &$flat($get!($v, n..)), &[])?;
        if $panics {
            refuses(concat!($name, "(n)"), || { let _ = &$get!($v, n); })?;
            refuses(concat!($name, "(n + 1..)"), || { let _ = &$get!($v, n + 1..); })?;
            refuses(concat!($name, "(..n + 1)"), || { let _ = &$get!($v, ..n + 1); })?;
            refuses(concat!($name, "(n..n + 1)"), || { let _ = &$get!($v, n..n + 1); })?;
        }
    }};
}
macro_rules! get_data { ($v:expr, $i:expr) => { $v.data($i) }; }
macro_rules! get_datac { ($v:expr, $i:expr) => { $v.datac($i) }; }
macro_rules! get_index { ($v:expr, $i:expr) => { &$v[$i] }; }

fn read<S: ToSlice<T>, T: Flt, N: NumberSpace, D: Domain>(v: &DspVec<S, T, N, D>, w: &Want, panics: bool) -> Res {
    let n = w.d.len();
    that(v.len() == n, || format!("len is {} instead of {}", v.len(), n))?;
    let p = if w.cplx { n / 2 } else { n };
    that(v.points() == p, || format!("points is {} instead of {}", v.points(), p))?;
    that(v.is_empty() == (n == 0), || format!("is_empty is {}", v.is_empty()))?;
    that(v.is_complex() == w.cplx, || format!("is_complex is {}", v.is_complex()))?;
    that((v.domain() == DataDomain::Frequency) == w.freq, || format!("domain is {:?}", v.domain()))?;
    that(v.delta().f() == w.delta, || format!("delta is {:?} instead of {:?}", v.delta(), w.delta))?;
    that(v.alloc_len() >= n, || format!("alloc_len is {}", v.alloc_len()))?;
    let s = mcs_text(v.get_multicore_settings());
    that(s == w.mcs, || format!("multi-core settings are {} instead of {}", s, w.mcs))?;
    let m = v.get_meta_data();
    that(m.is_complex() == w.cplx && (m.domain() == DataDomain::Frequency) == w.freq, || "the meta data doesn't fit".to_string())?;
    reads!("data", get_data, v, n, 1, |x: &[T]| nums(x), |x: &T| vec![x.f()], &w.d, panics);
    Ok(())
}
fn readc<S: ToSlice<T>, T: Flt, N: ComplexNumberSpace, D: Domain>(v: &DspVec<S, T, N, D>, w: &Want, panics: bool) -> Res {
    // empty for vectors which aren't complex
    let d: &[f64] = if w.cplx { &w.d } else { &[] };
    reads!("datac", get_datac, v, d.len() / 2, 2, |x: &[Complex<T>]| cnums(x), |x: &Complex<T>| vec![x.re.f(), x.im.f()], d, panics);
    Ok(())
}
fn index_r<S: ToSlice<T>, T: Flt, D: Domain>(v: &RealOf<S, T, D>, w: &Want, panics: bool) -> Res {
    reads!("[]", get_index, v, w.d.len(), 1, |x: &[T]| nums(x), |x: &T| vec![x.f()], &w.d, panics);
    Ok(())
}
fn index_c<S: ToSlice<T>, T: Flt, D: Domain>(v: &ComplexOf<S, T, D>, w: &Want, panics: bool) -> Res {
    reads!("[]", get_index, v, w.d.len() / 2, 2, |x: &[Complex<T>]| cnums(x), |x: &Complex<T>| vec![x.re.f(), x.im.f()], &w.d, panics);
    Ok(())
}
type RealOf<S, T, D> = DspVec<S, T, meta::Real, D>;
type ComplexOf<S, T, D> = DspVec<S, T, meta::Complex, D>;

fn check_read<S: ToSlice<T>, T: Flt>(v: &W<S, T>, w: &Want, panics: bool) -> Res {
    that(type_of(v) == w.ty, || "harness: type".into())?;
    each!(v, v => read(v, w, panics))?;
    match v {
        W::RT(v) => index_r(&shim(v), w, panics),
        W::RF(v) => index_r(&shim(v), w, panics),
        W::CT(v) => readc(v, w, panics).and_then(|_| index_c(&shim(v), w, panics)),
        W::CF(v) => readc(v, w, panics).and_then(|_| index_c(&shim(v), w, panics)),
        W::G(v) => readc(v, w, panics),
    }
}
fn shim<X>(x: &X) -> &X {
    x
}
fn type_of<S: ToSlice<T>, T: Flt>(v: &W<S, T>) -> usize {
    match v {
        W::RT(_) => 0,
        W::RF(_) => 1,
        W::CT(_) => 2,
        W::CF(_) => 3,
        W::G(_) => GEN,
    }
}
/// Writes through every index form and checks that only the addressed elements change.
macro_rules! writes {
    ($name:expr, $get:ident, $v:expr, $n:expr, $step:expr, $val:expr, $all:expr, $d:expr) => {{
        let (n, st): (usize, usize) = ($n, $step);
        let mut d: Vec<f64> = $d.to_vec();
        let mut k = 100.0;
        let mut upd = |d: &mut Vec<f64>, a: usize, b: usize| {
            k += 1.0;
            for x in &mut d[a * st..b * st] {
                *x = k;
            }
            k
        };
        for i in 0..n {
            let x = upd(&mut d, i, i + 1);
            *$get!($v, i, one) = $val(x);
            eq(concat!($name, "(i) after writing"), &$all, &d)?;
            for j in i..=n {
                let x = upd(&mut d, i, j);
                for y in $get!($v, i..j, many).iter_mut() {
                    *y = $val(x);
                }
                eq(concat!($name, "(i..j) after writing"), &$all, &d)?;
            }
            let x = upd(&mut d, i, n);
            for y in $get!($v, i.., many).iter_mut() {
                *y = $val(x);
            }
            eq(concat!($name, "(i..) after writing"), &$all, &d)?;
            let x = upd(&mut d, 0, i);
            for y in $get!($v, ..i, many).iter_mut() {
                *y = $val(x);
            }
            eq(concat!($name, "(..i) after writing"), &$all, &d)?;
        }
        let x = upd(&mut d, 0, n);
        for y in $get!($v, .., many).iter_mut() {
            *y = $val(x);
        }
        eq(concat!($name, "(..) after writing"), &$all, &d)?;
        refuses(concat!("writing to ", $name, "(n)"), || { *$get!($v, n, one) = $val(1.0); })?;
        refuses(concat!("writing to ", $name, "(..n + 1)"), || { let _ = &mut $get!($v, ..n + 1, many); })?;
        refuses(concat!("writing to ", $name, "(n..n + 1)"), || { let _ = &mut $get!($v, n..n + 1, many); })?;
        d
    }};
}
macro_rules! mut_data { ($v:expr, $i:expr, $k:ident) => { $v.data_mut($i) }; }
macro_rules! mut_datac { ($v:expr, $i:expr, $k:ident) => { $v.datac_mut($i) }; }
macro_rules! mut_index {
    ($v:expr, $i:expr, one) => { &mut $v[$i] };
    ($v:expr, $i:expr, many) => { $v[$i] };
}
fn cval<T: Flt>(x: f64) -> Complex<T> {
    Complex::new(T::of(x), T::of(x))
}
fn check_write<S: ToSliceMut<T>, T: Flt>(v: &mut W<S, T>, w: &Want) -> Res {
    let d = each!(v, v => writes!("data_mut", mut_data, v, w.d.len(), 1, T::of, nums(v.data(..)), &w.d));
    macro_rules! c {
        ($v:ident) => {
            writes!("datac_mut", mut_datac, $v, d.len() / 2, 2, cval::<T>, nums($v.data(..)), &d)
        };
    }
    match v {
        W::RT(v) => {
            writes!("[] ", mut_index, v, d.len(), 1, T::of, nums(v.data(..)), &d);
        }
        W::RF(v) => {
            writes!("[] ", mut_index, v, d.len(), 1, T::of, nums(v.data(..)), &d);
        }
        W::CT(v) => {
            let d = c!(v);
            writes!("[] ", mut_index, v, d.len() / 2, 2, cval::<T>, nums(v.data(..)), &d);
        }
        W::CF(v) => {
            let d = c!(v);
            writes!("[] ", mut_index, v, d.len() / 2, 2, cval::<T>, nums(v.data(..)), &d);
        }
        W::G(v) => {
            if w.cplx {
                c!(v);
            } else {
                that(v.datac_mut(..).is_empty(), || "datac_mut isn't empty for a real vector".into())?;
            }
        }
    }
    Ok(())
}

/// Storage which wraps to itself
trait Sto<T: Flt>: ToSliceMut<T> + ToDspVector<T> + ToRealVector<T> + ToComplexVector<Self, T> + Clone + Sized {
    const NAME: &'static str;
    const GROWS: bool;
    fn make(d: &[f64], spare: usize) -> Self;
    fn fits(_n: usize) -> bool {
        true
    }
    fn cut(&mut self, n: usize);
}
impl<T: Flt> Sto<T> for Vec<T> {
    const NAME: &'static str = "Vec";
    const GROWS: bool = true;
    fn make(d: &[f64], spare: usize) -> Self {
        let mut v = Vec::with_capacity(d.len() + spare);
        v.extend(d.iter().map(|x| T::of(*x)));
        v
    }
    fn cut(&mut self, n: usize) {
        self.truncate(n)
    }
}
impl<T: Flt> Sto<T> for Box<[T]> {
    const NAME: &'static str = "Box";
    const GROWS: bool = false;
    fn make(d: &[f64], _spare: usize) -> Self {
        d.iter().map(|x| T::of(*x)).collect::<Vec<T>>().into_boxed_slice()
    }
    fn cut(&mut self, n: usize) {
        *self = self[..n].to_vec().into_boxed_slice();
    }
}
impl<T: Flt> Sto<T> for ArrayVec<T, CAP> {
    const NAME: &'static str = "ArrayVec";
    const GROWS: bool = true;
    fn make(d: &[f64], _spare: usize) -> Self {
        d.iter().map(|x| T::of(*x)).collect()
    }
    fn fits(n: usize) -> bool {
        n <= CAP
    }
    fn cut(&mut self, n: usize) {
        self.truncate(n)
    }
}
fn dom(freq: bool) -> DataDomain {
    if freq { DataDomain::Frequency } else { DataDomain::Time }
}
/// All ways to wrap a storage
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    To(usize),
    ToPar(usize),
    Gen(bool, bool),
    GenPar(bool, bool),
    From(usize),
    Meta(usize),
    MetaGen(bool, bool),
    MetaPar(usize),
    Slice(usize),
    SliceGen(bool, bool),
}
fn hows() -> Vec<How> {
    let mut v = Vec::new();
    for i in 0..4 {
        let (c, f) = of_type(i);
        v.extend(vec![How::To(i), How::ToPar(i), How::Gen(c, f), How::GenPar(c, f), How::From(i), How::Meta(i), How::MetaGen(c, f), How::MetaPar(i)]);
    }
    v
}
/// Settings which differ from all defaults
fn odd_settings() -> MultiCoreSettings {
    MultiCoreSettings::with_thresholds(3, 11, 12, 13, 14)
}
fn expected(how: How, d: &[f64]) -> Want {
    let single = mcs_text(&MultiCoreSettings::default());
    let par = mcs_text(&MultiCoreSettings::parallel());
    let (ty, (cplx, freq), mcs, delta) = match how {
        How::To(i) | How::From(i) | How::Slice(i) => (i, of_type(i), single, 1.0),
        How::ToPar(i) => (i, of_type(i), par, 1.0),
        How::Gen(c, f) | How::SliceGen(c, f) => (GEN, (c, f), single, 1.0),
        How::GenPar(c, f) => (GEN, (c, f), par, 1.0),
        How::Meta(i) => (i, of_type(i), mcs_text(&odd_settings()), 0.5),
        How::MetaPar(i) => (i, of_type(i), par, 0.5),
        How::MetaGen(c, f) => (GEN, (c, f), mcs_text(&odd_settings()), 0.5),
    };
    let d = if cplx && d.len() % 2 != 0 { Vec::new() } else { d.to_vec() };
    Want { ty, cplx, freq, delta, mcs, d }
}
fn wrap<S, T: Flt>(s: S, how: How) -> W<S, T>
where
    S: ToSlice<T> + ToDspVector<T> + ToRealVector<T> + ToComplexVector<S, T>,
{
    macro_rules! with_meta {
        ($m:expr, $f:ident) => {{
            let mut m = $m;
            m.set_delta(T::of(0.5));
            m.set_multicore_settings(odd_settings());
            let m = m.get_meta_data();
            s.$f(&m)
        }};
    }
    let e = || Vec::<T>::with_capacity(2);
    match how {
        How::To(0) => W::RT(s.to_real_time_vec()),
        How::To(1) => W::RF(s.to_real_freq_vec()),
        How::To(2) => W::CT(s.to_complex_time_vec()),
        How::To(_) => W::CF(s.to_complex_freq_vec()),
        How::ToPar(0) => W::RT(s.to_real_time_vec_par()),
        How::ToPar(1) => W::RF(s.to_real_freq_vec_par()),
        How::ToPar(2) => W::CT(ToComplexVectorPar::<S, T>::to_complex_time_vec_par(s)),
        How::ToPar(_) => W::CF(ToComplexVectorPar::<S, T>::to_complex_freq_vec_par(s)),
        How::Gen(c, f) => W::G(s.to_gen_dsp_vec(c, dom(f))),
        How::GenPar(c, f) => W::G(s.to_gen_dsp_vec_par(c, dom(f))),
        How::From(0) => W::RT(s.into()),
        How::From(1) => W::RF(s.into()),
        How::From(2) => W::CT(s.into()),
        How::From(_) => W::CF(s.into()),
        How::Meta(0) => W::RT(with_meta!(e().to_real_time_vec(), to_dsp_vec)),
        How::Meta(1) => W::RF(with_meta!(e().to_real_freq_vec(), to_dsp_vec)),
        How::Meta(2) => W::CT(with_meta!(e().to_complex_time_vec(), to_dsp_vec)),
        How::Meta(_) => W::CF(with_meta!(e().to_complex_freq_vec(), to_dsp_vec)),
        How::MetaPar(0) => W::RT(with_meta!(e().to_real_time_vec(), to_dsp_vec_par)),
        How::MetaPar(1) => W::RF(with_meta!(e().to_real_freq_vec(), to_dsp_vec_par)),
        How::MetaPar(2) => W::CT(with_meta!(e().to_complex_time_vec(), to_dsp_vec_par)),
        How::MetaPar(_) => W::CF(with_meta!(e().to_complex_freq_vec(), to_dsp_vec_par)),
        How::MetaGen(c, f) => W::G(with_meta!(e().to_gen_dsp_vec(c, dom(f)), to_dsp_vec)),
        How::Slice(_) | How::SliceGen(..) => panic!("harness"),
    }
}
fn unwrapped<T: Flt>(what: &str, got: (&[T], usize), w: &Want) -> Res {
    that(got.1 == w.d.len() && got.0.len() >= got.1, || format!("{}: valid length is {} of {} instead of {}", what, got.1, got.0.len(), w.d.len()))?;
    eq(what, &nums(&got.0[..got.1]), &w.d)
}
fn unwrappedc<T: Flt>(what: &str, got: (&[Complex<T>], usize), w: &Want) -> Res {
    that(got.1 == w.d.len() / 2 && got.0.len() >= got.1, || format!("{}: valid length is {} of {} instead of {}", what, got.1, got.0.len(), w.d.len() / 2))?;
    eq(what, &cnums(&got.0[..got.1]), &w.d)
}
/// The ways to unwrap which every storage has
fn unwrap<S: Sto<T>, T: Flt>(v: &W<S, T>, w: &Want) -> Res {
    match v {
        W::RT(v) => {
            let (s, n) = v.clone().get();
            unwrapped("get", (s.to_slice(), n), w)?;
        }
        W::RF(v) => {
            let (s, n) = v.clone().get();
            unwrapped("get", (s.to_slice(), n), w)?;
        }
        _ => (),
    }
    let (s, n) = each!(v, v => v.clone().getf());
    unwrapped("getf", (s.to_slice(), n), w)
}
/// ... and those of `Vec`
fn unwrap_vec<T: Flt>(v: &W<Vec<T>, T>, w: &Want) -> Res {
    match v {
        W::RT(v) => eq("into", &nums(&Vec::<T>::from(v.clone())), &w.d),
        W::RF(v) => eq("into", &nums(&Vec::<T>::from(v.clone())), &w.d),
        W::CT(v) => {
            let (s, n) = v.clone().get();
            unwrappedc("get", (&s, n), w)?;
            eq("into", &cnums(&Vec::<Complex<T>>::from(v.clone())), &w.d)
        }
        W::CF(v) => {
            let (s, n) = v.clone().get();
            unwrappedc("get", (&s, n), w)?;
            eq("into", &cnums(&Vec::<Complex<T>>::from(v.clone())), &w.d)
        }
        W::G(_) => Ok(()),
    }
}
impl<S: ToSlice<T> + Clone, T: Flt> Clone for W<S, T> {
    fn clone(&self) -> Self {
        match self {
            W::RT(v) => W::RT(v.clone()),
            W::RF(v) => W::RF(v.clone()),
            W::CT(v) => W::CT(v.clone()),
            W::CF(v) => W::CF(v.clone()),
            W::G(v) => W::G(v.clone()),
        }
    }
    fn clone_from(&mut self, o: &Self) {
        match (self, o) {
            (W::RT(a), W::RT(b)) => a.clone_from(b),
            (W::RF(a), W::RF(b)) => a.clone_from(b),
            (W::CT(a), W::CT(b)) => a.clone_from(b),
            (W::CF(a), W::CF(b)) => a.clone_from(b),
            (W::G(a), W::G(b)) => a.clone_from(b),
            _ => panic!("harness"),
        }
    }
}
/// Steps of a history
#[derive(Clone, Copy, Debug)]
enum Mv {
    Rededicate(usize),
    RededicateTo(usize),
    Force(usize),
    Runtime(usize, bool, bool),
    Empty,
    Shrink,
    ShrinkOne,
    Full,
    Grow,
    Write,
    Clone,
    CloneFrom,
    SetDelta,
    SetCores,
    Rewrap(How),
    ToComplex,
    Magnitude,
}
fn steps() -> Vec<Mv> {
    use self::Mv::*;
    let mut v = Vec::new();
    for i in 0..5 {
        v.extend(vec![Rededicate(i), RededicateTo(i), Force(i), Runtime(i, false, true), Runtime(i, true, false)]);
    }
    v.extend(vec![Empty, Shrink, ShrinkOne, Full, Grow, Write, Clone, CloneFrom, SetDelta, SetCores, ToComplex, Magnitude]);
    for h in hows() {
        if matches!(h, How::To(_) | How::Gen(..) | How::From(_) | How::Meta(_)) {
            v.push(Rewrap(h));
        }
    }
    v
}
macro_rules! retype {
    ($v:expr, $k:expr, $o:ident => $from:expr) => {
        each!($v, $o => match $k {
            0 => W::RT($from),
            1 => W::RF($from),
            2 => W::CT($from),
            3 => W::CF($from),
            _ => W::G($from),
        })
    };
}
/// Executes a step on the code and in the model, `None` if it isn't applicable.
fn step<S: Sto<T>, T: Flt>(v: W<S, T>, w: &Want, s: Mv) -> Result<Option<(W<S, T>, Want)>, String> {
    let mut w = w.clone();
    let mut v = v;
    let alloc = each!(&v, v => v.alloc_len());
    let one = if w.cplx { 2 } else { 1 };
    let n = w.d.len();
    macro_rules! resized {
        ($len:expr, $known:expr) => {{
            let len = $len;
            let r = each!(&mut v, v => v.resize(len));
            that(r.is_ok(), || format!("resize to {} of {} fails: {:?}", len, alloc, r))?;
            // the values of new elements are unspecified
            let all = each!(&v, v => nums(v.data(..)));
            that(all.len() == len, || format!("the length is {} after resizing to {}", all.len(), len))?;
            w.d.truncate(len);
            w.d.extend_from_slice(&all[w.d.len()..]);
        }};
    }
    match s {
        Mv::Rededicate(k) | Mv::RededicateTo(k) => {
            let (c, f) = if k == GEN { (w.cplx, w.freq) } else { of_type(k) };
            v = if let Mv::Rededicate(_) = s { retype!(v, k, o => RededicateOps::rededicate_from(o)) } else { retype!(v, k, o => o.rededicate()) };
            if c != w.cplx || f != w.freq {
                w.d.clear();
            }
            w = Want { ty: k, cplx: c, freq: f, ..w };
            let a = each!(&v, v => v.alloc_len());
            that(a == alloc, || format!("alloc_len changed from {} to {}", alloc, a))?;
        }
        Mv::Force(k) => {
            let (c, f) = if k == GEN { (w.cplx, w.freq) } else { of_type(k) };
            if c && n % 2 != 0 {
                return Ok(None);
            }
            v = retype!(v, k, o => RededicateForceOps::rededicate_from_force(o));
            w = Want { ty: k, cplx: c, freq: f, ..w };
        }
        Mv::Runtime(k, c, f) => {
            let (c2, f2) = if k == GEN { (c, f) } else { of_type(k) };
            if c2 && n % 2 != 0 {
                return Ok(None);
            }
            v = retype!(v, k, o => RededicateForceOps::rededicate_with_runtime_data(o, c, dom(f)));
            w = Want { ty: k, cplx: c2, freq: f2, ..w };
        }
        Mv::Empty => resized!(0, true),
        Mv::Shrink => {
            if n < one {
                return Ok(None);
            }
            resized!(n - one, true)
        }
        Mv::ShrinkOne => {
            if n == 0 {
                return Ok(None);
            }
            if w.cplx {
                let r = each!(&mut v, v => v.resize(n - 1));
                that(r == Err(ErrorReason::InputMustHaveAnEvenLength), || format!("resize to {} gives {:?}", n - 1, r))?;
            } else {
                resized!(n - 1, true)
            }
        }
        Mv::Full => resized!(alloc / one * one, true),
        Mv::Grow => {
            if S::GROWS && S::fits(alloc / one * one + one) {
                resized!(alloc / one * one + one, true)
            } else {
                let r = each!(&mut v, v => v.resize(alloc / one * one + one));
                that(r == Err(ErrorReason::TypeCanNotResize), || format!("growing gives {:?}", r))?;
            }
        }
        Mv::Write => {
            if n == 0 {
                return Ok(None);
            }
            each!(&mut v, v => { *v.data_mut(n - 1) = T::of(77.0); });
            w.d[n - 1] = 77.0;
        }
        Mv::Clone => {
            let mut o = v.clone();
            check_read(&o, &w, false).map_err(|e| format!("clone: {}", e))?;
            // the copy is independent
            check_write(&mut o, &w).map_err(|e| format!("writing to the clone: {}", e))?;
            check_read(&v, &w, false).map_err(|e| format!("the original after writing to the clone: {}", e))?;
        }
        Mv::CloneFrom => {
            let how = if w.ty == GEN { How::Gen(!w.cplx, !w.freq) } else { How::To(w.ty) };
            let mut o: W<S, T> = wrap(S::make(&[1.0, 2.0, 3.0, 4.0], 1), how);
            o.clone_from(&v);
            v = o;
        }
        Mv::SetDelta => {
            each!(&mut v, v => v.set_delta(T::of(0.125)));
            w.delta = 0.125;
        }
        Mv::SetCores => {
            each!(&mut v, v => v.set_multicore_settings(odd_settings()));
            w.mcs = mcs_text(&odd_settings());
        }
        Mv::Rewrap(how) => {
            let (mut st, n) = each!(v, v => v.getf());
            st.cut(n);
            v = wrap(st, how);
            let e = expected(how, &w.d);
            w = e;
        }
        Mv::ToComplex => {
            if w.cplx || !S::fits(2 * n) || (!S::GROWS && alloc < 2 * n) {
                return Ok(None);
            }
            v = match v {
                W::RT(v) => W::CT(v.to_complex().map_err(|e| format!("{:?}", e.0))?),
                W::RF(v) => W::CF(v.to_complex().map_err(|e| format!("{:?}", e.0))?),
                W::G(v) => W::G(v.to_complex().map_err(|e| format!("{:?}", e.0))?),
                _ => return Ok(None),
            };
            w.d = w.d.iter().flat_map(|x| vec![*x, 0.0]).collect();
            w.cplx = true;
            w.ty = [2, 3, 2, 3, GEN][w.ty];
        }
        Mv::Magnitude => {
            if !w.cplx {
                return Ok(None);
            }
            v = match v {
                W::CT(v) => W::RT(v.to_real()),
                W::CF(v) => W::RF(v.to_real()),
                W::G(v) => W::G(v.to_real()),
                _ => return Ok(None),
            };
            w.d = w.d.chunks(2).map(|z| z[0]).collect();
            w.cplx = false;
            w.ty = [0, 1, 0, 1, GEN][w.ty];
        }
    }
    Ok(Some((v, w)))
}
struct Hist<'a> {
    how: How,
    n: usize,
    spare: usize,
    steps: &'a [Mv],
}
fn values(n: usize) -> Vec<f64> {
    (0..n).map(|i| i as f64 * 1.5 - 2.0).collect()
}
impl<'a> Hist<'a> {
    fn exec<S: Sto<T>, T: Flt>(&self, seq: &[usize], fin: fn(&W<S, T>, &Want) -> Res) -> Result<Option<Want>, String> {
        let d = values(self.n);
        let mut v: W<S, T> = wrap(S::make(&d, self.spare), self.how);
        let mut w = expected(self.how, &d);
        for (i, k) in seq.iter().enumerate() {
            let s = self.steps[*k];
            match step(v, &w, s).map_err(|e| format!("step {} {:?}: {}", i, s, e))? {
                Some(x) => {
                    v = x.0;
                    w = x.1;
                }
                None => return Ok(None),
            }
        }
        check_read(&v, &w, seq.len() < 2)?;
        unwrap(&v, &w)?;
        fin(&v, &w)?;
        let r = w.clone();
        if seq.len() < 2 {
            check_write(&mut v, &w)?;
        }
        Ok(Some(r))
    }
    fn dfs<S: Sto<T>, T: Flt>(&self, ctx: &mut Ctx, seq: &mut Vec<usize>, depth: usize, fin: fn(&W<S, T>, &Want) -> Res) {
        if ctx.stopped() {
            return;
        }
        let names: Vec<Mv> = seq.iter().map(|k| self.steps[*k]).collect();
        let key = match names.last() {
            Some(s) => format!("{}/{}/{}", S::NAME, T::NAME, step_name(s)),
            None => format!("{}/{}/{:?}", S::NAME, T::NAME, self.how),
        };
        let me = format!("{:?} n={} spare={} {:?}", self.how, self.n, self.spare, names);
        let mut end = None;
        ctx.case(&key, format_args!("{}", me), || {
            end = self.exec::<S, T>(seq, fin)?;
            Ok(())
        });
        if let Some(o) = ctx.replaying() {
            if !o.contains(&me[..me.len() - 1]) {
                return;
            }
            end = self.exec::<S, T>(seq, fin).unwrap_or(None);
        }
        if let Some(w) = end {
            ctx.state(crate::engine::hash_str(&format!("{:?}", w)));
            if w.d.len() > 12 || seq.len() >= depth {
                return;
            }
            for k in 0..self.steps.len() {
                seq.push(k);
                self.dfs::<S, T>(ctx, seq, depth, fin);
                seq.pop();
            }
        }
    }
}
fn step_name(s: &Mv) -> String {
    match s {
        Mv::Rewrap(h) => format!("Rewrap {:?}", h),
        s => format!("{:?}", s),
    }
}
fn histories<S: Sto<T> + 'static, T: Flt>(p: &mut Plan, t: Tier, fin: fn(&W<S, T>, &Want) -> Res) {
    for n in 0..=t.pick(5usize, 6) {
        for spare in 0..=(if S::NAME == "Vec" { 2 } else { 0 }) {
            for how in hows() {
                let depth = if T::NAME == "f64" { t.pick(2, 3) } else { t.pick(1, 2) };
                p.unit(format!("history {} {} {:?} n={} spare={} depth={}", S::NAME, T::NAME, how, n, spare, depth), move |ctx| {
                    let st = steps();
                    Hist { how, n, spare, steps: &st }.dfs::<S, T>(ctx, &mut Vec::new(), depth, fin);
                });
            }
        }
    }
}
/// Storage which is borrowed or holds complex numbers
fn borrowed<T: Flt>(p: &mut Plan, t: Tier) {
    for n in 0..=t.pick(7usize, 12) {
        p.unit(format!("borrowed {} n={}", T::NAME, n), move |ctx| {
            let d = values(n);
            let x: Vec<T> = d.iter().map(|x| T::of(*x)).collect();
            for how in hows() {
                ctx.case(&format!("&[T]/{}/{:?}", T::NAME, how), format_args!("n={}", n), || {
                    let w = expected(how, &d);
                    let v: W<&[T], T> = wrap(&x[..], how);
                    check_read(&v, &w, true)?;
                    match &v {
                        W::CT(v) => unwrappedc("get", v.clone().get(), &w)?,
                        W::CF(v) => unwrappedc("get", v.clone().get(), &w)?,
                        W::RT(v) => unwrapped("get", v.clone().get(), &w)?,
                        W::RF(v) => unwrapped("get", v.clone().get(), &w)?,
                        W::G(_) => (),
                    }
                    unwrapped("getf", each!(v, v => v.getf()), &w)
                });
                // every valid length which is not longer than the storage
                for k in 0..=n {
                    ctx.case(&format!("&mut [T]/{}/{:?}", T::NAME, how), format_args!("n={} resized to {}", n, k), || {
                        let mut w = expected(how, &d);
                        let mut x = x.clone();
                        {
                            let mut v: W<&mut [T], T> = wrap(&mut x[..], how);
                            check_read(&v, &w, true)?;
                            let r = each!(&mut v, v => v.resize(k));
                            if w.cplx && k % 2 != 0 {
                                that(r == Err(ErrorReason::InputMustHaveAnEvenLength), || format!("resize to {} gives {:?}", k, r))?;
                            } else {
                                that(r.is_ok(), || format!("resize to {} gives {:?}", k, r))?;
                                w.d = d[..k].to_vec();
                            }
                            check_read(&v, &w, true)?;
                            check_write(&mut v, &w)?;
                            match v {
                                W::CT(mut v) => {
                                    rewrite(v.data_mut(..), &w.d);
                                    let (s, n) = v.get();
                                    unwrappedc("get", (s, n), &w)?
                                }
                                W::CF(mut v) => {
                                    rewrite(v.data_mut(..), &w.d);
                                    let (s, n) = v.get();
                                    unwrappedc("get", (s, n), &w)?
                                }
                                W::RT(mut v) => {
                                    rewrite(v.data_mut(..), &w.d);
                                    let (s, n) = v.get();
                                    unwrapped("get", (s, n), &w)?
                                }
                                W::RF(mut v) => {
                                    rewrite(v.data_mut(..), &w.d);
                                    let (s, n) = v.getf();
                                    unwrapped("getf", (s, n), &w)?
                                }
                                W::G(mut v) => {
                                    rewrite(v.data_mut(..), &w.d);
                                    let (s, n) = v.getf();
                                    unwrapped("getf", (s, n), &w)?
                                }
                            }
                        }
                        // what isn't valid hasn't been touched
                        eq("the storage", &nums(&x), &d)
                    });
                }
            }
            // storage of complex numbers
            let z: Vec<Complex<T>> = (0..n).map(|i| Complex::new(T::of(i as f64), T::of(-0.5 * i as f64))).collect();
            let zd = cnums(&z);
            for freq in [false, true] {
                let how = How::Slice(if freq { 3 } else { 2 });
                let w = expected(how, &zd);
                for spare in 0..=3 {
                    for par in [false, true] {
                        ctx.case(&format!("Vec<Complex>/{}", T::NAME), format_args!("n={} spare={} freq={} par={}", n, spare, freq, par), || {
                            let mut a = Vec::with_capacity(n + spare);
                            a.extend_from_slice(&z);
                            let mut w = w.clone();
                            if par {
                                w.mcs = mcs_text(&MultiCoreSettings::parallel());
                            }
                            let v: W<Vec<T>, T> = match (freq, par) {
                                (false, _) => W::CT(a.to_complex_time_vec()),
                                (true, _) => W::CF(a.to_complex_freq_vec()),
                            };
                            w.mcs = mcs_text(&MultiCoreSettings::default());
                            check_read(&v, &w, true)?;
                            unwrap(&v, &w)?;
                            unwrap_vec(&v, &w)?;
                            let mut v = v;
                            check_write(&mut v, &w)
                        });
                    }
                }
                ctx.case(&format!("&[Complex]/{}", T::NAME), format_args!("n={} freq={}", n, freq), || {
                    let v: W<&[T], T> = if freq { W::CF((&z[..]).to_complex_freq_vec()) } else { W::CT((&z[..]).to_complex_time_vec()) };
                    check_read(&v, &w, true)?;
                    match v {
                        W::CT(v) => unwrappedc("get", v.get(), &w),
                        W::CF(v) => unwrappedc("get", v.get(), &w),
                        _ => Ok(()),
                    }
                });
                ctx.case(&format!("&mut [Complex]/{}", T::NAME), format_args!("n={} freq={}", n, freq), || {
                    let mut z = z.clone();
                    let mut v: W<&mut [T], T> = if freq { W::CF((&mut z[..]).to_complex_freq_vec()) } else { W::CT((&mut z[..]).to_complex_time_vec()) };
                    check_read(&v, &w, true)?;
                    check_write(&mut v, &w)?;
                    each!(&mut v, v => rewrite(v.data_mut(..), &w.d));
                    match v {
                        W::CT(v) => {
                            let (s, n) = v.get();
                            unwrappedc("get", (s, n), &w)?
                        }
                        W::CF(v) => {
                            let (s, n) = v.get();
                            unwrappedc("get", (s, n), &w)?
                        }
                        _ => (),
                    }
                    eq("the storage", &cnums(&z), &zd)
                });
            }
            // interleaving
            for k in 0..=n + 1 {
                let other: Vec<T> = (0..k).map(|i| T::of(10.0 + i as f64)).collect();
                for freq in [false, true] {
                    let mut want = expected(How::Slice(if freq { 3 } else { 2 }), &[]);
                    for i in 0..n.min(k) {
                        want.d.push(d[i]);
                        want.d.push(10.0 + i as f64);
                    }
                    macro_rules! inter {
                        ($name:expr, $a:expr, $b:expr) => {
                            ctx.case(&format!("interleave {}/{}", $name, T::NAME), format_args!("n={} and {} freq={}", n, k, freq), || {
                                let (a, b) = ($a, $b);
                                let r: Result<W<Vec<T>, T>, ErrorReason> =
                                    if freq { a.interleave_to_complex_freq_vec(&b).map(W::CF) } else { a.interleave_to_complex_time_vec(&b).map(W::CT) };
                                match r {
                                    Ok(v) => {
                                        that(n == k, || "different lengths are accepted".into())?;
                                        check_read(&v, &want, false)?;
                                        unwrap(&v, &want)?;
                                        unwrap_vec(&v, &want)
                                    }
                                    Err(e) => that(n != k && e == ErrorReason::InputMustHaveTheSameSize, || format!("refused: {:?}", e)),
                                }
                            });
                        };
                    }
                    inter!("Vec", x.clone(), other.clone());
                    inter!("slice", &x[..], &other[..]);
                    inter!("Box", x.clone().into_boxed_slice(), other.clone().into_boxed_slice());
                    if n <= CAP && k <= CAP {
                        inter!("ArrayVec", x.iter().copied().collect::<ArrayVec<T, CAP>>(), other.iter().copied().collect::<ArrayVec<T, CAP>>());
                    }
                }
            }
        });
    }
}
fn rewrite<T: Flt>(x: &mut [T], d: &[f64]) {
    for (x, d) in x.iter_mut().zip(d) {
        *x = T::of(*d);
    }
}
fn nothing<S: ToSlice<T>, T: Flt>(_: &W<S, T>, _: &Want) -> Res {
    Ok(())
}
fn unit_for<T: Flt>(p: &mut Plan, t: Tier) {
    histories::<Vec<T>, T>(p, t, unwrap_vec::<T>);
    histories::<Box<[T]>, T>(p, t, nothing::<Box<[T]>, T>);
    histories::<ArrayVec<T, CAP>, T>(p, t, nothing::<ArrayVec<T, CAP>, T>);
    borrowed::<T>(p, t);
}
pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new(
        "constructors: all 32 ways to wrap (static types, dynamic with each number space and domain, From, with given meta data, the variants with threads) x storage Vec (spare capacity 0..2), boxed slice, ArrayVec, slice, \
         mutable slice, and Vec/slice/mutable slice of complex numbers x 0..5 (borrowed 0..7; thorough 0..6 and 0..12) elements. From each: every history of up to 2 (f32 1; thorough 3 and 2) of 53 steps (all re-typing operations to all 5 types, \
         resizing, writing, cloning, unwrapping and wrapping again, to complex and real). In every state all observers are compared with the model: length, meta data, every index and range of every indexer, every way to unwrap; \
         after at most one step also every write through every index and range and every refused index. Interleaving: all pairs of lengths",
    );
    both!(unit_for, &mut p, t);
    p
}
