//! C20: the C interface does to a vector what the Rust interface does. The functions are called through
//! the symbols of a shared library (crate `capi`), whose allocator keeps account of all blocks.
use super::common::*;
use basic_dsp_vector::*;
use num_complex::Complex;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::OnceLock;

type V = *mut c_void;
#[repr(C)]
#[derive(Clone, Copy)]
struct VR {
    code: i32,
    v: V,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct SR<X> {
    code: i32,
    r: X,
}

extern "C" {
    fn dlopen(p: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}

const NAMES: &str = "delete_vector new new_with_performance_options new_with_detailed_performance_options get_value set_value is_complex \
get_domain get_len set_len get_points get_delta data complex_data get_allocated_len add sub div mul real_dot_product complex_dot_product \
real_statistics complex_statistics real_sum real_sum_sq complex_sum complex_sum_sq real_dot_product_prec complex_dot_product_prec \
real_statistics_prec complex_statistics_prec real_sum_prec real_sum_sq_prec complex_sum_prec complex_sum_sq_prec zero_pad zero_interleave \
diff diff_with_start cum_sum real_offset real_scale abs sqrt square root powf ln exp log expf to_complex sin cos tan asin acos atan sinh \
cosh tanh asinh acosh atanh ln_approx exp_approx sin_approx cos_approx log_approx expf_approx powf_approx wrap unwrap swap_halves \
complex_offset complex_scale complex_divide magnitude get_magnitude get_magnitude_squared magnitude_squared conj to_real to_imag \
map_inplace_real map_inplace_complex map_aggregate_real map_aggregate_complex get_real get_imag phase get_phase plain_fft plain_sfft \
plain_ifft clone multiply_complex_exponential add_vector sub_vector div_vector mul_vector add_smaller_vector sub_smaller_vector \
div_smaller_vector mul_smaller_vector get_real_imag get_mag_phase set_real_imag set_mag_phase split_into merge overwrite_data \
real_statistics_split complex_statistics_split real_statistics_split_prec complex_statistics_split_prec fft sfft ifft plain_sifft sifft \
mirror fft_shift ifft_shift apply_window unapply_window windowed_fft windowed_sfft windowed_ifft windowed_sifft apply_custom_window \
unapply_custom_window windowed_custom_fft windowed_custom_sfft windowed_custom_ifft windowed_custom_sifft reverse decimatei \
prepare_argument prepare_argument_padded correlate convolve_signal convolve_real convolve_complex convolve \
multiply_frequency_response_real multiply_frequency_response_complex multiply_frequency_response interpolatef_custom interpolatef \
interpolate_custom interpolate interpft interpolatei_custom interpolatei interpolate_lin interpolate_hermite";

fn names() -> Vec<&'static str> {
    NAMES.split_whitespace().collect()
}

static SYMS: OnceLock<HashMap<String, usize>> = OnceLock::new();
fn syms() -> &'static HashMap<String, usize> {
    SYMS.get_or_init(|| unsafe {
        let exe = std::env::current_exe().expect("harness: path");
        let lib = exe.with_file_name("libcapi.so");
        let h = dlopen(CString::new(lib.to_str().unwrap()).unwrap().as_ptr(), 2);
        assert!(!h.is_null(), "harness: cannot load {:?}", lib);
        let mut m = HashMap::new();
        let mut all: Vec<String> = names().iter().flat_map(|n| vec![format!("{}32", n), format!("{}64", n)]).collect();
        all.extend(["capi_enter", "capi_live", "capi_flush"].iter().map(|x| x.to_string()));
        for n in all {
            let p = dlsym(h, CString::new(n.clone()).unwrap().as_ptr());
            if !p.is_null() {
                m.insert(n, p as usize);
            }
        }
        m
    })
}
fn raw<F: Copy>(name: &str) -> Result<F, String> {
    match syms().get(name) {
        Some(p) => Ok(unsafe { std::mem::transmute_copy::<usize, F>(p) }),
        None => Err(format!("{} is not exported", name)),
    }
}
fn sym<T: Flt, F: Copy>(name: &str) -> Result<F, String> {
    let w = if T::NAME == "f32" { "32" } else { "64" };
    raw::<F>(&format!("{}{}", name, w))
}
/// `f!(T, "name", a => A, b => B; R)` calls an exported function
macro_rules! f {
    ($t:ty, $n:expr $(, $a:expr => $p:ty)*; $r:ty) => {{
        let g: unsafe extern "C" fn($($p),*) -> $r = sym::<$t, unsafe extern "C" fn($($p),*) -> $r>($n)?;
        unsafe { g($($a),*) }
    }};
}

/// Slots of the allocation account, one per worker
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
thread_local! {
    static SLOT: usize = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
}
fn slot() -> usize {
    let s = SLOT.with(|s| *s);
    assert!(s < 256, "harness: slots");
    s
}

// ---- user functions as a C program passes them ---------------------------------------------------
extern "C" fn c_win<T: Flt>(d: *const c_void, n: usize, len: usize) -> T {
    T::of(unsafe { &*(d as *const Win) }.w(n, len))
}
extern "C" fn c_time<T: Flt>(d: *const c_void, x: T) -> T {
    T::of(unsafe { &*(d as *const Resp) }.t(x.f()))
}
extern "C" fn c_freq<T: Flt>(d: *const c_void, x: T) -> T {
    T::of(unsafe { &*(d as *const Resp) }.f(x.f()))
}
extern "C" fn c_timec<T: Flt>(d: *const c_void, x: T) -> Complex<T> {
    let c = unsafe { &*(d as *const Resp) }.ct(x.f());
    Complex::new(T::of(c.re), T::of(c.im))
}
extern "C" fn c_freqc<T: Flt>(d: *const c_void, x: T) -> Complex<T> {
    let c = unsafe { &*(d as *const Resp) }.cf(x.f());
    Complex::new(T::of(c.re), T::of(c.im))
}
const MAP_ARG: f64 = 1.5;
extern "C" fn c_map<T: Flt>(x: T, i: usize) -> T {
    x * T::of(3.0) + T::of(i as f64 * 7.0) + T::of(MAP_ARG)
}
extern "C" fn c_mapc<T: Flt>(x: Complex<T>, i: usize) -> Complex<T> {
    x * T::of(3.0) + Complex::new(T::of(i as f64 * 7.0), T::of(MAP_ARG))
}
fn tag(x: f64, i: usize) -> usize {
    ((x.to_bits() as usize) ^ (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15)).wrapping_mul(0xff51_afd7_ed55_8ccd)
}
fn tagc(x: f64, y: f64, i: usize) -> usize {
    tag(x, i).wrapping_mul(31).wrapping_add(tag(y, i))
}
extern "C" fn c_aggr_map<T: Flt>(x: T, i: usize) -> *const c_void {
    tag(x.f(), i) as *const c_void
}
extern "C" fn c_aggr_mapc<T: Flt>(x: Complex<T>, i: usize) -> *const c_void {
    tagc(x.re.f(), x.im.f(), i) as *const c_void
}
extern "C" fn c_aggr(x: *const c_void, y: *const c_void) -> *const c_void {
    (x as usize).wrapping_add(y as usize) as *const c_void
}

// ---- vectors ---------------------------------------------------------------------------------------
/// How the vector is created.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Make {
    Plain,
    Cores,
    Detailed,
}

fn create<T: Flt>(m: &M, how: Make) -> Result<V, String> {
    let (c, d, n, dt) = (m.cplx as i32, m.freq as i32, m.d.len(), T::of(m.delta));
    let init = T::of(0.625);
    let v = match how {
        Make::Plain => f!(T, "new", c => i32, d => i32, init => T, n => usize, dt => T; V),
        Make::Cores => f!(T, "new_with_performance_options", c => i32, d => i32, init => T, n => usize, dt => T, 3 => usize; V),
        Make::Detailed => {
            f!(T, "new_with_detailed_performance_options", c => i32, d => i32, init => T, n => usize, dt => T, 3 => usize, 1 => usize, 2 => usize, 1 => usize, 2 => usize; V)
        }
    };
    let first = see::<T>(v)?;
    let blank = M { d: vec![0.625; n], ..m.clone() };
    same("new vector", &first, &blank)?;
    for i in 0..n {
        f!(T, "set_value", v => V, i => usize, T::of(m.d[i]) => T; ());
    }
    Ok(v)
}

/// Everything which the interface shows of a vector.
fn see<T: Flt>(v: V) -> Result<M, String> {
    let n = f!(T, "get_len", v => V; usize);
    let cplx = match f!(T, "is_complex", v => V; i32) {
        0 => false,
        1 => true,
        x => return Err(format!("is_complex returned {}", x)),
    };
    let freq = match f!(T, "get_domain", v => V; i32) {
        0 => false,
        1 => true,
        x => return Err(format!("get_domain returned {}", x)),
    };
    let points = f!(T, "get_points", v => V; usize);
    if points != if cplx { n / 2 } else { n } {
        return Err(format!("get_points returned {} for a length of {} complex={}", points, n, cplx));
    }
    let alloc = f!(T, "get_allocated_len", v => V; usize);
    if alloc < n || alloc > (1 << 20) {
        return Err(format!("get_allocated_len returned {} for a length of {}", alloc, n));
    }
    let delta = f!(T, "get_delta", v => V; T).f();
    let p = f!(T, "data", v => V; *const T);
    let mut d = Vec::with_capacity(n);
    for i in 0..n {
        let x = unsafe { *p.add(i) }.f();
        let y = f!(T, "get_value", v => V, i => usize; T).f();
        if x.to_bits() != y.to_bits() && !(x.is_nan() && y.is_nan()) {
            return Err(format!("data[{}]={} get_value={}", i, x, y));
        }
        d.push(x);
    }
    if cplx && n > 0 {
        let q = f!(T, "complex_data", v => V; *const Complex<T>);
        if q as usize != p as usize {
            return Err("complex_data and data differ".into());
        }
    }
    Ok(M { cplx, freq, delta, d, err: n == 0 && delta.is_nan() })
}

fn near(a: f64, b: f64, eps: f64) -> bool {
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= eps * b.abs()
}
fn same_eps(what: &str, got: &M, want: &M, eps: f64) -> Result<(), String> {
    let scale = want.d.iter().filter(|x| x.is_finite()).fold(0.0f64, |a, x| a.max(x.abs()));
    let close = |a: f64, b: f64| near(a, b, eps) || (a - b).abs() <= eps * scale;
    let ok = got.cplx == want.cplx
        && got.freq == want.freq
        && got.err == want.err
        && near(got.delta, want.delta, eps)
        && got.d.len() == want.d.len()
        && got.d.iter().zip(&want.d).all(|(a, b)| close(*a, *b));
    if ok {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}", what, got, want))
    }
}
fn same(what: &str, got: &M, want: &M) -> Result<(), String> {
    same_eps(what, got, want, 0.0)
}

/// The documented code of an error.
fn code_of(e: &str) -> Option<i32> {
    let all = [
        "InputMustHaveTheSameSize", "InputMetaDataMustAgree", "InputMustBeComplex", "InputMustBeReal", "InputMustBeInTimeDomain",
        "InputMustBeInFrequencyDomain", "InvalidArgumentLength", "InputMustBeConjSymmetric", "InputMustHaveAnOddLength",
        "ArgumentFunctionMustBeSymmetric", "InvalidNumberOfArgumentsForCombinedOp", "InputMustNotBeEmpty", "InputMustHaveAnEvenLength",
        "TypeCanNotResize",
    ];
    all.iter().position(|x| *x == e).map(|i| i as i32 + 1)
}

/// What a function returned.
enum Out {
    /// Vector and code
    V(VR),
    /// A code only, the vector stays
    Code(i32),
    /// A code and numbers
    S(i32, Vec<f64>),
    /// Numbers only
    N(Vec<f64>),
    /// Nothing
    Void,
}

struct Call {
    name: &'static str,
    /// A number selecting the form of the arguments
    form: usize,
}

const BASIC: [(Win, i32); 4] = [(Win::Tri, 0), (Win::Hamming, 1), (Win::Blackman, 2), (Win::Rect, 3)];

/// The functions of the interface which do the operation.
fn calls(op: &Op) -> Vec<Call> {
    let c = |n: &'static str| vec![Call { name: n, form: 0 }];
    let n = |n: &'static str, k: usize| (0..k).map(|i| Call { name: n, form: i }).collect::<Vec<_>>();
    let win = |w: &Win, b: &'static str, cu: &'static str| match w {
        Win::Rect => vec![Call { name: b, form: 3 }, Call { name: b, form: 4 }, Call { name: b, form: 5 }],
        Win::Tri | Win::Hamming | Win::Blackman => c(b),
        Win::HammingA(_) => Vec::new(),
        _ => c(cu),
    };
    let resp = |r: &Resp, b: &'static str, cu: &'static str| match r {
        Resp::Sinc => c(b),
        Resp::Rc(_) => n(b, 2),
        _ => c(cu),
    };
    match op {
        Op::Scale(_) => c("real_scale"),
        Op::Offset(_) => c("real_offset"),
        Op::ScaleC(..) => [c("complex_scale"), c("complex_divide")].into_iter().flatten().collect(),
        Op::OffsetC(..) => c("complex_offset"),
        Op::Abs => c("abs"),
        Op::Wrap(_) => c("wrap"),
        Op::Unwrap(_) => c("unwrap"),
        Op::LnApprox => c("ln_approx"),
        Op::ExpApprox => c("exp_approx"),
        Op::SinApprox => c("sin_approx"),
        Op::CosApprox => c("cos_approx"),
        Op::LogApprox(_) => c("log_approx"),
        Op::ExpfApprox(_) => c("expf_approx"),
        Op::PowfApprox(_) => c("powf_approx"),
        Op::MulCexp(..) => c("multiply_complex_exponential"),
        Op::Conj => c("conj"),
        Op::Trig(t) => c(match t {
            Trig::Sin => "sin", Trig::Cos => "cos", Trig::Tan => "tan", Trig::Asin => "asin", Trig::Acos => "acos", Trig::Atan => "atan",
            Trig::Sinh => "sinh", Trig::Cosh => "cosh", Trig::Tanh => "tanh", Trig::Asinh => "asinh", Trig::Acosh => "acosh", Trig::Atanh => "atanh",
        }),
        Op::Sqrt => c("sqrt"),
        Op::Square => c("square"),
        Op::Root(_) => c("root"),
        Op::Powf(_) => c("powf"),
        Op::Ln => c("ln"),
        Op::Exp => c("exp"),
        Op::Log(_) => c("log"),
        Op::Expf(_) => c("expf"),
        Op::Bin(b) => match b {
            Bin::Add => vec![Call { name: "add", form: 0 }, Call { name: "add_vector", form: 0 }],
            Bin::Sub => vec![Call { name: "sub", form: 0 }, Call { name: "sub_vector", form: 0 }],
            Bin::Mul => vec![Call { name: "mul", form: 0 }, Call { name: "mul_vector", form: 0 }],
            Bin::Div => vec![Call { name: "div", form: 0 }, Call { name: "div_vector", form: 0 }],
        },
        Op::BinSmaller(b) => c(match b {
            Bin::Add => "add_smaller_vector",
            Bin::Sub => "sub_smaller_vector",
            Bin::Mul => "mul_smaller_vector",
            Bin::Div => "div_smaller_vector",
        }),
        Op::Reverse => c("reverse"),
        Op::SwapHalves => c("swap_halves"),
        Op::ZeroPadB(_, p) => n("zero_pad", if *p == Pad::Center { 2 } else { 1 }),
        Op::ZeroInterleaveB(_) => c("zero_interleave"),
        Op::Diff => c("diff"),
        Op::DiffWithStart => c("diff_with_start"),
        Op::CumSum => c("cum_sum"),
        Op::SplitInto => c("split_into"),
        Op::Merge => c("merge"),
        Op::Resize(_) => c("set_len"),
        Op::To(p, true) => c(match p {
            Part::Mag => "magnitude", Part::MagSq => "magnitude_squared", Part::Re => "to_real", Part::Im => "to_imag", Part::Phase => "phase",
        }),
        Op::ToComplexB => c("to_complex"),
        Op::Get(p) => c(match p {
            Part::Mag => "get_magnitude", Part::MagSq => "get_magnitude_squared", Part::Re => "get_real", Part::Im => "get_imag", Part::Phase => "get_phase",
        }),
        Op::GetRealImag => c("get_real_imag"),
        Op::GetMagPhase => c("get_mag_phase"),
        Op::SetRealImag => c("set_real_imag"),
        Op::SetMagPhase => c("set_mag_phase"),
        Op::Sum(false) => c("real_sum"),
        Op::Sum(true) => c("real_sum_prec"),
        Op::SumSq(false) => c("real_sum_sq"),
        Op::SumSq(true) => c("real_sum_sq_prec"),
        Op::SumC(false) => c("complex_sum"),
        Op::SumC(true) => c("complex_sum_prec"),
        Op::SumSqC(false) => c("complex_sum_sq"),
        Op::SumSqC(true) => c("complex_sum_sq_prec"),
        Op::Stats(false) => c("real_statistics"),
        Op::Stats(true) => c("real_statistics_prec"),
        Op::StatsC(false) => c("complex_statistics"),
        Op::StatsC(true) => c("complex_statistics_prec"),
        Op::StatsSplit(_, false) => c("real_statistics_split"),
        Op::StatsSplit(_, true) => c("real_statistics_split_prec"),
        Op::StatsSplitC(_, false) => c("complex_statistics_split"),
        Op::StatsSplitC(_, true) => c("complex_statistics_split_prec"),
        Op::Dot(false) => c("real_dot_product"),
        Op::Dot(true) => c("real_dot_product_prec"),
        Op::DotC(false) => c("complex_dot_product"),
        Op::DotC(true) => c("complex_dot_product_prec"),
        Op::Map(_) => c("map_inplace_real"),
        Op::MapC(_) => c("map_inplace_complex"),
        Op::PlainFft => c("plain_fft"),
        Op::Fft => c("fft"),
        Op::WindowedFft(w) => win(w, "windowed_fft", "windowed_custom_fft"),
        Op::PlainIfft => c("plain_ifft"),
        Op::Ifft => c("ifft"),
        Op::WindowedIfft(w) => win(w, "windowed_ifft", "windowed_custom_ifft"),
        Op::PlainSfft => c("plain_sfft"),
        Op::Sfft => c("sfft"),
        Op::WindowedSfft(w) => win(w, "windowed_sfft", "windowed_custom_sfft"),
        Op::PlainSifft => c("plain_sifft"),
        Op::Sifft => c("sifft"),
        Op::WindowedSifft(w) => win(w, "windowed_sifft", "windowed_custom_sifft"),
        Op::FftShift => c("fft_shift"),
        Op::IfftShift => c("ifft_shift"),
        Op::Mirror => c("mirror"),
        Op::ApplyWindow(w) => win(w, "apply_window", "apply_custom_window"),
        Op::UnapplyWindow(w) => win(w, "unapply_window", "unapply_custom_window"),
        Op::ConvolveSignal => c("convolve_signal"),
        Op::Convolve(r, ..) => resp(r, "convolve", "convolve_real"),
        Op::ConvolveC(..) => c("convolve_complex"),
        Op::MulFreq(r, _) => resp(r, "multiply_frequency_response", "multiply_frequency_response_real"),
        Op::MulFreqC(..) => c("multiply_frequency_response_complex"),
        Op::PrepArg => c("prepare_argument"),
        Op::PrepArgPadded => c("prepare_argument_padded"),
        Op::Correlate => c("correlate"),
        Op::Interpolatef(r, ..) => resp(r, "interpolatef", "interpolatef_custom"),
        Op::Interpolatei(r, _) => resp(r, "interpolatei", "interpolatei_custom"),
        Op::Interpolate(Some(r), ..) => resp(r, "interpolate", "interpolate_custom"),
        Op::Interpft(_) => c("interpft"),
        Op::Decimatei(..) => c("decimatei"),
        Op::InterpolateLin(..) => c("interpolate_lin"),
        Op::InterpolateHermite(..) => c("interpolate_hermite"),
        _ => Vec::new(),
    }
}

/// Calls the function with the parameters of the operation. The arguments are only borrowed.
fn call<T: Flt>(k: &Call, op: &Op, v: V, args: &mut [V]) -> Result<Out, String> {
    let n = k.name;
    let t = |x: f64| T::of(x);
    let scalar = |x: f64| -> Result<Out, String> { Ok(Out::V(f!(T, n, v => V, t(x) => T; VR))) };
    let two = |x: f64, y: f64| -> Result<Out, String> { Ok(Out::V(f!(T, n, v => V, t(x) => T, t(y) => T; VR))) };
    let plain = || -> Result<Out, String> { Ok(Out::V(f!(T, n, v => V; VR))) };
    let wcode = |w: &Win| BASIC.iter().find(|x| x.0 == *w).map(|x| if *w == Win::Rect { [3, 4, -1][k.form - 3] } else { x.1 });
    let window = |w: &Win| -> Result<Out, String> {
        if let Some(c) = wcode(w) {
            Ok(Out::V(f!(T, n, v => V, c => i32; VR)))
        } else {
            let d = Box::new(*w);
            let p = &*d as *const Win as *const c_void;
            Ok(Out::V(f!(T, n, v => V, c_win::<T> => extern "C" fn(*const c_void, usize, usize) -> T, p => *const c_void, w.declared_symmetric() => bool; VR)))
        }
    };
    // Code and rolloff of a built in response
    let rcode = |r: &Resp| match r {
        Resp::Sinc => Some((0, 0.77)),
        Resp::Rc(b) => Some(([1, 5][k.form], *b)),
        _ => None,
    };
    type RealFn<T> = extern "C" fn(*const c_void, T) -> T;
    type CplxFn<T> = extern "C" fn(*const c_void, T) -> Complex<T>;
    let data = |r: &Resp| Box::new(*r);
    fn ptr(b: &Box<Resp>) -> *const c_void {
        &**b as *const Resp as *const c_void
    }
    Ok(match op {
        Op::Scale(x) | Op::Offset(x) | Op::Wrap(x) | Op::Unwrap(x) | Op::LogApprox(x) | Op::ExpfApprox(x) | Op::PowfApprox(x) | Op::Root(x)
        | Op::Powf(x) | Op::Log(x) | Op::Expf(x) => scalar(*x)?,
        Op::ScaleC(x, y) if n == "complex_divide" => {
            let z = Complex::new(1.0, 0.0) / Complex::new(*x, *y);
            two(z.re, z.im)?
        }
        Op::ScaleC(x, y) | Op::OffsetC(x, y) | Op::MulCexp(x, y) | Op::InterpolateLin(x, y) | Op::InterpolateHermite(x, y) => two(*x, *y)?,
        Op::Bin(_) | Op::BinSmaller(_) | Op::ConvolveSignal | Op::Correlate => Out::V(f!(T, n, v => V, args[0] => V; VR)),
        Op::ZeroPadB(p, o) => {
            let c = match o {
                Pad::End => 0,
                Pad::Surround => 1,
                Pad::Center => [2, 7][k.form],
            };
            Out::V(f!(T, n, v => V, *p => usize, c => i32; VR))
        }
        Op::ZeroInterleaveB(x) => Out::V(f!(T, n, v => V, *x as i32 => i32; VR)),
        Op::SplitInto => Out::Code(f!(T, n, v => V, args.as_mut_ptr() => *mut V, args.len() => usize; i32)),
        Op::Merge => Out::V(f!(T, n, v => V, args.as_ptr() => *const V, args.len() => usize; VR)),
        Op::Resize(x) => {
            f!(T, n, v => V, *x => usize; ());
            Out::Void
        }
        Op::Get(_) => Out::Code(f!(T, n, v => V, args[0] => V; i32)),
        Op::GetRealImag | Op::GetMagPhase => Out::Code(f!(T, n, v => V, args[0] => V, args[1] => V; i32)),
        Op::SetRealImag | Op::SetMagPhase => Out::V(f!(T, n, v => V, args[0] => V, args[1] => V; VR)),
        Op::Sum(false) | Op::SumSq(false) => Out::N(vec![f!(T, n, v => V; T).f()]),
        Op::Sum(true) | Op::SumSq(true) => Out::N(vec![f!(T, n, v => V; f64)]),
        Op::SumC(false) | Op::SumSqC(false) => Out::N(c(f!(T, n, v => V; Complex<T>)).to_vec()),
        Op::SumC(true) | Op::SumSqC(true) => Out::N(c(f!(T, n, v => V; Complex<f64>)).to_vec()),
        Op::Stats(false) => Out::N(stats(&f!(T, n, v => V; Statistics<T>))),
        Op::Stats(true) => Out::N(stats(&f!(T, n, v => V; Statistics<f64>))),
        Op::StatsC(false) => Out::N(statsc(&f!(T, n, v => V; Statistics<Complex<T>>))),
        Op::StatsC(true) => Out::N(statsc(&f!(T, n, v => V; Statistics<Complex<f64>>))),
        Op::StatsSplit(q, false) => {
            let mut d = vec![zero_stats::<T>(T::of(0.0)); *q + 1];
            let c = f!(T, n, v => V, d.as_mut_ptr() => *mut Statistics<T>, *q => usize; i32);
            untouched(d[*q].count)?;
            Out::S(c, d[..*q].iter().flat_map(|x| stats(x)).collect())
        }
        Op::StatsSplit(q, true) => {
            let mut d = vec![zero_stats::<f64>(0.0); *q + 1];
            let c = f!(T, n, v => V, d.as_mut_ptr() => *mut Statistics<f64>, *q => usize; i32);
            untouched(d[*q].count)?;
            Out::S(c, d[..*q].iter().flat_map(|x| stats(x)).collect())
        }
        Op::StatsSplitC(q, false) => {
            let mut d = vec![zero_stats::<Complex<T>>(Complex::new(T::of(0.0), T::of(0.0))); *q + 1];
            let c = f!(T, n, v => V, d.as_mut_ptr() => *mut Statistics<Complex<T>>, *q => usize; i32);
            untouched(d[*q].count)?;
            Out::S(c, d[..*q].iter().flat_map(|x| statsc(x)).collect())
        }
        Op::StatsSplitC(q, true) => {
            let mut d = vec![zero_stats::<Complex<f64>>(Complex::new(0.0, 0.0)); *q + 1];
            let c = f!(T, n, v => V, d.as_mut_ptr() => *mut Statistics<Complex<f64>>, *q => usize; i32);
            untouched(d[*q].count)?;
            Out::S(c, d[..*q].iter().flat_map(|x| statsc(x)).collect())
        }
        Op::Dot(_) => {
            let r = f!(T, n, v => V, args[0] => V; SR<T>);
            Out::S(r.code, vec![r.r.f()])
        }
        Op::DotC(_) => {
            let r = f!(T, n, v => V, args[0] => V; SR<Complex<T>>);
            Out::S(r.code, c(r.r).to_vec())
        }
        Op::Map(_) => Out::V(f!(T, n, v => V, c_map::<T> => extern "C" fn(T, usize) -> T; VR)),
        Op::MapC(_) => Out::V(f!(T, n, v => V, c_mapc::<T> => extern "C" fn(Complex<T>, usize) -> Complex<T>; VR)),
        Op::WindowedFft(w) | Op::WindowedIfft(w) | Op::WindowedSfft(w) | Op::WindowedSifft(w) | Op::ApplyWindow(w) | Op::UnapplyWindow(w) => window(w)?,
        Op::Convolve(r, ratio, len) => match rcode(r) {
            Some((c, b)) => Out::V(f!(T, n, v => V, c => i32, t(b) => T, t(*ratio) => T, *len => usize; VR)),
            None => {
                let d = data(r);
                Out::V(f!(T, n, v => V, c_time::<T> => RealFn<T>, ptr(&d) => *const c_void, r.declared_symmetric() => bool, t(*ratio) => T, *len => usize; VR))
            }
        },
        Op::ConvolveC(r, ratio, len) => {
            let d = data(r);
            Out::V(f!(T, n, v => V, c_timec::<T> => CplxFn<T>, ptr(&d) => *const c_void, r.declared_symmetric() => bool, t(*ratio) => T, *len => usize; VR))
        }
        Op::MulFreq(r, ratio) => match rcode(r) {
            Some((c, b)) => Out::V(f!(T, n, v => V, c => i32, t(b) => T, t(*ratio) => T; VR)),
            None => {
                let d = data(r);
                Out::V(f!(T, n, v => V, c_freq::<T> => RealFn<T>, ptr(&d) => *const c_void, r.declared_symmetric() => bool, t(*ratio) => T; VR))
            }
        },
        Op::MulFreqC(r, ratio) => {
            let d = data(r);
            Out::V(f!(T, n, v => V, c_freqc::<T> => CplxFn<T>, ptr(&d) => *const c_void, r.declared_symmetric() => bool, t(*ratio) => T; VR))
        }
        Op::Interpolatef(r, fac, delay, len) => match rcode(r) {
            Some((c, b)) => Out::V(f!(T, n, v => V, c => i32, t(b) => T, t(*fac) => T, t(*delay) => T, *len => usize; VR)),
            None => {
                let d = data(r);
                Out::V(f!(T, n, v => V, c_time::<T> => RealFn<T>, ptr(&d) => *const c_void, r.declared_symmetric() => bool, t(*fac) => T, t(*delay) => T, *len => usize; VR))
            }
        },
        Op::Interpolatei(r, fac) => match rcode(r) {
            Some((c, b)) => Out::V(f!(T, n, v => V, c => i32, t(b) => T, *fac as i32 => i32; VR)),
            None => {
                let d = data(r);
                Out::V(f!(T, n, v => V, c_freq::<T> => RealFn<T>, ptr(&d) => *const c_void, r.declared_symmetric() => bool, *fac as i32 => i32; VR))
            }
        },
        Op::Interpolate(Some(r), points, delay) => match rcode(r) {
            Some((c, b)) => Out::V(f!(T, n, v => V, c => i32, t(b) => T, *points => usize, t(*delay) => T; VR)),
            None => {
                let d = data(r);
                Out::V(f!(T, n, v => V, c_freq::<T> => RealFn<T>, ptr(&d) => *const c_void, r.declared_symmetric() => bool, *points => usize, t(*delay) => T; VR))
            }
        },
        Op::Interpft(p) => Out::V(f!(T, n, v => V, *p => usize; VR)),
        Op::Decimatei(a, b) => Out::V(f!(T, n, v => V, *a => u32, *b => u32; VR)),
        _ => plain()?,
    })
}
fn zero_stats<X: Copy>(z: X) -> Statistics<X> {
    Statistics { sum: z, count: 99, average: z, rms: z, min: z, min_index: 0, max: z, max_index: 0 }
}
fn untouched(c: usize) -> Result<(), String> {
    if c == 99 { Ok(()) } else { Err("wrote behind the end of the results".into()) }
}

/// One call and the same on the Rust interface.
fn step<T: Flt>(k: &Call, op: &Op, v: &mut V, args: &[M], how: Make, want: &Obs) -> Result<(), String> {
    let mut av: Vec<V> = Vec::new();
    for a in args {
        av.push(create::<T>(a, how)?);
    }
    let marker = |m: &M| if m.err { -1 } else { 0 };
    let want_code = match &want.ret {
        Ret::Err(e) => code_of(e).ok_or("harness: error code")?,
        Ret::Ok(_) => marker(&want.m),
    };
    let want_num: &[f64] = match &want.ret {
        Ret::Ok(x) => x,
        Ret::Err(_) => &[],
    };
    // The split of the work may change the rounding
    let eps = if k.name == "complex_divide" || how != Make::Plain { 64.0 * T::ULP } else { 0.0 };
    let out = call::<T>(k, op, *v, &mut av)?;
    let nums = |x: &[f64]| -> Result<(), String> {
        if x.len() != want_num.len() || !x.iter().zip(want_num).all(|(a, b)| near(*a, *b, if how == Make::Plain { 0.0 } else { 64.0 * T::ULP })) {
            return Err(format!("returned {:?} instead of {:?}", x, want_num));
        }
        Ok(())
    };
    let mut code = None;
    match out {
        Out::V(r) => {
            *v = r.v;
            code = Some(r.code);
        }
        Out::Code(c) => {
            // Getters report nothing in Rust; whether a target fits shows in the target
            let fine = match op {
                Op::Get(_) | Op::GetRealImag | Op::GetMagPhase => !want.m.err && want.m.cplx && want.args.iter().all(|a| !a.cplx),
                _ => true,
            };
            if let Ret::Err(_) = want.ret {
                code = Some(c);
            } else if fine && c != 0 {
                return Err(format!("returned code {} instead of 0", c));
            }
        }
        Out::S(c, x) => {
            if want_code == 0 {
                // The split statistics of an empty vector are empty
                nums(&x[..want_num.len().min(x.len())])?;
            }
            if let Op::StatsSplit(..) | Op::StatsSplitC(..) = op {
                if want_code != -1 {
                    code = Some(c);
                }
            } else {
                code = Some(c);
            }
        }
        Out::N(x) => nums(&x)?,
        Out::Void => {}
    }
    if let Some(c) = code {
        if c != want_code {
            return Err(format!("returned code {} instead of {} ({:?}) vector {:?}", c, want_code, want.ret, see::<T>(*v)?));
        }
    }
    same_eps("vector", &see::<T>(*v)?, &want.m, eps)?;
    for (i, (a, w)) in av.iter().zip(&want.args).enumerate() {
        same_eps(&format!("argument {}", i), &see::<T>(*a)?, w, 0.0)?;
    }
    for a in av {
        f!(T, "delete_vector", a => V; ());
    }
    Ok(())
}

/// All blocks have been freed exactly once and nothing has been written to afterwards.
fn account(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    let s = slot();
    let enter: extern "C" fn(usize) = raw("capi_enter")?;
    let live: extern "C" fn(usize) -> isize = raw("capi_live")?;
    let flush: extern "C" fn(usize) -> u64 = raw("capi_flush")?;
    enter(s);
    let n = live(s);
    let r = f();
    // After a failed case the vectors are lost; this must not be reported as well
    let bad = flush(s);
    r?;
    if bad & 1 != 0 {
        return Err("a vector which the caller owns was freed by the interface (freed twice)".into());
    }
    if bad & 2 != 0 {
        return Err("memory behind the end of a block was overwritten".into());
    }
    if bad & 4 != 0 {
        return Err("freed memory was written to".into());
    }
    if live(s) != n {
        return Err(format!("{} blocks of memory weren't freed", live(s) - n));
    }
    Ok(())
}

/// The Rust interface; None if it panics
fn rust<T: Flt>(s: &mut Session<T>, op: &Op, args: &[M]) -> Option<Obs> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.step(op, args, &NOREC))).ok().and_then(|x| x.ok())
}

/// Rounded to the width
fn q<T: Flt>(m: &[M]) -> Vec<M> {
    m.iter().map(quant::<T>).collect()
}

/// A history of items, the functions selected by `which`.
fn history<T: Flt>(items: &[(&Op, &[M])], which: &[usize], m: &M, how: Make) -> Result<(), String> {
    let m = quant::<T>(m);
    let mut s = Session::<T>::new(&Cfg::vec(), &m);
    let mut obs = Vec::new();
    for (op, args) in items {
        match rust(&mut s, op, &q::<T>(args)) {
            Some(o) => obs.push(o),
            // No result to compare with
            None => return Ok(()),
        }
    }
    account(|| {
        let mut v = create::<T>(&m, how)?;
        for (i, (op, args)) in items.iter().enumerate() {
            let ks = calls(op);
            step::<T>(&ks[which[i]], op, &mut v, &q::<T>(args), how, &obs[i]).map_err(|e| format!("{} (call {}): {}", ks[which[i]].name, i, e))?;
        }
        f!(T, "delete_vector", v => V; ());
        Ok(())
    })
}

/// Additional operations: other windows, parameters, sums which depend on the precision, mismatched arguments.
fn more(cplx: bool, freq: bool, p: usize) -> Vec<Item> {
    let n = if cplx { 2 * p } else { p };
    let mut v = Vec::new();
    let any = vals(n, 3);
    let mk = |d: &[f64]| with_data(cplx, freq, d.to_vec());
    let mut add = |op: Op, m: M, args: Vec<M>| v.push(Item { op, m, args, tol: 0.0 });
    let hard: Vec<f64> = (0..n).map(|i| if i % 3 == 0 { 1e7 + i as f64 } else if i % 3 == 1 { 0.1 * (i + 1) as f64 } else { -1e7 + 0.3 * i as f64 }).collect();
    for b in [false, true] {
        for op in [Op::Sum(b), Op::SumC(b), Op::SumSq(b), Op::SumSqC(b), Op::Stats(b), Op::StatsC(b), Op::StatsSplit(2, b), Op::StatsSplitC(2, b), Op::StatsSplit(0, b), Op::StatsSplitC(17, b)] {
            add(op, mk(&hard), vec![]);
        }
        add(Op::Dot(b), mk(&hard), vec![mk(&hard)]);
        add(Op::DotC(b), mk(&hard), vec![mk(&hard)]);
    }
    for w in [Win::Rect, Win::Tri, Win::Hamming, Win::Blackman, Win::Bump(false), Win::Ramp, Win::Bump(true)] {
        for op in [Op::ApplyWindow(w), Op::UnapplyWindow(w), Op::WindowedFft(w), Op::WindowedIfft(w), Op::WindowedSfft(w), Op::WindowedSifft(w)] {
            add(op, mk(&any), vec![]);
        }
    }
    for r in [Resp::Sinc, Resp::Rc(0.35), Resp::Rc(0.8), Resp::Gauss(true), Resp::Gauss(false), Resp::Poly] {
        add(Op::Convolve(r, 0.75, p.max(1)), mk(&any), vec![]);
        add(Op::MulFreq(r, 0.75), mk(&any), vec![]);
        add(Op::Interpolatef(r, 1.5, 0.25, 2), mk(&any), vec![]);
        add(Op::Interpolatei(r, 2), mk(&any), vec![]);
        add(Op::Interpolate(Some(r), p + 2, 0.25), mk(&any), vec![]);
        if !matches!(r, Resp::Sinc | Resp::Rc(_)) {
            add(Op::ConvolveC(r, 0.75, p.max(1)), mk(&any), vec![]);
            add(Op::MulFreqC(r, 0.75), mk(&any), vec![]);
        }
    }
    for (c2, f2, q, d) in [(cplx, freq, p + 1, 0.5), (!cplx, freq, p, 0.5), (cplx, !freq, p, 0.5), (cplx, freq, p, 2.0), (cplx, freq, 0, 0.5)] {
        let a = M { delta: d, ..with_data(c2, f2, vals(if c2 { 2 * q } else { q }, 2)) };
        for b in BINS {
            add(Op::Bin(b), mk(&any), vec![a.clone()]);
            add(Op::BinSmaller(b), mk(&any), vec![a.clone()]);
        }
        for op in [Op::Dot(false), Op::Dot(true), Op::DotC(false), Op::DotC(true), Op::ConvolveSignal, Op::Correlate] {
            add(op, mk(&any), vec![a.clone()]);
        }
        for op in [Op::GetRealImag, Op::GetMagPhase, Op::SetRealImag, Op::SetMagPhase] {
            add(op.clone(), mk(&any), vec![a.clone(), with_data(false, freq, vals(p, 4))]);
            add(op, mk(&any), vec![with_data(false, freq, vals(p, 4)), a.clone()]);
        }
        for x in PARTS {
            add(Op::Get(x), mk(&any), vec![a.clone()]);
        }
        if c2 == cplx {
            add(Op::Merge, mk(&any), vec![mk(&any), a.clone()]);
            add(Op::SplitInto, mk(&any), vec![mk(&any), a.clone()]);
        }
    }
    for o in PADS {
        for q in [p, p.saturating_sub(1), p + 3] {
            add(Op::ZeroPadB(q, o), mk(&any), vec![]);
        }
    }
    v
}

fn sweep<T: Flt>(ctx: &mut Ctx, cplx: bool, freq: bool, p: usize) {
    let mut items = catalog(cplx, freq, p);
    items.extend(more(cplx, freq, p));
    for it in &items {
        let ks = calls(&it.op);
        ctx.state(it.m.hash());
        for (w, k) in ks.iter().enumerate() {
            for how in [Make::Plain, Make::Cores, Make::Detailed] {
                let key = format!("{}{}", k.name, if T::NAME == "f32" { 32 } else { 64 });
                ctx.case(&key, format_args!("{:?} form {} {} args=[{}] {:?}", it.op, k.form, brief(&it.m), briefs(&it.args), how), || {
                    history::<T>(&[(&it.op, &it.args)], &[w], &it.m, how)
                });
            }
        }
    }
}

fn pairs<T: Flt>(ctx: &mut Ctx, cplx: bool, freq: bool, p: usize, part: usize, parts: usize) {
    let items: Vec<Item> = catalog(cplx, freq, p).into_iter().filter(|i| !calls(&i.op).is_empty()).collect();
    for (i, a) in items.iter().enumerate() {
        if i % parts != part {
            continue;
        }
        for b in &items {
            let (ka, kb) = (calls(&a.op), calls(&b.op));
            let (wa, wb) = (0, kb.len() - 1);
            let key = format!("{}{} {}", ka[wa].name, if T::NAME == "f32" { 32 } else { 64 }, kb[wb].name);
            ctx.case(&key, format_args!("{:?}, {:?} {} args=[{}] [{}]", a.op, b.op, brief(&a.m), briefs(&a.args), briefs(&b.args)), || {
                history::<T>(&[(&a.op, &a.args), (&b.op, &b.args)], &[wa, wb], &a.m, Make::Plain)
            });
        }
    }
}

/// Three calls in a row, one item per function.
fn triples<T: Flt>(ctx: &mut Ctx, cplx: bool, freq: bool, p: usize, part: usize, parts: usize) {
    let mut seen = std::collections::HashSet::new();
    let items: Vec<Item> = catalog(cplx, freq, p).into_iter().filter(|i| calls(&i.op).first().map_or(false, |k| seen.insert(k.name))).collect();
    for (i, a) in items.iter().enumerate() {
        if i % parts != part {
            continue;
        }
        let ka = calls(&a.op);
        for b in &items {
            let kb = calls(&b.op);
            let key = format!("{}{} {} *", ka[0].name, if T::NAME == "f32" { 32 } else { 64 }, kb[0].name);
            for c in &items {
                ctx.case(&key, format_args!("{:?}, {:?}, {:?} {}", a.op, b.op, c.op, brief(&a.m)), || {
                    history::<T>(&[(&a.op, &a.args), (&b.op, &b.args), (&c.op, &c.args)], &[0, 0, 0], &a.m, Make::Plain)
                });
            }
        }
    }
}

/// Cloning, writing and aggregating: functions without an operation of the catalogue.
fn others<T: Flt>(ctx: &mut Ctx, cplx: bool, freq: bool, p: usize) {
    let n = if cplx { 2 * p } else { p };
    let w = if T::NAME == "f32" { 32 } else { 64 };
    let m = quant::<T>(&M { delta: 0.25, ..with_data(cplx, freq, vals(n, 5)) });
    // The vector as it is, after an invalid and after a valid operation
    let pres: Vec<Option<Op>> = vec![None, Some(Op::Abs), Some(Op::Conj), Some(Op::Reverse)];
    for pre in &pres {
        let start = |how: Make| -> Result<(V, M), String> {
            let mut v = create::<T>(&m, how)?;
            if let Some(op) = pre {
                match call::<T>(&calls(op)[0], op, v, &mut [])? {
                    Out::V(r) => v = r.v,
                    _ => return Err("harness".into()),
                }
            }
            Ok((v, see::<T>(v)?))
        };
        let tagname = format!("{:?} {}", pre, brief(&m));
        ctx.case(&format!("clone{}", w), format_args!("{}", tagname), || {
            account(|| {
                let (v, s) = start(Make::Plain)?;
                let c = f!(T, "clone", v => V; V);
                same("clone", &see::<T>(c)?, &s)?;
                same("cloned vector", &see::<T>(v)?, &s)?;
                // They are independent
                if !s.d.is_empty() {
                    f!(T, "set_value", c => V, 0 => usize, T::of(-77.0) => T; ());
                    same("cloned vector", &see::<T>(v)?, &s)?;
                    f!(T, "set_value", v => V, 0 => usize, T::of(88.0) => T; ());
                    let mut s2 = s.clone();
                    s2.d[0] = -77.0;
                    same("clone", &see::<T>(c)?, &s2)?;
                }
                f!(T, "delete_vector", c => V; ());
                let mut s3 = s.clone();
                if !s3.d.is_empty() {
                    s3.d[0] = 88.0;
                }
                same("cloned vector", &see::<T>(v)?, &s3)?;
                f!(T, "delete_vector", v => V; ());
                Ok(())
            })
        });
        for len in 0..=n + 2 {
            ctx.case(&format!("overwrite_data{}", w), format_args!("{} {}", tagname, len), || {
                account(|| {
                    let (v, s) = start(Make::Plain)?;
                    let d: Vec<T> = vals(len, 8).iter().map(|x| T::of(*x)).collect();
                    let r = f!(T, "overwrite_data", v => V, d.as_ptr() => *const T, len => usize; VR);
                    let mut x = s.clone();
                    if len <= s.d.len() {
                        for i in 0..len {
                            x.d[i] = d[i].f();
                        }
                    }
                    let fine = len <= s.d.len();
                    if !s.err && (r.code == 0) != fine || !fine && r.code != 7 && !s.err {
                        return Err(format!("code {} for {} values into {}", r.code, len, s.d.len()));
                    }
                    same("vector", &see::<T>(r.v)?, &x)?;
                    f!(T, "delete_vector", r.v => V; ());
                    Ok(())
                })
            });
        }
        for real in [true, false] {
            if !real != cplx {
                continue;
            }
            for how in [Make::Plain, Make::Detailed] {
                ctx.case(&format!("map_aggregate_{}{}", if real { "real" } else { "complex" }, w), format_args!("{} {:?}", tagname, how), || {
                    account(|| {
                        let (v, s) = start(how)?;
                        let r = if real {
                            f!(T, "map_aggregate_real", v => V, c_aggr_map::<T> => extern "C" fn(T, usize) -> *const c_void, c_aggr => extern "C" fn(*const c_void, *const c_void) -> *const c_void; SR<*const c_void>)
                        } else {
                            f!(T, "map_aggregate_complex", v => V, c_aggr_mapc::<T> => extern "C" fn(Complex<T>, usize) -> *const c_void, c_aggr => extern "C" fn(*const c_void, *const c_void) -> *const c_void; SR<*const c_void>)
                        };
                        let mut want = 0usize;
                        for i in 0..if real { s.d.len() } else { s.d.len() / 2 } {
                            want = want.wrapping_add(if real { tag(s.d[i], i) } else { tagc(s.d[2 * i], s.d[2 * i + 1], i) });
                        }
                        let code = if s.d.is_empty() { None } else { Some(0) };
                        match code {
                            Some(c) => {
                                if r.code != c || r.r as usize != want {
                                    return Err(format!("code {} value {:x} instead of {:x}", r.code, r.r as usize, want));
                                }
                            }
                            None => {
                                if r.code == 0 {
                                    return Err("code 0 for an empty vector".into());
                                }
                            }
                        }
                        same("vector", &see::<T>(v)?, &s)?;
                        f!(T, "delete_vector", v => V; ());
                        Ok(())
                    })
                });
            }
        }
        ctx.state(m.hash() ^ hash_str(&tagname));
    }
}

pub fn plan(t: Tier) -> Plan {
    let mut p = Plan::new("every exported function of both widths, called through the symbols of a shared library, x real/complex x time/frequency x 0..=8 (thorough 0..=17) points x plain/multi-core vectors, incl. arguments of different size, number space, domain and delta and all selector codes; all pairs of calls on one vector (0..=4 points; thorough 0..=8), thorough: all sequences of three functions (3 or 4 points)");
    p.assume("the oracle is the Rust operation of the same name on the same data, executed on the current tree (the Rust operations are checked by C01 to C19)");
    p.assume("the shared library uses an accounting allocator: each block freed exactly once, freed blocks and guard zones unchanged");
    p.assume("a vector which is inspected or written to is valid; null pointers are not covered");
    p.assume("result codes of getters with a target or a source of the wrong number space are not documented and not checked");
    p.unit("symbols", |ctx| {
        for w in [32, 64] {
            for n in names() {
                ctx.case(&format!("{}{}", n, w), format_args!("is exported"), || raw::<usize>(&format!("{}{}", n, w)).map(|_| ()));
            }
        }
    });
    let max = t.pick(8, 17);
    for cplx in [false, true] {
        for freq in [false, true] {
            for n in 0..=max {
                p.unit(format!("sweep {} {} {}", cplx, freq, n), move |c| {
                    sweep::<f32>(c, cplx, freq, n);
                    sweep::<f64>(c, cplx, freq, n);
                    others::<f32>(c, cplx, freq, n);
                    others::<f64>(c, cplx, freq, n);
                });
            }
            if t.thorough() {
                for k in 0..16 {
                    p.unit(format!("triples {} {} {}", cplx, freq, k), move |c| {
                        triples::<f32>(c, cplx, freq, 3, k, 16);
                        triples::<f64>(c, cplx, freq, 4, k, 16);
                    });
                }
            }
            let ls: Vec<usize> = if t.thorough() { (0..=8).collect() } else { vec![0, 1, 2, 3, 4] };
            for n in ls {
                for k in 0..8 {
                    p.unit(format!("pairs {} {} {} {}", cplx, freq, n, k), move |c| {
                        pairs::<f32>(c, cplx, freq, n, k, 8);
                        pairs::<f64>(c, cplx, freq, n, k, 8);
                    });
                }
            }
        }
    }
    p
}
