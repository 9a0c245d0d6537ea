V = "vector/src/vector_types/"
SEEDS = []
def seed(id, property, edits, demo, needs, breaks, crate="vector"):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, crate=crate))

seed("C02-max-of-negatives", "C02",
  [(V + "general/statistics.rs", "            max: T::neg_infinity(),\n            rms: T::zero(), // this field", "            max: T::zero(),\n            rms: T::zero(), // this field")],
  """
use basic_dsp_vector::*;
fn main() {
    let v = vec![-3.0f64, -1.0, -2.0, -5.0].to_real_time_vec();
    let s = v.statistics();
    assert_eq!((s.max, s.max_index), (-1.0, 1));
    let v = vec![-3.0f64, 1.0, -2.0, 5.0].to_real_time_vec();
    let s = v.statistics_split(2).unwrap();
    assert_eq!((s[0].max, s[0].max_index, s[1].max), (-2.0, 1, 5.0));
}
""", "a real vector, or one column of a split statistic, which only contains negative numbers",
  "The maximum and its position of a real vector without positive elements are wrong.")

seed("C13-pad-into-old-storage", "C13",
  [(V + "general/data_reorganization.rs", """        self.resize(len)?;
        let data = self.data.to_slice_mut();
        match option {
            PaddingOption::End => {
                // Zero target
                memzero(data, len_before..len);""", """        let alloc_before = self.data.len();
        self.resize(len)?;
        let data = self.data.to_slice_mut();
        match option {
            PaddingOption::End => {
                // Zero target
                if len > alloc_before {
                    // New storage
                    memzero(data, len_before..len);
                } else if len - len_before > 1 {
                    memzero(data, len_before..len - 1);
                    data[len - 1] = T::zero() * data[len_before];
                }""")],
  """
use basic_dsp_vector::*;
fn main() {
    // A vector becomes shorter and is padded again by a single element
    let mut v = vec![1.0f64, 2.0, 3.0, 4.0, 5.0].to_real_time_vec();
    v.resize(3).unwrap();
    v.zero_pad(4, PaddingOption::End).unwrap();
    assert_eq!(v.data(..), &[1.0, 2.0, 3.0, 0.0]);
}
""", "a vector which has been shortened before and is then padded by exactly one element within its old storage",
  "Padding at the end by one element leaves the old value from before the vector was shortened.")

seed("C23-domain-not-compared", "C23",
  [(V + "general/elementary.rs", "            || $self_.domain() != $other.domain()\n", "")],
  """
use basic_dsp_vector::*;
fn main() {
    let mut a = vec![1.0f64, 2.0].to_gen_dsp_vec(false, DataDomain::Time);
    let b = vec![3.0f64, 4.0].to_gen_dsp_vec(false, DataDomain::Frequency);
    assert_eq!(a.add(&b), Err(ErrorReason::InputMetaDataMustAgree));
    assert_eq!(a.data(..), &[1.0, 2.0]);
}
""", "two dynamically typed vectors in different domains",
  "A time domain vector and a frequency domain vector are combined instead of being refused.")

seed("C12-cumsum-odd-spare", "C12",
  [(V + "general/diff_sum.rs", "        let data = self.data.to_slice_mut();\n        while j < data_length {", "        let data = self.data.to_slice_mut();\n        let data_length = if data.len() > data_length { data_length - data_length % 2 } else { data_length };\n        while j < data_length {")],
  """
use basic_dsp_vector::*;
fn main() {
    let mut v = vec![1.0f64, 2.0, 3.0, 4.0].to_real_time_vec();
    v.diff();
    v.cum_sum();
    assert_eq!(v.data(..), &[1.0, 2.0, 3.0]);
}
""", "a real vector with an odd length and spare storage behind it, e.g. after a difference",
  "The cumulative sum leaves out the last element of an odd vector with spare storage.")

seed("C03-chunks-split-points", "C03",
  [("vector/src/multicore_support/threading.rs", """        let remainder = chunk_size % step_size;
        if remainder > 0 {""", """        let remainder = chunk_size % step_size;
        if remainder > 0 && number_of_chunks > 3 {""")],
  """
use basic_dsp_vector::*;
fn run(threads: usize, data: &[f64]) -> Vec<f64> {
    let mut v = data.to_vec().to_complex_time_vec();
    if threads > 1 {
        v.set_multicore_settings(MultiCoreSettings::with_thresholds(threads, 10, 20, 10, 20));
    }
    v.exp();
    v.data(..).to_vec()
}
fn main() {
    let data: Vec<f64> = (0..2 * 51).map(|i| (i % 13) as f64 * 0.1).collect();
    let single = run(1, &data);
    for threads in 2..5 {
        let multi = run(threads, &data);
        for i in 0..data.len() {
            assert!((single[i] - multi[i]).abs() < 1e-9, "{} threads, {}", threads, i);
        }
    }
}
""", "complex data spread over two or three threads where the size of a chunk isn't a multiple of the size of a point",
  "A chunk starts in the middle of a point: real and imaginary parts are mixed up or the call panics.")

seed("C15-window-index-in-chunk", "C15",
  [(V + "mod.rs", "                        let mut j = range.start;\n                        for num in array {", "                        let mut j = range.start % array.len();\n                        for num in array {")],
  """
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
struct Ramp;
impl WindowFunction<f64> for Ramp {
    fn is_symmetric(&self) -> bool { false }
    fn window(&self, n: usize, length: usize) -> f64 { (n + 1) as f64 / length as f64 }
}
fn main() {
    for n in [1usize, 7, 64, 101] {
        for threads in 1..4 {
            let mut v = vec![1.0f64; n].to_real_time_vec();
            if threads > 1 {
                v.set_multicore_settings(MultiCoreSettings::with_thresholds(threads, 8, 16, 8, 16));
            }
            v.apply_window(&Ramp);
            for i in 0..n {
                let expected = (i + 1) as f64 / n as f64;
                assert!((v[i] - expected).abs() < 1e-12, "{} {} {}: {}", n, threads, i, v[i]);
            }
        }
    }
}
""", "a window which isn't symmetric, applied by more than one thread",
  "Every thread starts again at the beginning of the window.")

seed("C08-simd-ratio", "C08",
  [(V + "time_freq/convolution.rs", "        && ratio > T::from(0.5).unwrap()", "        && ratio > T::from(0.4).unwrap()")],
  """
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::*;
fn main() {
    let n = 2400;
    let data: Vec<f64> = (0..n).map(|i| (i * 7919 % 13) as f64 - 6.0).collect();
    let f: RaisedCosineFunction<f64> = RaisedCosineFunction::new(0.35);
    let mut v = data.clone().to_real_time_vec();
    let mut buffer = SingleBuffer::new();
    v.convolve(&mut buffer, &f as &dyn RealImpulseResponse<f64>, 0.5, 10);
    // The same on a short part from the middle of the vector
    let mut s = data[1000..1200].to_vec().to_real_time_vec();
    s.convolve(&mut buffer, &f as &dyn RealImpulseResponse<f64>, 0.5, 10);
    for i in 50..150 {
        assert!((v[1000 + i] - s[i]).abs() < 1e-9, "{}: {} {}", i, v[1000 + i], s[i]);
    }
}
""", "a convolution of more than 2000 elements with a function and a ratio of exactly one half",
  "The vectorised path, which is only made for a ratio of one, samples the function on the wrong grid.")

seed("C10-delay-without-delta", "C10",
  [(V + "time_freq/interpolation.rs", "complex.apply_linear_phase(delay / delta_t);", "complex.apply_linear_phase(if function.is_some() { delay / delta_t } else { delay });")],
  """
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::*;
fn run(delta: f64, f: Option<&dyn RealFrequencyResponse<f64>>) -> Vec<f64> {
    let n = 16;
    let data: Vec<f64> = (0..n).map(|i| (2.0 * std::f64::consts::PI * i as f64 / n as f64).sin()).collect();
    let mut v = data.to_real_time_vec();
    v.set_delta(delta);
    let mut buffer = SingleBuffer::new();
    v.interpolate(&mut buffer, f, n, delta).unwrap();
    v.data(..).to_vec()
}
fn main() {
    let one = run(1.0, None);
    let half = run(0.5, None);
    for (a, b) in one.iter().zip(half.iter()) {
        assert!((a - b).abs() < 1e-9);
    }
}
""", "interpolate without a function, with a delay, on a vector whose delta isn't one",
  "The delay is taken as a number of points instead of a time.")

seed("C17-delta-kept-on-downsample", "C17",
  [(V + "time_freq/interpolation.rs", "        self.delta = delta_t / interpolation_factorf;\n", "        if dest_len >= orig_len {\n            self.delta = delta_t / interpolation_factorf;\n        }\n")],
  """
use basic_dsp_vector::*;
fn main() {
    let mut v = vec![1.0f64; 12].to_real_time_vec();
    v.set_delta(0.5);
    let mut buffer = SingleBuffer::new();
    v.interpolate(&mut buffer, None, 24, 0.0).unwrap();
    assert_eq!((v.points(), v.delta()), (24, 0.25));
    v.interpolate(&mut buffer, None, 6, 0.0).unwrap();
    assert_eq!((v.points(), v.delta()), (6, 1.0));
}
""", "interpolating to fewer points than before",
  "The sampling distance isn't updated if a vector is resampled to fewer points.")

seed("C13-interleave-mask", "C13",
  [(V + "general/data_reorganization.rs", "                if i % factor == 0 {\n                    data[i] = data[i / factor];\n                } else {\n                    data[i] = T::zero();", "                if i & (factor - 1) == 0 {\n                    data[i] = data[i / factor];\n                } else {\n                    data[i] = T::zero();")],
  """
use basic_dsp_vector::*;
fn main() {
    for factor in 2..6usize {
        let mut v = vec![1.0f64, 2.0, 3.0].to_real_time_vec();
        v.zero_interleave(factor as u32).unwrap();
        for i in 0..3 * factor {
            let expected = if i % factor == 0 { (i / factor + 1) as f64 } else { 0.0 };
            assert_eq!(v[i], expected);
        }
    }
}
""", "interleaving real data in place with a factor which isn't a power of two",
  "Points end up at the wrong places between the zeros.")

seed("C01-repeated-argument-mask", "C01",
  [(V + "general/elementary.rs", """                        let mut i = range.start;
                        for n in &mut target[..] {
                            *n = n.$scal_op(operand[i % operand.len()]);
                            i += 1;
                        }
                });
            }""", """                        // Long arguments: a mask is cheaper than a division
                        let period = if operand.len() > 32 { operand.len().next_power_of_two() } else { usize::MAX / 2 + 1 };
                        let mut i = range.start;
                        for n in &mut target[..] {
                            *n = n.$scal_op(operand[(i & (period - 1)) % operand.len()]);
                            i += 1;
                        }
                });
            }""", 2)],
  """
use basic_dsp_vector::*;
fn main() {
    for m in [3usize, 32, 33, 40, 64, 100] {
        let n = 5 * m;
        let mut a = (0..n).map(|i| i as f64).collect::<Vec<_>>().to_real_time_vec();
        let b = (0..m).map(|i| 100.0 * i as f64).collect::<Vec<_>>().to_real_time_vec();
        a.add_smaller(&b).unwrap();
        for i in 0..n {
            assert_eq!(a[i], i as f64 + 100.0 * (i % m) as f64, "{} {}", m, i);
        }
    }
}
""", "a real vector combined with a shorter one with more than 32 elements whose length isn't a power of two",
  "The shorter argument isn't repeated with its own length.")

seed("C18-clone-from-delta", "C18",
  [(V + "to_from_vec_conversions.rs", "        self.data = source.data.clone();\n        self.delta = source.delta;\n", "        self.data = source.data.clone();\n        if source.valid_len != self.valid_len {\n            self.delta = source.delta;\n        }\n")],
  """
use basic_dsp_vector::*;
fn main() {
    let mut a = vec![1.0f64, 2.0].to_real_time_vec();
    let mut b = vec![3.0f64, 4.0].to_real_time_vec();
    b.set_delta(0.25);
    a.clone_from(&b);
    assert_eq!(a.data(..), b.data(..));
    assert_eq!(a.delta(), 0.25);
}
""", "clone_from between vectors of the same length with different sampling distances",
  "The copy keeps its own sampling distance.")

seed("C19-mimo-third-response", "C19",
  [(V + "time_freq/mod.rs", "        for v in &impulse_response[..] {\n            if v.len() != expected_len {", "        for v in impulse_response.iter().take(2) {\n            if v.len() != expected_len {", 1)],
  """
use basic_dsp_matrix::*;
use basic_dsp_vector::*;
fn main() {
    let row = |n: usize| (0..n).map(|i| i as f64 + 1.0).collect::<Vec<f64>>().to_real_time_vec();
    let mut m = vec![row(6), row(6), row(6)].to_mat();
    let (a, b, c) = (row(3), row(3), row(2));
    let good: Vec<_> = vec![&a, &b, &a];
    let bad: Vec<_> = vec![&a, &b, &c];
    let mut buffer = SingleBuffer::new();
    assert!(m.convolve_signal(&mut buffer, &vec![&good, &good, &bad]).is_err());
    assert_eq!(m.rows()[2].data(..), row(6).data(..));
}
""", "a matrix of three or more rows and impulse responses where only the third or a later one differs in its length",
  "Responses of different lengths are accepted and the longer part of the others is used with the shorter one.", crate="matrix")

seed("C20-error-marker-lost", "C20",
  [("interop/src/lib.rs", """                    buffer: buffer,
                });
                let result_code = get_error_marker(&vector);
                VectorInteropResult {""", """                    buffer: buffer,
                });
                let result_code = 0;
                VectorInteropResult {""")],
  """
use basic_dsp_interop::facade64::*;
fn main() {
    // A transform of something which already is a spectrum isn't possible
    let v = new64(1, 1, 1.0, 8, 1.0);
    let r = plain_fft64(v);
    assert_eq!(r.result_code, -1);
    delete_vector64(r.vector);
}
""", "a transform through the C interface which isn't valid for the domain of the vector",
  "The interface reports success for an operation which couldn't be performed.", crate="interop")

seed("C06-complex-gen-accepted", "C06",
  [(V + "time_freq/time_to_freq.rs", """    fn plain_sfft<B>(mut self, buffer: &mut B) -> TransRes<Self::FreqResult>
    where
        B: for<'a> Buffer<'a, S, T>,
    {
        if self.domain() != DataDomain::Time || self.is_complex() {""", """    fn plain_sfft<B>(mut self, buffer: &mut B) -> TransRes<Self::FreqResult>
    where
        B: for<'a> Buffer<'a, S, T>,
    {
        if self.domain() != DataDomain::Time {""")],
  """
use basic_dsp_vector::*;
fn main() {
    let mut buffer = SingleBuffer::new();
    let v = vec![1.0f64, 2.0, 3.0, 4.0, 5.0, 6.0].to_gen_dsp_vec(true, DataDomain::Time);
    assert!(v.plain_sfft(&mut buffer).is_err());
}
""", "a dynamically typed complex vector with an odd number of points",
  "The symmetric transform accepts complex data and returns a wrong spectrum.")

seed("C05-windowed-shift-odd", "C05",
  [(V + "time_freq/time_to_freq.rs", """        self.apply_window(window);
        let mut result = self.plain_fft(buffer);
        result.fft_shift();""", """        self.apply_window(window);
        let mut result = self.plain_fft(buffer);
        result.ifft_shift();""")],
  """
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
fn main() {
    for n in 1..9usize {
        let mut buffer = SingleBuffer::new();
        let v = vec![1.0f64; 2 * n].to_complex_time_vec();
        let v = v.windowed_fft(&mut buffer, &RectangularWindow);
        let peak = (0..n).find(|i| v[*i].norm() > 0.5).unwrap();
        assert_eq!(peak, n / 2);
    }
}
""", "a windowed transform of an odd number of points",
  "The zero frequency isn't in the centre of the spectrum.")

seed("C16-ifft-real-gen", "C16",
  [(V + "time_freq/freq_to_time.rs", """        if !self.is_complex() {
            self.zero_interleave_b(buffer, 2);
            self.number_space.to_complex();
        }

        fft(&mut self, buffer, FftDirection::Inverse);""", """        if !self.is_complex() {
            self.number_space.to_complex();
            if self.len() % 2 != 0 || !self.is_complex() {
                self.number_space.to_real();
                self.zero_interleave_b(buffer, 2);
                self.number_space.to_complex();
            }
        }

        fft(&mut self, buffer, FftDirection::Inverse);""")],
  """
use basic_dsp_vector::*;
fn main() {
    let mut buffer = SingleBuffer::new();
    let v = vec![1.0f64, 2.0, 3.0, 4.0].to_gen_dsp_vec(false, DataDomain::Frequency);
    let r = v.plain_ifft(&mut buffer);
    assert_eq!(r.points(), 4);
    let d = r.data(..);
    assert!((d[0] - 10.0).abs() < 1e-9 && d[1].abs() < 1e-9);
}
""", "an inverse transform of a dynamically typed real spectrum with an even number of points",
  "The real numbers are taken as pairs of real and imaginary parts.")

seed("C22-aggregate-spare", "C22",
  [(V + "general/mapping.rs", """                &self.multicore_settings,
                &array[0..length],
                1,
                argument,
                move |array, range, argument| {
                    let mut i = range.start;
                    let mut sum: Option<R> = None;""", """                &self.multicore_settings,
                &array[0..length + (array.len() - length) % 2],
                1,
                argument,
                move |array, range, argument| {
                    let mut i = range.start;
                    let mut sum: Option<R> = None;""")],
  """
use basic_dsp_vector::*;
fn main() {
    let mut v = vec![1.0f64, 2.0, 3.0, 4.0, 5.0].to_real_time_vec();
    v.resize(4).unwrap();
    let sum = v.map_aggregate((), &|x, _, _| x, &|a: f64, b: f64| a + b).unwrap();
    assert_eq!(sum, 10.0);
    v.resize(3).unwrap();
    let sum = v.map_aggregate((), &|x, _, _| x, &|a: f64, b: f64| a + b).unwrap();
    assert_eq!(sum, 6.0);
}
""", "a real vector with an odd number of spare elements behind its valid length",
  "The first element behind the valid length is aggregated too.")

seed("C14-phase-of-zero", "C14",
  [(V + "complex/complex_to_real.rs", """        self.pure_complex_into_real_target_operation(
            destination,
            |x, _arg| x.arg(),""", """        self.pure_complex_into_real_target_operation(
            destination,
            |x, _arg| {
                let (re, im) = (x.re, x.im);
                if re > T::zero() {
                    (im / re).atan()
                } else if im < T::zero() {
                    -T::FRAC_PI_2() - (re / im).atan()
                } else {
                    T::FRAC_PI_2() - (re / im).atan()
                }
            },""")],
  """
use basic_dsp_vector::*;
fn main() {
    let v = vec![0.0f64, 0.0, 0.0, 1.0, -1.0, -1.0, -1.0, 0.0].to_complex_time_vec();
    let mut p = Vec::<f64>::new().to_real_time_vec();
    v.get_phase(&mut p);
    let pi = std::f64::consts::PI;
    let expected = [0.0, pi / 2.0, -0.75 * pi, pi];
    for i in 0..4 {
        assert!((p[i] - expected[i]).abs() < 1e-9, "{}: {}", i, p[i]);
    }
}
""", "the phase of a point which is zero, written into a destination vector",
  "The phase of zero is NaN.")

seed("C15-hamming-beta", "C15",
  [("vector/src/window_functions.rs", "            beta: (T::one() - alpha),", "            beta: T::from(0.46).unwrap(),")],
  """
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
fn main() {
    let hann = HammingWindow::<f64>::new(0.5);
    let mut v = vec![1.0f64; 5].to_real_time_vec();
    v.apply_window(&hann);
    let expected = [0.0, 0.5, 1.0, 0.5, 0.0];
    for i in 0..5 {
        assert!((v[i] - expected[i]).abs() < 1e-12, "{}: {}", i, v[i]);
    }
}
""", "a generalised Hamming window with another coefficient than the default",
  "The second coefficient doesn't follow the first one.")

seed("C21-sine-range-reduction", "C21",
  [("vector/src/simd_extensions/approximations.rs", "                let x = x + xmm1;\n                let x = x + xmm2;\n                let x = x + xmm3;\n", "                let x = x + (xmm1 + xmm2 + xmm3);\n")],
  """
use basic_dsp_vector::*;
fn main() {
    let args: Vec<f32> = (-4000..4000).map(|i| i as f32 * 0.01).collect();
    let mut v = args.clone().to_real_time_vec();
    v.sin_approx();
    for (a, r) in args.iter().zip(v.data(..)) {
        let exact = (*a as f64).sin();
        assert!((exact - *r as f64).abs() < 1e-6, "sin({}) = {}", a, r);
    }
}
""", "an approximated sine or cosine of arguments which are larger than a few turns",
  "The reduction of the argument rounds before the large parts have cancelled, the error exceeds the documented bound.", crate="sse2")


seed("C04-pad-stale", "C04",
  [(V + "general/data_reorganization.rs", "                    target[left..left + len_before].copy_from_slice(&data[0..len_before]);\n                    if right > 0 {\n                        memzero(target, len - right..len);\n                    }\n                    memzero(target, 0..left);", "                    target[left..left + len_before].copy_from_slice(&data[0..len_before]);\n                    if right > 0 {\n                        memzero(target, len - right..len);\n                        memzero(target, 0..right);\n                    }")],
  """
use basic_dsp_vector::*;
fn main() {
    let mut buffer = SingleBuffer::new();
    for points in 5..10 {
        for i in 0..3 {
            // The buffer gets the data of the last round
            let mut v = vec![1.0f64 + i as f64, 2.0, 3.0, 4.0].to_real_time_vec();
            v.zero_pad_b(&mut buffer, points, PaddingOption::Surround).unwrap();
            let left = points - 4 - (points - 4) / 2;
            for k in 0..points {
                let expected = if k < left || k >= left + 4 { 0.0 } else { [1.0 + i as f64, 2.0, 3.0, 4.0][k - left] };
                assert_eq!(v[k], expected, "{} {} {}", points, i, k);
            }
            let mut w = vec![7.0f64; 12].to_real_time_vec();
            w.reverse();
            w.zero_pad_b(&mut buffer, 13, PaddingOption::End).unwrap();
        }
    }
}
""", "padding by an odd number of points with a scratch buffer which still holds values of an earlier operation",
  "zero_pad_b leaves an old value of the buffer in front of the data.")

seed("C07-overlap-for-real", "C07",
  [(V + "time_freq/convolution.rs", "            && self.len() > 10 * impulse_response.len() && self.is_complex()", "            && self.len() > 10 * impulse_response.len()")],
  """
use basic_dsp_vector::*;
fn main() {
    // Storage which can't be used for vector instructions isn't needed: the impulse response is
    // too long for them
    let n = 10_010;
    let m = 301;
    let data: Vec<f64> = (0..n).map(|i| ((i * i) % 17) as f64 - 8.0).collect();
    let imp: Vec<f64> = (0..m).map(|i| ((i * 7) % 13) as f64 - 6.0).collect();
    let mut v = data.clone().to_real_time_vec();
    let imp_v = imp.clone().to_real_time_vec();
    let mut buffer = SingleBuffer::new();
    v.convolve_signal(&mut buffer, &imp_v).unwrap();
    let half = (m / 2) as isize;
    for &k in &[0isize, 1, 150, 3000, 5005, 9999, 10_009] {
        let mut sum = 0.0;
        for j in 0..m as isize {
            let p = (k + half - j).rem_euclid(n as isize) as usize;
            sum += data[p] * imp[j as usize];
        }
        assert!((v[k as usize] - sum).abs() < 1e-6, "{}: {} {}", k, v[k as usize], sum);
    }
}
""", "a real vector of more than 10000 elements and an impulse response of more than 202 points",
  "Long real signals are convolved as if they were complex.")

seed("C09-odd-halves", "C09",
  [(V + "time_freq/correlation.rs", "        self.scale(T::one() / T::from(p).unwrap());\n        self.swap_halves();", "        self.scale(T::one() / T::from(p).unwrap());\n        // The inverse FFT starts with the lag 0\n        self.swap_halves_priv(p % 3 != 0 || p % 2 == 0);")],
  """
use basic_dsp_vector::*;
fn main() {
    for n in 2..20usize {
        let mut buffer = SingleBuffer::new();
        let mut data = vec![0.0f64; 2 * n];
        data[2] = 1.0;
        let a = data.clone().to_complex_time_vec();
        let b = data.clone().to_complex_time_vec();
        let mut a = a;
        let b = b.prepare_argument(&mut buffer);
        a.correlate(&mut buffer, &b).unwrap();
        // The maximum for lag 0 is at the center
        for i in 0..n {
            let expected = if i == n / 2 { 1.0 } else { 0.0 };
            assert!((a.data(..)[2 * i] - expected).abs() < 1e-9, "{} {}", n, i);
        }
    }
}
""", "a number of points which is odd and divisible by three",
  "The lags of a correlation are shifted by one.")

seed("C11-floor-length", "C11",
  [(V + "time_freq/real_interpolation.rs", """            .round()
            .to_usize()
            .unwrap()
            + 1;
        let mut temp = buffer.borrow(dest_len);
        {
            let data = self.data.to_slice();
            let temp = temp.to_slice_mut();
            let data = &data[0..data_len];""", """            .trunc()
            .to_usize()
            .unwrap()
            + 1;
        let mut temp = buffer.borrow(dest_len);
        {
            let data = self.data.to_slice();
            let temp = temp.to_slice_mut();
            let data = &data[0..data_len];""")],
  """
use basic_dsp_vector::*;
fn main() {
    let mut buffer = SingleBuffer::new();
    for &(n, factor, expected) in &[(11usize, 2.0f64, 21usize), (11, 1.25, 14), (5, 2.2, 10), (5, 2.1, 9), (8, 0.4, 4)] {
        let data: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let mut v = data.clone().to_real_time_vec();
        v.interpolate_lin(&mut buffer, factor, 0.0);
        assert_eq!(v.len(), expected);
    }
    // The output reaches the last point in spite of rounding
    let factor = 1.0f64 / 3.0 * 3.3;
    let mut v = vec![0.0f64, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0].to_real_time_vec();
    v.interpolate_lin(&mut buffer, factor, 0.0);
    assert_eq!(v.len(), 12);
}
""", "a factor for which the length of the output isn't an integer",
  "The output of the linear interpolation misses its last point.")
