#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable in one place)."""
import json
V="vector/src/vector_types/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

p("C01","Element-wise operations compute their definition at every position",
 "An element-wise operation (arithmetic with a scalar or another vector, with or without repetition of a shorter argument; powers, roots, exponentials, logarithms, trigonometry; absolute value, wrap/unwrap, conjugation, multiplication by a complex exponential) sets every point of the vector to the mathematical function of the old value of that point and of the corresponding argument, for real and for complex data. This holds for every vector length, every position of the storage in memory, every amount of spare storage and for both floating point widths. Nothing outside the valid points is read into the result.",
 ["inputs","configurations"],
 "all lengths incl. 0 and lengths that are no multiple of the processing width, all element offsets of the storage relative to the vector-register alignment, real/complex, time/frequency, spare capacity, argument lengths, scalar values incl. 0, negative and special values",
 "The tests use a few fixed vectors in freshly allocated (hence aligned) storage; the split into unaligned head, vectorised centre and tail depends on address, length and number space and has many combinations the tests never reach.",
 [V+"general/elementary.rs",V+"general/trigonometry_and_powers.rs",V+"real/real_ops.rs",V+"complex/complex_ops.rs",V+"mod.rs","vector/src/simd_extensions/simd_partition.rs"],
 [("head/centre/tail partition","vector/src/simd_extensions/simd_partition.rs"),("SIMD and scalar variants of each operation",V+"mod.rs"),("wrap-around argument",V+"general/elementary.rs")],
 ["contents of the vector after the call","elements around the storage"])

p("C02","Reductions equal their definition: sums, dot products and statistics",
 "Sum, sum of squares, dot product and the statistics record (count, sum, average, rms, minimum and maximum with their positions), in the normal and in the high-precision variant, equal the value obtained by evaluating their definition over exactly the valid points. A split statistic with k columns equals the k statistics of the points congruent to each column, and the precise variants are at least as accurate as compensated summation. Combining statistics of consecutive pieces gives the statistics of the whole.",
 ["inputs","configurations"],
 "all lengths incl. 0, every position of minimum and maximum incl. ties, all alignments, number of columns, data with large dynamic range, every split of a vector into pieces",
 "The tests evaluate one or two vectors per function; they do not move the extreme values over all positions, do not vary alignment and column count and do not combine pieces.",
 [V+"general/statistics.rs",V+"general/precise_stats.rs",V+"general/dot_products.rs",V+"general/mod.rs"],
 [("chunked statistics and merge",V+"general/statistics.rs"),("Kahan summation",V+"general/mod.rs"),("SIMD sums with scalar edges",V+"general/statistics.rs")],
 ["returned value"])

p("C03","Worker threads and their schedule never change a result",
 "For every operation, every multi-core setting (core limit and thresholds) and every order in which the worker threads start, interleave and finish, the result equals that of the single-threaded execution up to rounding, and the call returns. The user-supplied functions (window, impulse response, frequency response, mapping) are evaluated for the same set of arguments as in the single-threaded execution.",
 ["schedules","configurations","inputs"],
 "all core limits and thresholds, all data lengths relative to the number of workers (also shorter than the number of workers or not divisible), all completion orders and all interleavings of workers at calls into user functions",
 "The tests run with data below the threading thresholds or once with whatever schedule the OS picks; they never control the schedule and only use lengths which divide evenly.",
 ["vector/src/multicore_support/threading.rs",V+"mod.rs",V+"time_freq/mod.rs",V+"time_freq/time.rs"],
 [("partition of an array in chunks and ranges","vector/src/multicore_support/threading.rs"),("symmetric pairs of chunks","vector/src/multicore_support/threading.rs"),("collection of worker results in completion order","vector/src/multicore_support/threading.rs")],
 ["contents of the vector after the call","arguments seen by user functions"])

p("C04","Results depend on the valid points only, not on buffers or leftovers",
 "The result of an operation is a function of the valid points, the meta data and the arguments. It does not depend on the kind, size or previous contents of the scratch buffer, on the type or spare capacity of the storage, or on values left in the storage beyond the valid length. In-place and buffered variants of the same operation agree.",
 ["configurations","histories","inputs"],
 "every operation that exists in a buffered form or takes a buffer; every buffer kind (fresh, exactly sized, oversized, reused by other operations and hence dirty, fixed size); every storage kind; spare capacity 0..n filled with junk",
 "Tests use fresh, zeroed storage and a fresh buffer, which hides reads of stale values; they never repeat an operation with a differently prepared buffer.",
 [V+"support_core.rs",V+"support_std.rs",V+"buffer.rs",V+"general/data_reorganization.rs",V+"complex/complex_to_real.rs",V+"time_freq/"],
 [("borrow/trade of buffers",V+"buffer.rs"),("valid length vs. allocated length",V+"vec_impl_and_indexers.rs"),("buffered and unbuffered twins",V+"general/data_reorganization.rs")],
 ["contents of the vector after the call"])

p("C05","The Fourier transforms equal the DFT and invert each other",
 "The plain transform equals the discrete Fourier transform of the valid points, the plain inverse equals the unnormalised inverse DFT, the shifted variants additionally put the zero frequency in the centre and normalise by the number of points, and forward followed by inverse gives back the signal. Real input is treated as complex input with zero imaginary part. Transforming never depends on the buffer.",
 ["inputs","configurations"],
 "all numbers of points (even, odd, prime, 1, 0), all input signals (by linearity: every unit impulse), real and complex, both floating point widths, buffers of every kind",
 "Tests use one or two lengths and signals and mostly compare forward+inverse; wrong shifts at odd lengths or a wrong normalisation at other lengths stay invisible.",
 [V+"time_freq/mod.rs",V+"time_freq/time_to_freq.rs",V+"time_freq/freq_to_time.rs",V+"time_freq/freq.rs"],
 [("call of the FFT library",V+"time_freq/mod.rs"),("fft shift / inverse shift",V+"mod.rs"),("normalisation",V+"time_freq/freq_to_time.rs")],
 ["contents and meta data of the transformed vector"])

p("C06","Symmetric transforms equal the half spectrum of the full transform",
 "For a real signal with an odd number of points the symmetric transform yields the half of the full transform which belongs to the non-negative frequencies, starting at 0 Hz; mirroring this half yields the full spectrum in transform order; and the symmetric inverse of the half gives back the real signal, scaled as the non-symmetric transforms are. Signals which do not meet the requirements (even number of points, complex input, non-real zero frequency) are refused with the documented error.",
 ["inputs","configurations"],
 "all odd and even numbers of points, all real signals (by linearity: every unit impulse), statically and dynamically typed vectors, windowed and plain variants",
 "Tests exercise one length with static types; the mirror arithmetic depends on parity and the dynamically typed vectors take other paths.",
 [V+"time_freq/time_to_freq.rs",V+"time_freq/freq_to_time.rs",V+"time_freq/freq.rs"],
 [("mirror / unmirror",V+"time_freq/freq.rs"),("symmetry check",V+"time_freq/freq_to_time.rs")],
 ["contents and meta data of the transformed vector","error value"])

p("C07","Convolution of two vectors is the same sum on every internal path",
 "Convolving a vector with an impulse response yields, at every point, the circular sum of the products of data and centred impulse response, whatever the lengths of the two are. The choice between the direct, the vectorised and the frequency-domain block algorithm is not observable except for rounding.",
 ["inputs","configurations"],
 "all pairs of lengths on both sides of every size threshold, even and odd, real and complex, unit impulses at every position of data and impulse response, multi-core settings, all buffers",
 "Tests use small vectors, or one large case per path; block boundaries, even lengths and the remainder block are not varied.",
 [V+"time_freq/convolution.rs",V+"time_freq/mod.rs"],
 [("overlap-discard blocks",V+"time_freq/convolution.rs"),("shifted copies and edges for vectorised path",V+"time_freq/mod.rs"),("wrapping iterators",V+"time_freq/mod.rs")],
 ["contents of the vector after the call"])

p("C08","Convolving or weighting with a function samples it at the right points",
 "Convolving with an impulse response function equals convolving with the samples of that function on the specified grid (ratio and length), and multiplying with a frequency response weights every frequency bin with the response at the normalised frequency of this bin, independent of symmetry shortcuts and vectorised paths. A lookup table made from a function returns the tabulated function, interpolated between its supporting points, and the function classes obey their stated symmetry.",
 ["inputs","configurations"],
 "every point number (even/odd), ratio, half length, symmetric and asymmetric user functions, real and complex responses, vectors in every number space, tables of every length",
 "Tests use one symmetric filter; asymmetric responses, other ratios and the vectorised path for long vectors are not compared with the definition.",
 [V+"time_freq/convolution.rs",V+"time_freq/mod.rs","vector/src/conv_types.rs"],
 [("function sampling in convolution",V+"time_freq/mod.rs"),("symmetric evaluation of frequency responses",V+"time_freq/mod.rs"),("lookup tables","vector/src/conv_types.rs")],
 ["contents of the vector after the call","arguments seen by user functions"])

p("C09","Correlation equals the definition at every lag",
 "Cross-correlating a complex vector with a prepared argument yields at every lag the sum of products of the signal with the conjugated, shifted argument, cyclic for arguments prepared without padding and linear for arguments prepared with padding. A maximum found in the result is at the lag by which one signal is shifted against the other.",
 ["inputs","configurations"],
 "all lengths incl. odd, all shifts, unit impulses at every pair of positions, padded and unpadded argument, every buffer kind",
 "Tests compare two fixed vectors.",
 [V+"time_freq/correlation.rs"],
 [("argument preparation and padding",V+"time_freq/correlation.rs"),("frequency domain product and shift",V+"time_freq/correlation.rs")],
 ["contents of the vector after the call"])

p("C10","Resampling with an interpolation function equals its definition",
 "Interpolating with a function (in time or frequency domain, by an integer or fractional factor, with or without delay), interpolating to a number of points and decimating yield at every output point the value given by their definition; interpolating a band-limited signal reproduces the underlying signal, a factor of one without delay is the identity, and decimation keeps exactly every k-th point from the delay on. The choice between the scalar and the vectorised path is not observable except for rounding.",
 ["inputs","configurations"],
 "all lengths, factors (integer, fractional, below one), delays, half lengths of the function, real and complex, on both sides of size thresholds",
 "Tests interpolate one or two signals with a few factors, using symmetric functions; the number of output points and edge handling for other lengths and delays are not covered.",
 [V+"time_freq/interpolation.rs"],
 [("polyphase shifted copies",V+"time_freq/interpolation.rs"),("frequency domain up/down sampling",V+"time_freq/interpolation.rs"),("linear phase delay",V+"time_freq/interpolation.rs")],
 ["contents and length of the vector after the call"])

p("C11","Linear and spline interpolation reproduce points and polynomials",
 "Linear and Hermite interpolation of a real signal take on the signal's own values at the supporting points and reproduce straight lines exactly at every fractional position and delay inside the signal. The output has one point for each step of the interpolation factor over the signal.",
 ["inputs","configurations"],
 "all lengths, all (also fractional) factors at or above one, all delays within the signal, impulses at every position",
 "Tests use one signal with an integer factor each.",
 [V+"time_freq/real_interpolation.rs"],
 [("index and fraction computation",V+"time_freq/real_interpolation.rs"),("edge treatment of the spline",V+"time_freq/real_interpolation.rs")],
 ["contents and length of the vector after the call"])

p("C12","Rearranging operations move every point exactly where documented",
 "Reversing, swapping halves, shifting and un-shifting a spectrum, splitting, merging, differences and cumulative sums place every valid point exactly where their documentation says, for even and odd numbers of points and for real and complex data. Operations documented as inverse to each other (shift/un-shift, split/merge, difference with start/cumulative sum, reverse twice) restore the original vector.",
 ["inputs","configurations"],
 "all numbers of points incl. 0 and 1, real and complex, every number of split targets, spare capacity, storage kinds",
 "Tests check one even and one odd vector each with aligned storage whose size equals the valid length.",
 [V+"general/data_reorganization.rs",V+"general/diff_sum.rs",V+"mod.rs",V+"time_freq/freq.rs"],
 [("cycle-leader rotation for odd lengths",V+"mod.rs"),("split/merge index arithmetic",V+"general/data_reorganization.rs"),("in-place differences",V+"general/diff_sum.rs")],
 ["contents of the vectors after the call"])

p("C13","Zero padding, zero interleaving and resizing keep data and add zeros only",
 "Padding puts the original points at the documented place (front, centre of the result, or outer ends) and fills all other points with zeros; interleaving by k keeps the points in order at every k-th place and zeros elsewhere; resizing keeps the common prefix. After success the vector has exactly the requested number of points; a request that the storage cannot satisfy or that is invalid is refused with an error and leaves the points as they were.",
 ["inputs","configurations","histories"],
 "all old/new lengths and parities, all padding options, all factors, real and complex, growable and fixed storage with and without spare capacity, every buffer",
 "Tests check a handful of lengths with fresh zero storage; stale memory and overlapping moves show only for particular length pairs.",
 [V+"general/data_reorganization.rs",V+"vec_impl_and_indexers.rs","vector/src/lib.rs"],
 [("overlapping block moves","vector/src/lib.rs"),("padding arithmetic",V+"general/data_reorganization.rs"),("storage growth",V+"vec_impl_and_indexers.rs")],
 ["contents and length of the vector after the call","error value"])

p("C14","Real/complex representation changes are exact and invertible",
 "Converting to complex adds zero imaginary parts, and real part, imaginary part, magnitude, squared magnitude and phase of a complex vector equal their definition at every point, whether obtained by conversion, by the buffered variant, or into a destination vector. Assembling a complex vector from real and imaginary part or from magnitude and phase of a complex vector gives that vector back.",
 ["inputs","configurations"],
 "all lengths, alignments of source, destination lengths and contents, spare capacity, all quadrants and zero values, statically and dynamically typed vectors",
 "Tests use one short vector per function with matching, aligned destinations.",
 [V+"complex/complex_to_real.rs",V+"real/real_to_complex.rs",V+"mod.rs"],
 [("in-place compaction/expansion",V+"mod.rs"),("SIMD magnitude into destination",V+"complex/complex_to_real.rs"),("setters",V+"complex/complex_to_real.rs")],
 ["contents and meta data of source and destination after the call"])

p("C15","Windows are applied with the right weight at every point",
 "Applying a window multiplies every point with the window's value for this point and the given number of points, un-applying divides by it so that both in sequence restore the signal, and the windowed transforms are the transforms of the windowed signal (or the inverse of it). The predefined windows equal their textbook formula and a window declared symmetric gives the same result as the same window without this declaration.",
 ["inputs","configurations"],
 "all numbers of points (even, odd, 0, 1), real and complex, symmetric and asymmetric windows incl. user-defined ones, multi-core settings",
 "Tests check a few window values for one length; the symmetric evaluation and its treatment of the centre point depend on parity.",
 [V+"time_freq/time.rs",V+"time_freq/mod.rs","vector/src/window_functions.rs",V+"time_freq/time_to_freq.rs",V+"time_freq/freq_to_time.rs"],
 [("symmetric evaluation in pairs of chunks","vector/src/multicore_support/threading.rs"),("window formulas","vector/src/window_functions.rs")],
 ["contents of the vector after the call","arguments seen by user functions"])

p("C16","Dynamically typed vectors behave like static ones or report an error",
 "For every operation and every combination of number space and domain, a dynamically typed vector gives the same result as the statically typed vector on which the operation exists. Where no statically typed vector has the operation, or a precondition on the input is violated, the call does not panic: it returns the documented error or, if the operation has no result value, leaves the vector marked as erroneous, and an erroneous vector stays erroneous.",
 ["inputs","histories"],
 "every operation x {real, complex} x {time, frequency} x lengths incl. 0 and 1, and every operation on an already erroneous vector",
 "Tests mostly use static types; the run-time checks of the dynamic type exist once per operation and only few combinations are exercised.",
 [V+"checks_and_results.rs",V+"mod.rs",V+"complex/complex_to_real.rs",V+"real/real_to_complex.rs",V+"time_freq/"],
 [("assertion macros which mark a vector as invalid",V+"checks_and_results.rs"),("run-time type state",V+"mod.rs")],
 ["contents, meta data and error state after the call"])

p("C17","Every operation sequence keeps vectors well formed and meta data right",
 "After any sequence of operations a vector has a valid length within its storage, an even number of elements if it is complex, and number space, domain and sampling distance as implied by the operations performed; its contents equal the composition of the definitions of these operations. No sequence of operations that are each allowed makes a later allowed operation panic.",
 ["histories","inputs"],
 "all sequences of operations up to a depth, from all small start vectors, sharing one scratch buffer over the sequence, for growable and fixed storage",
 "Tests run single operations or one fixed pipeline; state left behind by one operation (spare storage, swapped buffers, stale lengths) matters only to the next.",
 [V+"mod.rs",V+"vec_impl_and_indexers.rs",V+"support_std.rs",V+"rededicate_and_relations.rs"],
 [("valid length / storage length",V+"vec_impl_and_indexers.rs"),("buffer swap",V+"support_std.rs"),("type transitions",V+"rededicate_and_relations.rs")],
 ["length, allocated length, meta data, contents after each step"],
 [("vector","points, number space, domain, delta, valid length, storage",V+"mod.rs"),("buffer","scratch storage that is swapped in and out",V+"support_std.rs")])

p("C18","Wrapping, unwrapping, indexing, cloning and re-typing preserve data",
 "Creating a vector from any supported storage and getting the storage or the complex points back preserves length and values; indexing reads and writes exactly the addressed valid element; cloning gives an equal independent vector; and interleaving two vectors pairs them up. Re-typing a vector without an operation keeps its points if number space and domain agree with the target type and otherwise yields an empty vector; storage with an odd number of elements cannot become a non-empty complex vector.",
 ["inputs","configurations"],
 "all lengths incl. 0, odd lengths for complex, all storage kinds, spare capacity, all 5x5 pairs of vector types",
 "Tests check single conversions; empty and odd-length inputs, spare capacity and the pairs of types are not enumerated.",
 [V+"to_from_vec_conversions.rs",V+"support_core.rs",V+"support_std.rs",V+"support_std_par.rs",V+"rededicate_and_relations.rs",V+"vec_impl_and_indexers.rs"],
 [("constructors",V+"support_std.rs"),("rededication",V+"rededicate_and_relations.rs"),("indexers",V+"vec_impl_and_indexers.rs")],
 ["returned storage, length and meta data"])

p("C19","A matrix operation is the vector operation applied to every row",
 "Applying an operation to a matrix gives, in every row, what the vector operation of the same name gives for this row alone, and the operations over rows (transposition-free access, conversion, combination of rows with a matrix of impulse responses) equal their definition. Row count, common row length, number space, domain and delta stay consistent for all rows, also if the operation fails.",
 ["inputs","configurations"],
 "every operation of the matrix type x number of rows (0,1,2,3 and more) x row lengths x real/complex, time/frequency, matrices by fixed arrays and by growable rows",
 "Tests cover a few operations on one 2- or 3-row matrix; a wrong delegation (calling another operation, skipping a row) in an untested method stays invisible.",
 ["matrix/src/lib.rs","matrix/src/mat_impl.rs","matrix/src/general/","matrix/src/complex.rs","matrix/src/time_freq.rs"],
 [("delegation to every row","matrix/src/mat_impl.rs"),("matrix convolution","matrix/src/time_freq.rs")],
 ["contents and meta data of all rows after the call"])

p("C20","The C interface does to a vector what the Rust interface does",
 "Each function of the C interface has the effect of the Rust operation it is named after on the same data, for both floating point widths, and returns code 0 exactly if the Rust operation succeeds and the documented code otherwise. Vectors given by value are consumed once and returned, vectors which are only inspected or passed as argument stay usable.",
 ["inputs","histories"],
 "every exported function x {real, complex} x {time, frequency} x lengths incl. error cases",
 "The C interface has no tests at all.",
 ["interop/src/facade32.rs","interop/src/facade64.rs","interop/src/lib.rs"],
 [("facade functions","interop/src/facade32.rs"),("result code translation","interop/src/lib.rs")],
 ["returned vector and code"])

p("C21","All vector-instruction back ends compute the same results",
 "Building with or without support for wider vector instructions (portable, SSE2, AVX2) changes no result beyond rounding, for every operation, length, storage position and floating point width. The approximated functions stay within their documented error bound on every back end.",
 ["configurations","inputs"],
 "portable/SSE2/AVX2 builds x register-level operations x lengths and offsets around the register width x special values",
 "The tests are the same few vectors in every build and freshly allocated; lane order, masks and partial stores of a back end are only visible for particular lengths and values.",
 ["vector/src/simd_extensions/sse.rs","vector/src/simd_extensions/avx.rs","vector/src/simd_extensions/fallback.rs","vector/src/simd_extensions/approximations.rs","vector/src/simd_extensions/mod.rs"],
 [("register types","vector/src/simd_extensions/"),("selection of the back end","vector/src/simd_extensions/mod.rs")],
 ["contents of the vector after the call, per build"])

p("C22","Mapping and aggregation see each valid point exactly once, with its index",
 "Mapping in place calls the user function exactly once per valid point with the point's value, its index and the caller's extra argument, and stores its result at this point. Map-and-aggregate combines the mapped values of all valid points and of nothing else, and reports an error for an empty vector.",
 ["inputs","schedules","configurations"],
 "all lengths, real and complex, spare capacity, multi-core settings, all user functions (by distinct tags per index), associative aggregation",
 "Tests map one short vector whose storage has exactly the valid length.",
 [V+"general/mapping.rs","vector/src/multicore_support/threading.rs"],
 [("index range of a chunk",V+"general/mapping.rs"),("aggregation of chunk results",V+"general/mapping.rs")],
 ["arguments seen by user functions","contents of the vector / returned value"])

p("C23","Operations on two vectors refuse mismatched arguments and change nothing",
 "An operation with a vector argument that differs in length (where equal or dividing lengths are required), number space, domain or sampling distance is refused with the documented error, and both vectors are left exactly as they were. With a matching argument the argument vector is never modified.",
 ["inputs","fault_sequences"],
 "every two-vector operation x all pairs of (length, number space, domain, delta) of receiver and argument, dynamically typed",
 "Tests cover at most one mismatch for one operation.",
 [V+"general/elementary.rs",V+"general/dot_products.rs",V+"general/data_reorganization.rs",V+"time_freq/convolution.rs",V+"time_freq/correlation.rs",V+"checks_and_results.rs"],
 [("meta data comparison",V+"checks_and_results.rs"),("size checks before first write",V+"general/elementary.rs")],
 ["error value, contents and meta data of both vectors after the call"])

p("C24","Building without the standard library changes no result",
 "Built without its default feature `std`, where it uses neither threads nor heap memory of its own, the library returns for every operation it still offers the same data, meta data, scalars and errors as with the feature, for every vector length, impulse response length, convolution length and interpolation factor. The fixed capacity of its internal lists never turns into a panic, a truncated result or a write outside of the vector; only lookup tables are limited by it.",
 ["inputs","configurations"],
 "all operations x all lengths x number spaces and domains x storage layouts in a build with default-features = false",
 "Only the unit tests of the library are executed in this build, on vectors of a few elements.",
 ["vector/src/inline_vector/fixed_size.rs","vector/src/multicore_support/no_threading.rs",V+"support_core.rs",V+"time_freq/convolution.rs",V+"time_freq/interpolation.rs"],
 [("lists of a fixed size","vector/src/inline_vector/fixed_size.rs"),("single threaded replacement of the thread pool","vector/src/multicore_support/no_threading.rs")],
 ["contents of the vector after the call in the build without std, panics"])

with open(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))) + "/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
