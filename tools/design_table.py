S = "enumeration of configurations, each executed on the code and compared with the reference model"
# id: (how, cost of quick / thorough on 8 cores)
ROWS = {
"C01": (S + ". Oracle: num-complex/std functions point by point; every alignment and remainder reaches every partition of left edge, SIMD centre and right edge", "5 s / 40 s"),
"C02": (S + "; merging of partial statistics is explored as a graph over all partitions of all words of a small alphabet. Oracle: naive f64 definition", "5 s / 40 s"),
"C05": (S + ". Oracle: O(n^2) DFT. All unit impulses decide the linear map of a given length", "5 s / 40 s"),
"C06": (S + ". Oracle: half of the O(n^2) DFT, mirroring written out; sequences transform, mirror, inverse", "5 s / 30 s"),
"C07": (S + ". Oracle: circular sum. Lengths on both sides of every dispatch threshold so that all three algorithms run on comparable inputs", "15 s / 40 s"),
"C08": (S + ". Oracle: grid of the documentation and circular sum; frequency responses evaluated per bin", "10 s / 40 s"),
"C09": (S + ". Oracle: sum over lags; positions of two pulses enumerated", "5 s / 30 s"),
"C10": (S + ". Oracle: interpolation sum; DFT with zero padding; pure tones reproduce the analytic signal", "15 s / 40 s"),
"C11": (S + ". Oracle: piecewise linear/Hermite formulae", "5 s / 20 s"),
"C12": (S + "; inverse operations executed in sequence must give the first state back", "5 s / 20 s"),
"C13": (S + "; storage limits are part of the model, so refusing is decided too", "5 s / 20 s"),
"C14": (S, "5 s / 20 s"),
"C15": (S + ". Oracle: textbook formulae; symmetric shortcut against the same window without the shortcut", "10 s / 40 s"),
"C16": (S + "; dynamic, static and erroneous receivers are three refinements of one model, so any pair that disagrees is found", "5 s / 10 s"),
"C22": (S + "; the user function records its calls and the multiset is compared", "5 s / 20 s"),
"C23": (S + "; receiver and argument are compared with their state before the call", "5 s / 20 s"),
}
ROWS["C03"] = ("stateless exploration of the real worker threads: the crate `crossbeam` is replaced by a shim whose scoped threads are scheduled one at a time; depth first search over the choices with a preemption bound; partitioning (thread count x length) enumerated exhaustively. Oracle: model, single-threaded execution, multiset of the arguments seen by user functions", "20 s / 245 s")
ROWS["C04"] = (S + "; the same input with every kind of buffer, storage and left over contents must give the same output; pairs of operations share a buffer", "10 s / 40 s")
ROWS["C17"] = ("depth first search over operation sequences on the real code, with a fresh vector re-executed to every node; model state against observed state after every step", "6 s / 310 s")
ROWS["C18"] = ("depth first search over histories of wrapping, re-typing, resizing, cloning and unwrapping on the real code; every observer and every index compared with the model in every state", "7 s / 300 s")
ROWS["C19"] = ("enumeration of matrix forms x operations x arguments; every row, every argument, the returned values and what the matrix says about itself are compared with the vector operation executed on each row alone (the vector operations are decided by C01..C18); pairs of operations; matrices of impulse responses against the sum of vector convolutions", "15 s / 75 s")
ROWS["C20"] = ("enumeration of exported functions x widths x kinds of vectors x arguments, and of all sequences of two (thorough: three) functions on one vector. The interop crate is built as a shared library (crate `capi`) and called through its symbols with C signatures, so a function which is not exported, has another signature or frees what it must not is seen as a C program would see it: the library uses an allocator which never reuses a block during a case, marks freed blocks and counts. Oracle: the Rust operation of the same name on the same data and the same history; result codes against the documented table", "quick 7 s, thorough 80 s")
ROWS["C21"] = ("the checker (crate `mc21`) is built with the portable, the SSE2 and the AVX2 back end; every build runs the enumerations below, and SSE2 and AVX2 in addition those of C01, C02, C07, C08 and C10, against one f64 model, so two builds which disagree can't both pass. Approximations: definition plus documented error bound on a grid of mantissas and exponents", "quick 45 s, thorough 200 s, plus up to 3 min to rebuild three times")
ROWS["C24"] = ("the checker (crate `mc21`) is built with the library's default features off and runs the enumerations of C01, C02, C04 to C17, C22 and C23 with the same model, plus convolutions and interpolations with lengths and factors on both sides of the capacity of the internal lists; heap storages and growing buffers are then the harness's own implementations of the storage traits", "quick 15 s, thorough 480 s")
