T1 = "explicit-state model checking of the implementation: exhaustive enumeration of a bounded configuration space, every execution compared with a reference model"
N1 = ("Every configuration within the bounds in the evidence file is executed on the real code and compared with an independent f64 "
      "reference model; nothing is sampled. Values outside the alphabet and lengths beyond the bounds are not covered.")
CLAIMED = {i: (T1, N1) for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24".split()}
CLAIMED["C03"] = (
    "stateless model checking of the implementation: all thread schedules within a preemption bound under a controlled scheduler, and exhaustive enumeration of thread counts and data lengths, every execution compared with a reference model",
    "The scheduler switches threads where a worker starts, ends, is joined or calls a user function; the workers of the crate share no other synchronised state. Explorations which reach the limit of schedules are counted in the evidence.")
CLAIMED["C04"] = (T1, N1)
CLAIMED["C17"] = (
    "explicit-state model checking of the implementation: depth-first enumeration of all operation sequences up to a depth, the observed state after every step compared with a reference model",
    "All sequences over a stated alphabet of parametrised operations and start vectors; parameters outside the alphabet, longer sequences and larger vectors are not covered.")
CLAIMED["C18"] = (CLAIMED["C17"][0], "All histories over a stated set of constructors, steps and unwrapping operations; longer histories and larger vectors are not covered.")
CLAIMED["C19"] = (T1, "Every operation of the matrix traits that can be called is executed on the real code; the oracle is the real vector operation applied to each row alone. Statistics of matrices can't be called (unsatisfiable bounds).")
CLAIMED["C20"] = (T1, "All 314 exported functions are called through the symbols of a shared library built from the interop crate; the oracle is the Rust operation on the same data. An accounting allocator inside the library decides whether vectors are consumed exactly once and stay usable otherwise.")
CLAIMED["C21"] = (T1, "The checker is built three times (portable, SSE2, AVX2) and every build is compared with the same reference model. AVX-512 and the GPU back end can't be built here and are outside.")
CLAIMED["C24"] = (T1, "The checker is built against the library with default-features = false and runs the enumerations of the other checks with the same reference model. The targets without an operating system themselves are not available here; the build runs on Linux.")
NOT_CLAIMED = {}
