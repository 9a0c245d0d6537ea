FIXED = [
("edge iterators","C01"),("align the SIMD center","C01"),("spare storage behind","C01"),("dot products must refuse","C23"),
("merging statistics","C02"),("split statistics must not panic","C02"),("an inline vector","C18"),("split statistics need","C02"),
("swapping the halves","C12"),("a transform must set","C05"),("vectors are in time domain","C05"),("symmetric transforms","C06"),
("a vector must not become longer","C13"),("padding must","C13"),("the difference of an empty","C12"),("splitting and merging","C12"),
("complex vectors must be split","C12"),("symmetric pairs","C15"),("an empty array","C15"),("mapping a vector","C22"),
("elementary operations must refuse","C23"),("getters of complex","C14"),("getters must set","C14"),("setters of complex","C14"),
("correlate must accept","C09"),("a failed conversion","C14"),("lookup tables must keep","C08"),("lookup tables need","C08"),
("lookup tables must be zero","C08"),("a convolution must work","C07"),("the block convolution must calc","C07"),("the block convolution must only","C07"),
("sampling a real","C08"),("sampling a complex","C08"),("a spectrum with a single","C08"),("the raised cosine","C08"),
("preparing an argument","C09"),("correlation and interpolation","C10"),("a delay of a spectrum","C10"),("the frequency response","C10"),
("an interpolation must reject","C10"),("the vectorized interpolation","C10"),("linear and spline","C11"),
]
FIXED += [
("complex reductions of a real","C16"),("windows must only","C16"),
]
FIXED += [("interpolating or correlating an empty","C16")]
FIXED += [("getters must not panic if the target","C16")]
FIXED += [("the largest possible threshold","C03")]
FIXED += [(k,"C18") for k in ["empty vectors must convert from","storage with an odd length must not","converting a complex vector into a Vec","a slice with an odd length","getting complex points must not","rededicate must not reinterpret","complex indexers must return"]]
FIXED += [(k,"C19") for k in ["matrix getters for","matrix diff_with","sums of matrices","convolve_mat used","a matrix resize","a matrix operation which","convolve_mat must","a matrix of impulse"]]
FIXED += [(k,"C20") for k in ["sub32 and sub64","atan32 and atan64","functions of the C interface which","export fft_shift","the getters of the C interface","cloning a vector with the C","overwrite_data of the C"]]
FIXED += [(k,"C21") for k in ["the magnitude of every second","ln_approx must reduce"]]
FIXED += [("abs must not overflow","C01")]
FIXED += [(k,"C24") for k in ["convolve_signal must not exceed","interpolatef must not exceed"]]
FIXED += [("convolve must not sample","C08")]
