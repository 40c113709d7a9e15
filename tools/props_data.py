SAN = "the whole run is under AddressSanitizer and UndefinedBehaviorSanitizer"
prop("C01", "Discrete transforms equal their defining sums and invert exactly",
 "For every length from one up and every finite input, in single and double precision, the one-shot real and complex Fourier, cosine (type II, factor 2) and Hartley transforms equal their defining sums to within rounding, write exactly the documented number of outputs and leave the input unchanged. Each inverse transform applied to a forward result returns the original signal at its original scale (for the real Fourier inverse: even lengths), and the inverse of an arbitrary spectrum equals its own defining sum. The helpers that report transform sizes agree with those numbers of outputs.",
 ["inputs", "configurations"], "all lengths n>=1 (inverse real transform: n even >=2), all finite real/complex inputs, float and double, any buffer offset, pointers and container iterators",
 "Tests compare each transform with numpy/scipy on a few random signals of one size in double precision, never float, never odd/prime lengths systematically, never input preservation or writes outside the output.",
 [I+"spectral/dft.hpp", I+"spectral/dct.hpp", I+"spectral/hartley.hpp", I+"spectral/fft_engine.hpp", I+"spectral/internal/libfftw_impl.hpp"],
 [("one-shot wrappers choose the length, kind and scaling of an FFTW plan", I+"spectral/dft.hpp, dct.hpp, hartley.hpp"), ("plans preserve their input and are scaled by the inverse helpers", I+"spectral/internal/libfftw_impl.hpp")],
 "runtime monitoring: long-double defining-sum oracle, guard zones and input-preservation monitors over a sweep of lengths, under ASan+UBSan",
 "Held on every executed length/signal; the oracle is the O(N^2) defining sum in 80-bit arithmetic with an error bound proportional to eps*log N*||x||. Trusts the C library's long double sin/cos.")
prop("C02", "Convolution, correlation, spectrum, cepstrum and analytic signal are exact",
 "For every length from one up and every finite input, in single and double precision: convolution returns the first n terms of the linear (not circular) convolution of two n-sample signals; cross- and auto-correlation return the lag sums for lags 0..n-1, raw, divided by n (biased) or divided by the number of overlapping terms (unbiased); the power spectrum is the squared magnitude of the one-sided Fourier transform. The analytic signal has the input as real part and no negative frequencies, and the cepstrum is the first n terms of the inverse transform of the log magnitude of the signal zero-padded to twice its length (for signals without spectral zeros). None of them changes its inputs or writes outside its output.",
 ["inputs", "configurations"], "all lengths n>=1, all finite signals (cepstrum: no spectral zero within rounding), float and double, all correlation scales",
 "Tests use one random signal per function, double precision only and never the scale options; wrap-around, odd lengths, tiny lengths and input preservation are not sampled.",
 [I+"spectral/convolution.hpp", I+"spectral/correlation.hpp", I+"spectral/spectrum.hpp", I+"spectral/hilbert.hpp", I+"spectral/cepstrum.hpp"],
 [("zero padding to twice the length makes circular products linear", I+"spectral/convolution.hpp, correlation.hpp, cepstrum.hpp"), ("negative frequencies are cleared and positive ones doubled", I+"spectral/hilbert.hpp")],
 "runtime monitoring: direct-sum oracles and metamorphic monitors (commutation, energy, peak at lag 0), guard zones, under ASan+UBSan",
 "Held on every executed case; direct O(N^2) sums in 80-bit arithmetic; cepstrum cases whose reference spectrum is near a zero are executed but not compared.")
prop("C03", "One FFT engine serves any history of transforms on any buffers",
 "An FFT engine of a given size computes the same results as a fresh one whatever sequence of forward, inverse, real, complex, cosine and Hartley transforms it ran before, and whatever the alignment of the out-of-place buffers it is given. Engines alive at the same time, created, used and destroyed in any order, never affect each other or memory outside the given buffers; an engine that can be copied yields an independent engine.",
 ["histories", "inputs"], "all sequences of operations on one or several engines of any size, all buffer offsets, float and double",
 "The tests only use the one-shot wrappers: a fresh engine, one kind of transform, one call; no history at all is sampled.",
 [I+"spectral/fft_engine.hpp", I+"spectral/internal/libfftw_impl.hpp"],
 [("plans are cached inside the engine and executed on later buffers", I+"spectral/internal/libfftw_impl.hpp")],
 "runtime monitoring: random operation histories on engines against a stateless reference model, guard zones, under ASan+UBSan",
 "Held on every executed history; stale plans, alignment assumptions and ownership errors show as wrong values, changed guards or sanitizer reports.",
 state=[("cached plans", "which transform was planned, for which buffers", I+"spectral/internal/libfftw_impl.hpp")])
prop("C04", "Independent calls on different threads behave as if run sequentially",
 "Calls that share no data may run on any number of threads at once: transforms, FFT engines, windows, filters, oscillators, statistics, features, string helpers, resamplers and file encoders/decoders return bit-for-bit what they return sequentially, without data races. In particular the non-reentrant planner of the underlying FFT library is never entered by two threads at once.",
 ["schedules", "inputs"], "all interleavings of any number of threads working on disjoint data",
 "No test starts a thread; a race needs two planners or a shared static to meet in time.",
 [I+"spectral/internal/libfftw_impl.hpp", I+"spectral/fft_engine.hpp"],
 [("plan creation and destruction are serialised by one lock", I+"spectral/internal/libfftw_impl.hpp"), ("all other functions keep their state in the caller's objects", I)],
 "runtime monitoring: interposed planner-entry monitor with injected delays, differential against the sequential run, ThreadSanitizer and ASan builds",
 "No overlap, race or difference on the executed schedules; the number of planner entries and hand-overs between threads is measured on each run. ThreadSanitizer does not see inside FFTW, which is why planner entries are interposed.")

prop("C05", "Window generators follow their closed forms for every length",
 "For every length of at least two points, in single and double precision and through any forward iterator, each window generator (Bartlett, Blackman, Blackman-Harris, Blackman-Nuttall, boxcar, flat-top, Hamming, Hanning, rectangular, triangular, Welch) writes exactly the given range with the symmetric closed form of that window: mirror-symmetric values, maximum at the centre, never above one.",
 ["inputs", "configurations"], "all lengths n>=2, float and double, all eleven windows, pointers and container iterators",
 "Tests compare one random length per window in double precision; which residues modulo 4, which parities and which tiny lengths are seen is left to chance.",
 [I+"windowing"],
 [("each generator evaluates a closed form in the index and the length", I+"windowing/*.hpp")],
 "runtime monitoring: closed-form oracle in 80-bit arithmetic, symmetry/range monitors and guard bytes over a dense sweep of lengths, under ASan+UBSan",
 "Held on every executed length (dense up to 400 quick / 2000 thorough, then sampled).")
prop("C29", "Scalar number helpers are exact over their whole type",
 "Parity, sign, primality, power-of-two and next-power-of-two helpers give the mathematically right answer for every value of every integer type whose result is representable; the floating-point classifiers (NaN, infinite, zero, denormal, normal), squares, inverses, fractional parts, distances (Manhattan, Euclidean, logarithmic), complex accessors and mathematical constants are right to within rounding for every value.",
 ["inputs"], "all integers of the signed and unsigned types, all finite and special floating-point values",
 "Tests never call these helpers with large, negative or special values.",
 [I+"math/numeric.hpp", I+"math/complex.hpp", I+"math/constant.hpp"],
 [("bit tricks and trial division over the argument's own type", I+"math/numeric.hpp")],
 "runtime monitoring: exact reference arithmetic (sieve, bit patterns, 80-bit) over boundary and random values, under UBSan",
 "Held on every executed value: exhaustive over a dense prefix, all powers of two and their neighbours, random elsewhere.")

prop("C06", "Biquads and cascades realise their difference equation over any call history",
 "A biquad section outputs the solution of a0*y[n] = b0*x[n]+b1*x[n-1]+b2*x[n-2]-a1*y[n-1]-a2*y[n-2] for every coefficient set and signal, however the signal is split over tick and filter calls, in place or not; reset returns to the zero state, a copy continues independently from the same state, and after a coefficient is changed (and the section reset) the new equation holds. Sections built from poles and zeros have exactly those poles and zeros, the stability predicate is true exactly when both poles are inside the unit circle, a cascade equals its sections applied one after the other in insertion order, and the frequency-response helper evaluates B/A at k*pi/K.",
 ["inputs", "histories"], "all finite coefficients (a0 non-zero), signals, splits of a signal into calls, orders of push/emplace/clear/reset, float and double",
 "No test exercises biquads or cascades at all.",
 [I+"filter/biquad.hpp", I+"filter/biquad_cascade.hpp", I+"filter.hpp"],
 [("transposed direct form II with two state variables", I+"filter/biquad.hpp (tick, reset, setters)"), ("sections run in order for each sample", I+"filter/biquad_cascade.hpp")],
 "runtime monitoring: 80-bit difference-equation oracle with a propagated rounding bound, chunk-invariance and copy-independence monitors over random call histories, under ASan+UBSan",
 "Held on every executed section, signal and history.", state=[("w0, w1", "filter memory", I+"filter/biquad.hpp")])
prop("C07", "Designed filters are stable and meet their frequency specification",
 "For every order up to the declared maximum, every cut-off strictly between 0 and half the sample rate (for band filters: both band edges), and positive ripple or attenuation, the Butterworth and Chebyshev I/II low-pass, high-pass, band-pass and band-stop designers return a stable cascade whose frequency response is the prewarped bilinear transform of the classical analog prototype: the gain at the requested edges is -3 dB, -ripple or -attenuation respectively and the pass-band peak is 0 dB. Shelving designs of either sign of gain reach that gain on the shelf side (within the ripple for Chebyshev) and 0 dB on the other, and the RBJ and Zolzer sections have the response of their analog prototypes (cut-off, Q and gain as requested).",
 ["inputs", "configurations"], "all orders 1..MaxOrder, cut-offs/centres/bandwidths inside (0, fs/2), Q>0, gains of both signs, ripple and stop-band attenuation, float and double",
 "No test designs a filter.",
 [I+"filter/internal", I+"filter.hpp"],
 [("analog pole/zero prototypes", I+"filter/internal/*_designer.hpp"), ("bilinear frequency transformations", I+"filter/internal/bilinear"), ("gain normalisation at one frequency", I+"filter/internal/abstract_designer.hpp")],
 "runtime monitoring: every designed filter is compared at 60+ frequencies with an independently computed analog prototype in 80-bit arithmetic, pole radii and impulse responses are monitored, under ASan+UBSan",
 "Held on every designed filter; tolerances scale with the order and the closeness of the edges to 0 and fs/2, so extremely narrow bands and very high orders in single precision are outside the explored domain (orders to 16 in double, 4 in float).")
prop("C08", "Moving filters equal the statistic of the last N samples after any history",
 "After any sequence of samples, reset and resize calls, each moving average, RMS and median filter outputs the mean, root mean square or median of the last N samples, samples before the first one (or before the last reset or resize) counting as zero, to within the rounding of a running sum; the result is always a number for finite input. Sample-by-sample and block processing, in place or not, agree.",
 ["inputs", "histories"], "all window lengths >=1, finite signals, splits into calls, resets and resizes at any time, float and double",
 "The tests only check size() after construction and resize.",
 [I+"filter/moving_average_filter.hpp", I+"filter/moving_rms_filter.hpp", I+"filter/moving_median_filter.hpp", I+"types/ring_buffer.hpp"],
 [("running sum plus ring buffer of the last N values", I+"filter/moving_average_filter.hpp, moving_rms_filter.hpp")],
 "runtime monitoring: reference-model conformance (explicit window) over random operation histories, under ASan+UBSan",
 "Held on every executed history; the tolerance is one rounding of the largest sum per sample since the last reset.", state=[("window_, accumulated_", "last N values and their sum", I+"filter/moving_average_filter.hpp")])
prop("C19", "String helpers are exact on every byte string",
 "For every string over all 256 byte values (NUL and bytes above 127 included) in the C locale: tolower and toupper change exactly the ASCII letters; ltrim, rtrim and trim remove exactly the leading, trailing or both runs of white space (space, \\t, \\n, \\v, \\f, \\r); split yields the non-empty segments between delimiters in order, and join concatenates its parts, empty ones included, with exactly one delimiter between neighbours, replacing the old content of the result. Splitting a join of non-empty, delimiter-free parts gives these parts back.",
 ["inputs"], "all byte strings and delimiters, lists of any length, char strings, any iterator category",
 "Tests use random ASCII words; embedded NULs, high bytes, empty parts, leading/trailing/repeated delimiters and all-blank strings are not sampled.",
 [I+"string"],
 [("character classification and stream-based splitting/joining", I+"string/*.hpp")],
 "runtime monitoring: byte-wise reference oracle, round-trip and idempotence monitors on seeded strings over several alphabets, under ASan+UBSan",
 "Held on every executed string; each of the 256 characters is tried alone and in context.")
prop("C20", "Ring buffers behave as bounded double-ended queues over any history",
 "After every sequence of push_back, emplace_back, emplace_front, pop_front, pop_back, clear, resize, element writes and moves, a ring buffer of capacity N >= 1 (the heap-based and the fixed-size one) holds exactly what a double-ended queue of at most N elements would hold, an insertion into a full ring dropping the element at the opposite end. Size, capacity, empty, full, front, back, indexing, bounds-checked access (out_of_range from size() on) and forward, reverse and constant iteration all show that content in order, standard algorithms work on its iterators, and elements are never leaked or used after destruction.",
 ["histories", "inputs"], "all histories of operations, all capacities >= 1, trivially and non-trivially copyable elements; pops, front and back only on non-empty rings; moved-from rings not used",
 "The tests do not touch ring buffers at all; wrap-around needs specific numbers of operations.",
 [I+"types/ring_buffer.hpp", I+"types/fixed_ring_buffer.hpp", I+"thirdparty/nonstd/ring_span.hpp"],
 [("a view with front index and size over fixed storage", I+"thirdparty/nonstd/ring_span.hpp"), ("the view is rebuilt when storage is resized, cleared or moved", I+"types/*ring_buffer.hpp")],
 "runtime monitoring: reference-model conformance (std::deque) after every operation of seeded histories, tracked elements, under ASan+UBSan",
 "Held on every executed history; the number of operations and of distinct capacity/size states is reported.", state=[("front index, size, storage", "the ring", I+"thirdparty/nonstd/ring_span.hpp")])
prop("C09", "Oscillators output their waveform at the current time after any history",
 "Each call of a sinusoidal, square, sawtooth or triangular oscillator returns amplitude times its waveform at phase frequency*timestamp and advances the timestamp by exactly one sampling period; a change of amplitude, frequency, sample rate, phase (sine), duty (square), width (sawtooth) or timestamp takes effect from the next sample on and changes nothing else, reset returns to time zero, and copies are independent. With x the fractional part of frequency*timestamp (>= 0): sine is sin(2*pi*frequency*timestamp+phase), square is +1 for x < duty and -1 otherwise, sawtooth rises from -1 to 1 over x in [0,width) and falls back to -1 over [width,1), triangular is the sawtooth of width 0.5. The output never exceeds the amplitude.",
 ["histories", "inputs"], "all finite amplitudes, sample rates and frequencies > 0, phases, duties and widths in [0,1], non-negative timestamps, float and double",
 "Tests compare one second of one fixed configuration per oscillator (the square one only in absolute value) and never change a parameter between samples.",
 [I+"oscillators"],
 [("the waveform is evaluated at the accumulated timestamp", I+"oscillators/*.hpp")],
 "runtime monitoring: closed-form waveform monitor on every sample of seeded parameter-change histories, clock and bound monitors, long-run frequency/duty monitors, under ASan+UBSan",
 "Held on every executed sample; samples within rounding of a jump are only required to be at one of its two sides (their number is reported).", state=[("timestamp, amplitude, frequency, duty/width", "oscillator state", I+"oscillators/sinusoidal.hpp")])
prop("C10", "Envelopes and companding follow their laws over any history",
 "An ADSR envelope is zero until key-on, rises by its attack rate per sample to the attack target (1 unless set), moves by its decay rate to exactly the sustain level and stays there until key-off, then falls to exactly zero by its release rate (or within its release time, from any level); set_target glides to and holds a new level, times are in seconds at the sample rate and survive a change of it, getters return what was set, and the output is the input times the envelope. The attack/release follower (times in milliseconds) computes y += (1-g)*(x-y) with g = exp(-1000/(time*sample_rate)) of the attack time when x is above y and of the release time otherwise (g = 0 for time zero), on |x| when rectifying, restarting at zero on reset or a change of time or sample rate. Mu-law compression and expansion follow the documented formulas, are monotone and odd, and undo each other.",
 ["histories", "inputs"], "all positive rates and times, sustain levels in (0,1), parameter changes while idle, any key-on (idle or releasing)/key-off/target history; all finite signals; mu >= 1",
 "These components have no test at all.",
 [I+"experimental/envelope", I+"experimental/quantizer"],
 [("per-sample state machine", I+"experimental/envelope/adsr.hpp operator()"), ("one-pole filter with two gains", I+"experimental/envelope/ar.hpp"), ("logarithmic companding", I+"experimental/quantizer/mu_law_compressor.hpp")],
 "runtime monitoring: 80-bit reference state machine compared on every sample of seeded key/parameter histories, closed-form and round-trip oracles, under ASan+UBSan",
 "Held on every executed history; a history stops being compared when a level comes within rounding of a state change (number reported).", state=[("state, level, rates", "envelope state", I+"experimental/envelope/adsr.hpp")])
prop("C11", "Random and noise generators draw from their declared distributions",
 "Binary and constant generators, the generator of each supported standard distribution, and the scalar rand(min,max) produce independent values with exactly the requested distribution and support, for every valid parameter set, and two generators never share their sequence. White noise is uniform in [min,max] (float, double, integers inclusive), brown noise is 3.5 times the leaky integral y = (y + 0.02*white)/1.02 of such noise (-6 dB per octave), pink noise its -3 dB per octave filtering, and Perlin noise stays within [-1,1].",
 ["inputs", "histories"], "all valid parameters of every distribution, any number of draws, float, double and integer types where the distribution allows them",
 "No test uses a random generator; most of them did not even compile.",
 [I+"random", I+"math/numeric.hpp"],
 [("a seeded engine and a standard distribution", I+"random/random_generator.hpp"), ("recursive filters of white noise", I+"random/noise/*.hpp")],
 "runtime monitoring: Kolmogorov-Smirnov, chi-square and autocorrelation monitors over recorded draws, inverse filtering of coloured noise, under ASan+UBSan with a reproducible clock",
 "Held on 20,000 draws per generator and parameter set; thresholds correspond to false-alarm probabilities below 1e-9 per comparison, so only deviations larger than about 2% of the distribution are seen.")
prop("C12", "Element-wise array algorithms are exact for every range",
 "For every range of floating-point samples (and integers for scaling, clipping, rectifying and differences), ceil, floor, round (halves away from zero), fix (towards zero) and rectify give the exact value for every finite or infinite sample; amplifier multiplies by its factor, optionally saturating at [min,max]; clipper saturates; normalize divides by the largest magnitude (which becomes one) and normalize_rms by the RMS (which becomes one) for signals that are not all zero; derivative keeps the first sample and then takes successive differences; concatenate and padder copy their input and append the second range or zeros up to the end of the destination. Each writes exactly its output range, leaves its input unchanged, gives the same result in place (output range = input range) as out of place and does not depend on the kind of iterator; the empty range is accepted.",
 ["inputs"], "all signals without NaN, all lengths, float/double/int and mixed element types, any iterator category",
 "Tests use one uniform random signal of one fixed length; halves, exact integers, infinities, huge values, ties, in-place use and non-pointer iterators are not sampled.",
 [I+"algorithm"],
 [("std::transform with a per-sample lambda", I+"algorithm/*.hpp"), ("normalisation factors", I+"algorithm/normalize.hpp")],
 "runtime monitoring: definition-level oracle (exact for rounding/clipping, 80-bit with propagated tolerance otherwise), in-place/iterator differential monitors and canaries, under ASan+UBSan on exact-size buffers",
 "Held on every executed signal; lengths dense to 40, sampled to 4097.")
prop("C13", "linspace, logspace and auditory spaces are evenly spaced for every size",
 "For every number of points N >= 0 and all finite end points in either order, linspace writes exactly N values x1 + i*(x2-x1)/(N-1), starting at x1, ending at x2 and monotone, each accurate to a few roundings whatever N is (N = 1 gives x1); logspace writes ten to the power of those. melspace, erbspace, barkspace and centspace fill exactly the given range with the scale values of the frequencies linearly spaced from min to max hertz (centspace: min >= 17 Hz), and audspace does the same for the scale it is given.",
 ["inputs"], "all N, all finite end points, float and double, any forward iterator",
 "Tests use one size with ascending end points in double precision; accumulation errors, descending and degenerate spaces and tiny sizes are not sampled.",
 [I+"algorithm/linspace.hpp", I+"algorithm/logspace.hpp", I+"auditory"],
 [("one multiplication per point", I+"algorithm/linspace.hpp"), ("linspace in hertz, then the scale conversion", I+"auditory/*space.hpp")],
 "runtime monitoring: 80-bit closed-form oracle with tolerances independent of N, monotonicity monitors, canaries, under ASan+UBSan",
 "Held on every executed space; up to 65,537 points.")
prop("C14", "Searches and comparisons agree with exhaustive examination",
 "For every sequence and value, index_of is the position of the first element equal to the value or -1, linear_search its iterator or last, contains whether there is one; on a sorted sequence binary_search is the iterator to the first equal element, or last when there is none. equal holds exactly when both ranges have the same length and equal (or predicate-matching) elements at every position; none of them reads outside its ranges or needs more than forward iterators.",
 ["inputs"], "all sequences (empty, with duplicates, value at the ends or absent), float, double, int and string elements, any forward iterator, unequal lengths",
 "Tests search random floating-point vectors without duplicates, through the Python binding only.",
 [I+"algorithm/indexof.hpp", I+"algorithm/linear_search.hpp", I+"algorithm/binary_search.hpp", I+"algorithm/equal.hpp", I+"meta/contains.hpp"],
 [("standard searches with the absent case mapped", I+"algorithm/*search.hpp")],
 "runtime monitoring: exhaustive-scan oracle over seeded sequences with duplicates and absent values, several iterator kinds and element types, under ASan+UBSan on exact-size buffers",
 "Held on every executed sequence.")
prop("C15", "Unit and auditory-scale converters follow their formulas and undo each other",
 "hertz2mel (1127.01048 ln(1+f/700)), hertz2erb (21.4 log10(1+0.00437f)), hertz2bark (Traunmueller, with the corrections below 2 and above 20.1 Bark) and hertz2cent (1200 log2(f/440)+5700) follow these formulas and increase, their inverses undo them over the audible range and far beyond (f >= 0; cent: f >= 16.4 Hz, odd in its argument), in float and double. mag2db/db2mag (20 log10), pow2db/db2pow (10 log10) and deg2rad/rad2deg follow theirs and undo each other; real2complex and complex2real carry every sample (infinities included) unchanged to the part it belongs to.",
 ["inputs"], "all frequencies >= 0 (cent: >= 16.4 Hz), all positive magnitudes and powers, all angles, all complex ranges, float and double, any iterator",
 "Tests compare 100 random values of each converter in double precision and never compose a converter with its inverse, nor cross the joints of the Bark correction deliberately.",
 [I+"auditory/converter", I+"converter"],
 [("closed forms", I+"auditory/converter/*.hpp"), ("closed forms", I+"converter/*.hpp")],
 "runtime monitoring: 80-bit formula oracle with conditioned tolerances, round-trip and monotonicity monitors, bisection oracle for the inverses, under ASan+UBSan",
 "Held on every executed value (24,000 frequencies per scale and precision in the quick tier, joints of the Bark correction included).")
prop("C16", "Descriptive statistics equal their definitions for every sample",
 "For every non-empty range of finite floats or doubles, min, max, minabs, maxabs, peak (first position and value of the maximum), peakabs (first position of the largest magnitude), mean, median (of the sorted sample), norm, central moments of order 1 to 8 (about the mean or a given centre), population variance (never negative), standard deviation, skewness m3/m2^1.5, kurtosis m4/m2^2, peak-to-peak (max - min) and peak-to-RMS equal their definitions to within rounding; the geometric, harmonic and power means do so for positive samples. The range itself is never modified and any forward iterator is accepted.",
 ["inputs"], "all non-empty ranges without NaN whose results neither overflow nor underflow; non-constant ones for skewness and kurtosis, not-all-zero ones for peak-to-RMS",
 "Tests draw one kind of random signal of one length; ties, even/odd lengths, single samples, constant, negative-only and offset signals are not sampled, and the median of any range was zero.",
 [I+"statistics", I+"converter/peak2peak.hpp", I+"converter/peak2rms.hpp"],
 [("single-pass accumulations", I+"statistics/*.hpp"), ("partial sort of a copy", I+"statistics/median.hpp")],
 "runtime monitoring: 80-bit definition oracle with error bounds propagated through each formula, unchanged-input monitor, several iterator kinds, under ASan+UBSan on exact-size buffers",
 "Held on every executed signal; lengths dense to 120, sampled to 4097; observed errors stay below a quarter of the bound.")
prop("C17", "Temporal features equal their definitions for every signal",
 "For every non-empty finite signal: energy, power, RMS, root sum of squares, loudness (energy^0.67), equivalent level (10 log10 of the power), duration (samples over rate), effective duration (samples whose magnitude exceeds threshold times the largest, over rate), zero-crossing rate (changes of sign, zero counting as positive, over N-1), silence (power below the threshold), SNR (10 log10 of the variance of the signal over that of the difference) and the average magnitude and squared difference functions (every lag 0..N-1, divided by N) equal their definitions to within rounding. continuous_leq returns the mean of the levels of its last N frames (frames before the first counting as zero) after any history of frames; inputs are never modified.",
 ["inputs", "histories"], "all finite signals whose squares neither overflow nor underflow, all lengths >= 1 (>= 2 for rates and variances), all thresholds, any frame history",
 "Tests draw one kind of random signal of one length; SNR, RMS of short signals, silence and continuous levels were wrong or did not compile.",
 [I+"feature/temporal", I+"feature/perceptual", I+"algorithm/silence.hpp"],
 [("single-pass accumulations", I+"feature/temporal/*.hpp"), ("moving average of frame levels", I+"feature/temporal/leq.hpp")],
 "runtime monitoring: 80-bit definition oracle with propagated tolerances, unchanged-input and adjacent-range monitors, frame-history model, under ASan+UBSan on exact-size buffers",
 "Held on every executed signal; comparisons at a threshold within rounding are only required to be at one side (number reported).", state=[("last N frame levels", "continuous_leq", I+"feature/temporal/leq.hpp")])
prop("C18", "Spectral and statistical features equal their definitions for every spectrum",
 "For every non-negative spectrum that is not all zero (positive for flatness and logarithmic flux), with x its values and f its frequencies or indices: centroid, spread (square root of the second moment about it), crest (max|x| over sum|x|), decrease (sum of (x_i-x_0)/i over sum of x_i, i >= 1), entropy (-sum p log2 p / log2 N, empty classes contributing nothing; spectral_entropy normalises first), flatness (geometric over arithmetic mean), flux (sum of distances of both normalised spectra; spectral_flux: squared differences), roll-off (index, over N, of the first bin at which the cumulated energy exceeds the given fraction, or of the last bin), slope (normalised regression slope), irregularity (squared differences of neighbours over squares of all but the last), variation (one minus the cosine similarity), skewness and kurtosis equal their definitions to within rounding. The spectral_* entry points agree with the statistical ones they name, identical spectra have no flux and no variation, inputs are never modified and forward iterators suffice (random access for irregularity).",
 ["inputs"], "all such spectra of all lengths (at least two bins where a definition needs them), float and double, any frequency axis that is not constant",
 "Tests compare one random spectrum length per feature; zero bins, peaks at the ends, steep or flat spectra and tiny lengths are not sampled, and flux, slope, variation, decrease and irregularity were wrong or NaN.",
 [I+"feature/statistics", I+"feature/spectral"],
 [("single-pass weighted sums", I+"feature/statistics/*.hpp"), ("thin spectral wrappers", I+"feature/spectral/*.hpp")],
 "runtime monitoring: 80-bit definition oracle with propagated tolerances, range and self-comparison monitors, differential monitor of wrappers against features, under ASan+UBSan on exact-size buffers",
 "Held on every executed spectrum; ill-conditioned slopes and roll-offs within rounding are accepted on both sides (numbers reported).")
IO = I+"io"
prop("C21", "Samples written with an encoder are read back unchanged",
 "For float, double, 16-bit and 32-bit samples, any number of channels from one up, any sample rate and any split into writes of whole frames, an encoder reports every sample as written and the file it leaves (also when destroyed without close) is a WAV file of that sample type, channel count, rate and exactly those samples. A decoder of the same type, of any internal buffer size that holds at least one frame, reports that rate, channel count and length and reads exactly those samples, whatever the sizes of the reads: each read transfers whole frames, returns how many samples it stored, stores nothing beyond them, and advances current() accordingly, until the end of the file where it returns 0; seek(f) continues at frame f. PCM files read as floating point are scaled to [-1,1), floating-point files of the other precision are converted to within rounding.",
 ["inputs", "histories"], "all sample values (extremes, denormals, signed zeros), channel counts 1-40, all lengths from 0, all partitions into reads, writes and seeks",
 "Tests decode three fixed mono sample files in one read; no test writes a file, reads several channels, reads in portions or seeks.",
 [IO],
 [("buffered frame transfers through libsndfile", IO+"/internal/decoder/libsndfile_decoder_impl.hpp"), ("typed writes", IO+"/internal/encoder/libsndfile_encoder_impl.hpp")],
 "runtime monitoring: round-trip monitor plus an independent RIFF/WAVE reader and writer as oracle, sentinel-filled exact-size read buffers, position monitor after each operation, under ASan+UBSan",
 "Held on every executed file; WAV only (the encoder writes nothing else).", observe=["samples, counts and positions reported by decoder", "bytes of the file left by encoder"])
prop("C22", "Audio file handles are opened, released and reported faithfully",
 "After any history of open (of valid, missing or malformed files), read or write, seek, close, re-open and destruction, a decoder or encoder has exactly one file handle when is_open() is true and none otherwise, every handle is closed exactly once, a failed open returns false and leaves it closed, a closed decoder has no frames and reads 0, a closed encoder writes 0. Interrupted or short system calls are invisible; when the file system stops accepting data, write() never reports more samples than the file then holds and those are a prefix of what was sent; truncated or corrupted files are refused or read without invalid memory accesses and without storing more than was asked, truncated ones giving a prefix of the original samples.",
 ["histories", "faults"], "all histories, all truncation points and byte corruptions of WAV files, short and EINTR transfers, file size limits",
 "Tests open three valid files once each and never fail an open, re-open, run out of space or read a damaged file.",
 [IO],
 [("open/close protocol", IO+"/internal/decoder/libsndfile_decoder_impl.hpp"), ("open/close protocol", IO+"/internal/encoder/libsndfile_encoder_impl.hpp"), ("single owner of the handle", IO+"/decoder.hpp")],
 "runtime monitoring: interposed sf_open/sf_close (handle ledger) and read/write (EINTR and short-transfer injection), descriptor count, RLIMIT_FSIZE faults, random histories against a model, corrupted files, under ASan+UBSan",
 "Held on every executed history and injected fault.", state=[("open handle", "SNDFILE handle of the object", IO+"/internal")], observe=["return values and accessors after every step", "calls of sf_open and sf_close", "files left behind"])
prop("C23", "Resampling a stream keeps every channel, count and frequency",
 "For every quality, ratio in [1/256, 256] and number of channels from one up, processing a stream block by block gives, per block, the same consumed and produced frame counts and the same samples as the underlying sample rate converter offered room for floor(ratio * frames) frames; channels do not influence each other, nothing is written beyond the reported frames, and reset() starts a new stream. Over a stream the output is the input on the new time grid: a sinusoid well below both Nyquist frequencies keeps its frequency times 1/ratio, its amplitude and, for the sinc qualities, its purity; valid_ratio(r) holds exactly for 1/256 <= r <= 256.",
 ["inputs", "histories"], "all ratios accepted, 1-6 channels, all five qualities, all block sizes including empty, any number of blocks and resets",
 "Tests resample one signal in one block with one channel and compare with nothing but the length; several channels overflowed the Python output.",
 [IO+"/resampler.hpp", IO+"/internal/resampler"],
 [("one src_process call per block", IO+"/internal/resampler/libsamplerate_impl.hpp")],
 "runtime monitoring: differential monitor against libsamplerate driven directly, channel-separation monitor, sinusoid fit, guarded output buffers, under ASan+UBSan",
 "Held on every executed stream.", state=[("converter state", "history of the stream", IO+"/internal/resampler")])
prop("C24", "Metadata of audio files is what the file says, and never invented",
 "For MP3 files with ID3v1, ID3v2.3, ID3v2.4 or both tags, FLAC files with Vorbis comments and WAV files with an ID3 chunk, whose texts are ASCII, title, artist, album, genre, track and year are those stored in the file, each empty or 0 when absent. For missing or unreadable files, directories, empty, truncated or corrupted files and files without tags, construction and every accessor still work and return empty text and 0 wherever nothing is stored; reading never modifies the file and never leaks a descriptor.",
 ["inputs", "faults"], "all ASCII tag values, all subsets of present fields, the formats listed, any byte corruption or truncation",
 "Tests read no tags at all (or those of one sample file); missing and unparsable files dereferenced a null tag.",
 [IO+"/metadata.hpp", IO+"/internal/metadata"],
 [("TagLib file reference", IO+"/internal/metadata/libtag_impl.hpp")],
 "runtime monitoring: independently encoded tags as oracle, mutation and truncation of them, descriptor and file-content monitors, under ASan+UBSan",
 "Held on every executed file.")
prop("C25", "Environment variables are set, found and read exactly, also by several threads",
 "For every history of set_env, get_env and exist over names given by arbitrary string views (not NUL-terminated ones included): set_env stores the value (without overwrite only if absent) in the process environment, get_env returns exactly the current value, also when empty or changed by other means, or not_found; exist holds exactly when the variable is present. An empty name gives error::empty, a name containing '=' error::invalid_argument, and neither changes anything; concurrent calls from any number of threads are race free and atomic: a read returns a value current at some moment between its start and end.",
 ["inputs", "histories", "schedules"], "all names and values of non-NUL bytes, all histories of single-threaded use, concurrent calls through the library with one writer per variable",
 "Tests set and read back random letters; never an empty value, a view into a longer text, an invalid name or a second thread.",
 [I+"core/system.hpp", "bindings/c/src/core.c"],
 [("one mutex around the C environment", I+"core/system.hpp")],
 "runtime monitoring: model of the environment after every step, interposed getenv/setenv with a shadow variable under ThreadSanitizer, linearizability monitor on sequence-numbered values, ASan+UBSan on exact-size views",
 "Held on every executed history and schedule.", state=[("environment", "variables of the process", "getenv/setenv")], observe=["results of set_env, get_env and exist", "the process environment"])
prop("C26", "Library information is that of the build; log messages are complete and filtered",
 "library_info reports the version numbers that make up version(), the date and time of compilation and the FFT, codec and resampling libraries selected by the USE_LIB* macros; system_info the compiler, system and architecture. A logger's text is the sequence of its items, each string (also with embedded NULs or given as a view) and number followed by one space, with tab, newline and colour codes where the manipulators put them; on destruction it is printed, once and unbroken also with concurrent loggers, exactly if its level is not off and not below the default level.",
 ["inputs", "configurations", "schedules"], "all supported combinations of USE_LIB* macros, gcc and clang, all level pairs, all item sequences (8-bit integers excepted)",
 "Tests look at one configuration, where all version numbers but the patch are zero, and never log anything.",
 [I+"core/library_info.hpp", I+"core/logger.hpp", I+"core/system.hpp", I+"core/internal/config.hpp"],
 [("preprocessor selection", I+"core/library_info.hpp"), ("buffered message printed by the destructor", I+"core/logger.hpp")],
 "runtime monitoring: expected-text oracle over random item sequences and all level pairs, captured output, five build configurations with distinct version numbers, concurrent loggers, under ASan+UBSan and ThreadSanitizer",
 "Held on every executed sequence; the file sink and pattern of the logger are documented but not implemented in eDSP and not claimed.")
prop("C27", "The C interface computes what it documents, for C callers",
 "The headers of bindings/c are valid C and every declared function can be linked from C; on every non-empty array of finite samples (the array functions also on empty ones), in double and in single precision (ENABLE_SINGLE), each function of algorithm.h, converter.h, statistics.h, spectral.h and windowing.h returns, or writes to exactly the documented number of output elements, what the C++ function it wraps defines (index or -1 for the searches, positive or 0 for contains and equal, moments of orders 1 to 8), leaves its inputs unchanged, and the element-wise functions work in place. core.h reports consistent version numbers, the build date and time and the selected libraries, and gets, sets and checks environment variables (null and a non-zero error when missing, non-zero from set_environment for an invalid name).",
 ["inputs"], "all functions of the C interface, all lengths, all finite samples (positive ones for the geometric, harmonic and power means, signals without spectral zeros for the cepstrum, at least two points for windows)",
 "The C functions are only tested through some of the Python wrappers, in double precision; peak_abs, get_build_date, C linkage and single precision are not.",
 ["bindings/c"],
 [("thin wrappers", "bindings/c/src")],
 "runtime monitoring: 80-bit definition oracle independent of the C++ library behind the C functions, called through a table compiled by a C compiler, guarded exact-size buffers, under ASan+UBSan, in both precisions",
 "Held on every executed call of all 83 functions.")
prop("C28", "The Python interface computes the same results on any array and rejects misuse",
 "Every function of the pedsp Python module, given one-dimensional real (for the complex transforms: complex) numpy arrays of any memory layout (sliced, reversed, read-only, unaligned, byte-swapped) and element type (integers, single precision), returns what its documented definition gives for those values as a new array of the documented length and type, leaves its arguments unchanged and leaks no reference to them. Arrays that are not one-dimensional, complex arrays where real ones are expected, pairs of different sizes and negative sizes raise a Python exception and nothing else: no call terminates the interpreter or touches memory outside its arrays. Filters, oscillators, encoders, decoders, resamplers and metadata readers behave as their C++ classes; results stay valid when the objects that made them are gone.",
 ["inputs", "histories"], "all functions and classes of the module, all lengths from one up (two for windows and inverse real transforms), all layouts and real dtypes, all finite values in the domain of the wrapped function; resampled blocks of at least 32 frames",
 "The Python tests always pass fresh contiguous float64 arrays of valid, equal sizes; no slice, other dtype or rejected call is sampled.",
 ["bindings/python"],
 [("conversion of arrays", "bindings/python/include/boost_numpy_dependencies.hpp"), ("wrappers", "bindings/python/src")],
 "runtime monitoring: the module built with ASan+UBSan and loaded into the interpreter, numpy definition oracles on 14 memory layouts, monitors of reference counts, input bytes, result ownership and exceptions",
 "Held on every executed call.", observe=["results, exceptions and reference counts seen from Python"])
prop("C30", "Every build configuration behaves the same and valid use trips no contract",
 "The behaviour the other properties describe does not depend on how a program using the library is built: with gcc and clang, as C++14 or C++17, at any optimisation level, and with or without NDEBUG, the library compiles, computes the results those properties specify and completes the same histories. In particular, with assertions enabled (no NDEBUG) no contract of the library (meta::expects, meta::ensure, assert) ever fails, and none ever aborts the program, for inputs within the documented domain of the function called.",
 ["configurations", "inputs"], "gcc and clang, C++14 and C++17, -O0 to -O3, NDEBUG on and off; all inputs in the domains of the other properties",
 "The tests are built in one configuration and call few functions that have contracts with inputs at their limits; every odd-order filter design aborted with assertions on.",
 ["include/edsp"],
 [("contracts", I+"meta/expects.hpp"), ("contracts", I+"meta/ensure.hpp"), ("language-version branches", I+"core/internal/config.hpp")],
 "runtime monitoring: the monitors of all other C++ properties rerun in other compiler, standard, optimisation and assertion configurations; a deviation counts when the reference build is quiet on the same case",
 "Held in every configuration executed (two quick, five thorough); C++20 is rejected by the vendored expected and outside the documented standards.")

prop("C31", "Every header works alone, with all others in any order, and in several units",
 "Each public header of include/edsp (everything outside internal/ and thirdparty/) can be included first and alone in a translation unit, and any set of them together in any order, in programs of any number of units including the same ones, and all that it declares can be used there: such programs compile and link with gcc and clang as C++14 and C++17, and a function gives the same result whichever of these ways it was included. Process-wide settings (the logger's default level, name and path, and the environment) are shared by all units of a program. The headers of the C interface are self-contained in C and in C++.",
 ["configurations", "inputs"], "all public headers; single, all-headers and multi-unit programs; all include orders; gcc and clang, C++14 and C++17",
 "The test suite includes headers in one order, several per unit, and never one alone; eleven headers did not compile on their own and two pairs not in one order.",
 ["include/edsp", "bindings/c/include"],
 [("include lists and namespaces", "include/edsp"), ("function-local static settings", I+"core/logger.hpp")],
 "runtime monitoring: one unit per header loaded alone as a shared object, the same units linked into one program, and units with all headers in several orders; all results compared on seeded inputs under ASan+UBSan; settings written in one unit and read in another",
 "Held for all headers and the orders built (3 quick, 9 thorough, per compiler).", observe=["compilation, linking and results of programs using the headers"])

prop("C32", "optional, any, variant, expected, span and string_view follow their models",
 "edsp::optional, any, variant and string_view behave like their C++17 standard counterparts also in C++14 builds, expected like a value-or-error and span like a view of an array. After every history of construction, assignment (self-assignment and swaps included), emplacement, moves, resets and failing copies: each object holds exactly the value and alternative last put in (a moved-from one its moved-from value), sources of copies are unchanged, every contained object is constructed and destroyed exactly once on suitably aligned memory, access to an absent value or other alternative throws the documented exception, and comparison, visit, value_or and hash follow the contents. string_view's size, iteration, searches, substr, compare, comparison, trimming and output agree with std::string on the same characters; span's parts and elements with the underlying array. No operation touches memory outside the viewed range.",
 ["inputs", "histories"], "all histories of operations, all contained types with working copy and move, all strings (embedded NULs included) and positions; parts within bounds for span",
 "No test uses these types directly; the library's own use covers a few operations.",
 [I+"types", I+"thirdparty/nonstd"],
 [("vendored C++14 implementations, std aliases in C++17", I+"thirdparty/nonstd")],
 "runtime monitoring: random histories on four objects against value models after every step, contained type registering every birth, death and use, failing copies injected, std::string and vector oracles on exact-size buffers, under ASan+UBSan",
 "Held on every executed history; mutating functions that fail half way are only required to leave a consistent object.", state=[("contents", "value, alternative or error of each object", "has_value/index/error")], observe=["contents of the objects", "exceptions", "births and deaths of contained objects"])
