/* Every function of the C interface, as a C client sees it. */
#include <cedsp/types.h>
#include <cedsp/algorithm.h>
#include <cedsp/converter.h>
#include <cedsp/core.h>
#include <cedsp/spectral.h>
#include <cedsp/statistics.h>
#include <cedsp/windowing.h>
#define CAPI(X) X(array_scale) X(array_scale_clip) X(array_clip) X(array_concatenate) X(array_ceil) X(array_floor) X(array_round) X(array_trunc) X(array_abs) X(array_linspace) X(array_logspace) \
  X(array_padder) X(array_normalize) X(equal) X(binary_search) X(linear_search) X(index_of) X(contains) X(complex2real) X(ri2complex) X(real2complex) X(db2mag) X(db2pow) X(deg2rad) X(mag2db) \
  X(peak2peak) X(peak2rms) X(pow2db) X(rad2deg) X(get_minor_version) X(get_major_version) X(get_patch_version) X(get_version) X(get_build_date) X(get_build_time) X(get_fft_library) \
  X(get_codec_library) X(get_resample_library) X(get_environment) X(set_environment) X(exist_environment) X(get_fft_size) X(get_ifft_size) X(cepstrum) X(conv) X(xcorr) X(hartley) X(hilbert) \
  X(spectrum) X(dct) X(idct) X(fft) X(ifft) X(complex_fft) X(complex_ifft) X(kurtosis) X(skewness) X(moment) X(geometric_mean) X(generalized_mean) X(harmonic_mean) X(max) X(min) X(peak) \
  X(max_abs) X(min_abs) X(peak_abs) X(mean) X(median) X(variance) X(standard_deviation) X(norm) X(bartlett) X(blackman) X(blackman_harris) X(blackman_nutall) X(boxcar) X(flattop) X(hamming) \
  X(hanning) X(triangular) X(welch) X(rectangular)
#define CAPI_FIELD(f) __typeof__(f)* f_##f;
struct capi_table { CAPI(CAPI_FIELD) };
#ifdef __cplusplus
extern "C"
#endif
const struct capi_table* capi(void);
