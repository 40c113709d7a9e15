"""C31: what a program that includes nothing but one public header does with it.

Available: const double* x (16 positive values), s (16 signed values), double y[64] (zeroed), const char* dir (scratch
directory holding in.wav), OUT(v) records one number, RANGE(p, n) records n of them.
"""
F = "edsp::filter::"
H = {}
def h(name, code):
    assert name not in H, name
    H[name] = code
E1 = lambda f: "edsp::%s(s, s + 16, y); RANGE(y, 16);" % f
h("algorithm/amplifier.hpp", "edsp::amplifier(s, s + 16, y, 2.5); RANGE(y, 16); edsp::amplifier(s, s + 16, y, 3.0, -1.0, 1.0); RANGE(y, 16);")
h("algorithm/binary_search.hpp", "double z[4] = {1, 2, 5, 9}; OUT(edsp::binary_search(z, z + 4, 5.0) - z); OUT(edsp::binary_search(z, z + 4, 4.0) - z);")
for n in ("ceil", "fix", "floor", "round", "rectify", "derivative", "normalize"):
    h("algorithm/%s.hpp" % n, E1(n))
h("algorithm/clipper.hpp", "edsp::clipper(s, s + 16, y, -0.5, 0.5); RANGE(y, 16);")
h("algorithm/concatenate.hpp", "edsp::concatenate(s, s + 16, x, x + 16, y); RANGE(y, 32);")
h("algorithm/equal.hpp", "OUT(edsp::equal(s, s + 16, s, s + 16)); OUT(edsp::equal(s, s + 16, x, x + 15));")
h("algorithm/indexof.hpp", "OUT(edsp::index_of(s, s + 16, s[7])); OUT(edsp::index_of(x, x + 16, -1.0));")
h("algorithm/linear_search.hpp", "OUT(edsp::linear_search(s, s + 16, s[7]) - s);")
h("algorithm/linspace.hpp", "edsp::linspace(y, s[0], x[1], 16); RANGE(y, 16);")
h("algorithm/logspace.hpp", "edsp::logspace(y, 0.5, 2.5, 16); RANGE(y, 16);")
h("algorithm/padder.hpp", "y[20] = 4; edsp::padder(s, s + 16, y, y + 32); RANGE(y, 32);")
h("algorithm/silence.hpp", "OUT(edsp::silence(s, s + 16, 1e-9)); OUT(edsp::silence(s, s + 16, 1e9));")
h("algorithm.hpp", "edsp::ceil(s, s + 16, y); edsp::floor(y, y + 16, y); edsp::linspace(y + 16, 0.0, 1.0, 8); RANGE(y, 24); OUT(edsp::index_of(s, s + 16, s[3])); edsp::logspace(y, 0.0, 1.0, 4); RANGE(y, 4); edsp::normalize(s, s + 16, y); RANGE(y, 16); edsp::padder(s, s + 16, y, y + 20); RANGE(y, 20);")
for n, a in (("mel", "100.0, 4000.0"), ("erb", "100.0, 4000.0"), ("bark", "100.0, 4000.0"), ("cent", "100.0, 4000.0")):
    h("auditory/%sspace.hpp" % n, "edsp::auditory::%sspace(y, y + 16, %s); RANGE(y, 16);" % (n, a))
h("auditory/audspace.hpp", "edsp::auditory::audspace(y, 100.0, 4000.0, 16, edsp::auditory::auditory_scale::mel); RANGE(y, 16); edsp::auditory::audspace(y, 100.0, 4000.0, 16, edsp::auditory::auditory_scale::bark); RANGE(y, 16); edsp::auditory::audspace(y, 100.0, 4000.0, 16, edsp::auditory::auditory_scale::erb); RANGE(y, 16); edsp::auditory::audspace(y, 100.0, 4000.0, 16, edsp::auditory::auditory_scale::cent); RANGE(y, 16);")
for a in ("mel", "erb", "bark", "cent"):
    h("auditory/converter/hertz2%s.hpp" % a, "for (int i = 0; i < 16; ++i) OUT(edsp::auditory::converter::hertz2%s(1000 * x[i]));" % a)
    h("auditory/converter/%s2hertz.hpp" % a, "for (int i = 0; i < 16; ++i) OUT(edsp::auditory::converter::%s2hertz(3 * x[i]));" % a)
h("auditory/rangecompress.hpp", "")
h("auditory/rangeexpand.hpp", "")
for a in ("db2mag", "db2pow", "deg2rad", "mag2db", "pow2db", "rad2deg"):
    h("converter/%s.hpp" % a, "for (int i = 0; i < 16; ++i) OUT(edsp::converter::%s(x[i]));" % a)
h("converter/peak2peak.hpp", "OUT(edsp::converter::peak2peak(s, s + 16));")
h("converter/peak2rms.hpp", "OUT(edsp::converter::peak2rms(s, s + 16));")
h("converter/real2complex.hpp", "std::complex<double> z[16]; edsp::real2complex(s, s + 16, z); for (auto& v : z) { OUT(v.real()); OUT(v.imag()); }")
h("converter/complex2real.hpp", "std::complex<double> z[16]; for (int i = 0; i < 16; ++i) z[i] = std::complex<double>(s[i], x[i]); edsp::complex2real(z, z + 16, y, y + 16); RANGE(y, 32);")
h("converter.hpp", "OUT(edsp::converter::db2mag(s[0])); OUT(edsp::converter::pow2db(x[0])); OUT(edsp::converter::peak2rms(s, s + 16)); OUT(edsp::converter::rad2deg(s[3]));")
h("core/internal/config.hpp", "")
h("core/library_info.hpp", "OUT(edsp::library_info::major_version()); OUT(edsp::library_info::patch_version()); OUT(edsp::library_info::version()[0]); OUT(edsp::library_info::build_date()[0]);")
h("core/logger.hpp", "edsp::logger l(edsp::logger::levels::off); l << \"text\" << 12 << edsp::red << 2.5 << edsp::endc; OUT(l.str().size()); OUT(l.level()); OUT(edsp::logger::default_level());")
h("core/system.hpp", "OUT(static_cast<int>(edsp::system_info::compiler())); OUT(static_cast<int>(edsp::system_info::os())); OUT(static_cast<int>(edsp::system_info::processor())); OUT(static_cast<int>(edsp::system_env::set_env(\"EDSP_HEADERS\", \"a b\"))); auto v = edsp::system_env::get_env(\"EDSP_HEADERS\"); OUT(v.has_value()); OUT(v.has_value() ? v.value().size() : 0); OUT(edsp::system_env::exist(\"EDSP_HEADERS\")); OUT(static_cast<int>(edsp::system_env::get_env(\"EDSP_NONE_SUCH\").error()));")
h("experimental/envelope/adsr.hpp", "edsp::envelope::adsr<double> e; e.key_on(); for (int i = 0; i < 16; ++i) OUT(e(x[i])); e.key_off(); for (int i = 0; i < 16; ++i) OUT(e(x[i]));")
h("experimental/envelope/ar.hpp", "edsp::envelope::ar<double> e(8000, 1, 20); e.apply(s, s + 16, y); RANGE(y, 16);")
h("experimental/quantizer/mu_law_compressor.hpp", "edsp::quantizer::mu_law_compression(s, s + 16, y, 4.0, 255); RANGE(y, 16); edsp::quantizer::inverse_mu_law_compression(s, s + 16, y, 4.0, 255); RANGE(y, 16);")
h("feature/perceptual/loudness.hpp", "OUT(edsp::feature::loudness(s, s + 16));")
for a, ex in (("centroid", ""), ("crest", ""), ("decrease", ""), ("entropy", ""), ("flatness", ""), ("flux", None), ("rolloff", ", 0.85"), ("slope", ", s"), ("spread", ""), ("variation", ", s")):
    c = "OUT(edsp::feature::statistics::%s(x, x + 16%s));" % (a, ex) if ex is not None else "OUT(edsp::feature::statistics::flux<edsp::distances::manhattan>(x, x + 16, x + 0));"
    h("feature/statistics/%s.hpp" % a, c)
for a, ex in (("centroid", ", s"), ("crest", ""), ("decrease", ""), ("entropy", ""), ("flatness", ""), ("flux", ", x"), ("irregularity", ""), ("kurtosis", ""), ("rolloff", ", 0.85"), ("skewness", ""), ("slope", ", s"), ("spread", ", s"), ("variation", ", s")):
    h("feature/spectral/spectral_%s.hpp" % a, "OUT(edsp::feature::spectral::spectral_%s(x, x + 16%s));" % (a, ex))
for a in ("amdf", "asdf"):
    h("feature/temporal/%s.hpp" % a, "edsp::feature::%s(s, s + 16, y); RANGE(y, 16);" % a)
for a in ("azcr", "energy", "power", "rms", "rssq"):
    h("feature/temporal/%s.hpp" % a, "OUT(edsp::feature::%s(s, s + 16));" % a)
h("feature/temporal/leq.hpp", "OUT(edsp::feature::leq(s, s + 16)); edsp::feature::continuous_leq<double> c(3); OUT(c.extract(s, s + 16)); OUT(c.extract(x, x + 16));")
h("feature/temporal/duration.hpp", "OUT(edsp::feature::duration(s, s + 16, 8000.0)); OUT(edsp::feature::effective_duration(s, s + 16, 8000.0, 0.4));")
h("feature/temporal/snr.hpp", "OUT(edsp::feature::snr(s, s + 16, x));")
h("filter/biquad.hpp", F + "biquad<double> b(1.5, 0.2, 0.1, 0.3, 0.4, 0.5); b.filter(s, s + 16, y); RANGE(y, 16); OUT(b.stability());")
h("filter/biquad_cascade.hpp", F + "biquad_cascade<double, 3> c; c.emplace_back(1.5, 0.2, 0.1, 0.3, 0.4, 0.5); c.push_back(" + F + "biquad<double>(1.0, 0.1, 0.1, 0.3, 0.4, 0.5)); c.filter(s, s + 16, y); RANGE(y, 16); OUT(c.size());")
for a in ("average", "median", "rms"):
    h("filter/moving_%s_filter.hpp" % a, F + "moving_%s<double> f(5); f.filter(s, s + 16, y); RANGE(y, 16); f.reset(); OUT(f(x[0]));" % a)
CASC = "for (std::size_t i = 0; i < c.size(); ++i) { OUT(c[i].b0()); OUT(c[i].b1()); OUT(c[i].a1()); OUT(c[i].a2()); }"
h("filter.hpp", "{ auto c = edsp::filter::make_filter<double, edsp::filter::designer_type::Butterworth, edsp::filter::filter_type::BandPass, 4>(3, 8000.0, 1000.0, 400.0); c.filter(s, s + 16, y); RANGE(y, 16); " + CASC + " } { auto c = edsp::filter::make_filter<double, edsp::filter::designer_type::ChebyshevI, edsp::filter::filter_type::LowPass, 4>(4, 8000.0, 1000.0, 1.0); " + CASC + " } { auto c = edsp::filter::make_filter<double, edsp::filter::designer_type::ChebyshevII, edsp::filter::filter_type::HighPass, 5>(5, 8000.0, 1000.0, 30.0); " + CASC + " } { auto b = edsp::filter::make_filter<double, edsp::filter::designer_type::RBJ, edsp::filter::filter_type::LowPass, 2>(1000.0, 8000.0, 0.7); OUT(b.b0()); OUT(b.a1()); b = edsp::filter::make_filter<double, edsp::filter::designer_type::Zolzer, edsp::filter::filter_type::HighPass, 2>(1000.0, 8000.0, 0.7); OUT(b.b0()); OUT(b.a1()); }")
WAV = "edsp::io::decoder<float> d; OUT(d.open(std::string(dir) + \"/in.wav\")); float b[40] = {}; OUT(d.channels()); OUT(d.sample_rate()); OUT(d.read(b, b + 40)); for (float v : b) OUT(v); d.close();"
ENC = "edsp::io::encoder<double> e(8000, 2); OUT(e.open(std::string(dir) + \"/out.wav\")); OUT(e.write(s, s + 16)); e.close(); OUT(e.is_open());"
RES = "edsp::io::resampler<float> r(1, edsp::io::resample_quality::linear, 2.0f); float a[16], b[64] = {}; for (int i = 0; i < 16; ++i) a[i] = static_cast<float>(s[i]); auto p = r.process(a, a + 16, b); OUT(p.first); OUT(p.second); for (float v : b) OUT(v); OUT(edsp::io::resampler<float>::valid_ratio(2.0f));"
h("io/decoder.hpp", WAV)
h("io/encoder.hpp", ENC)
h("io/resampler.hpp", RES)
h("io/metadata.hpp", "edsp::io::metadata m(std::string(dir) + \"/in.wav\"); OUT(m.title().size()); OUT(m.year()); OUT(m.track());")
h("io.hpp", "{ " + WAV + " } { " + ENC + " } { " + RES + " }")
h("math/complex.hpp", "OUT(edsp::math::is_inf(edsp::math::infinity<double>())); OUT(edsp::math::is_nan(std::complex<double>(s[0], s[1])));")
h("math/constant.hpp", "OUT(edsp::constants<double>::pi); OUT(edsp::constants<float>::two_pi); OUT(edsp::constants<double>::ln_ten);")
h("math/numeric.hpp", "OUT(edsp::is_prime(97)); OUT(edsp::next_power_two(33)); OUT(edsp::square(s[0])); OUT(edsp::sign(s[1])); OUT(edsp::fract(x[0])); OUT(edsp::distance<edsp::distances::euclidean>(s[0], s[1])); double r = edsp::math::rand<double>(2, 3); OUT(r >= 2 && r < 3); int q = edsp::math::rand<int>(2, 5); OUT(q >= 2 && q <= 5);")
h("math.hpp", "OUT(edsp::square(s[0])); OUT(edsp::constants<double>::pi); OUT(edsp::math::is_inf(edsp::math::infinity<float>()));")
h("meta/advance.hpp", "OUT(*edsp::meta::advance(s, 3));")
h("meta/cast.hpp", "OUT(edsp::meta::sc<int>(3.9));")
h("meta/contains.hpp", "OUT(edsp::meta::contains(s, s + 16, s[5])); OUT(edsp::meta::contains(x, x + 16, -1.0));")
h("meta/data.hpp", "OUT(edsp::meta::data(y) == y); OUT(edsp::meta::data(x) == x);")
h("meta/empty.hpp", "OUT(edsp::meta::empty(y));")
h("meta/ensure.hpp", "edsp::meta::ensure(true); edsp::meta::ensure(x[0] > 0, \"positive\");")
h("meta/expects.hpp", "edsp::meta::expects(true); edsp::meta::expects(x[0] > 0, \"positive\");")
h("meta/equal.hpp", "OUT(edsp::meta::equal(s[0], s[0])); OUT(edsp::meta::equal(1, 2));")
h("meta/is_char.hpp", "OUT(edsp::meta::is_char<char>::value); OUT(edsp::meta::is_char<int>::value);")
h("meta/is_iterator.hpp", "OUT(edsp::meta::is_iterator<const double*>::value); OUT(edsp::meta::is_iterator<double>::value);")
h("meta/is_null.hpp", "OUT(edsp::meta::is_null(x)); OUT(edsp::meta::is_null(static_cast<const double*>(nullptr))); OUT(edsp::meta::is_null(\"\"));")
h("meta/is_signed.hpp", "OUT(edsp::meta::is_signed<int>::value); OUT(edsp::meta::is_signed<unsigned>::value);")
h("meta/is_unsigned.hpp", "OUT(edsp::meta::is_unsigned<int>::value); OUT(edsp::meta::is_unsigned<unsigned>::value);")
h("meta/iterator.hpp", "OUT(sizeof(edsp::meta::value_type_t<const float*>));")
h("meta/size.hpp", "OUT(edsp::meta::size(y));")
h("meta/type_traits.hpp", "OUT(sizeof(edsp::meta::remove_cv_t<const char>)); OUT(sizeof(edsp::meta::conditional_t<true, char, int>));")
h("meta/unused.hpp", "edsp::meta::unused(x); edsp::meta::unused(x, \"why\");")
OSC = {"sinusoidal": "edsp::oscillators::sin_oscillator<double> o(1.5, 8000, 300, 0.25)", "square": "edsp::oscillators::square_oscillator<double> o(1.5, 8000, 300, 0.25)", "sawtooth": "edsp::oscillators::sawtooth_oscillator<double> o(1.5, 8000, 300, 0.25)", "triangular": "edsp::oscillators::triangular_oscillator<double> o(1.5, 8000, 300)"}
for a, c in OSC.items():
    h("oscillators/%s.hpp" % a, c + "; for (int i = 0; i < 64; ++i) OUT(o());")
h("oscillator.hpp", "edsp::oscillators::oscillator<double> o(1.5, 8000, 300, 0.25); OUT(o.amplitude()); OUT(o.frequency()); OUT(o.sample_rate());")
h("random/binary_generator.hpp", "edsp::random::binary_generator<double> g(0.5); for (int i = 0; i < 50; ++i) { double v = g(); OUT(v == 0 || v == 1); }")
h("random/constant_generator.hpp", "edsp::random::constant_generator<double> g(2.5); OUT(g());")
h("random/noise/white_noise_generator.hpp", "edsp::random::white_noise_generator<double> g(-1, 2); for (int i = 0; i < 50; ++i) { double v = g(); OUT(v >= -1 && v <= 2); }")
for a in ("brown", "pink"):
    h("random/noise/%s_noise_generator.hpp" % a, "edsp::random::%s_noise_generator<double> g(-1, 1); for (int i = 0; i < 50; ++i) { double v = g(); OUT(v > -50 && v < 50); }" % a)
h("random/noise/perlin_noise_generator.hpp", "edsp::random::perlin_noise_generator<double> g; for (int i = 0; i < 50; ++i) { double v = g(); OUT(v >= -1 && v <= 1); }")
h("random/random_generator.hpp", "edsp::random::random_generator<edsp::random::DistributionType::Uniform, double> g(2.0, 3.0); edsp::random::random_generator<edsp::random::DistributionType::Poisson, int> p(4.0); for (int i = 0; i < 50; ++i) { double v = g(); OUT(v >= 2 && v < 3); OUT(p() >= 0); }")
h("random.hpp", "edsp::random::random_generator<edsp::random::DistributionType::Uniform, double> g(2.0, 3.0); edsp::random::perlin_noise_generator<float> q; for (int i = 0; i < 50; ++i) { double v = g(); OUT(v >= 2 && v < 3); v = q(); OUT(v >= -1 && v <= 1); }")
for a, c in (("cepstrum", "cepstrum(x, x + 16, y); RANGE(y, 16);"), ("convolution", "conv(s, s + 16, x, y); RANGE(y, 16);"), ("correlation", "xcorr(s, s + 16, y); RANGE(y, 16); edsp::xcorr(s, s + 16, x, y, edsp::CorrelationScale::Biased); RANGE(y, 16);"),
             ("dct", "dct(s, s + 16, y); RANGE(y, 16); edsp::idct(s, s + 16, y); RANGE(y, 16);"), ("hartley", "hartley(s, s + 16, y); RANGE(y, 16);"), ("spectrum", "spectrum(s, s + 16, y); RANGE(y, 9);")):
    h("spectral/%s.hpp" % a, "edsp::" + c)
CP = "for (auto& v : z) { OUT(v.real()); OUT(v.imag()); }"
h("spectral/dft.hpp", "std::complex<double> z[9]; edsp::dft(s, s + 16, z); " + CP + " edsp::idft(z, z + 9, y); RANGE(y, 16); std::complex<double> w[9]; edsp::cdft(z, z + 9, w); edsp::cidft(w, w + 9, z); " + CP)
h("spectral/fft_engine.hpp", "edsp::fft_engine<double> e(16); std::complex<double> z[9]; e.dft(s, z); " + CP + " e.dct(s, y); RANGE(y, 16); e.idft(z, y); e.idft_scale(y); RANGE(y, 16);")
h("spectral/hilbert.hpp", "std::complex<double> z[16]; edsp::hilbert(s, s + 16, z); " + CP)
for a, c in (("generalized_mean", "generalized_mean(x, x + 16, 3)"), ("geometric_mean", None), ("harmonic_mean", None), ("kurtosis", None), ("max", None), ("mean", None), ("median", None), ("min", None), ("moment", "moment<3>(s, s + 16)"), ("norm", None), ("peak", "peak(s, s + 16).first"), ("skewness", None), ("variance", None)):
    h("statistics/%s.hpp" % a, "OUT(edsp::statistics::%s);" % (c or a + "(x, x + 16)"))
h("statistics/histogram.hpp", "edsp::statistics::histogram<double> g(4, 8); (void) g;")
h("statistics.hpp", "OUT(edsp::statistics::mean(s, s + 16)); OUT(edsp::statistics::median(s, s + 16)); OUT(edsp::statistics::kurtosis(s, s + 16)); OUT(edsp::statistics::maxabs(s, s + 16)); OUT(edsp::statistics::norm(s, s + 16)); OUT(edsp::statistics::standard_deviation(s, s + 16));")
h("string/join.hpp", "std::string r; const char* p[3] = {\"ab\", \"c\", \"def\"}; edsp::string::join(p, p + 3, r, '-'); OUT(r == \"ab-c-def\");")
h("string/split.hpp", "std::string r[4]; edsp::string::split(std::string(\"ab-c-def\"), r, '-'); OUT(r[0] == \"ab\"); OUT(r[2] == \"def\"); OUT(r[3].empty());")
h("string/to_lower.hpp", "char t[4] = {'A', 'b', '1', 'Z'}; edsp::string::tolower(t, t + 4, t); OUT(t[0]); OUT(t[1]); OUT(t[2]); OUT(t[3]);")
h("string/to_upper.hpp", "char t[4] = {'a', 'B', '1', 'z'}; edsp::string::toupper(t, t + 4, t); OUT(t[0]); OUT(t[1]); OUT(t[2]); OUT(t[3]);")
h("string/trim.hpp", "std::string t = \"  a b \"; edsp::string::trim(t); OUT(t == \"a b\");")
h("types/any.hpp", "edsp::any a(3); OUT(a.has_value());")
h("types/optional.hpp", "edsp::optional<int> a(3); OUT(*a); OUT(edsp::optional<int>().has_value());")
h("types/expected.hpp", "edsp::expected<int, char> a(3); OUT(*a); a = edsp::make_unexpected('c'); OUT(a.has_value()); OUT(a.error());")
h("types/variant.hpp", "edsp::variant<int, double> a(2.5); OUT(a.index());")
h("types/span.hpp", "edsp::span<const double> a(s, 16); OUT(a.size()); OUT(a[3]);")
h("types/ring_span.hpp", "edsp::ring_span<double> a(y, y + 4); for (int i = 0; i < 7; ++i) a.push_back(s[i]); OUT(a.front()); OUT(a.back()); OUT(a.size());")
h("types/string_view.hpp", "edsp::string_view a(\"some text\", 4); OUT(a.size()); OUT(a == \"some\");")
h("types/timestamp.hpp", "edsp::timestamp t = 5; OUT(t);")
for a in ("ring_buffer<double> r(4)", "fixed_ring_buffer<double, 4> r"):
    h("types/%s.hpp" % a.split("<")[0], "edsp::%s; for (int i = 0; i < 7; ++i) r.push_back(s[i]); OUT(r.size()); OUT(r.front()); OUT(r.back()); for (auto v : r) OUT(v);" % a)
W = {"blackman_nuttall": "blackman_nutall"}
WIN = ("bartlett", "blackman", "blackman_harris", "blackman_nuttall", "boxcar", "flattop", "hamming", "hanning", "rectangular", "triangular", "welch")
for a in WIN:
    h("windowing/%s.hpp" % a, "edsp::windowing::%s(y, y + 16); RANGE(y, 16);" % W.get(a, a))
h("windowing.hpp", "edsp::windowing::make_window<edsp::windowing::WindowType::Hanning>(y, y + 16); RANGE(y, 16); edsp::windowing::make_window<edsp::windowing::WindowType::BlackmanNuttall>(y, y + 16); RANGE(y, 16);")
# headers that need a third-party library which is not installed here, or that only serve others
NOT_ALONE = [r"/internal/"]
