// Concurrency: independent calls on disjoint data from several threads give the sequential results.
// Two monitors: (1) an interposed wrapper around FFTW's planner, which is documented as non-reentrant,
// records every entry and flags two threads inside at once; (2) bit-for-bit comparison with the sequential run.
// The same file is built a second time under ThreadSanitizer.
#include "vm.hpp"
#include <atomic>
#include <thread>
#include <dlfcn.h>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/windowing.hpp>
#include <edsp/filter.hpp>
#include <edsp/oscillator.hpp>
#include <edsp/string/split.hpp>
#include <edsp/string/join.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include <edsp/string/trim.hpp>
#include <edsp/statistics.hpp>
#include <edsp/math/constant.hpp>
#include <edsp/feature/statistics/centroid.hpp>
#include <edsp/feature/statistics/spread.hpp>
#include <edsp/feature/statistics/rolloff.hpp>
#include <edsp/feature/statistics/entropy.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/algorithm/normalize.hpp>
#include <edsp/algorithm/linspace.hpp>
#include <edsp/auditory/melspace.hpp>
#include <edsp/io/resampler.hpp>
#include <edsp/io/encoder.hpp>
#include <edsp/io/decoder.hpp>
using namespace vm;

// ---------------------------------------------------------------- planner monitor
static std::atomic<int> g_inside[2];   // the double and the single precision library have a planner each
static std::atomic<long> g_entries{0}, g_overlaps{0}, g_threads_mask{0}, g_switches{0};
static std::atomic<int> g_last{-1}, g_delay{0};
static thread_local int t_id = 0;
struct Planner {
    int lib;
    explicit Planner(const char* fn) : lib(fn[4] == 'f') {
        ++g_entries;
        g_threads_mask |= 1L << t_id;
        if (g_last.exchange(t_id) != t_id) ++g_switches;
        if (g_inside[lib].fetch_add(1) != 0) ++g_overlaps;
        int d = g_delay.load();               // widens the window in which another thread could enter
        if (d) std::this_thread::sleep_for(std::chrono::microseconds(d * ((g_entries.load() * 2654435761u >> 7) % 4)));
    }
    ~Planner() { g_inside[lib].fetch_sub(1); }
};
template <class F> F real_fn(const char* n) { void* p = dlsym(RTLD_NEXT, n); if (!p) { std::fprintf(stderr, "no %s\n", n); std::_Exit(3); } return reinterpret_cast<F>(p); }
#define WRAP(ret, name, params, args) extern "C" ret name params { static auto f = real_fn<ret(*) params>(#name); Planner guard(#name); return f args; }
#define WRAP_ALL(P, R, C)                                                                                               \
    WRAP(P##_plan, P##_plan_dft_1d, (int n, C* i, C* o, int s, unsigned f_), (n, i, o, s, f_))                            \
    WRAP(P##_plan, P##_plan_dft_r2c_1d, (int n, R* i, C* o, unsigned f_), (n, i, o, f_))                                  \
    WRAP(P##_plan, P##_plan_dft_c2r_1d, (int n, C* i, R* o, unsigned f_), (n, i, o, f_))                                  \
    WRAP(P##_plan, P##_plan_r2r_1d, (int n, R* i, R* o, P##_r2r_kind k, unsigned f_), (n, i, o, k, f_))                    \
    WRAP(P##_plan, P##_plan_dft, (int r, const int* n, C* i, C* o, int s, unsigned f_), (r, n, i, o, s, f_))              \
    WRAP(P##_plan, P##_plan_dft_r2c, (int r, const int* n, R* i, C* o, unsigned f_), (r, n, i, o, f_))                    \
    WRAP(P##_plan, P##_plan_dft_c2r, (int r, const int* n, C* i, R* o, unsigned f_), (r, n, i, o, f_))                    \
    WRAP(P##_plan, P##_plan_r2r, (int r, const int* n, R* i, R* o, const P##_r2r_kind* k, unsigned f_), (r, n, i, o, k, f_)) \
    WRAP(void, P##_destroy_plan, (P##_plan p), (p))                                                                       \
    WRAP(void, P##_cleanup, (void), ())
WRAP_ALL(fftw, double, fftw_complex)
WRAP_ALL(fftwf, float, fftwf_complex)

// ---------------------------------------------------------------- work items: a pure function of (kind, seed)
using Out = std::vector<double>;
template <class V> void put(Out& o, const V& v) { for (auto& x : v) o.push_back(static_cast<double>(x)); }
template <class T> void put(Out& o, const std::vector<std::complex<T>>& v) { for (auto& x : v) { o.push_back(x.real()); o.push_back(x.imag()); } }
enum { K_DFT, K_CDFT, K_DCT, K_HARTLEY, K_CONV, K_XCORR, K_CEPS, K_HILB, K_SPEC, NFFTK, K_WIN = NFFTK, K_FILTER, K_MOVING, K_OSC, K_STRING, K_STAT, K_FEAT, K_ARRAY, K_RESAMPLE, K_FILE, NK };
static const char* kname(int k) { static const char* n[] = {"dft", "cdft", "dct", "hartley", "conv", "xcorr", "cepstrum", "hilbert", "spectrum", "windows", "filters", "moving", "oscillators", "strings", "statistics", "features", "arrays", "resampler", "files"}; return n[k]; }

template <class T> Out fft_work(int kind, uint64_t seed) {
    Rng r(seed); size_t n = static_cast<size_t>(r.range(2, 90)) * 2; auto x = signal<T>(r, n, GAUSS), y = signal<T>(r, n, UNIFORM); Out o; std::vector<T> a(n), b(n); std::vector<std::complex<T>> c(n / 2 + 1), z(n), w(n);
    switch (kind) {
        case K_DFT: edsp::dft(x.begin(), x.end(), c.begin()); edsp::idft(c.begin(), c.end(), a.begin()); put(o, c); put(o, a); break;
        case K_CDFT: for (size_t i = 0; i < n; ++i) z[i] = {x[i], y[i]}; edsp::cdft(z.begin(), z.end(), w.begin()); put(o, w); edsp::cidft(w.begin(), w.end(), z.begin()); put(o, z); break;
        case K_DCT: edsp::dct(x.begin(), x.end(), a.begin()); edsp::idct(a.begin(), a.end(), b.begin()); put(o, a); put(o, b); break;
        case K_HARTLEY: edsp::hartley(x.begin(), x.end(), a.begin()); put(o, a); break;
        case K_CONV: edsp::conv(x.begin(), x.end(), y.begin(), a.begin()); put(o, a); break;
        case K_XCORR: edsp::xcorr(x.begin(), x.end(), y.begin(), a.begin()); put(o, a); edsp::xcorr(x.begin(), x.end(), b.begin()); put(o, b); break;
        case K_CEPS: edsp::cepstrum(x.begin(), x.end(), a.begin()); put(o, a); break;
        case K_HILB: edsp::hilbert(x.begin(), x.end(), z.begin()); put(o, z); break;
        case K_SPEC: a.resize(n / 2 + 1); edsp::spectrum(x.begin(), x.end(), a.begin()); put(o, a); break;
    }
    return o;
}
static Out work(int kind, uint64_t seed, const std::string& dir) {
    Rng r(seed * 77 + 5); Out o; size_t n = static_cast<size_t>(r.range(8, 160)); std::vector<double> x = signal<double>(r, n, GAUSS), a(n), b(n);
    switch (kind) {
        case K_WIN:
            edsp::windowing::hamming(a.begin(), a.end()); put(o, a); edsp::windowing::hanning(a.begin(), a.end()); put(o, a); edsp::windowing::blackman(a.begin(), a.end()); put(o, a);
            edsp::windowing::flattop(a.begin(), a.end()); put(o, a); edsp::windowing::bartlett(a.begin(), a.end()); put(o, a); edsp::windowing::triangular(a.begin(), a.end()); put(o, a); break;
        case K_FILTER: {
            edsp::filter::biquad<double> q(1.0, -0.4, 0.2, 0.3, 0.5, 0.1);
            q.filter(x.begin(), x.end(), a.begin()); put(o, a);
            edsp::filter::biquad_cascade<double, 4> c; c.emplace_back(1.0, -0.5, 0.1, 0.2, 0.1, 0.3); c.emplace_back(1.0, 0.3, 0.05, 0.7, -0.1, 0.2); c.filter(x.begin(), x.end(), a.begin()); put(o, a); break; }
        case K_MOVING: { edsp::filter::moving_average<double> m(5); m.filter(x.begin(), x.end(), a.begin()); put(o, a); edsp::filter::moving_median<double> d(7); d.filter(x.begin(), x.end(), a.begin()); put(o, a); edsp::filter::moving_rms<double> e(4); e.filter(x.begin(), x.end(), a.begin()); put(o, a); break; }
        case K_OSC: { edsp::oscillators::sin_oscillator<double> s(1.0, 8000, 440, 0.1); for (size_t i = 0; i < n; ++i) o.push_back(s()); edsp::oscillators::square_oscillator<double> q(1.0, 8000, 100, 0.5); for (size_t i = 0; i < n; ++i) o.push_back(q()); edsp::oscillators::sawtooth_oscillator<double> w(1.0, 8000, 100, 0.5); for (size_t i = 0; i < n; ++i) o.push_back(w()); break; }
        case K_STRING: { std::string s; for (size_t i = 0; i < n; ++i) s += "abC dEf;gH,"[r.below(11)]; std::vector<std::string> v; edsp::string::split(s, std::back_inserter(v), ';'); for (auto& t : v) for (char c : t) o.push_back(c); std::string t(s), u(s), w(s), j; edsp::string::toupper(s.begin(), s.end(), t.begin()); edsp::string::tolower(s.begin(), s.end(), u.begin()); edsp::string::trim(w); edsp::string::join(v.begin(), v.end(), j, '-'); for (char c : t + u + w + j) o.push_back(c); break; }
        case K_STAT: o = {edsp::statistics::mean(x.begin(), x.end()), edsp::statistics::variance(x.begin(), x.end()), edsp::statistics::skewness(x.begin(), x.end()), edsp::statistics::kurtosis(x.begin(), x.end()), edsp::statistics::max(x.begin(), x.end()), edsp::statistics::min(x.begin(), x.end()), edsp::statistics::norm(x.begin(), x.end())}; break;
        case K_FEAT: { for (auto& v : x) v = std::fabs(v); o = {edsp::feature::statistics::centroid(x.begin(), x.end()), edsp::feature::statistics::spread(x.begin(), x.end()), edsp::feature::statistics::entropy(x.begin(), x.end()), edsp::feature::temporal::azcr(x.begin(), x.end())}; break; }
        case K_ARRAY: { edsp::normalize(x.begin(), x.end(), a.begin()); put(o, a); edsp::linspace(b.begin(), -1.0, 3.5, n); put(o, b); break; }
        case K_RESAMPLE: { std::vector<float> f(x.begin(), x.end()), g(n * 3 + 16); edsp::io::resampler<float> rs(1, edsp::io::resample_quality::linear, 1.5f); auto m = rs.process(f.begin(), f.end(), g.begin()).second; for (long i = 0; i < static_cast<long>(m); ++i) o.push_back(g[static_cast<size_t>(i)]); break; }
        case K_FILE: {
            std::string path = dir + "/t" + std::to_string(seed) + "-" + std::to_string(t_id) + ".wav"; std::vector<float> f(x.begin(), x.end()), g(n);
            { edsp::io::encoder<float> e(8000, 1); e.open(path); o.push_back(static_cast<double>(e.write(f.begin(), f.end()))); }
            { edsp::io::decoder<float> d; d.open(path); o.push_back(static_cast<double>(d.read(g.begin(), g.end()))); }
            put(o, g); ::unlink(path.c_str()); break; }
        default: return (seed & 1) ? fft_work<double>(kind, seed) : fft_work<float>(kind, seed);
    }
    return o;
}
static bool same(const Out& a, const Out& b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }

static void concurrent(Site& S, int lo, int hi, int rounds) {
    for (int c = 0; c < rounds; ++c) {
        int nt = static_cast<int>(S.rng.range(2, 8)), per = static_cast<int>(S.rng.range(6, 24)), delay = static_cast<int>(S.rng.below(3)) * 20; bool samekind = S.rng.coin(0.3);
        int kind0 = static_cast<int>(S.rng.range(lo, hi - 1));
        std::vector<std::vector<std::pair<int, uint64_t>>> plan(static_cast<size_t>(nt));
        for (auto& p : plan) for (int i = 0; i < per; ++i) p.push_back({samekind ? kind0 : static_cast<int>(S.rng.range(lo, hi - 1)), S.rng.below(4000) + 1});
        S.run("threads=" + std::to_string(nt) + " calls=" + std::to_string(per) + " delay=" + std::to_string(delay) + (samekind ? std::string(" all ") + kname(kind0) : ""), S.rng.next(), true, [&] {
            std::vector<std::vector<Out>> want(plan.size()), got(plan.size());
            g_delay = 0; t_id = 0;
            for (size_t t = 0; t < plan.size(); ++t) for (auto& w : plan[t]) want[t].push_back(work(w.first, w.second, cfg().scratch));
            g_overlaps = 0; g_switches = 0; long before = g_entries.load(); g_delay = delay;
            std::atomic<int> ready{0}; std::vector<std::thread> th;
            for (size_t t = 0; t < plan.size(); ++t)
                th.emplace_back([&, t] { t_id = static_cast<int>(t) + 1; ++ready; while (ready.load() < nt) std::this_thread::yield(); for (auto& w : plan[t]) got[t].push_back(work(w.first, w.second, cfg().scratch)); });
            for (auto& t : th) t.join();
            g_delay = 0;
            S.expect(g_overlaps.load() == 0, "planner-overlap", std::to_string(g_overlaps.load()) + " overlapping entries of the non-reentrant planner");
            for (size_t t = 0; t < plan.size(); ++t) for (size_t i = 0; i < plan[t].size(); ++i) S.expect(same(want[t][i], got[t][i]), "differs-from-sequential", std::string(kname(plan[t][i].first)) + " on thread " + std::to_string(t) + " seed " + std::to_string(plan[t][i].second));
            S.count("concurrent calls", nt * per); S.count("planner entries", g_entries.load() - before); S.count("planner hand-overs between threads", g_switches.load());
            for (auto& p : plan) for (auto& w : p) S.cover("function kind", kname(w.first));
            S.cover("thread count", nt);
        });
    }
}
#if defined(__SANITIZE_THREAD__)
#define TS "tsan-"
#define Q 1
#else
#define TS ""
#define Q 3
#endif
SITE("C04", TS "transforms-a") { concurrent(S, K_DFT, NFFTK, static_cast<int>(S.reps(20 * Q, 400))); }
SITE("C04", TS "transforms-b") { concurrent(S, K_DFT, NFFTK, static_cast<int>(S.reps(20 * Q, 400))); }
SITE("C04", TS "other-functions") { concurrent(S, K_WIN, NK, static_cast<int>(S.reps(20 * Q, 400))); }
SITE("C04", TS "everything") { concurrent(S, 0, NK, static_cast<int>(S.reps(20 * Q, 400))); }
// engines owned by one thread each, created and destroyed repeatedly
static void engines(Site& S, int rounds) {
    for (int c = 0; c < rounds; ++c) {
        int nt = static_cast<int>(S.rng.range(2, 8)); std::vector<uint64_t> seeds; for (int i = 0; i < nt; ++i) seeds.push_back(S.rng.next());
        S.run("engines threads=" + std::to_string(nt) + " #" + std::to_string(c), seeds[0], true, [&] {
            auto job = [](uint64_t sd) {
                Rng r(sd); Out o;
                for (int k = 0; k < 6; ++k) {
                    size_t n = static_cast<size_t>(r.range(2, 64)); edsp::fft_engine<double> e(n); edsp::fft_engine<float> ef(n);
                    for (int j = 0; j < 4; ++j) {
                        auto x = signal<double>(r, n, GAUSS); std::vector<double> d(n); std::vector<std::complex<double>> z(n / 2 + 1);
                        e.dft(x.data(), z.data()); put(o, z);
                        std::vector<float> xf(x.begin(), x.end()), df(n); ef.dct(xf.data(), df.data()); put(o, df);
                    }
                }
                return o;
            };
            std::vector<Out> want, got(seeds.size()); t_id = 0; g_delay = 0; for (auto s : seeds) want.push_back(job(s));
            g_overlaps = 0; g_switches = 0; g_delay = 15; std::atomic<int> ready{0}; std::vector<std::thread> th;
            for (size_t t = 0; t < seeds.size(); ++t) th.emplace_back([&, t] { t_id = static_cast<int>(t) + 1; ++ready; while (ready.load() < nt) std::this_thread::yield(); got[t] = job(seeds[t]); });
            for (auto& t : th) t.join(); g_delay = 0;
            S.expect(g_overlaps.load() == 0, "planner-overlap", std::to_string(g_overlaps.load()));
            for (size_t t = 0; t < seeds.size(); ++t) S.expect(same(want[t], got[t]), "differs-from-sequential", "engine thread " + std::to_string(t));
            S.count("planner hand-overs between threads", g_switches.load());
        });
    }
}
SITE("C04", TS "engines") { engines(S, static_cast<int>(S.reps(15 * Q, 300))); }
VM_MAIN
