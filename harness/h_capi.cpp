// The C interface (C27): every function, called through pointers taken by a C client, against its definition.
#include "vm.hpp"
#include "capi_table.h"
#include <dlfcn.h>
using namespace vm;
using R = real_t; using C = std::complex<ld>;
static const capi_table& A() { return *capi(); }
static ld nd(size_t n) { return static_cast<ld>(n); }
static ld ftol(size_t n, ld l) { return eps<R>() * (8 + 3 * std::log2(nd(n) + 1)) * (l + 1e-300L); }
static std::vector<size_t> ns(Site& S, size_t lo, size_t top = 70) { return sizes(S.rng, S.reps(static_cast<long>(top), 300), {127, 128, 255, 256, 257, 500, 512, 1000, 4096, 5000}, S.reps(10, 60), S.reps(900, 2500), lo); }
static std::vector<R> sig(Site& S, size_t n) { return signal<R>(S.rng, n, static_cast<int>(S.rng.below(NSHAPES))); }
static std::vector<R> positive(Site& S, size_t n) { std::vector<R> v(n); for (auto& x : v) x = static_cast<R>(std::exp(S.rng.uniform(-4, 4))); return v; }
static std::vector<C> dftc(const std::vector<C>& x, int sg) { size_t n = x.size(); std::vector<C> t(n), y(n); for (size_t k = 0; k < n; ++k) t[k] = std::polar<ld>(1, sg * 2 * PI * nd(k) / nd(n)); for (size_t k = 0; k < n; ++k) { C s = 0; for (size_t j = 0; j < n; ++j) s += x[j] * t[(k * j) % n]; y[k] = s; } return y; }
template <class V> static std::vector<C> cx(const V& v) { std::vector<C> o; for (auto a : v) o.push_back(C(a, 0)); return o; }
// runs f(in, out) with an exact-size input and a guarded output of m values (and in place when asked), compares with want
template <class F> static void unary(Site& S, const char* name, const std::vector<R>& x, const std::vector<ld>& want, const std::vector<ld>& tol, bool place, F f) {
    S.run(std::string(name) + " n=" + std::to_string(x.size()), hash_bytes(x.data(), x.size()) + want.size(), x.size() > 1 && maxabs(x) > 0, [&] {
        S.cover("function", name); S.cover("length", static_cast<long>(x.size()));
        auto in = Buf<R>::from(x); GBuf<R> out(want.size()); f(in.begin(), out.begin()); S.expect(same_bits(in.vec(), x), "input-changed", name); S.expect(out.intact(), "wrote-outside", name); auto y = out.vec();
        for (size_t i = 0; i < y.size(); ++i) if (!S.close(y[i], want[i], tol.size() == 1 ? tol[0] : tol[i], "value", std::string(name) + " index " + std::to_string(i))) break;
        if (place) { auto b = Buf<R>::from(x); f(b.begin(), b.begin()); S.expect(same_bits(b.vec(), y), "in-place", name); }
    });
}
template <class F> static std::vector<ld> map(const std::vector<R>& x, F f) { std::vector<ld> o; for (auto v : x) o.push_back(f(static_cast<ld>(v))); return o; }
template <class T> static std::vector<ld> tmap(const std::vector<ld>& w, T t) { std::vector<ld> o; for (auto v : w) o.push_back(t * std::fabs(v)); return o; }

SITE("C27", "array functions") {
    for (size_t n : ns(S, 0, 120)) for (int rep = 0; rep < S.reps(3, 8); ++rep) {
        auto x = sig(S, n); for (auto& v : x) if (S.rng.coin(0.2)) v = static_cast<R>(S.rng.range(-9, 9)) / 2; R k = static_cast<R>(S.rng.gauss() * 3), lo = static_cast<R>(S.rng.uniform(-1.5, 0.3)), hi = lo + static_cast<R>(S.rng.uniform(0, 2)); int N = static_cast<int>(n); const ld e = eps<R>();
        auto mul = map(x, [&](ld v) { return v * static_cast<ld>(k); });
        unary(S, "array_scale", x, mul, tmap(mul, e), true, [&](const R* i, R* o) { A().f_array_scale(i, N, o, k); });
        auto mc = map(x, [&](ld v) { return std::min<ld>(std::max<ld>(v * static_cast<ld>(k), lo), hi); }); unary(S, "array_scale_clip", x, mc, tmap(mc, e), true, [&](const R* i, R* o) { A().f_array_scale_clip(i, N, o, k, lo, hi); });
        unary(S, "array_clip", x, map(x, [&](ld v) { return std::min<ld>(std::max<ld>(v, lo), hi); }), {0}, true, [&](const R* i, R* o) { A().f_array_clip(i, N, o, lo, hi); });
        unary(S, "array_ceil", x, map(x, [](ld v) { return std::ceil(v); }), {0}, true, [&](const R* i, R* o) { A().f_array_ceil(i, N, o); });
        unary(S, "array_floor", x, map(x, [](ld v) { return std::floor(v); }), {0}, true, [&](const R* i, R* o) { A().f_array_floor(i, N, o); });
        unary(S, "array_round", x, map(x, [](ld v) { return std::round(v); }), {0}, true, [&](const R* i, R* o) { A().f_array_round(i, N, o); });
        unary(S, "array_trunc", x, map(x, [](ld v) { return std::trunc(v); }), {0}, true, [&](const R* i, R* o) { A().f_array_trunc(i, N, o); });
        unary(S, "array_abs", x, map(x, [](ld v) { return std::fabs(v); }), {0}, true, [&](const R* i, R* o) { A().f_array_abs(i, N, o); });
        ld mx = maxabs(x); if (mx > 1e-30L) unary(S, "array_normalize", x, map(x, [&](ld v) { return v / mx; }), {4 * e}, true, [&](const R* i, R* o) { A().f_array_normalize(i, N, o); });
        auto y = sig(S, S.rng.below(40)); auto cat = map(x, [](ld v) { return v; }); for (auto v : y) cat.push_back(v); auto yb = Buf<R>::from(y); unary(S, "array_concatenate", x, cat, {0}, false, [&](const R* i, R* o) { A().f_array_concatenate(i, N, yb.begin(), static_cast<int>(y.size()), o); });
        auto pad = map(x, [](ld v) { return v; }); pad.resize(n + S.rng.below(30), 0); unary(S, "array_padder", x, pad, {0}, false, [&](const R* i, R* o) { A().f_array_padder(i, N, o, static_cast<int>(pad.size())); });
        R a = static_cast<R>(S.rng.uniform(-5, 5)), b = static_cast<R>(S.rng.uniform(-5, 5)); std::vector<ld> lin(n), lg(n), lt(n); for (size_t i = 0; i < n; ++i) { lin[i] = n == 1 ? static_cast<ld>(a) : static_cast<ld>(a) + (static_cast<ld>(b) - static_cast<ld>(a)) * nd(i) / nd(n - 1); lg[i] = std::pow(10.0L, lin[i]); lt[i] = lg[i] * (8 + 4 * std::log(10.0L) * 20) * e; }
        std::vector<R> tag{a, b}; unary(S, "array_linspace", tag, lin, {16 * e * (std::fabs(static_cast<ld>(a)) + std::fabs(static_cast<ld>(b)))}, false, [&](const R*, R* o) { A().f_array_linspace(o, N, a, b); });
        unary(S, "array_logspace", tag, lg, lt, false, [&](const R*, R* o) { A().f_array_logspace(o, N, a, b); });
    }
}
SITE("C27", "searches") {
    for (size_t n : ns(S, 0, 120)) for (int rep = 0; rep < S.reps(6, 20); ++rep) {
        std::vector<R> x(n); for (auto& v : x) v = static_cast<R>(S.rng.range(-12, 12)); auto s = x; std::sort(s.begin(), s.end()); R v = S.rng.coin(0.2) || !n ? static_cast<R>(100) : S.rng.coin(0.2) ? static_cast<R>(S.rng.range(-14, 14)) + static_cast<R>(0.5) : x[S.rng.below(n)];
        S.run("searches n=" + std::to_string(n) + " value=" + num(v), hash_bytes(x.data(), n) + static_cast<uint64_t>(v * 2 + 1000), n > 1, [&] {
            S.cover("length", static_cast<long>(n)); int N = static_cast<int>(n); auto b = Buf<R>::from(x), o = Buf<R>::from(s); auto it = std::find(x.begin(), x.end(), v); int want = it == x.end() ? -1 : static_cast<int>(it - x.begin()); auto is = std::find(s.begin(), s.end(), v); int ws = is == s.end() ? -1 : static_cast<int>(is - s.begin());
            S.expect(A().f_index_of(b.begin(), N, v) == want, "index_of", std::to_string(want)); S.expect(A().f_linear_search(b.begin(), N, v) == want, "linear_search", std::to_string(want)); S.expect((A().f_contains(b.begin(), N, v) > 0) == (want >= 0), "contains"); S.expect(A().f_binary_search(o.begin(), N, v) == ws, "binary_search", std::to_string(ws)); S.count(want >= 0 ? "present" : "absent");
            auto c = Buf<R>::from(x); S.expect(A().f_equal(b.begin(), N, c.begin()) > 0, "equal"); for (int k = 0; k < 3 && n; ++k) { size_t i = k == 0 ? 0 : k == 1 ? n - 1 : S.rng.below(n); R old = c[i]; c[i] = old + static_cast<R>(k == 2 ? 1e-3 : 1); S.expect(A().f_equal(b.begin(), N, c.begin()) == 0, "equal", "differs at " + std::to_string(i)); c[i] = old; }
        });
    }
}
static void scalar(Site& S, const char* name, R (*f)(R), ld (*g)(ld), R lo, R hi, ld absolute) {
    for (long k = 0; k < S.reps(300, 5000); ++k) { R x = lo > 0 ? static_cast<R>(std::exp(S.rng.uniform(std::log(static_cast<double>(lo)), std::log(static_cast<double>(hi))))) : static_cast<R>(S.rng.uniform(static_cast<double>(lo), static_cast<double>(hi)));
        S.run(std::string(name) + " x=" + num(x), hash_bytes(&x, 1) ^ hash_str(name), true, [&] { S.cover("function", name); ld w = g(x); S.close(f(x), w, 8 * eps<R>() * (std::fabs(w) * (1 + absolute * std::fabs(static_cast<ld>(x))) + 1e-3L), "value", name); }); }
}
SITE("C27", "converters") {
    scalar(S, "rad2deg", A().f_rad2deg, [](ld x) { return x * 180 / PI; }, -100, 100, 0); scalar(S, "deg2rad", A().f_deg2rad, [](ld x) { return x * PI / 180; }, -1000, 1000, 0);
    scalar(S, "mag2db", A().f_mag2db, [](ld x) { return 20 * std::log10(x); }, static_cast<R>(1e-6), static_cast<R>(1e6), 0); scalar(S, "pow2db", A().f_pow2db, [](ld x) { return 10 * std::log10(x); }, static_cast<R>(1e-6), static_cast<R>(1e6), 0);
    scalar(S, "db2mag", A().f_db2mag, [](ld x) { return std::pow(10.0L, x / 20); }, -120, 120, 0.2L); scalar(S, "db2pow", A().f_db2pow, [](ld x) { return std::pow(10.0L, x / 10); }, -120, 120, 0.3L);
    for (size_t n : ns(S, 1)) { auto x = sig(S, n); ld ms = 0; for (auto v : x) ms += static_cast<ld>(v) * v; ms = std::sqrt(ms / nd(n)); long N = static_cast<long>(n);
        S.run("peak2peak/peak2rms n=" + std::to_string(n), hash_bytes(x.data(), n), n > 1, [&] { auto b = Buf<R>::from(x); S.close(A().f_peak2peak(b.begin(), N), static_cast<ld>(*std::max_element(x.begin(), x.end())) - static_cast<ld>(*std::min_element(x.begin(), x.end())), 2 * eps<R>() * maxabs(x), "value", "peak2peak"); if (ms > 1e-15L) S.close(A().f_peak2rms(b.begin(), N), maxabs(x) / ms, (nd(n) + 8) * eps<R>() * maxabs(x) / ms, "value", "peak2rms"); }); }
    for (size_t n : ns(S, 0)) { auto x = sig(S, n), y = sig(S, n); long N = static_cast<long>(n);
        S.run("complex conversions n=" + std::to_string(n), hash_bytes(x.data(), n), n > 1, [&] {
            auto a = Buf<R>::from(x), b = Buf<R>::from(y); GBuf<R> z(2 * n), r(n), im(n), w(2 * n); std::vector<R> inter, rz; for (size_t i = 0; i < n; ++i) { inter.push_back(x[i]); inter.push_back(y[i]); rz.push_back(x[i]); rz.push_back(0); }
            A().f_ri2complex(a.begin(), b.begin(), N, reinterpret_cast<complex_t*>(z.begin())); S.expect(same_bits(z.vec(), inter) && z.intact(), "value", "ri2complex"); A().f_real2complex(a.begin(), N, reinterpret_cast<complex_t*>(w.begin())); S.expect(same_bits(w.vec(), rz) && w.intact(), "value", "real2complex");
            auto zi = Buf<R>::from(inter); A().f_complex2real(reinterpret_cast<const complex_t*>(zi.begin()), N, r.begin(), im.begin()); S.expect(same_bits(r.vec(), x) && same_bits(im.vec(), y) && r.intact() && im.intact(), "value", "complex2real"); S.expect(same_bits(a.vec(), x) && same_bits(b.vec(), y) && same_bits(zi.vec(), inter), "input-changed"); }); }
}
SITE("C27", "statistics") {
    for (size_t n : ns(S, 1, 130)) for (int rep = 0; rep < S.reps(3, 10); ++rep) {
        auto x = sig(S, n); ld top = maxabs(x); if (top > 0 && (top > 1e4L || top < 1e-4L)) for (auto& v : x) v = static_cast<R>(static_cast<ld>(v) / top); if (S.rng.coin(0.3)) for (auto& v : x) v = static_cast<R>(std::round(static_cast<double>(v) * 3)); const ld tiny = std::numeric_limits<R>::min() * (nd(n) + 4); auto p = positive(S, n); int N = static_cast<int>(n), beta = static_cast<int>(S.rng.pick(std::vector<int>{1, 2, 3, -1, -2}));
        S.run("statistics n=" + std::to_string(n), hash_bytes(x.data(), n) + static_cast<uint64_t>(rep), n > 1 && maxabs(x) > 0, [&] {
            S.cover("length", static_cast<long>(n)); auto b = Buf<R>::from(x), q = Buf<R>::from(p); const ld e = eps<R>() * (nd(n) + 12), M = maxabs(x); ld s = 0; for (auto v : x) s += v; ld mean = s / nd(n);
            S.close(A().f_mean(b.begin(), N), mean, e * M, "value", "mean"); auto o = x; std::sort(o.begin(), o.end()); S.close(A().f_median(b.begin(), N), n % 2 ? static_cast<ld>(o[n / 2]) : (static_cast<ld>(o[n / 2]) + static_cast<ld>(o[n / 2 - 1])) / 2, 4 * eps<R>() * M, "value", "median");
            S.expect(A().f_max(b.begin(), N) == o.back(), "value", "max"); S.expect(A().f_min(b.begin(), N) == o.front(), "value", "min"); ld mxa = M, mna = M; size_t ia = 0, im = 0; for (size_t i = 0; i < n; ++i) { mna = std::min(mna, std::fabs(static_cast<ld>(x[i]))); if (std::fabs(x[i]) > std::fabs(x[ia])) ia = i; if (x[i] > x[im]) im = i; }
            S.close(A().f_max_abs(b.begin(), N), mxa, 0, "value", "max_abs"); S.close(A().f_min_abs(b.begin(), N), mna, 0, "value", "min_abs"); auto pk = A().f_peak(b.begin(), N); S.expect(pk.index == static_cast<int>(im) && pk.value == x[im], "value", "peak " + std::to_string(pk.index) + " want " + std::to_string(im)); pk = A().f_peak_abs(b.begin(), N); S.expect(pk.index == static_cast<int>(ia) && std::fabs(pk.value) == std::fabs(x[ia]), "value", "peak_abs " + std::to_string(pk.index) + " " + num(pk.value) + " want " + std::to_string(ia) + " " + num(std::fabs(x[ia])));
            ld d = 0; std::vector<ld> m(9, 0); for (int k = 1; k <= 8; ++k) { for (auto v : x) m[static_cast<size_t>(k)] += std::pow(static_cast<ld>(v) - mean, k); m[static_cast<size_t>(k)] /= nd(n); } for (auto v : x) d = std::max(d, std::fabs(static_cast<ld>(v) - mean)); ld dd = d + e * M;
            for (int k = 1; k <= 8; ++k) S.close(A().f_moment(b.begin(), N, k), m[static_cast<size_t>(k)], (k * e * M * std::pow(dd, k - 1) + (e + k * eps<R>()) * std::pow(dd, k)) * 2 + tiny, "value", "moment " + std::to_string(k));
            ld tv = 2 * (2 * e * M * dd + e * dd * dd) + tiny; S.close(A().f_variance(b.begin(), N), m[2], tv, "value", "variance"); S.close(A().f_standard_deviation(b.begin(), N), std::sqrt(m[2]), m[2] > 4 * tv ? tv / std::sqrt(m[2]) : 2 * std::sqrt(tv) + std::sqrt(m[2]), "value", "standard_deviation");
            ld nn = 0; for (auto v : x) nn += static_cast<ld>(v) * v; S.close(A().f_norm(b.begin(), N), std::sqrt(nn), e * std::sqrt(nn) + 1e-150L, "value", "norm");
            if (m[2] > 1e6L * tv) { ld r = tv / m[2]; S.close(A().f_skewness(b.begin(), N), m[3] / std::pow(m[2], 1.5L), 8 * r * (1 + std::pow(dd, 3) / std::pow(m[2], 1.5L)) + 3 * e * M * dd * dd * 2 / std::pow(m[2], 1.5L), "value", "skewness"); S.close(A().f_kurtosis(b.begin(), N), m[4] / m[2] / m[2], 8 * r * (1 + std::pow(dd, 4) / m[2] / m[2]) + 8 * e * M * dd * dd * dd / m[2] / m[2], "value", "kurtosis"); S.count("shape moments compared"); }
            ld lg = 0, h = 0, g = 0; for (auto v : p) { lg += std::log(static_cast<ld>(v)); h += 1 / static_cast<ld>(v); g += std::pow(static_cast<ld>(v), beta); } ld gm = std::exp(lg / nd(n)), hm = nd(n) / h, pm = std::pow(g / nd(n), 1.0L / beta);
            S.close(A().f_geometric_mean(q.begin(), N), gm, 40 * e * gm, "value", "geometric_mean"); S.close(A().f_harmonic_mean(q.begin(), N), hm, 4 * e * hm, "value", "harmonic_mean"); S.close(A().f_generalized_mean(q.begin(), N, beta), pm, 16 * e * pm, "value", "generalized_mean " + std::to_string(beta));
            S.expect(same_bits(b.vec(), x) && same_bits(q.vec(), p), "input-changed");
        });
    }
}
SITE("C27", "spectral") {
    for (size_t n : ns(S, 1)) {
        auto x = sig(S, n), y = sig(S, n); int N = static_cast<int>(n); size_t h = n / 2 + 1; ld l = l1(x), M = maxabs(x); auto X = dftc(cx(x), -1); std::vector<ld> w, t;
        S.run("sizes n=" + std::to_string(n), n, n > 1, [&] { S.expect(A().f_get_fft_size(N) == static_cast<int>(h), "value", "get_fft_size"); S.expect(A().f_get_ifft_size(static_cast<int>(h)) == static_cast<int>(2 * (h - 1)), "value", "get_ifft_size"); });
        w.clear(); for (size_t k = 0; k < h; ++k) { w.push_back(X[k].real()); w.push_back(X[k].imag()); } unary(S, "fft", x, w, {ftol(n, l)}, false, [&](const R* i, R* o) { A().f_fft(i, N, reinterpret_cast<complex_t*>(o)); });
        w.clear(); t.clear(); for (size_t k = 0; k < h; ++k) { w.push_back(std::norm(X[k])); t.push_back(2 * ftol(n, l) * (std::abs(X[k]) + ftol(n, l)) + 4 * eps<R>() * std::norm(X[k])); } unary(S, "spectrum", x, w, t, false, [&](const R* i, R* o) { A().f_spectrum(i, N, o); });
        w.clear(); for (size_t k = 0; k < n; ++k) w.push_back(X[k].real() - X[k].imag()); unary(S, "hartley", x, w, {2 * ftol(n, l)}, false, [&](const R* i, R* o) { A().f_hartley(i, N, o); });
        w.assign(n, 0); for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < n; ++j) w[k] += 2 * static_cast<ld>(x[j]) * std::cos(PI * nd(k) * (2 * nd(j) + 1) / (2 * nd(n))); unary(S, "dct", x, w, {4 * ftol(n, l)}, false, [&](const R* i, R* o) { A().f_dct(i, N, o); });
        w.assign(n, 0); for (size_t j = 0; j < n; ++j) { w[j] = x[0]; for (size_t k = 1; k < n; ++k) w[j] += 2 * static_cast<ld>(x[k]) * std::cos(PI * nd(k) * (2 * nd(j) + 1) / (2 * nd(n))); w[j] /= 2 * nd(n); } unary(S, "idct", x, w, {4 * ftol(n, l) / nd(n)}, false, [&](const R* i, R* o) { A().f_idct(i, N, o); });
        w.assign(n, 0); for (size_t k = 0; k < n; ++k) for (size_t j = 0; j <= k; ++j) w[k] += static_cast<ld>(x[j]) * y[k - j]; auto yb = Buf<R>::from(y); ld prod = 8 * eps<R>() * (8 + 3 * std::log2(2 * nd(n))) * l2(x) * l2(y) * std::sqrt(2.0L) + 1e-300L; unary(S, "conv", x, w, {prod}, false, [&](const R* i, R* o) { A().f_conv(i, yb.begin(), N, o); });
        w.assign(n, 0); for (size_t k = 0; k < n; ++k) for (size_t j = 0; j + k < n; ++j) w[k] += static_cast<ld>(x[j + k]) * y[j]; unary(S, "xcorr", x, w, {prod}, false, [&](const R* i, R* o) { A().f_xcorr(i, yb.begin(), N, o); }); S.expect(same_bits(yb.vec(), y), "input-changed", "second operand");
        // analytic signal: real part, one-sided spectrum
        std::vector<C> H(n); for (size_t k = 0; k < n; ++k) H[k] = k == 0 || 2 * k == n ? X[k] : 2 * k < n ? 2.0L * X[k] : 0; auto a = dftc(H, 1); w.clear(); for (auto z : a) { w.push_back(z.real() / nd(n)); w.push_back(z.imag() / nd(n)); } unary(S, "hilbert", x, w, {8 * ftol(n, l2(x)) + 8 * eps<R>() * M}, false, [&](const R* i, R* o) { A().f_hilbert(i, N, reinterpret_cast<complex_t*>(o)); });
        // complex transforms
        std::vector<C> z(n); std::vector<R> zi; for (size_t i = 0; i < n; ++i) { z[i] = C(x[i], y[i]); zi.push_back(x[i]); zi.push_back(y[i]); } auto Z = dftc(z, -1), Zi = dftc(z, 1); w.clear(); for (auto v : Z) { w.push_back(v.real()); w.push_back(v.imag()); } unary(S, "complex_fft", zi, w, {2 * ftol(n, l + l1(y))}, false, [&](const R* i, R* o) { A().f_complex_fft(reinterpret_cast<const complex_t*>(i), N, reinterpret_cast<complex_t*>(o)); });
        w.clear(); for (auto v : Zi) { w.push_back(v.real() / nd(n)); w.push_back(v.imag() / nd(n)); } unary(S, "complex_ifft", zi, w, {2 * ftol(n, l + l1(y)) / nd(n)}, false, [&](const R* i, R* o) { A().f_complex_ifft(reinterpret_cast<const complex_t*>(i), N, reinterpret_cast<complex_t*>(o)); });
        if (n % 2 == 0) { std::vector<R> sp; for (size_t k = 0; k < h; ++k) { sp.push_back(static_cast<R>(X[k].real())); sp.push_back(k == 0 || 2 * k == n ? 0 : static_cast<R>(X[k].imag())); } w.clear(); for (auto v : x) w.push_back(v); unary(S, "ifft", sp, w, {ftol(n, l) * 4}, false, [&](const R* i, R* o) { A().f_ifft(reinterpret_cast<const complex_t*>(i), static_cast<int>(h), o); }); }
        // cepstrum, of signals without spectral zeros
        auto c = x; c[0] += static_cast<R>(4 * l + 1); auto pz = c; pz.resize(2 * n, 0); auto P = dftc(cx(pz), -1); std::vector<C> lgm(2 * n); ld worst = 0; for (size_t k = 0; k < 2 * n; ++k) { lgm[k] = std::log(std::abs(P[k])); worst = std::max(worst, ftol(2 * n, l1(c)) / std::abs(P[k]) + 4 * eps<R>() * std::abs(lgm[k])); } auto cc = dftc(lgm, 1); w.clear(); for (size_t i = 0; i < n; ++i) w.push_back(cc[i].real() / nd(2 * n)); unary(S, "cepstrum", c, w, {8 * worst + 1e-3L * eps<R>()}, false, [&](const R* i, R* o) { A().f_cepstrum(i, N, o); });
    }
}
static ld cosine(const std::vector<ld>& a, ld n, ld N) { ld s = 0, t = 2 * PI * n / (N - 1), sg = 1; for (size_t k = 0; k < a.size(); ++k) { s += sg * a[k] * std::cos(static_cast<ld>(k) * t); sg = -sg; } return s; }
SITE("C27", "windows") {
    struct W { const char* n; void (*f)(R*, int); std::function<ld(ld, ld)> ref; };
    auto cosw = [](std::vector<ld> a) { return [a](ld n, ld N) { return cosine(a, n, N); }; }; auto one = [](ld, ld) -> ld { return 1; };
    std::vector<W> ws{{"bartlett", A().f_bartlett, [](ld n, ld N) { return 1 - std::fabs(2 * n / (N - 1) - 1); }}, {"blackman", A().f_blackman, cosw({0.42L, 0.5L, 0.08L})}, {"blackman_harris", A().f_blackman_harris, cosw({0.35875L, 0.48829L, 0.14128L, 0.01168L})}, {"blackman_nutall", A().f_blackman_nutall, cosw({0.3635819L, 0.4891775L, 0.1365995L, 0.0106411L})}, {"boxcar", A().f_boxcar, one}, {"rectangular", A().f_rectangular, one},
        {"flattop", A().f_flattop, cosw({0.21557895L, 0.41663158L, 0.277263158L, 0.083578947L, 0.006947368L})}, {"hamming", A().f_hamming, cosw({0.54L, 0.46L})}, {"hanning", A().f_hanning, cosw({0.5L, 0.5L})}, {"triangular", A().f_triangular, [](ld n, ld N) { ld L = std::fmod(N, 2) == 0 ? N : N + 1; return 1 - std::fabs((2 * n - (N - 1)) / L); }}, {"welch", A().f_welch, [](ld n, ld N) { ld h = (N - 1) / 2; return 1 - ((n - h) / h) * ((n - h) / h); }}};
    for (auto& w : ws) for (size_t n : ns(S, 2, 130)) S.run(std::string(w.n) + " n=" + std::to_string(n), n + hash_str(w.n), true, [&] { S.cover("function", w.n); GBuf<R> b(n); w.f(b.begin(), static_cast<int>(n)); S.expect(b.intact(), "wrote-outside", w.n); auto v = b.vec(); for (size_t i = 0; i < n; ++i) if (!S.close(v[i], w.ref(nd(i), nd(n)), 64 * eps<R>(), "value", std::string(w.n) + " index " + std::to_string(i))) break; });
}
SITE("C27", "core") {
    S.run("versions and libraries", 1, true, [&] {
        std::string v = A().f_get_version(); S.expect(v == std::to_string(A().f_get_major_version()) + "." + std::to_string(A().f_get_minor_version()) + "." + std::to_string(A().f_get_patch_version()), "version", v);
        std::string d = A().f_get_build_date(), t = A().f_get_build_time(); S.expect(d.size() == 11 && d[3] == ' ' && d[6] == ' ' && d[7] == '2', "build-date", d); S.expect(t.size() == 8 && t[2] == ':' && t[5] == ':', "build-time", t);
        S.expect(std::string(A().f_get_fft_library()) == "fftw", "fft", A().f_get_fft_library()); S.expect(std::string(A().f_get_codec_library()) == "sndfile", "codec"); S.expect(std::string(A().f_get_resample_library()) == "samplerate", "resample");
    });
    for (long k = 0; k < S.reps(600, 8000); ++k) { uint64_t rs = S.rng.next();
        S.run("environment history " + std::to_string(k), rs, true, [&] {
            Rng r(rs); std::string names[3] = {"EDSPCAPI_A", "EDSPCAPI_B", "EDSPCAPI_AB"}; std::map<std::string, std::string> m; for (auto& n : names) ::unsetenv(n.c_str()); std::string trace;
            for (int s = 0; s < 12; ++s) { auto& n = names[r.below(3)]; int op = static_cast<int>(r.below(6)); if (op <= 2) { std::string v; size_t len = r.coin(0.2) ? 0 : r.below(30); for (size_t i = 0; i < len; ++i) v += static_cast<char>(1 + r.below(255)); trace += " set " + n; S.expect(A().f_set_environment(n.c_str(), v.c_str()) == 0, "set_environment", trace); m[n] = v; } else if (op == 3) { trace += " unset " + n; ::unsetenv(n.c_str()); m.erase(n); } else if (op == 4) { S.expect(A().f_set_environment("", "x") != 0 && A().f_set_environment("A=B", "x") != 0, "set-bad-name"); }
                for (auto& q : names) { int e = 99; const char* g = A().f_get_environment(q.c_str(), r.coin(0.8) ? &e : nullptr); bool there = m.count(q) > 0; S.expect((g != nullptr) == there && (!there || m[q] == g), "get_environment", trace + " : " + q); S.expect(e == 99 || (e == 0) == there, "get-error", trace); S.expect((A().f_exist_environment(q.c_str()) != 0) == there, "exist_environment", trace + " : " + q); } int e = 0; S.expect(A().f_get_environment("", &e) == nullptr && e != 0, "get-empty-name"); }
            for (auto& n : names) ::unsetenv(n.c_str());
        }); }
}
VM_MAIN
