// Descriptive statistics (C16), temporal features (C17), spectral and statistical features (C18).
#include "vm.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/math/complex.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/statistics.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/converter/pow2db.hpp>
#include <edsp/converter/peak2peak.hpp>
#include <edsp/converter/peak2rms.hpp>
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/snr.hpp>
#include <edsp/feature/perceptual/loudness.hpp>
#include <edsp/algorithm/silence.hpp>
#include <edsp/feature/statistics/centroid.hpp>
#include <edsp/feature/statistics/crest.hpp>
#include <edsp/feature/statistics/decrease.hpp>
#include <edsp/feature/statistics/entropy.hpp>
#include <edsp/feature/statistics/flatness.hpp>
#include <edsp/feature/statistics/flux.hpp>
#include <edsp/feature/statistics/rolloff.hpp>
#include <edsp/feature/statistics/slope.hpp>
#include <edsp/feature/statistics/spread.hpp>
#include <edsp/feature/statistics/variation.hpp>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
using namespace vm;
namespace es = edsp::statistics; namespace ft = edsp::feature; namespace fs = edsp::feature::statistics;
// true when a quantity of this magnitude is far from underflow and overflow in T
template <class T> bool fits(ld m) { ld lim = sizeof(T) == 4 ? 1e30L : 1e280L; return m == 0 || (m < lim && m > 1 / lim); }
template <class T> std::vector<size_t> lens(Site& S, size_t lo) { return sizes(S.rng, S.reps(120, 300), {255, 256, 257, 1000, 1024, 4096, 4097, 8192, 10000, 16384, 32769, 65536, 65537, 100003}, S.reps(250, 5000), 3000, lo); }
template <class T> std::vector<T> positive(Rng& r, size_t n, bool zeros) {
    std::vector<T> v(n); int k = static_cast<int>(r.below(6)); double a = std::pow(10, r.uniform(-3, 3)); size_t pk = r.below(n);
    for (size_t i = 0; i < n; ++i) {
        double x = 0;
        switch (k) { case 0: x = r.uniform(0.01, 1) * a; break; case 1: x = std::fabs(r.gauss()) + 1e-3; break; case 2: x = a; break; case 3: x = std::pow(10, r.uniform(-4, 4)); break; case 4: x = i == pk ? a : a * 1e-4; break; default: x = a / (1 + static_cast<double>(i)); }
        if (zeros && r.coin(0.1)) x = 0;
        v[i] = static_cast<T>(x);
    }
    if (maxabs(v) == 0) v[pk] = static_cast<T>(a);
    return v;
}
// ---------------------------------------------------------------- C16
template <class T> struct Mom { ld m, dm; std::vector<ld> d; };
template <class T> Mom<T> about_mean(const std::vector<T>& x) { Mom<T> r; ld n = static_cast<ld>(x.size()), s = 0; for (auto v : x) s += v; r.m = s / n; r.dm = (n + 4) * eps<T>() * l1(x) / n; for (auto v : x) r.d.push_back(static_cast<ld>(v) - r.m); return r; }
// value and error bound of the k-th moment about c, c known to dc, in T arithmetic
template <class T> std::pair<ld, ld> kth(const std::vector<T>& x, ld c, ld dc, int k) {
    ld n = static_cast<ld>(x.size()), v = 0, e = 0;
    for (auto t : x) { ld d = static_cast<ld>(t) - c, a = std::fabs(d), w = dc + eps<T>() * a; v += std::pow(d, k); e += std::pow(a + w, k) - std::pow(a, k) + (n + 2 * k) * eps<T>() * std::pow(a + w, k); }
    return {v / n, e / n};
}
template <class T, class It> void basics(Site& S, It f, It l, const std::vector<T>& x, const char* how) {
    ld n = static_cast<ld>(x.size()), e = eps<T>(), mx = -INFINITY, mn = INFINITY, ma = 0, mi = INFINITY, sum = 0, sq = 0; long pi = -1;
    for (size_t i = 0; i < x.size(); ++i) { ld v = x[i]; if (v > mx) { mx = v; pi = static_cast<long>(i); } mn = std::min(mn, v); ma = std::max(ma, std::fabs(v)); mi = std::min(mi, std::fabs(v)); sum += v; sq += v * v; }
    S.expect(es::max(f, l) == mx && es::min(f, l) == mn && es::maxabs(f, l) == ma && es::minabs(f, l) == mi, "extremes", how);
    auto p = es::peak(f, l); S.expect(p.first == pi && p.second == mx, "peak", std::string(how) + " got " + std::to_string(p.first) + " want " + std::to_string(pi));
    auto q = es::peakabs(f, l); S.expect(q.first >= 0 && q.first < static_cast<long>(x.size()) && std::fabs(static_cast<ld>(x[static_cast<size_t>(q.first)])) == ma && std::fabs(static_cast<ld>(q.second)) == ma, "peakabs", how);
    S.expect(std::find_if(x.begin(), x.begin() + q.first, [&](T v) { return std::fabs(static_cast<ld>(v)) == ma; }) == x.begin() + q.first, "peakabs", "not the first");
    S.close(es::mean(f, l), sum / n, (n + 4) * e * l1(x) / n, "mean", how);
    if (fits<T>(sq)) S.close(es::norm(f, l), std::sqrt(sq), (n + 8) * e * std::sqrt(sq), "norm", how);
    std::vector<T> s(x); std::sort(s.begin(), s.end()); size_t h = s.size() / 2; ld med = s.size() % 2 ? static_cast<ld>(s[h]) : (static_cast<ld>(s[h - 1]) + static_cast<ld>(s[h])) / 2;
    S.close(es::median(f, l), med, 2 * e * std::max(std::fabs(static_cast<ld>(s[h])), std::fabs(static_cast<ld>(s[h ? h - 1 : 0]))), "median", how);
    S.close(edsp::converter::peak2peak(f, l), mx - mn, 2 * e * (mx - mn), "peak2peak", how);
    if (ma > 0 && fits<T>(sq)) S.close(edsp::converter::peak2rms(f, l), ma / std::sqrt(sq / n), (n + 8) * e * ma / std::sqrt(sq / n), "peak2rms", how);
    // moments
    auto am = about_mean(x); ld c = std::fabs(mx) < 1e10L ? static_cast<ld>(x[0]) / 3 : 0; T ct = static_cast<T>(c);
    auto mom = [&](int k, ld got, ld gotc) {
        if (!fits<T>(std::pow(ma * 2, k)) || (ma > 0 && !fits<T>(std::pow(am.dm + ma * e, k)) && !fits<T>(std::pow(ma, k)))) return;
        auto r = kth(x, am.m, am.dm + e * std::fabs(am.m), k); S.close(got, r.first, r.second * 1.5L + static_cast<ld>(std::numeric_limits<T>::min()), "moment", std::string(how) + " order " + std::to_string(k));
        auto rc = kth(x, ct, 0, k); S.close(gotc, rc.first, rc.second * 1.5L + static_cast<ld>(std::numeric_limits<T>::min()), "moment-about", std::string(how) + " order " + std::to_string(k));
    };
    mom(1, es::moment<1>(f, l), es::moment<1>(f, l, ct)); mom(2, es::moment<2>(f, l), es::moment<2>(f, l, ct)); mom(3, es::moment<3>(f, l), es::moment<3>(f, l, ct)); mom(4, es::moment<4>(f, l), es::moment<4>(f, l, ct));
    mom(5, es::moment<5>(f, l), es::moment<5>(f, l, ct)); mom(6, es::moment<6>(f, l), es::moment<6>(f, l, ct)); mom(7, es::moment<7>(f, l), es::moment<7>(f, l, ct)); mom(8, es::moment<8>(f, l), es::moment<8>(f, l, ct));
    if (fits<T>(ma * ma * 4)) {
        auto v2 = kth(x, am.m, am.dm + e * std::fabs(am.m), 2); ld t = v2.second * 1.5L + static_cast<ld>(std::numeric_limits<T>::min());
        S.close(es::variance(f, l), v2.first, t, "variance", how); S.expect(es::variance(f, l) >= 0, "variance-negative", how);
        ld sd = std::sqrt(v2.first); S.close(es::standard_deviation(f, l), sd, std::min(sd > 0 ? t / sd : INFINITY, std::sqrt(t)) + 4 * e * sd, "standard_deviation", how);
        if (v2.first > 0 && t < 0.05L * v2.first && fits<T>(std::pow(v2.first, 2)) && fits<T>(std::pow(ma * 2, 4))) {
            auto v3 = kth(x, am.m, am.dm + e * std::fabs(am.m), 3), v4 = kth(x, am.m, am.dm + e * std::fabs(am.m), 4); ld rel = t / v2.first, s3 = std::pow(v2.first, 1.5L), s4 = v2.first * v2.first; S.count("shape moments compared");
            S.close(es::skewness(f, l), v3.first / s3, v3.second * 2 / s3 + std::fabs(v3.first / s3) * (2 * rel + 8 * e), "skewness", how); S.close(es::kurtosis(f, l), v4.first / s4, v4.second * 2 / s4 + v4.first / s4 * (3 * rel + 8 * e), "kurtosis", how);
        }
    }
}
template <class T> void descriptive(Site& S) {
    for (size_t n : lens<T>(S, 1)) {
        int sh = static_cast<int>(S.rng.below(NSHAPES)); auto x = signal<T>(S.rng, n, sh); if (S.rng.coin(0.2)) { T off = static_cast<T>(S.rng.uniform(-100, 100)); for (auto& v : x) v += off; }
        S.cover("shape", sh); S.cover("length", static_cast<long>(n));
        S.run(std::string("statistics<") + tname<T>() + "> n=" + std::to_string(n) + " " + shape_name(sh), hash_bytes(x.data(), n), n > 1 && maxabs(x) > 0, [&] {
            auto b = Buf<T>::from(x); const auto& cb = b; basics<T>(S, cb.begin(), cb.end(), x, "pointer");
            S.expect(same_bits(b.vec(), x), "input-changed");
            basics<T>(S, b.begin(), b.end(), x, "mutable"); S.expect(same_bits(b.vec(), x), "input-changed", "through mutable iterators");
            if (n <= 64) { std::list<T> li(x.begin(), x.end()); basics<T>(S, li.begin(), li.end(), x, "list"); S.expect(std::equal(li.begin(), li.end(), x.begin()), "input-changed", "list"); std::vector<T> rx(x.rbegin(), x.rend()); basics<T>(S, x.rbegin(), x.rend(), rx, "reverse"); }
        });
    }
}
SITE("C16", "descriptive<double>") { descriptive<double>(S); }
SITE("C16", "descriptive<float>") { descriptive<float>(S); }
template <class T> void means(Site& S) {
    for (size_t n : lens<T>(S, 1)) {
        auto x = positive<T>(S.rng, n, false);
        S.run(std::string("means<") + tname<T>() + "> n=" + std::to_string(n), hash_bytes(x.data(), n), n > 1, [&] {
            auto b = Buf<T>::from(x); ld N = static_cast<ld>(n), e = eps<T>(), sl = 0, sal = 0, si = 0; for (auto v : x) { ld t = std::log(static_cast<ld>(v)); sl += t; sal += std::fabs(t); si += 1 / static_cast<ld>(v); }
            ld g = std::exp(sl / N), h = N / si, am = l1(x) / N; T lg = es::geometric_mean(b.begin(), b.end()), lh = es::harmonic_mean(b.begin(), b.end());
            S.close(lg, g, ((N + 4) * sal / N + 8) * e * g, "geometric_mean"); S.close(lh, h, (N + 8) * e * h, "harmonic_mean");
            for (int k : {1, 2, 3, 4, 5, 8, -1, -2, -3}) {
                ld s = 0; for (auto v : x) s += std::pow(static_cast<ld>(v), k); if (!fits<T>(s)) continue;
                ld r = std::pow(s / N, 1.0L / k); S.close(es::generalized_mean(b.begin(), b.end(), k), r, ((N + 12) / std::abs(k) + 4 + std::fabs(std::log(s / N)) / std::abs(k)) * e * r * 2, "generalized_mean", "order " + std::to_string(k));
            }
            ld t = (2 * N + 12 + (N + 4) * sal / N) * e; S.expect(static_cast<ld>(lh) <= static_cast<ld>(lg) * (1 + t) && static_cast<ld>(lg) <= am * (1 + t), "mean-inequality");
            S.expect(same_bits(b.vec(), x), "input-changed");
        });
    }
}
SITE("C16", "positive means<double>") { means<double>(S); }
SITE("C16", "positive means<float>") { means<float>(S); }

// ---------------------------------------------------------------- C17
template <class T> void temporal(Site& S) {
    for (size_t n : lens<T>(S, 1)) {
        int sh = static_cast<int>(S.rng.below(NSHAPES)); auto x = signal<T>(S.rng, n, sh); T fsr = S.rng.pick(std::vector<T>{8000, 22050, 44100, 48000, 1, static_cast<T>(0.5)}), th = S.rng.coin(0.3) ? S.rng.pick(std::vector<T>{0, static_cast<T>(0.5), 1}) : static_cast<T>(S.rng.unit());
        if (n > 2 && S.rng.coin(0.2)) for (size_t i = 0; i < n; ++i) if (S.rng.coin(0.2)) x[i] = S.rng.coin() ? T(0) : static_cast<T>(-0.0);
        S.cover("shape", sh); S.cover("length", static_cast<long>(n));
        S.run(std::string("temporal<") + tname<T>() + "> n=" + std::to_string(n) + " " + shape_name(sh) + " fs=" + num(fsr) + " threshold=" + num(th), hash_bytes(x.data(), n), n > 1 && maxabs(x) > 0, [&] {
            auto b = Buf<T>::from(x); const auto& c = b; auto f = c.begin(), l = c.end(); ld N = static_cast<ld>(n), e = eps<T>(), sq = 0, ma = maxabs(x); for (auto v : x) sq += static_cast<ld>(v) * static_cast<ld>(v);
            std::list<T> li(x.begin(), x.end());
            if (fits<T>(sq) && (ma == 0 || fits<T>(ma * ma))) {
                ld r = (N + 8) * e; S.close(ft::energy(f, l), sq, r * sq, "energy"); S.close(ft::power(f, l), sq / N, r * sq / N, "power"); S.close(ft::rms(f, l), std::sqrt(sq / N), r * std::sqrt(sq / N), "rms"); S.close(ft::rssq(f, l), std::sqrt(sq), r * std::sqrt(sq), "rssq");
                S.close(ft::loudness(f, l), std::pow(sq, 0.67L), r * 2 * std::pow(sq, 0.67L) + (sq > 0 ? 4 * e * std::fabs(std::log(sq)) * std::pow(sq, 0.67L) : 0), "loudness");
                S.close(ft::energy(li.begin(), li.end()), sq, r * sq, "energy", "list"); S.close(ft::rms(li.begin(), li.end()), std::sqrt(sq / N), r * std::sqrt(sq / N), "rms", "list");
                if (sq > 0) S.close(ft::leq(f, l), 10 * std::log10(sq / N), 10 * r / std::log(10.0L) * 1.1L + 6 * e * std::fabs(10 * std::log10(sq / N)) + 4 * e, "leq");
                for (ld k : {0.5L, 0.999L, 1.001L, 2.0L, 0.0L, 1e6L}) { T t = static_cast<T>(sq / N * k); if (std::fabs(sq / N - static_cast<ld>(t)) > 2 * r * sq / N + static_cast<ld>(std::numeric_limits<T>::min())) S.expect(edsp::algorithm::silence(f, l, t) == (sq / N < static_cast<ld>(t)), "silence", num(t)); }
                if (sq == 0) S.expect(edsp::algorithm::silence(f, l, static_cast<T>(1e-9)), "silence", "all zero");
            }
            S.close(ft::duration(f, l, fsr), N / static_cast<ld>(fsr), 2 * e * N / static_cast<ld>(fsr), "duration");
            long lo = 0, hi = 0; ld lim = static_cast<ld>(th) * ma; for (auto v : x) { ld a = std::fabs(static_cast<ld>(v)); if (a > lim * (1 + 2 * e) + static_cast<ld>(std::numeric_limits<T>::denorm_min())) ++lo; if (a > lim * (1 - 2 * e) && !(th == 1 || th == 0 ? a <= lim : false)) ++hi; }
            ld ed = static_cast<ld>(ft::effective_duration(f, l, fsr, th)), cnt = ed * static_cast<ld>(fsr); S.expect(cnt >= static_cast<ld>(lo) - 0.01L - N * 2 * e && cnt <= static_cast<ld>(hi) + 0.01L + N * 2 * e, "effective_duration", num(cnt) + " samples, want " + std::to_string(lo) + ".." + std::to_string(hi)); if (lo == hi) S.count("effective durations compared exactly");
            if (n >= 2) { long z = 0; for (size_t i = 1; i < n; ++i) z += (x[i] < 0) != (x[i - 1] < 0); S.close(ft::azcr(f, l), static_cast<ld>(z) / (N - 1), 2 * e, "azcr"); S.close(ft::azcr(li.begin(), li.end()), static_cast<ld>(z) / (N - 1), 2 * e, "azcr", "list"); S.cover("zero crossings", z); }
            S.expect(same_bits(b.vec(), x), "input-changed");
        });
    }
}
// integer samples and dyadic parameters: every sum, product and limit is exact, so the comparisons with a limit are decided exactly
template <class T> void exact_levels(Site& S) {
    for (long k = 0; k < S.reps(1500, 30000); ++k) {
        size_t n = size_t(1) << S.rng.below(7); std::vector<T> x(n); long top = S.rng.pick(std::vector<long>{1, 2, 4, 8}); for (auto& v : x) v = static_cast<T>(S.rng.range(-top, top)); x[S.rng.below(n)] = static_cast<T>(S.rng.coin() ? top : -top);
        T th = static_cast<T>(static_cast<double>(S.rng.below(9)) / 8), fsr = S.rng.pick(std::vector<T>{1, 8, 8192});
        S.run(std::string("exact levels<") + tname<T>() + "> " + seq(x) + " threshold=" + num(th), hash_bytes(x.data(), n), n > 1, [&] {
            auto b = Buf<T>::from(x); const auto& c = b; ld sq = 0; long above = 0, z = 0; for (auto v : x) { sq += static_cast<ld>(v) * static_cast<ld>(v); above += std::fabs(static_cast<ld>(v)) > static_cast<ld>(th) * static_cast<ld>(top); } for (size_t i = 1; i < n; ++i) z += (x[i] < 0) != (x[i - 1] < 0);
            S.close(ft::effective_duration(c.begin(), c.end(), fsr, th), static_cast<ld>(above) / static_cast<ld>(fsr), eps<T>() * static_cast<ld>(above) / static_cast<ld>(fsr), "effective_duration", "exact");
            T p = static_cast<T>(sq / static_cast<ld>(n)); S.expect(!edsp::algorithm::silence(c.begin(), c.end(), p), "silence", "power equal to the threshold"); S.expect(edsp::algorithm::silence(c.begin(), c.end(), static_cast<T>(p + static_cast<T>(0.25))), "silence", "power below the threshold"); S.expect(!edsp::algorithm::silence(c.begin(), c.end(), static_cast<T>(p - static_cast<T>(0.25))), "silence", "power above the threshold");
            S.close(ft::energy(c.begin(), c.end()), sq, 0, "energy", "exact"); S.close(ft::power(c.begin(), c.end()), sq / static_cast<ld>(n), 0, "power", "exact"); if (n > 1) S.close(ft::azcr(c.begin(), c.end()), static_cast<ld>(z) / static_cast<ld>(n - 1), eps<T>(), "azcr", "exact");
        });
    }
}
SITE("C17", "exact levels<double>") { exact_levels<double>(S); }
SITE("C17", "exact levels<float>") { exact_levels<float>(S); }
SITE("C17", "levels<double>") { temporal<double>(S); }
SITE("C17", "levels<float>") { temporal<float>(S); }
template <class T> void lagged(Site& S) {
    for (size_t n : sizes(S.rng, S.reps(80, 200), {255, 256, 257, 512, 1000, 1024, 2049}, S.reps(60, 1200), 400, 1)) {
        int sh = static_cast<int>(S.rng.below(NSHAPES)); auto x = signal<T>(S.rng, n, sh);
        S.cover("length", static_cast<long>(n));
        S.run(std::string("amdf/asdf<") + tname<T>() + "> n=" + std::to_string(n) + " " + shape_name(sh), hash_bytes(x.data(), n), n > 1 && maxabs(x) > 0, [&] {
            auto b = Buf<T>::from(x); Buf<T> o(n, static_cast<T>(77)), q(n, static_cast<T>(77)); ld N = static_cast<ld>(n), e = eps<T>(); ft::amdf(b.begin(), b.end(), o.begin()); ft::asdf(b.begin(), b.end(), q.begin()); bool sqok = fits<T>(4 * maxabs(x) * maxabs(x) * N);
            for (size_t k = 0; k < n; ++k) { ld a = 0, s = 0; for (size_t j = 0; j + k < n; ++j) { ld d = static_cast<ld>(x[j]) - static_cast<ld>(x[j + k]); a += std::fabs(d); s += d * d; } a /= N; s /= N; bool g = S.close(o[k], a, (N + 8) * e * a, "amdf", "lag " + std::to_string(k)); if (sqok) g = S.close(q[k], s, (N + 8) * e * s + N * static_cast<ld>(std::numeric_limits<T>::min()), "asdf", "lag " + std::to_string(k)) && g; if (!g) break; }
            S.expect(same_bits(b.vec(), x), "input-changed");
            std::vector<T> w(n + 2, static_cast<T>(42)); ft::amdf(x.begin(), x.end(), w.begin() + 1); S.expect(w.front() == 42 && w.back() == 42, "wrote-outside"); std::list<T> lo(n); ft::asdf(x.begin(), x.end(), lo.begin()); size_t i = 0; for (auto v : lo) S.close(v, q[i++], e * std::fabs(static_cast<ld>(v)) * 4, "asdf", "list output");
        });
    }
}
SITE("C17", "difference functions<double>") { lagged<double>(S); }
SITE("C17", "difference functions<float>") { lagged<float>(S); }
template <class T> void snr_site(Site& S) {
    for (size_t n : lens<T>(S, 2)) {
        auto x = signal<T>(S.rng, n, S.rng.pick(std::vector<int>{GAUSS, UNIFORM, SINE, ALT, RAMP, TIES})); double lv = std::pow(10, S.rng.uniform(-4, 2)), off = S.rng.coin() ? S.rng.uniform(-1, 1) : 0; std::vector<T> y(x); for (auto& v : y) v = static_cast<T>(static_cast<double>(v) + lv * S.rng.gauss() + off);
        S.run(std::string("snr<") + tname<T>() + "> n=" + std::to_string(n) + " noise=" + num(lv), hash_bytes(x.data(), n, hash_bytes(y.data(), n)), true, [&] {
            auto a = Buf<T>::from(x), b = Buf<T>::from(y); ld N = static_cast<ld>(n), e = eps<T>(); std::vector<T> d(n); for (size_t i = 0; i < n; ++i) d[i] = x[i] - y[i];
            auto mx = about_mean(x), md = about_mean(d); auto vx = kth(x, mx.m, mx.dm + e * std::fabs(mx.m), 2), vd = kth(d, md.m, md.dm + e * std::fabs(md.m), 2);
            if (vx.first == 0 || vd.first == 0 || vx.second > 0.05L * vx.first || vd.second > 0.05L * vd.first) { S.count("ill-conditioned, skipped"); return; }
            ld r = 10 * std::log10(vx.first / vd.first), t = 10 / std::log(10.0L) * 1.6L * (vx.second / vx.first + vd.second / vd.first + (N + 8) * e * 0 + 4 * e) + 8 * e * std::fabs(r);
            S.close(ft::snr(a.begin(), a.end(), b.begin()), r, t, "snr"); S.expect(same_bits(a.vec(), x) && same_bits(b.vec(), y), "input-changed");
            std::list<T> lx(x.begin(), x.end()), ly(y.begin(), y.end()); S.close(ft::snr(lx.begin(), lx.end(), ly.begin()), r, t, "snr", "lists");
            std::vector<T> joint(x); joint.insert(joint.end(), y.begin(), y.end()); S.close(ft::snr(joint.begin(), joint.begin() + static_cast<long>(n), joint.begin() + static_cast<long>(n)), r, t, "snr", "adjacent ranges");
        });
    }
}
SITE("C17", "snr<double>") { snr_site<double>(S); }
SITE("C17", "snr<float>") { snr_site<float>(S); }
template <class T> void cleq(Site& S) {
    for (long k = 0; k < S.reps(250, 4000); ++k) {
        size_t N = 1 + S.rng.below(k % 8 ? 12 : 120), frames = 1 + S.rng.below(k % 25 ? 40 : 600), len = 1 + S.rng.below(k % 10 ? 60 : 2000); std::vector<std::vector<T>> fr; uint64_t h = N; for (size_t i = 0; i < frames; ++i) { fr.push_back(signal<T>(S.rng, len, S.rng.coin() ? GAUSS : SINE)); if (maxabs(fr.back()) == 0) fr.back()[0] = 1; h = hash_bytes(fr.back().data(), len, h); }
        S.cover("window", static_cast<long>(N));
        S.run(std::string("continuous_leq<") + tname<T>() + "> frames=" + std::to_string(frames) + " window=" + std::to_string(N) + " len=" + std::to_string(len), h, true, [&] {
            ft::continuous_leq<T> q(N); std::deque<ld> last(N, 0); ld big = 1;
            for (auto& f : fr) { auto b = Buf<T>::from(f); ld s = 0; for (auto v : f) s += static_cast<ld>(v) * static_cast<ld>(v); ld v = 10 * std::log10(s / static_cast<ld>(len)); last.push_back(v); last.pop_front(); big = std::max(big, std::fabs(v)); ld m = std::accumulate(last.begin(), last.end(), 0.0L) / static_cast<ld>(N); if (!S.close(q.extract(b.begin(), b.end()), m, (10 * static_cast<ld>(len) + 20 + 4 * static_cast<ld>(frames) * big) * eps<T>(), "continuous_leq")) break; }
        });
    }
}
SITE("C17", "continuous leq<double>") { cleq<double>(S); }
SITE("C17", "continuous leq<float>") { cleq<float>(S); }

// ---------------------------------------------------------------- C18
template <class T> void features(Site& S) {
    using namespace edsp::feature; using em_d = edsp::math::distances;
    for (size_t n : lens<T>(S, 1)) {
        auto x = positive<T>(S.rng, n, true), y = positive<T>(S.rng, n, true), xp = positive<T>(S.rng, n, false), yp = positive<T>(S.rng, n, false); auto sg = signal<T>(S.rng, n, static_cast<int>(S.rng.below(NSHAPES))); if (maxabs(sg) == 0) sg[n - 1] = -1;
        std::vector<T> f(n); double f0 = S.rng.coin() ? 0 : S.rng.uniform(0, 100), df = S.rng.uniform(0.5, 50); for (size_t i = 0; i < n; ++i) f[i] = static_cast<T>(f0 + df * static_cast<double>(i));
        if (S.rng.coin(0.2)) y = x; T pct = S.rng.coin(0.3) ? static_cast<T>(0.95) : static_cast<T>(S.rng.uniform(0, 1));
        S.cover("length", static_cast<long>(n));
        S.run(std::string("features<") + tname<T>() + "> n=" + std::to_string(n) + " df=" + num(df) + " pct=" + num(pct), hash_bytes(x.data(), n, hash_bytes(y.data(), n)), n > 1, [&] {
            ld N = static_cast<ld>(n), e = eps<T>(), r = (N + 10) * e; auto bx = Buf<T>::from(x), by = Buf<T>::from(y), bp = Buf<T>::from(xp), bq = Buf<T>::from(yp), bf = Buf<T>::from(f), bs = Buf<T>::from(sg); std::list<T> lx(x.begin(), x.end()), lf(f.begin(), f.end()), ly(y.begin(), y.end()), lp(xp.begin(), xp.end());
            ld sx = l1(x), sy = l1(y), ci = 0, cf = 0; for (size_t i = 0; i < n; ++i) { ci += static_cast<ld>(i) * static_cast<ld>(x[i]); cf += static_cast<ld>(f[i]) * static_cast<ld>(x[i]); } ci /= sx; cf /= sx;
            S.close(fs::centroid(bx.begin(), bx.end()), ci, 2 * r * ci, "centroid"); S.close(fs::weighted_centroid(bx.begin(), bx.end(), bf.begin()), cf, 2 * r * cf, "weighted_centroid"); S.close(spectral_centroid(bx.begin(), bx.end(), bf.begin()), cf, 2 * r * cf, "spectral_centroid"); S.close(fs::centroid(lx.begin(), lx.end()), ci, 2 * r * ci, "centroid", "list");
            auto spread = [&](ld c, const std::function<ld(size_t)>& pos) { ld v = 0, a = 0, dc = 2 * r * c; for (size_t i = 0; i < n; ++i) { ld d = std::fabs(pos(i) - c); v += d * d * static_cast<ld>(x[i]); a += d * static_cast<ld>(x[i]); } v /= sx; a /= sx; ld er = 2 * r * v + 2 * dc * a * (1 + e) + dc * dc; return std::pair<ld, ld>{std::sqrt(v), std::min(v > 0 ? er / std::sqrt(v) : INFINITY, std::sqrt(er)) + 4 * e * std::sqrt(v)}; };
            auto si = spread(ci, [](size_t i) { return static_cast<ld>(i); }), sf = spread(cf, [&](size_t i) { return static_cast<ld>(f[i]); });
            S.close(fs::spread(bx.begin(), bx.end()), si.first, si.second, "spread"); S.close(fs::weighted_spread(bx.begin(), bx.end(), bf.begin()), sf.first, sf.second, "weighted_spread"); S.close(spectral_spread(bx.begin(), bx.end(), bf.begin()), sf.first, sf.second, "spectral_spread"); S.close(fs::weighted_spread(lx.begin(), lx.end(), lf.begin()), sf.first, sf.second, "weighted_spread", "list");
            ld cr = maxabs(sg) / l1(sg); S.close(fs::crest(bs.begin(), bs.end()), cr, r * cr, "crest"); S.close(spectral_crest(bs.begin(), bs.end()), cr, r * cr, "spectral_crest");
            if (n >= 2 && sx - static_cast<ld>(x[0]) > 0) { ld w = 0, wa = 0, u = 0; for (size_t i = 1; i < n; ++i) { ld d = (static_cast<ld>(x[i]) - static_cast<ld>(x[0])) / static_cast<ld>(i); w += d; wa += std::fabs(d); u += x[i]; } ld t = 2 * r * wa / u; S.close(fs::decrease(bx.begin(), bx.end()), w / u, t, "decrease"); S.close(spectral_decrease(bx.begin(), bx.end()), w / u, t, "spectral_decrease"); S.close(fs::decrease(lx.begin(), lx.end()), w / u, t, "decrease", "list"); }
            ld lg = std::log2(N);
            if (n >= 2) {   // entropy of a probability mass function, then of a spectrum
                std::vector<T> p(n); for (size_t i = 0; i < n; ++i) p[i] = static_cast<T>(static_cast<ld>(x[i]) / sx);
                auto ent = [&](auto get) { ld h = 0, a = 0; for (size_t i = 0; i < n; ++i) { ld q = get(i); if (q > 0) { h -= q * std::log2(q); a += std::fabs(q * std::log2(q)); } } return std::pair<ld, ld>{h / lg, r * (2 * a + 2) / lg}; };
                auto bpmf = Buf<T>::from(p); auto h1 = ent([&](size_t i) { return static_cast<ld>(p[i]); }), h2 = ent([&](size_t i) { return static_cast<ld>(x[i]) / sx; });
                S.close(fs::entropy(bpmf.begin(), bpmf.end()), h1.first, h1.second, "entropy"); T se = spectral_entropy(bx.begin(), bx.end()); S.close(se, h2.first, h2.second, "spectral_entropy"); S.expect(se >= -h2.second && se <= 1 + h2.second, "entropy-range"); S.close(spectral_entropy(lx.begin(), lx.end()), h2.first, h2.second, "spectral_entropy", "list");
            }
            ld sl = 0, sal = 0; for (auto v : xp) { ld t = std::log(static_cast<ld>(v)); sl += t; sal += std::fabs(t); } ld fl = std::exp(sl / N) / (l1(xp) / N), flt = ((N + 4) * sal / N + N + 16) * e * fl;
            S.close(fs::flatness(bp.begin(), bp.end()), fl, flt, "flatness"); S.close(spectral_flatness(bp.begin(), bp.end()), fl, flt, "spectral_flatness"); S.close(fs::flatness(lp.begin(), lp.end()), fl, flt, "flatness", "list"); S.expect(fs::flatness(bp.begin(), bp.end()) <= 1 + flt, "flatness-range");
            ld fm = 0, fe = 0, fg = 0, fga = 0, sp = l1(xp), sq = l1(yp); for (size_t i = 0; i < n; ++i) { ld d = static_cast<ld>(x[i]) / sx - static_cast<ld>(y[i]) / sy, g = std::log((static_cast<ld>(xp[i]) / sp) / (static_cast<ld>(yp[i]) / sq)); fm += std::fabs(d); fe += d * d; fg += g; fga += std::fabs(g); }
            S.close(fs::flux<em_d::manhattan>(bx.begin(), bx.end(), by.begin()), fm, 4 * r, "flux-manhattan"); S.close(fs::flux<em_d::euclidean>(bx.begin(), bx.end(), by.begin()), fe, 8 * r, "flux-euclidean"); S.close(spectral_flux(bx.begin(), bx.end(), by.begin()), fe, 8 * r, "spectral_flux"); S.close(fs::flux<em_d::logarithmic>(bp.begin(), bp.end(), bq.begin()), fg, N * 3 * r + r * fga, "flux-logarithmic"); S.close(fs::flux<em_d::euclidean>(lx.begin(), lx.end(), ly.begin()), fe, 8 * r, "flux-euclidean", "list");
            S.expect(fs::flux<em_d::euclidean>(bx.begin(), bx.end(), bx.begin()) == 0 && fs::flux<em_d::manhattan>(bx.begin(), bx.end(), bx.begin()) == 0, "flux-itself");
            { std::vector<T> joint(x); joint.insert(joint.end(), y.begin(), y.end()); auto it = joint.begin(); S.close(fs::flux<em_d::manhattan>(it, it + static_cast<long>(n), it + static_cast<long>(n)), fm, 4 * r, "flux-manhattan", "adjacent ranges"); }
            ld en = 0; for (auto v : x) en += static_cast<ld>(v) * static_cast<ld>(v); ld lim = static_cast<ld>(pct) * en, acc = 0, tol = 3 * r * en; long lo = -1, hi = -1;
            for (size_t i = 0; i < n; ++i) { acc += static_cast<ld>(x[i]) * static_cast<ld>(x[i]); if (lo < 0 && acc > lim - tol) lo = static_cast<long>(i); if (hi < 0 && acc > lim + tol) hi = static_cast<long>(i); } if (lo < 0) lo = static_cast<long>(n) - 1; if (hi < 0) hi = static_cast<long>(n) - 1; if (lo == hi) S.count("rolloffs compared exactly");
            for (ld g : {static_cast<ld>(fs::rolloff(bx.begin(), bx.end(), pct)), static_cast<ld>(spectral_rolloff(bx.begin(), bx.end(), pct)), static_cast<ld>(fs::rolloff(lx.begin(), lx.end(), pct))}) S.expect(g * N >= static_cast<ld>(lo) - 0.01L && g * N <= static_cast<ld>(hi) + 0.01L, "rolloff", num(g * N) + " want " + std::to_string(lo) + ".." + std::to_string(hi));
            if (n >= 2) {
                ld s1 = 0, s2 = 0, s12 = 0, s22 = 0; for (size_t i = 0; i < n; ++i) { ld a = x[i], b = f[i]; s1 += a; s2 += b; s12 += a * b; s22 += b * b; } ld nu = N * s12 - s2 * s1, de = N * s22 - s2 * s2, dn = 2 * r * (N * s12 + s1 * s2), dd = 2 * r * (N * s22 + s2 * s2);
                if (dd < 0.1L * de) { ld v = nu / de / s1, t = dn / de / s1 * 1.2L + std::fabs(v) * (1.2L * dd / de + 2 * r); S.count("slopes compared"); S.close(fs::slope(bx.begin(), bx.end(), bf.begin()), v, t, "slope"); S.close(spectral_slope(bx.begin(), bx.end(), bf.begin()), v, t, "spectral_slope"); S.close(fs::slope(lx.begin(), lx.end(), lf.begin()), v, t, "slope", "list"); }
                ld ia = 0, ib = 0; for (size_t i = 0; i + 1 < n; ++i) { ld d = static_cast<ld>(x[i + 1]) - static_cast<ld>(x[i]); ia += d * d; ib += static_cast<ld>(x[i]) * static_cast<ld>(x[i]); } if (ib > 0) S.close(spectral_irregularity(bx.begin(), bx.end()), ia / ib, 3 * r * ia / ib, "spectral_irregularity");
            }
            ld a2 = 0, b2 = 0, ab = 0; for (size_t i = 0; i < n; ++i) { ld a = x[i], b = y[i]; a2 += a * a; b2 += b * b; ab += a * b; } ld va = 1 - ab / std::sqrt(a2 * b2); S.close(fs::variation(bx.begin(), bx.end(), by.begin()), va, 4 * r, "variation"); S.close(spectral_variation(bx.begin(), bx.end(), by.begin()), va, 4 * r, "spectral_variation"); S.close(fs::variation(bx.begin(), bx.end(), bx.begin()), 0, 4 * r, "variation-itself"); S.close(fs::variation(lx.begin(), lx.end(), ly.begin()), va, 4 * r, "variation", "list");
            auto am = about_mean(x); auto v2 = kth(x, am.m, am.dm + e * am.m, 2); if (v2.first > 0 && v2.second < 0.03L * v2.first) { auto v3 = kth(x, am.m, am.dm + e * am.m, 3), v4 = kth(x, am.m, am.dm + e * am.m, 4); ld rel = 1.5L * v2.second / v2.first, s3 = std::pow(v2.first, 1.5L), s4 = v2.first * v2.first; S.close(spectral_skewness(bx.begin(), bx.end()), v3.first / s3, v3.second * 2 / s3 + std::fabs(v3.first / s3) * (2 * rel + 8 * e), "spectral_skewness"); S.close(spectral_kurtosis(bx.begin(), bx.end()), v4.first / s4, v4.second * 2 / s4 + v4.first / s4 * (3 * rel + 8 * e), "spectral_kurtosis"); }
            S.expect(same_bits(bx.vec(), x) && same_bits(by.vec(), y) && same_bits(bf.vec(), f) && same_bits(bp.vec(), xp) && same_bits(bs.vec(), sg), "input-changed");
        });
    }
}
// integer spectra and dyadic fractions: the cumulated energy and its limit are exact
template <class T> void exact_rolloff(Site& S) {
    for (long k = 0; k < S.reps(2000, 40000); ++k) {
        size_t n = 1 + S.rng.below(24); std::vector<T> x(n); long top = S.rng.range(1, 4); for (auto& v : x) v = static_cast<T>(S.rng.range(0, top)); x[S.rng.below(n)] = static_cast<T>(top); T pct = static_cast<T>(static_cast<double>(S.rng.below(9)) / 8);
        S.run(std::string("exact roll-off<") + tname<T>() + "> " + seq(x, 24) + " fraction=" + num(pct), hash_bytes(x.data(), n), n > 1, [&] {
            auto b = Buf<T>::from(x); ld en = 0, acc = 0; for (auto v : x) en += static_cast<ld>(v) * static_cast<ld>(v); size_t want = n - 1; for (size_t i = 0; i < n; ++i) { acc += static_cast<ld>(x[i]) * static_cast<ld>(x[i]); if (acc == static_cast<ld>(pct) * en) S.count("limit met exactly"); if (acc > static_cast<ld>(pct) * en) { want = i; break; } }
            S.close(fs::rolloff(b.begin(), b.end(), pct), static_cast<ld>(want) / static_cast<ld>(n), 2 * eps<T>(), "rolloff", "exact"); S.close(edsp::feature::spectral_rolloff(b.begin(), b.end(), pct), static_cast<ld>(want) / static_cast<ld>(n), 2 * eps<T>(), "spectral_rolloff", "exact");
        });
    }
}
SITE("C18", "exact rolloff<double>") { exact_rolloff<double>(S); }
SITE("C18", "exact rolloff<float>") { exact_rolloff<float>(S); }
SITE("C18", "features<double>") { features<double>(S); }
SITE("C18", "features<float>") { features<float>(S); }
VM_MAIN
