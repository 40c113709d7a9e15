// Biquads and cascades (C06), filter designers (C07), moving filters (C08).
#include "vm.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/math/complex.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/filter.hpp>
#include <edsp/filter/biquad.hpp>
#include <edsp/filter/biquad_cascade.hpp>
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/filter/moving_rms_filter.hpp>
using namespace vm;
namespace ef = edsp::filter;
using ef::designer_type; using ef::filter_type;
using cld = std::complex<ld>;

// ---------------------------------------------------------------- C06
struct Coef { ld a0, a1, a2, b0, b1, b2; };
template <class T> ef::biquad<T> make(const Coef& c) { return ef::biquad<T>(T(c.a0), T(c.a1), T(c.a2), T(c.b0), T(c.b1), T(c.b2)); }
// random section with poles inside (or, if !stable, possibly outside) the unit circle
static Coef random_coef(Rng& r, bool stable = true) {
    ld rad = stable ? r.uniform(0, 0.97) : r.uniform(1.02, 1.3), th = r.uniform(0, 3.14159);
    Coef c{};
    switch (r.below(4)) {
        case 0: c.a1 = -2 * rad * std::cos(th); c.a2 = rad * rad; break;                                          // complex pair
        case 1: { ld q = r.uniform(-0.97, 0.97), p = r.coin() ? rad : -rad; c.a1 = -(p + q); c.a2 = p * q; break; } // real pair
        case 2: c.a1 = r.coin() ? rad : -rad; c.a2 = 0; break;                                                      // one pole
        default: if (stable) c.a1 = c.a2 = 0; else { c.a1 = 0; c.a2 = r.coin() ? rad * rad : -rad * rad; } break;
    }
    c.a0 = 1; c.b0 = r.uniform(-2, 2); c.b1 = r.coin(0.2) ? 0 : r.uniform(-2, 2); c.b2 = r.coin(0.2) ? 0 : r.uniform(-2, 2);
    if (r.coin()) { ld k = std::pow(10.0, r.uniform(-2, 2)) * (r.coin() ? 1 : -1); c.a0 *= k; c.a1 *= k; c.a2 *= k; }
    return c;
}
template <class T> Coef round_to(Coef c) { return {ld(T(c.a0)), ld(T(c.a1)), ld(T(c.a2)), ld(T(c.b0)), ld(T(c.b1)), ld(T(c.b2))}; }
// difference equation, with the absolute sum of the impulse response of 1/A (amplification of a local rounding error)
struct Ref { std::vector<ld> y; ld amp, big; };
static Ref diffeq(const Coef& c, const std::vector<ld>& x) {
    Ref r; r.y.resize(x.size()); r.amp = 0; r.big = 0;
    ld h1 = 0, h2 = 0;
    for (size_t n = 0; n < x.size(); ++n) {
        ld x1 = n > 0 ? x[n - 1] : 0, x2 = n > 1 ? x[n - 2] : 0, y1 = n > 0 ? r.y[n - 1] : 0, y2 = n > 1 ? r.y[n - 2] : 0;
        r.y[n] = (c.b0 * x[n] + c.b1 * x1 + c.b2 * x2 - c.a1 * y1 - c.a2 * y2) / c.a0;
        r.big = std::max(r.big, (std::fabs(c.b0 * x[n]) + std::fabs(c.b1 * x1) + std::fabs(c.b2 * x2) + std::fabs(c.a1 * y1) + std::fabs(c.a2 * y2)) / std::fabs(c.a0) + std::fabs(r.y[n]));
        ld h = (n == 0 ? 1 : 0) - (c.a1 * h1 + c.a2 * h2) / c.a0; h2 = h1; h1 = h; r.amp += std::fabs(h);
    }
    return r;
}
template <class T> std::vector<ld> up(const std::vector<T>& v) { return std::vector<ld>(v.begin(), v.end()); }
template <class T> Coef coef_of(const ef::biquad<T>& b) { return {ld(b.a0()), ld(b.a1()), ld(b.a2()), ld(b.b0()), ld(b.b1()), ld(b.b2())}; }
static std::string cdesc(const Coef& c) { return seq(std::vector<ld>{c.a0, c.a1, c.a2, c.b0, c.b1, c.b2}); }

template <class T, class F> std::vector<T> chunked(Rng& r, F& f, const std::vector<T>& x, Site& S) {
    std::vector<T> y(x.size()); size_t i = 0; long calls = 0;
    while (i < x.size()) {
        size_t m = std::min<size_t>(x.size() - i, r.coin(0.1) ? 0 : r.coin(0.3) ? 1 : 1 + r.below(r.coin(0.1) ? 4000 : 40)); ++calls;
        if (r.coin(0.3) && m) { for (size_t k = 0; k < m; ++k) y[i + k] = f.tick(x[i + k]); }
        else if (r.coin(0.4)) { Buf<T> b(m); std::copy(x.begin() + long(i), x.begin() + long(i + m), b.begin()); f.filter(b.begin(), b.end(), b.begin()); std::copy(b.begin(), b.end(), y.begin() + long(i)); } // in place
        else { Buf<T> b(m), o(m, T(9)); std::copy(x.begin() + long(i), x.begin() + long(i + m), b.begin()); f.filter(b.begin(), b.end(), o.begin()); std::copy(o.begin(), o.end(), y.begin() + long(i)); }
        i += m;
    }
    S.count("chunks", calls);
    return y;
}
template <class T> void biquad_site(Site& S) {
    for (long k = 0; k < S.reps(3000, 30000); ++k) {
        bool stable = !S.rng.coin(0.15); Coef c = round_to<T>(random_coef(S.rng, stable));
        size_t n = stable ? S.rng.range(1, k % 50 == 9 ? S.reps(20000, 100000) : S.reps(400, 3000)) : S.rng.range(1, 60); int sh = int(S.rng.below(NSHAPES));
        auto x = signal<T>(S.rng, n, sh);
        S.run(std::string("biquad<") + tname<T>() + "> " + cdesc(c) + " " + shape_name(sh) + " n=" + num(n), hash_bytes(x.data(), n), sh != ZERO && n > 1, [&] {
            auto b = make<T>(c);
            Coef k = coef_of(b);
            S.expect(k.a0 == 1, "normalised-a0"); ld u = 2 * eps<T>();
            S.close(k.a1, c.a1 / c.a0, u * std::fabs(c.a1 / c.a0), "normalised-coefficient"); S.close(k.a2, c.a2 / c.a0, u * std::fabs(c.a2 / c.a0), "normalised-coefficient");
            S.close(k.b0, c.b0 / c.a0, u * std::fabs(c.b0 / c.a0), "normalised-coefficient"); S.close(k.b1, c.b1 / c.a0, u * std::fabs(c.b1 / c.a0), "normalised-coefficient"); S.close(k.b2, c.b2 / c.a0, u * std::fabs(c.b2 / c.a0), "normalised-coefficient");
            S.expect(b.stability() == stable && static_cast<bool>(b) == stable, "stability", stable ? "stable" : "unstable");
            Ref r = diffeq(k, up(x));
            std::vector<T> y(n, T(7)); b.filter(x.begin(), x.end(), y.begin());
            S.all_close(y, r.y, 64 * eps<T>() * r.big * r.amp + 1e-300L, "difference-equation");
            auto cont = b;                                     // a copy continues from the same state ...
            auto x2 = signal<T>(S.rng, 1 + S.rng.below(50), GAUSS); auto xx = x; xx.insert(xx.end(), x2.begin(), x2.end());
            std::vector<T> t1(x2.size()), t2(x2.size()); for (size_t i = 0; i < x2.size(); ++i) t1[i] = cont.tick(x2[i]);
            b.filter(x2.begin(), x2.end(), t2.begin());        // ... independently of the original
            S.expect(same_bits(t1, t2), "copy-state");
            if (stable) { Ref rr = diffeq(k, up(xx)); std::vector<ld> tail(rr.y.begin() + long(n), rr.y.end()); S.all_close(t2, tail, 64 * eps<T>() * rr.big * rr.amp + 1e-300L, "state-across-calls"); }
            b.reset(); auto yc = chunked(S.rng, b, x, S); S.expect(same_bits(yc, y), "chunk-invariance");
            b.reset(); std::list<T> lx(x.begin(), x.end()); std::vector<T> yl; b.filter(lx.begin(), lx.end(), std::back_inserter(yl)); S.expect(same_bits(yl, y), "iterators");
        });
    }
}
template <class T> void setters_site(Site& S) {
    for (long k = 0; k < S.reps(2500, 25000); ++k) {
        Coef c = round_to<T>(random_coef(S.rng)), d = round_to<T>(random_coef(S.rng)); auto x = signal<T>(S.rng, 1 + S.rng.below(120), int(S.rng.below(ZERO)));
        unsigned mask = unsigned(1 + S.rng.below(63));
        S.run(std::string("set coefficients<") + tname<T>() + "> mask=" + num(mask) + " " + cdesc(c) + " -> " + cdesc(d), hash_bytes(x.data(), x.size()), true, [&] {
            auto b = make<T>(c); for (T v : signal<T>(S.rng, S.rng.below(10), GAUSS)) b.tick(v);
            Coef e = coef_of(b);
            if (mask & 1) { b.set_a0(T(d.a0)); e.a0 = d.a0; } if (mask & 2) { b.set_a1(T(d.a1)); e.a1 = d.a1; } if (mask & 4) { b.set_a2(T(d.a2)); e.a2 = d.a2; }
            if (mask & 8) { b.set_b0(T(d.b0)); e.b0 = d.b0; } if (mask & 16) { b.set_b1(T(d.b1)); e.b1 = d.b1; } if (mask & 32) { b.set_b2(T(d.b2)); e.b2 = d.b2; }
            Coef g = coef_of(b);
            S.expect(g.a0 == e.a0 && g.a1 == e.a1 && g.a2 == e.a2 && g.b0 == e.b0 && g.b1 == e.b1 && g.b2 == e.b2, "setter-getter", cdesc(g) + " want " + cdesc(e));
            // stability of the new section, away from the boundary
            ld p1 = e.a1 / e.a0, p2 = e.a2 / e.a0; cld dsc = std::sqrt(cld(p1 * p1 - 4 * p2)); ld m = std::max(std::abs((-p1 + dsc) / ld(2)), std::abs((-p1 - dsc) / ld(2)));
            if (std::fabs(m - 1) > 1e-3L) S.expect(b.stability() == (m < 1) && static_cast<bool>(b) == (m < 1), "stability", "largest pole " + num(m));
            b.reset(); S.cover("setter mask", long(mask));
            if (m < 0.995L) { Ref r = diffeq(e, up(x)); std::vector<T> y(x.size()); b.filter(x.begin(), x.end(), y.begin()); S.all_close(y, r.y, 64 * eps<T>() * r.big * r.amp + 1e-300L, "difference-equation-after-set"); }
            else S.count("not compared (pole near or outside the unit circle)");
        });
    }
}
template <class T> cld response(const Coef& c, ld w) { cld z1 = std::polar<ld>(1, -w), z2 = std::polar<ld>(1, -2 * w); return (c.b0 + c.b1 * z1 + c.b2 * z2) / (c.a0 + c.a1 * z1 + c.a2 * z2); }
template <class T> void polezero_site(Site& S) {
    for (long k = 0; k < S.reps(3000, 30000); ++k) {
        auto cplx = [&] { return std::complex<T>(T(S.rng.uniform(-0.9, 0.9)), T(S.rng.coin() ? 0.05 + S.rng.unit() * 0.4 : -0.05 - S.rng.unit() * 0.4)); };
        auto rl = [&] { return std::complex<T>(T(S.rng.uniform(-0.95, 0.95)), 0); };
        int kind = int(S.rng.below(5)); std::complex<T> p1, p2, z1, z2;
        if (kind == 0) { p1 = rl(); z1 = std::complex<T>(T(S.rng.uniform(-1.5, 1.5)), 0); }
        else { if (kind & 1) { p1 = cplx(); p2 = std::conj(p1); } else { p1 = rl(); p2 = rl(); } if (kind & 2) { z1 = cplx(); z2 = std::conj(z1); } else { z1 = rl(); z2 = std::complex<T>(T(S.rng.uniform(-1.5, 1.5)), 0); } }
        std::ostringstream o; o << "pole/zero section<" << tname<T>() << "> " << p1 << z1 << p2 << z2 << " kind " << kind;
        S.run(o.str(), uint64_t(k), true, [&] {
            auto b = kind == 0 ? ef::biquad<T>(p1, z1) : ef::biquad<T>(p1, z1, p2, z2); Coef c = coef_of(b);
            for (int i = 0; i <= 16; ++i) {
                ld w = PI * i / 16; cld e = std::polar<ld>(1, -w), P1(p1), P2(p2), Z1(z1), Z2(z2);
                cld den = (ld(1) - P1 * e) * (kind ? ld(1) - P2 * e : cld(1)), num_ = (ld(1) - Z1 * e) * (kind ? ld(1) - Z2 * e : cld(1)), H = response<T>(c, w);
                ld tol = 32 * eps<T>() * (1 + std::abs(num_)) * (1 + 1 / std::abs(den)) * (1 + 1 / std::abs(den)) * 8;
                S.close(H.real(), (num_ / den).real(), tol, "pole-zero-response", "w=" + num(w)); S.close(H.imag(), (num_ / den).imag(), tol, "pole-zero-response", "w=" + num(w));
            }
            S.expect(b.stability() == (std::abs(cld(p1)) < 1 && std::abs(cld(p2)) < 1), "stability");
            T first = b.tick(T(1)); S.close(first, 1, 0, "leading-coefficient");
        });
    }
}
template <class T> void cascade_site(Site& S) {
    for (long k = 0; k < S.reps(2500, 25000); ++k) {
        enum { N = 8 }; size_t m = S.rng.below(N + 1); std::vector<Coef> cs; for (size_t i = 0; i < m; ++i) { auto c = random_coef(S.rng); cs.push_back(round_to<T>(c)); }
        size_t n = 1 + S.rng.below(k % 50 == 9 ? 10000 : S.reps(200, 1000)); auto x = signal<T>(S.rng, n, int(S.rng.below(ZERO)));
        S.run(std::string("cascade<") + tname<T>() + "> stages=" + num(m) + " n=" + num(n), hash_bytes(x.data(), n), m > 0, [&] {
            ef::biquad_cascade<T, N> c; std::vector<ef::biquad<T>> ref;
            for (size_t i = 0; i < m; ++i) {
                ref.push_back(make<T>(cs[i]));
                if (i & 1) c.push_back(make<T>(cs[i])); else c.emplace_back(T(cs[i].a0), T(cs[i].a1), T(cs[i].a2), T(cs[i].b0), T(cs[i].b1), T(cs[i].b2));
                S.expect(c.size() == i + 1, "size");
            }
            S.expect(c.max_size() == N && c.capacity() == N, "capacity"); S.expect(size_t(c.end() - c.begin()) == m && size_t(c.cend() - c.cbegin()) == m, "iterators");
            for (size_t i = 0; i < m; ++i) { auto a = coef_of(c[i]), b = coef_of(ref[i]); S.expect(a.b0 == b.b0 && a.b1 == b.b1 && a.b2 == b.b2 && a.a1 == b.a1 && a.a2 == b.a2, "stage-order", num(i)); }
            auto rf = ref; std::vector<T> want(x); for (auto& s : rf) for (auto& v : want) v = s.tick(v);
            std::vector<T> y(n); c.filter(x.begin(), x.end(), y.begin()); S.expect(same_bits(y, want), "composition");
            auto copy = c; T v = T(S.rng.gauss()); T a = copy.tick(v), b = c.tick(v); S.expect(std::memcmp(&a, &b, sizeof a) == 0, "copy-state");
            c.reset(); auto yc = chunked(S.rng, c, x, S); S.expect(same_bits(yc, want), "chunk-invariance-after-reset");
            c.clear(); S.expect(c.size() == 0 && c.begin() == c.end(), "clear"); S.expect(c.tick(v) == v, "empty-cascade");
            for (size_t i = 0; i < m; ++i) c.push_back(make<T>(cs[m - 1 - i]));
            std::vector<T> w2(x); for (size_t i = m; i-- > 0;) { auto s = make<T>(cs[i]); for (auto& q : w2) q = s.tick(q); }
            std::vector<T> y2(n); c.filter(x.begin(), x.end(), y2.begin()); S.expect(same_bits(y2, w2), "refill-after-clear");
        });
    }
}
template <class T> void freq_site(Site& S) {
    for (long k = 0; k < S.reps(900, 9000); ++k) {
        size_t nb = 1 + S.rng.below(8), na = 1 + S.rng.below(6), K = 1 + S.rng.below(S.reps(80, 300)); auto b = signal<T>(S.rng, nb, GAUSS), a = signal<T>(S.rng, na, UNIFORM);
        a[0] = 1; ld sa = 0; for (size_t i = 1; i < na; ++i) sa += std::fabs(ld(a[i])); if (sa > 0) for (size_t i = 1; i < na; ++i) a[i] = T(a[i] * 0.9L / sa * S.rng.unit());
        S.run(std::string("freq<") + tname<T>() + "> nb=" + num(nb) + " na=" + num(na) + " K=" + num(K), hash_bytes(b.data(), nb), nb + na > 2, [&] {
            Buf<T> B = Buf<T>::from(b), A = Buf<T>::from(a); Buf<std::complex<T>> H(K, std::complex<T>(T(9), T(9)));
            ef::freq(B.begin(), B.end(), A.begin(), A.end(), H.begin(), K);
            for (size_t i = 0; i < K; ++i) {
                cld n(0), d(0); ld sb = 0; for (size_t m = 0; m < nb; ++m) { n += ld(b[m]) * std::polar<ld>(1, -PI * ld(m) * ld(i) / ld(K)); sb += std::fabs(ld(b[m])); } for (size_t m = 0; m < na; ++m) d += ld(a[m]) * std::polar<ld>(1, -PI * ld(m) * ld(i) / ld(K));
                cld R = n / d; ld tol = 64 * eps<T>() * sb / std::abs(d) * (1 + 1 / std::abs(d)) * ld(nb + na);
                if (!S.close(H[i].real(), R.real(), tol, "frequency-response", "k=" + num(i)) || !S.close(H[i].imag(), R.imag(), tol, "frequency-response", "k=" + num(i))) break;
            }
        });
    }
}
SITE("C06", "biquad<double>") { biquad_site<double>(S); }
SITE("C06", "biquad<float>") { biquad_site<float>(S); }
SITE("C06", "setters<double>") { setters_site<double>(S); }
SITE("C06", "setters<float>") { setters_site<float>(S); }
SITE("C06", "polezero<double>") { polezero_site<double>(S); }
SITE("C06", "polezero<float>") { polezero_site<float>(S); }
SITE("C06", "cascade<double>") { cascade_site<double>(S); }
SITE("C06", "cascade<float>") { cascade_site<float>(S); }
SITE("C06", "freq<double>") { freq_site<double>(S); }
SITE("C06", "freq<float>") { freq_site<float>(S); }

// ---------------------------------------------------------------- C07
// Analog prototype (cut-off 1 rad/s), as poles, zeros and gain, in 80-bit arithmetic.
struct Proto { std::vector<cld> p, z; ld k; };
static cld eval(const Proto& f, cld s, bool infinite = false) {
    if (infinite) return f.p.size() == f.z.size() ? cld(f.k) : cld(0);
    // ratio factor by factor to stay in range for large |s|
    cld h(f.k); size_t n = std::max(f.p.size(), f.z.size());
    for (size_t i = 0; i < n; ++i) { if (i < f.z.size()) h *= (s - f.z[i]); if (i < f.p.size()) h /= (s - f.p[i]); }
    return h;
}
static void dc_gain(Proto& f, ld g) { f.k = 1; f.k = g / std::abs(eval(f, 0)); if (eval(f, 0).real() < 0) f.k = -f.k; }
static Proto butter(int n) { Proto f; for (int i = 1; i <= n; ++i) f.p.push_back(std::polar<ld>(1, PI * (2 * i + n - 1) / (2 * n))); f.k = 1; dc_gain(f, 1); return f; }
static Proto cheb1(int n, ld rip) {
    Proto f; ld e = std::sqrt(std::pow(10.0L, rip / 10) - 1), v = std::asinh(1 / e) / n;
    for (int i = 1; i <= n; ++i) { ld t = PI * (2 * i - 1) / (2 * n); f.p.push_back(cld(-std::sinh(v) * std::sin(t), std::cosh(v) * std::cos(t))); }
    dc_gain(f, n % 2 ? 1 : 1 / std::sqrt(1 + e * e)); return f;
}
static Proto cheb2(int n, ld stop) {
    Proto f; ld e = 1 / std::sqrt(std::pow(10.0L, stop / 10) - 1), v = std::asinh(1 / e) / n;
    for (int i = 1; i <= n; ++i) { ld t = PI * (2 * i - 1) / (2 * n); cld q(-std::sinh(v) * std::sin(t), std::cosh(v) * std::cos(t)); f.p.push_back(ld(1) / q); if (2 * i - 1 != n) f.z.push_back(cld(0, 1 / std::cos(t))); }
    dc_gain(f, 1); return f;
}
static Proto butter_shelf(int n, ld gdb) {
    Proto f; ld g = std::pow(10.0L, gdb / 20 / (2 * n));
    for (int i = 1; i <= n; ++i) { cld u = std::polar<ld>(1, PI * (2 * i + n - 1) / (2 * n)); f.p.push_back(u / g); f.z.push_back(u * g); }
    f.k = 1; return f; // one at infinity
}
static Proto cheb_shelf(int n, ld gdb, ld rip) {
    // |H|^2 = (1 + e^2 T^2) / (G^2 + e^2 T^2): equal ripple between gain and gain -/+ ripple inside the shelf, one at infinity
    if (rip > std::fabs(gdb)) rip = std::fabs(gdb);
    ld G = std::pow(10.0L, -gdb / 20), Gb = std::pow(10.0L, -(gdb > 0 ? gdb - rip : gdb + rip) / 20);
    ld e = std::sqrt((G * G - Gb * Gb) / (Gb * Gb - 1)), u = std::asinh(G / e) / n, v = std::asinh(1 / e) / n;
    Proto f; for (int i = 1; i <= n; ++i) { ld t = PI * (2 * i - 1) / (2 * n); f.p.push_back(cld(-std::sinh(u) * std::sin(t), std::cosh(u) * std::cos(t))); f.z.push_back(cld(-std::sinh(v) * std::sin(t), std::cosh(v) * std::cos(t))); }
    f.k = 1; return f;
}
enum Map { LP, HP, BP, BS };
// response of the digital filter at w: prewarped bilinear transform of the prototype
static cld digital(const Proto& f, Map m, ld fc, ld bw, ld w) {
    ld t = std::tan(w / 2); bool edge = std::fabs(w - PI) < 1e-12L;
    if (m == LP) { if (edge) return eval(f, 0, true); return eval(f, cld(0, t / std::tan(PI * fc))); }
    if (m == HP) { if (w < 1e-12L) return eval(f, 0, true); return eval(f, cld(0, edge ? 0 : -std::tan(PI * fc) / t)); }
    ld tl = std::tan(PI * (fc - bw / 2)), th = std::tan(PI * (fc + bw / 2)), B = th - tl, W = tl * th;
    if (m == BP) { if (edge || w < 1e-12L) return eval(f, 0, true); return eval(f, cld(0, (t * t - W) / (B * t))); }
    if (edge || w < 1e-12L) return eval(f, 0);
    ld d = W - t * t; if (std::fabs(d) < 1e-15L) return eval(f, 0, true); return eval(f, cld(0, B * t / d));
}
template <class T, size_t N> cld cascade_response(const ef::biquad_cascade<T, N>& c, ld w) { cld h(1); for (auto& s : c) h *= response<T>(coef_of(s), w); return h; }

// monitors shared by all designs
template <class T, class C> void judge(Site& S, C& c, const std::vector<Coef>& sec, const Proto& f, Map m, ld fc, ld bw, ld tol) {
    for (auto& s : sec) {
        ld p1 = s.a1 / s.a0, p2 = s.a2 / s.a0; cld d = std::sqrt(cld(p1 * p1 - 4 * p2)); ld r = std::max(std::abs((-p1 + d) / ld(2)), std::abs((-p1 - d) / ld(2)));
        S.expect(r < 1, "unstable", "largest pole radius " + num(r));
    }
    std::vector<ld> ws = {0, PI, 2 * PI * fc, PI * fc, PI * (fc + 0.5L)};
    if (m == BP || m == BS) { ws.push_back(2 * PI * (fc - bw / 2)); ws.push_back(2 * PI * (fc + bw / 2)); ld tl = std::tan(PI * (fc - bw / 2)), th = std::tan(PI * (fc + bw / 2)); ws.push_back(2 * std::atan(std::sqrt(tl * th))); }
    for (int i = 1; i < 48; ++i) ws.push_back(PI * i / 48);
    for (int i = 0; i < 16; ++i) ws.push_back(PI * S.rng.unit());
    ld peak = 0; for (ld w : ws) peak = std::max(peak, std::abs(digital(f, m, fc, bw, w)));
    for (ld w : ws) {
        cld want = digital(f, m, fc, bw, w), got(1); for (auto& s : sec) got *= response<T>(s, w);
        if (!S.close(got.real(), want.real(), tol * std::max<ld>(1, peak), "response", "w/pi=" + num(w / PI) + " |got|=" + num(std::abs(got)) + " |want|=" + num(std::abs(want)))) break;
        if (!S.close(got.imag(), want.imag(), tol * std::max<ld>(1, peak), "response", "w/pi=" + num(w / PI))) break;
    }
    // the object itself filters with that response: impulse response, when it fits in the window
    const size_t L = 4096; std::vector<T> x(L), y(L); x[0] = 1; c.reset(); c.filter(x.begin(), x.end(), y.begin()); c.reset();
    ld tail = 0, sum = 0; for (size_t i = 0; i < L; ++i) { S.expect(std::isfinite(y[i]), "impulse-response-finite"); sum += std::fabs(ld(y[i])); if (i > L - 64) tail = std::max(tail, std::fabs(ld(y[i]))); }
    if (tail < tol * 1e-3L) {
        S.count("impulse responses compared");
        for (int q = 0; q < 5; ++q) {
            ld w = q == 0 ? 0 : q == 1 ? PI : q == 2 ? 2 * PI * fc : PI * S.rng.unit(); cld h(0), e = std::polar<ld>(1, -w), z(1); for (size_t i = 0; i < L; ++i) { h += ld(y[i]) * z; z *= e; }
            cld want(1); for (auto& s : sec) want *= response<T>(s, w);
            ld t2 = tol * (1 + sum) * 4; S.close(h.real(), want.real(), t2, "impulse-response", "w/pi=" + num(w / PI)); S.close(h.imag(), want.imag(), t2, "impulse-response", "w/pi=" + num(w / PI));
        }
    }
}
template <class T, size_t N> void judge_cascade(Site& S, ef::biquad_cascade<T, N> c, const Proto& f, Map m, ld fc, ld bw, ld tol, size_t order) {
    size_t want = m == LP || m == HP ? (order + 1) / 2 : order; S.expect(c.size() == want, "number-of-sections", num(c.size()) + " want " + num(want));
    std::vector<Coef> s; for (auto& b : c) s.push_back(coef_of(b)); judge<T>(S, c, s, f, m, fc, bw, tol);
}
template <class T> void judge_biquad(Site& S, ef::biquad<T> b, const Proto& f, Map m, ld fc, ld tol) { S.expect(b.stability(), "stability-flag"); judge<T>(S, b, std::vector<Coef>{coef_of(b)}, f, m, fc, 0, tol); }

enum { MO = 16 };
template <class T> struct Spec { ld sr, fc, bw, gdb, rip, stop; int order; };
template <class T> Spec<T> spec(Site& S, bool band) {
    Spec<T> s; static const ld rates[] = {1, 8000, 44100, 48000, 96000}; s.sr = rates[S.rng.below(5)];
    const bool f32 = sizeof(T) == 4;
    s.order = 1 + int(S.rng.below(f32 ? 4 : S.rng.coin(0.2) ? MO : 10));
    ld lo = f32 ? 0.06L : 0.02L, hi = f32 ? 0.42L : 0.47L;
    ld fc = S.rng.uniform(double(lo), double(hi)); if (S.rng.coin(0.05)) fc = 0.25L;
    ld bw = 0;
    if (band) { ld mx = 2 * std::min(fc - lo / 2, 0.49L - fc); bw = mx * S.rng.uniform(f32 ? 0.5 : 0.25, 0.95); }
    s.fc = ld(T(fc * s.sr)); s.bw = ld(T(bw * s.sr)); s.gdb = ld(T((S.rng.coin() ? 1 : -1) * S.rng.uniform(1, 24))); s.rip = ld(T(S.rng.uniform(0.1, 3))); s.stop = ld(T(S.rng.uniform(20, 60)));
    return s;
}
// sensitivity of the response to coefficient rounding grows with order and with the closeness of the poles to each other
template <class T> ld tolerance(const Spec<T>& s, bool band) { ld k = std::min(s.fc / s.sr, 0.5L - s.fc / s.sr); if (band) k = std::min(k, s.bw / s.sr); ld n = s.order; return std::min<ld>(eps<T>() * 2000 * n * n / std::pow(k, sizeof(T) == 4 ? 1.5L : 2.5L), sizeof(T) == 4 ? 0.05L : 1e-6L); }
static const char* tn[] = {"LowPass", "HighPass", "BandPass", "BandStop", "AllPass", "LowShelf", "HighShelf", "BandShelf"};
// a filter type with room for exactly the requested order when there is one, with spare room otherwise
template <class T, designer_type D, filter_type F, class K, class... A> void fit(size_t n, K k, A... a) {
    if (sizeof(T) == 8 && n == 1) k(ef::make_filter<T, D, F, 1>(a...));
    else if (sizeof(T) == 8 && n == 5) k(ef::make_filter<T, D, F, 5>(a...));
    else k(ef::make_filter<T, D, F, MO>(a...));
}
template <class T, designer_type D, filter_type F, class K> void design(size_t n, T sr, T fc, T, T, T, K k, std::false_type, std::false_type, std::true_type) { fit<T, D, F>(n, k, n, sr, fc); }
template <class T, designer_type D, filter_type F, class K> void design(size_t n, T sr, T fc, T, T, T r, K k, std::false_type, std::false_type, std::false_type) { fit<T, D, F>(n, k, n, sr, fc, r); }
template <class T, designer_type D, filter_type F, class K> void design(size_t n, T sr, T fc, T bw, T, T, K k, std::true_type, std::false_type, std::true_type) { fit<T, D, F>(n, k, n, sr, fc, bw); }
template <class T, designer_type D, filter_type F, class K> void design(size_t n, T sr, T fc, T bw, T, T r, K k, std::true_type, std::false_type, std::false_type) { fit<T, D, F>(n, k, n, sr, fc, bw, r); }
template <class T, designer_type D, filter_type F, class K> void design(size_t n, T sr, T fc, T, T g, T, K k, std::false_type, std::true_type, std::true_type) { fit<T, D, F>(n, k, n, sr, fc, g); }
template <class T, designer_type D, filter_type F, class K> void design(size_t n, T sr, T fc, T, T g, T r, K k, std::false_type, std::true_type, std::false_type) { fit<T, D, F>(n, k, n, sr, fc, g, r); }
template <class T, designer_type D, filter_type F, class K> void design(size_t n, T sr, T fc, T bw, T g, T, K k, std::true_type, std::true_type, std::true_type) { fit<T, D, F>(n, k, n, sr, fc, bw, g); }
template <class T, designer_type D, filter_type F, class K> void design(size_t n, T sr, T fc, T bw, T g, T r, K k, std::true_type, std::true_type, std::false_type) { fit<T, D, F>(n, k, n, sr, fc, bw, g, r); }
template <class T, designer_type D, filter_type F> void cascade_design(Site& S) {
    const bool band = F == filter_type::BandPass || F == filter_type::BandStop || F == filter_type::BandShelf, shelf = F == filter_type::LowShelf || F == filter_type::HighShelf || F == filter_type::BandShelf;
    const Map m = F == filter_type::LowPass || F == filter_type::LowShelf ? LP : F == filter_type::HighPass || F == filter_type::HighShelf ? HP : F == filter_type::BandStop ? BS : BP;
    for (long k = 0; k < S.reps(240, 4000); ++k) {
        auto s = spec<T>(S, band); const ld third = D == designer_type::ChebyshevII ? s.stop : s.rip; const ld sh_rip = std::min<ld>(s.rip, std::fabs(s.gdb) * 0.6L); T shr = T(sh_rip);
        std::ostringstream o; o << tn[int(F)] << "<" << tname<T>() << "> order=" << s.order << " sr=" << s.sr << " fc=" << s.fc << " bw=" << s.bw << " gain=" << s.gdb << " ripple=" << (shelf ? ld(shr) : third);
        S.cover("order", s.order);
        S.run(o.str(), uint64_t(k), true, [&] {
            size_t n = size_t(s.order); T sr = T(s.sr), fc = T(s.fc), bw = T(s.bw), g = T(s.gdb), r = T(third);
            Proto f = shelf ? (D == designer_type::Butterworth ? butter_shelf(s.order, s.gdb) : cheb_shelf(s.order, s.gdb, shr)) : D == designer_type::Butterworth ? butter(s.order) : D == designer_type::ChebyshevI ? cheb1(s.order, r) : cheb2(s.order, r);
            const ld F0 = s.fc / s.sr, B0 = s.bw / s.sr, tol = tolerance(s, band) * (shelf ? 20 : 1);
            design<T, D, F>(n, sr, fc, bw, g, shelf ? shr : r, [&](auto c) { judge_cascade<T>(S, c, f, m, F0, B0, tol, n); }, std::integral_constant<bool, (F == filter_type::BandPass || F == filter_type::BandStop || F == filter_type::BandShelf)>{}, std::integral_constant<bool, (F == filter_type::LowShelf || F == filter_type::HighShelf || F == filter_type::BandShelf)>{}, std::integral_constant<bool, D == designer_type::Butterworth>{});
        });
    }
}

// second-order sections
static Proto quad(ld n2, ld n1, ld n0, ld d2, ld d1, ld d0) {
    auto roots = [](ld a, ld b, ld c) { std::vector<cld> r; if (a != 0) { cld d = std::sqrt(cld(b * b - 4 * a * c)); r = {(-b + d) / (2 * a), (-b - d) / (2 * a)}; } else if (b != 0) r = {cld(-c / b)}; return r; };
    Proto f; f.z = roots(n2, n1, n0); f.p = roots(d2, d1, d0); f.k = (n2 != 0 ? n2 : n1 != 0 ? n1 : n0) / (d2 != 0 ? d2 : d1 != 0 ? d1 : d0); return f;
}
template <class T, designer_type D, filter_type F> void biquad_design(Site& S) {
    for (long k = 0; k < S.reps(600, 8000); ++k) {
        ld sr = ld(S.rng.pick(std::vector<double>{1, 8000, 44100, 48000})), fc = ld(T(sr * S.rng.uniform(sizeof(T) == 4 ? 0.03 : 0.005, sizeof(T) == 4 ? 0.45 : 0.495))), Q = ld(T(std::pow(10.0, S.rng.uniform(-0.7, 1)))), g = ld(T(S.rng.coin(0.1) ? 0 : S.rng.uniform(-24, 24)));
        std::ostringstream o; o << (D == designer_type::RBJ ? "RBJ " : "Zolzer ") << tn[int(F)] << "<" << tname<T>() << "> sr=" << sr << " fc=" << fc << " Q=" << Q << " gain=" << g;
        S.run(o.str(), uint64_t(k), true, [&] {
            Proto f; ld A = std::pow(10.0L, g / 40), V = std::pow(10.0L, std::fabs(g) / 20), r2 = std::sqrt(2.0L); const bool z = D == designer_type::Zolzer;
            switch (F) {
                case filter_type::LowPass: f = quad(0, 0, 1, 1, 1 / Q, 1); break;
                case filter_type::HighPass: f = quad(1, 0, 0, 1, 1 / Q, 1); break;
                case filter_type::BandPass: f = quad(0, z ? 1 / Q : 1, 0, 1, 1 / Q, 1); break;
                case filter_type::AllPass: f = quad(1, -1 / Q, 1, 1, 1 / Q, 1); break;
                case filter_type::LowShelf: if (z) f = g >= 0 ? quad(1, std::sqrt(2 * V), V, 1, r2, 1) : quad(1, r2, 1, 1, std::sqrt(2 * V), V); else f = quad(A, A * std::sqrt(A) / Q, A * A, A, std::sqrt(A) / Q, 1); break;
                default: if (z) f = g >= 0 ? quad(V, std::sqrt(2 * V), 1, 1, r2, 1) : quad(1, r2, 1, V, std::sqrt(2 * V), 1); else f = quad(A * A, A * std::sqrt(A) / Q, A, 1, std::sqrt(A) / Q, A); break;
            }
            ld kk = std::min(fc / sr, 0.5L - fc / sr), tol = std::min<ld>(eps<T>() * 500 * (1 + Q) * std::max<ld>(1, std::pow(10.0L, g / 20)) / (kk * kk), sizeof(T) == 4 ? 0.05L : 1e-6L);
            auto b = ef::make_filter<T, D, F, 2>(T(fc), T(sr), T(Q), T(g));
            // the prototypes are written in s, not in 1/s: always the low-pass mapping
            judge_biquad<T>(S, b, f, LP, fc / sr, tol);
            // specification points
            if (F == filter_type::LowPass || F == filter_type::HighPass) { S.close(std::abs(response<T>(coef_of(b), 2 * PI * fc / sr)), Q, tol * (1 + Q), "gain-at-cutoff"); S.close(std::abs(response<T>(coef_of(b), F == filter_type::LowPass ? 0 : PI)), 1, tol, "pass-band-gain"); S.close(std::abs(response<T>(coef_of(b), F == filter_type::LowPass ? PI : 0)), 0, tol, "stop-band-gain"); }
            if (F == filter_type::LowShelf || F == filter_type::HighShelf) { ld G = std::pow(10.0L, g / 20); S.close(std::abs(response<T>(coef_of(b), F == filter_type::LowShelf ? 0 : PI)), G, tol * (1 + G), "shelf-gain"); S.close(std::abs(response<T>(coef_of(b), F == filter_type::LowShelf ? PI : 0)), 1, tol * (1 + G), "unity-side-gain"); }
        });
    }
}
template <class T> struct RegD {
    template <designer_type D, filter_type F> void c(const char* dn) { vm::registry().push_back({"C07", std::string(dn) + "-" + tn[int(F)] + "<" + tname<T>() + ">", [](Site& S) { cascade_design<T, D, F>(S); }}); }
    template <designer_type D, filter_type F> void b(const char* dn) { vm::registry().push_back({"C07", std::string(dn) + "-" + tn[int(F)] + "<" + tname<T>() + ">", [](Site& S) { biquad_design<T, D, F>(S); }}); }
    template <designer_type D> void all(const char* n) { c<D, filter_type::LowPass>(n); c<D, filter_type::HighPass>(n); c<D, filter_type::BandPass>(n); c<D, filter_type::BandStop>(n); c<D, filter_type::LowShelf>(n); c<D, filter_type::HighShelf>(n); c<D, filter_type::BandShelf>(n); }
    RegD() {
        all<designer_type::Butterworth>("butterworth"); all<designer_type::ChebyshevI>("chebyshevI"); all<designer_type::ChebyshevII>("chebyshevII");
        constexpr auto R = designer_type::RBJ; constexpr auto Z = designer_type::Zolzer;
        b<R, filter_type::LowPass>("rbj"); b<R, filter_type::HighPass>("rbj"); b<R, filter_type::BandPass>("rbj"); b<R, filter_type::AllPass>("rbj"); b<R, filter_type::LowShelf>("rbj"); b<R, filter_type::HighShelf>("rbj");
        b<Z, filter_type::LowPass>("zolzer"); b<Z, filter_type::HighPass>("zolzer"); b<Z, filter_type::BandPass>("zolzer"); b<Z, filter_type::LowShelf>("zolzer"); b<Z, filter_type::HighShelf>("zolzer");
    }
};
static RegD<double> rdd; static RegD<float> rdf;

// ---------------------------------------------------------------- C08
enum MK { AVG, RMS, MED };
template <class T, class F> void moving_site(Site& S, int kind) {
    for (long k = 0; k < S.reps(1500, 15000); ++k) {
        size_t N = S.rng.coin(0.2) ? 1 + S.rng.below(3) : 1 + S.rng.below(40); int ops = int(S.rng.range(5, S.reps(120, 400))); const bool wide = k % 40 == 11; if (wide) { N = 1 + S.rng.below(kind == MED ? 600 : 4000); ops = 40; } const size_t top = wide ? 2 * N : 40; uint64_t seed = S.rng.next();
        static const char* nm[] = {"average", "rms", "median"};
        S.run(std::string("moving ") + nm[kind] + "<" + tname<T>() + "> N=" + num(N) + " ops=" + num(ops) + " seed=" + num(seed), seed, true, [&] {
            Rng r(seed); F f(N); std::deque<T> win(N, T(0)); ld big = 0; long fed = 0; int shape = int(r.below(NSHAPES)); T val = 0;
            auto sample = [&] { if (r.coin(0.05)) shape = int(r.below(NSHAPES)); val = signal<T>(r, 1, shape)[0]; return val; };
            auto model = [&](T x) -> ld {
                win.pop_front(); win.push_back(x); ++fed; big = std::max(big, kind == RMS ? ld(x) * ld(x) : std::fabs(ld(x)));
                if (kind == MED) { std::vector<T> v(win.begin(), win.end()); std::sort(v.begin(), v.end()); return win.size() % 2 ? ld(v[v.size() / 2]) : (ld(v[v.size() / 2 - 1]) + ld(v[v.size() / 2])) / 2; }
                ld s = 0; for (T v : win) s += kind == RMS ? ld(v) * ld(v) : ld(v); return s / ld(win.size());
            };
            auto check = [&](T got, ld want) {
                if (kind == MED) return S.close(got, want, eps<T>() * std::fabs(want), "moving-value");
                ld tol = 2 * eps<T>() * big * (1 + ld(fed) * std::min<ld>(1, 1)) * 1; // running sum: one rounding per fed sample of the largest sum seen, spread over N
                if (kind == AVG) return S.close(got, want, tol + eps<T>() * std::fabs(want) * 2, "moving-value");
                ld lo = std::sqrt(std::max<ld>(0, want - tol)), hi = std::sqrt(want + tol); ld e = 2 * eps<T>() * (hi + 1e-300L);
                return S.expect(got >= lo - e && got <= hi + e, "moving-value", num(got) + " want " + num(std::sqrt(want)));
            };
            for (int i = 0; i < ops; ++i) {
                S.expect(f.size() == win.size(), "size");
                switch (r.below(12)) {
                    case 0: if (r.coin(0.4)) { f.reset(); win.assign(win.size(), T(0)); big = 0; fed = 0; S.count("resets"); } break;
                    case 1: if (r.coin(0.4)) { size_t M = 1 + r.below(top); f.resize(M); win.assign(M, T(0)); big = 0; fed = 0; S.count("resizes"); S.cover("window", long(M)); } break;
                    case 2: case 3: {
                        size_t m = r.below(wide ? 400 : 60); std::vector<T> x(m); for (auto& v : x) v = sample(); Buf<T> in = Buf<T>::from(x), out(m, T(-5)); bool inplace = r.coin();
                        f.filter(in.begin(), in.end(), inplace ? in.begin() : out.begin());
                        for (size_t q = 0; q < m; ++q) if (!check(inplace ? in[q] : out[q], model(x[q]))) return; break;
                    }
                    default: { T x = sample(); if (!check(f(x), model(x))) return; }
                }
            }
        });
    }
}
SITE("C08", "average<double>") { moving_site<double, ef::moving_average<double>>(S, AVG); }
SITE("C08", "average<float>") { moving_site<float, ef::moving_average<float>>(S, AVG); }
SITE("C08", "rms<double>") { moving_site<double, ef::moving_rms<double>>(S, RMS); }
SITE("C08", "rms<float>") { moving_site<float, ef::moving_rms<float>>(S, RMS); }
SITE("C08", "median<double>") { moving_site<double, ef::moving_median<double>>(S, MED); }
SITE("C08", "median<float>") { moving_site<float, ef::moving_median<float>>(S, MED); }
VM_MAIN
