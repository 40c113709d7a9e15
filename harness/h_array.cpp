// Element-wise array algorithms (C12), generated spaces (C13), searches (C14), converters (C15).
#include "vm.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/math/complex.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/algorithm.hpp>
#include <edsp/algorithm/derivative.hpp>
#include <edsp/algorithm/rectify.hpp>
#include <edsp/algorithm/concatenate.hpp>
#include <edsp/algorithm/linspace.hpp>
#include <edsp/algorithm/logspace.hpp>
#include <edsp/auditory/audspace.hpp>
#include <edsp/auditory/melspace.hpp>
#include <edsp/auditory/barkspace.hpp>
#include <edsp/auditory/erbspace.hpp>
#include <edsp/auditory/centspace.hpp>
#include <edsp/auditory/converter/bark2hertz.hpp>
#include <edsp/auditory/converter/cent2hertz.hpp>
#include <edsp/auditory/converter/erb2hertz.hpp>
#include <edsp/auditory/converter/mel2hertz.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <edsp/auditory/converter/hertz2cent.hpp>
#include <edsp/auditory/converter/hertz2erb.hpp>
#include <edsp/auditory/converter/hertz2mel.hpp>
#include <edsp/converter/complex2real.hpp>
#include <edsp/converter/real2complex.hpp>
#include <edsp/converter/db2mag.hpp>
#include <edsp/converter/db2pow.hpp>
#include <edsp/converter/mag2db.hpp>
#include <edsp/converter/pow2db.hpp>
#include <edsp/converter/deg2rad.hpp>
#include <edsp/converter/rad2deg.hpp>
#include <edsp/meta/contains.hpp>
using namespace vm;
namespace ea = edsp::algorithm;
template <class T> bool beq(T a, T b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// signals for the rounding family: halves, neighbours of integers, huge values, both zeros, infinities
template <class T> std::vector<T> special(Rng& r, size_t n) {
    using L = std::numeric_limits<T>; std::vector<T> v(n);
    for (auto& x : v) {
        switch (r.below(9)) {
            case 0: x = static_cast<T>(static_cast<double>(r.range(-20, 20)) + 0.5); break;
            case 1: x = static_cast<T>(r.range(-1000, 1000)); break;
            case 2: x = std::nextafter(static_cast<T>(r.range(-20, 20)), r.coin() ? L::infinity() : -L::infinity()); break;
            case 3: x = static_cast<T>((r.coin() ? 1 : -1) * std::pow(10.0, r.uniform(5, 20))); break;
            case 4: x = r.coin() ? static_cast<T>(0) : static_cast<T>(-0.0); break;
            case 5: x = r.coin() ? L::infinity() : -L::infinity(); break;
            case 6: x = static_cast<T>(r.uniform(-1, 1)); break;
            case 7: x = std::nextafter(static_cast<T>(static_cast<double>(r.range(-20, 20)) + 0.5), r.coin() ? L::infinity() : -L::infinity()); break;
            default: x = (r.coin() ? 1 : -1) * (r.coin() ? L::denorm_min() : L::max()); break;
        }
    }
    return v;
}
enum Op { CEIL, FLOOR, ROUND, FIX, RECTIFY, AMP, AMPCLIP, CLIP, NORM, NORMRMS, DERIV, NOPS };
static const char* oname(int o) { static const char* n[] = {"ceil", "floor", "round", "fix", "rectify", "amplifier", "amplifier-clip", "clipper", "normalize", "normalize_rms", "derivative"}; return n[o]; }
template <class T, class In, class Out> void apply(int op, In f, In l, Out d, T a, T mn, T mx) {
    switch (op) {
        case CEIL: ea::ceil(f, l, d); break; case FLOOR: ea::floor(f, l, d); break; case ROUND: ea::round(f, l, d); break; case FIX: ea::fix(f, l, d); break;
        case RECTIFY: ea::rectify(f, l, d); break; case AMP: ea::amplifier(f, l, d, a); break; case AMPCLIP: ea::amplifier(f, l, d, a, mn, mx); break;
        case CLIP: ea::clipper(f, l, d, mn, mx); break; case NORM: ea::normalize(f, l, d); break; case NORMRMS: ea::normalize_rms(f, l, d); break;
        case DERIV: ea::derivative(f, l, d); break;
    }
}
// exact where the operation is exact; (value, tolerance) otherwise
template <class T> void check(Site& S, int op, const std::vector<T>& x, const std::vector<T>& y, T a, T mn, T mx) {
    if (!S.expect(y.size() == x.size(), "size")) return;
    const size_t n = x.size(); ld ma = maxabs(x), rms = n ? l2(x) / std::sqrt(static_cast<ld>(n)) : 0, e = eps<T>();
    for (size_t i = 0; i < n; ++i) {
        ld v = x[i], r = 0, tol = 0; std::string w = "index " + std::to_string(i);
        switch (op) {
            case CEIL: case FLOOR: case ROUND: case FIX: case RECTIFY: {
                // definition, not the library call: integer part by comparison
                if (std::isinf(v)) { r = op == RECTIFY ? std::fabs(v) : v; break; }
                if (op == RECTIFY) { r = v < 0 ? -v : v; break; }
                ld fl = v; if (std::fabs(v) < 9e18L) { fl = static_cast<ld>(static_cast<long long>(v)); if (fl > v) fl -= 1; }   // greatest integer <= v
                ld ce = fl < v ? fl + 1 : fl;
                if (op == FLOOR) r = fl; else if (op == CEIL) r = ce; else if (op == FIX) r = v < 0 ? ce : fl;
                else r = v - fl < 0.5L ? fl : v - fl > 0.5L ? ce : v < 0 ? fl : ce;
                break;
            }
            case AMP: r = static_cast<ld>(a) * v; tol = e * std::fabs(r) + static_cast<ld>(std::numeric_limits<T>::denorm_min()); break;
            case AMPCLIP: r = static_cast<ld>(a) * v; r = r < static_cast<ld>(mn) ? static_cast<ld>(mn) : r > static_cast<ld>(mx) ? static_cast<ld>(mx) : r; tol = e * std::fabs(static_cast<ld>(a) * v); tol = std::min(tol, e * std::fabs(r) * 2) + static_cast<ld>(std::numeric_limits<T>::denorm_min()); S.expect(y[i] >= mn && y[i] <= mx, "outside-bounds", w); break;
            case CLIP: r = v < static_cast<ld>(mn) ? static_cast<ld>(mn) : v > static_cast<ld>(mx) ? static_cast<ld>(mx) : v; break;
            case NORM: r = v / ma; tol = 2 * e; break;
            case NORMRMS: r = v / rms; tol = (static_cast<ld>(n) + 8) * e * std::fabs(r); break;
            case DERIV: r = i ? v - static_cast<ld>(x[i - 1]) : v; tol = e * std::fabs(r); break;
        }
        if (!S.close(y[i], r, tol, oname(op), w)) break;
    }
    if (op == NORM && n && ma > 0) { S.close(maxabs(y), 1, 2 * e, "normalized-peak"); }
    if (op == NORMRMS && n && ma > 0) S.close(l2(y), std::sqrt(static_cast<ld>(n)), (static_cast<ld>(n) + 8) * e * std::sqrt(static_cast<ld>(n)), "normalized-rms");
}
template <class T> void elementwise(Site& S, int op) {
    auto szs = sizes(S.rng, S.reps(40, 130), {127, 128, 129, 1000, 1024, 4096, 4097, 8192, 16384, 20000, 65536, 65537, 100003, 262144}, S.reps(60, 900), 1500, 1);
    for (size_t n : szs) {
        int sh = static_cast<int>(S.rng.below(NSHAPES + (op <= RECTIFY || op == CLIP ? 6 : 0)));
        auto x = sh < NSHAPES ? signal<T>(S.rng, n, sh) : special<T>(S.rng, n);
        if (op <= FIX && sh < NSHAPES && S.rng.coin()) for (auto& v : x) v = static_cast<T>(v * static_cast<T>(10));
        if ((op == NORM || op == NORMRMS) && maxabs(x) == 0) x[S.rng.below(n)] = static_cast<T>(-2.5);
        ld sc = maxabs(x); if (!std::isfinite(sc) || sc == 0 || sc > 1e30L) sc = 10;
        T a = static_cast<T>(S.rng.coin(0.1) ? 0 : S.rng.gauss() * std::pow(10, S.rng.uniform(-3, 3)));
        ld as = op == AMPCLIP ? sc * std::fabs(static_cast<ld>(a)) : sc;
        T p = static_cast<T>(S.rng.uniform(-1.2, 1.2) * static_cast<double>(as)), q = static_cast<T>(S.rng.uniform(-1.2, 1.2) * static_cast<double>(as)), mn = std::min(p, q), mx = std::max(p, q);
        if (S.rng.coin(0.05)) mx = mn;
        if (S.rng.coin(0.05)) { if (S.rng.coin()) mn = -std::numeric_limits<T>::infinity(); else mx = std::numeric_limits<T>::infinity(); }
        S.cover("shape", sh); S.cover("length", static_cast<long>(n));
        S.run(std::string(oname(op)) + "<" + tname<T>() + "> n=" + std::to_string(n) + " shape=" + std::to_string(sh) + (op == AMP || op == AMPCLIP ? " a=" + num(a) : "") + (op == AMPCLIP || op == CLIP ? " [" + num(mn) + "," + num(mx) + "]" : ""), hash_bytes(x.data(), n), n > 1 && maxabs(x) > 0, [&] {
            auto in = Buf<T>::from(x); Buf<T> out(n, static_cast<T>(77)); const Buf<T>& cin = in;
            apply(op, cin.begin(), cin.end(), out.begin(), a, mn, mx);
            auto y = out.vec(); check(S, op, x, y, a, mn, mx);
            S.expect(same_bits(in.vec(), x), "input-changed");
            apply(op, in.begin(), in.end(), in.begin(), a, mn, mx);               // in place
            S.expect(same_bits(in.vec(), y), "in-place-differs");
            std::vector<T> w(n + 2, static_cast<T>(42)); apply(op, x.begin(), x.end(), w.begin() + 1, a, mn, mx);
            S.expect(w[0] == 42 && w[n + 1] == 42, "wrote-outside");
            S.expect(same_bits(std::vector<T>(w.begin() + 1, w.end() - 1), y), "iterators-differ");
            if (n <= 200) {
                std::list<T> li(x.begin(), x.end()); std::deque<T> de(n); apply(op, li.begin(), li.end(), de.begin(), a, mn, mx);
                S.expect(same_bits(std::vector<T>(de.begin(), de.end()), y), "iterators-differ", "list to deque");
                std::vector<T> rev(x.rbegin(), x.rend()), back(n); apply(op, rev.rbegin(), rev.rend(), back.begin(), a, mn, mx);
                S.expect(same_bits(back, y), "iterators-differ", "reverse");
            }
        });
    }
    S.run(std::string(oname(op)) + " empty range", 1, false, [&] { std::vector<T> v(3, static_cast<T>(42)), w(3, static_cast<T>(43)); apply(op, v.begin() + 1, v.begin() + 1, w.begin() + 1, T(1), T(0), T(1)); S.expect(w == std::vector<T>(3, static_cast<T>(43)), "wrote-outside", "empty"); });
}
template <class T> struct RegE { RegE() { for (int o = 0; o < NOPS; ++o) vm::registry().push_back({"C12", std::string(oname(o)) + "<" + tname<T>() + ">", [o](Site& S) { elementwise<T>(S, o); }}); } };
static RegE<double> re_d; static RegE<float> re_f;
// concatenation, padding
template <class T> void shaping(Site& S) {
    for (long k = 0; k < S.reps(900, 20000); ++k) {
        bool big = k % 97 == 96; size_t n = k < 200 ? static_cast<size_t>(k % 15) : S.rng.below(big ? 70000 : 700), m = k < 200 ? static_cast<size_t>(k / 15) : S.rng.below(big ? 70000 : 700);
        auto x = signal<T>(S.rng, n, static_cast<int>(S.rng.below(NSHAPES))), z = signal<T>(S.rng, m, static_cast<int>(S.rng.below(NSHAPES)));
        if (n && S.rng.coin(0.2)) x[S.rng.below(n)] = std::numeric_limits<T>::quiet_NaN();
        S.cover("sizes", std::to_string(std::min<size_t>(n, 20)) + "/" + std::to_string(std::min<size_t>(m, 20)));
        S.run(std::string("concatenate/pad<") + tname<T>() + "> " + std::to_string(n) + "+" + std::to_string(m), hash_bytes(x.data(), n, hash_bytes(z.data(), m)), n + m > 1, [&] {
            auto bx = Buf<T>::from(x), bz = Buf<T>::from(z); Buf<T> out(n + m, static_cast<T>(77)); std::vector<T> want(x); want.insert(want.end(), z.begin(), z.end());
            ea::concatenate(bx.begin(), bx.end(), bz.begin(), bz.end(), out.begin()); S.expect(same_bits(out.vec(), want), "concatenate");
            std::list<T> lx(x.begin(), x.end()), lz(z.begin(), z.end()), lo(n + m); ea::concatenate(lx.begin(), lx.end(), lz.begin(), lz.end(), lo.begin()); S.expect(same_bits(std::vector<T>(lo.begin(), lo.end()), want), "concatenate", "lists");
            std::fill(out.begin(), out.end(), static_cast<T>(77)); want = x; want.resize(n + m, 0);
            ea::padder(bx.begin(), bx.end(), out.begin(), out.end()); S.expect(same_bits(out.vec(), want), "padder");
            std::vector<T> w(n + m + 2, static_cast<T>(42)); ea::padder(x.begin(), x.end(), w.begin() + 1, w.end() - 1); S.expect(w.front() == 42 && w.back() == 42 && same_bits(std::vector<T>(w.begin() + 1, w.end() - 1), want), "padder", "vector");
            auto b = Buf<T>::from(want); std::fill(b.begin() + n, b.end(), static_cast<T>(5)); ea::padder(b.begin(), b.begin() + n, b.begin(), b.end()); S.expect(same_bits(b.vec(), want), "padder", "in place");
            S.expect(same_bits(bx.vec(), x) && same_bits(bz.vec(), z), "input-changed");
        });
    }
}
SITE("C12", "shaping<double>") { shaping<double>(S); }
SITE("C12", "shaping<float>") { shaping<float>(S); }
// integer samples and mixed input/output types
SITE("C12", "other element types") {
    for (long k = 0; k < S.reps(300, 5000); ++k) {
        size_t n = 1 + S.rng.below(200); std::vector<int> x(n); for (auto& v : x) v = static_cast<int>(S.rng.range(-30000, 30000)); int f = static_cast<int>(S.rng.range(-50, 50)), lo = static_cast<int>(S.rng.range(-30000, 0)), hi = static_cast<int>(S.rng.range(0, 30000));
        auto g = signal<float>(S.rng, n, GAUSS); for (auto& v : g) v *= 100;
        S.run("int/mixed n=" + std::to_string(n) + " f=" + std::to_string(f), hash_bytes(x.data(), n), true, [&] {
            Buf<int> o(n); auto in = Buf<int>::from(x); std::vector<int> w(n);
            ea::amplifier(in.begin(), in.end(), o.begin(), f); for (size_t i = 0; i < n; ++i) w[i] = f * x[i]; S.expect(o.vec() == w, "amplifier", "int");
            ea::amplifier(in.begin(), in.end(), o.begin(), f, lo, hi); for (size_t i = 0; i < n; ++i) w[i] = std::min(std::max(f * x[i], lo), hi); S.expect(o.vec() == w, "amplifier-clip", "int");
            ea::clipper(in.begin(), in.end(), o.begin(), lo, hi); for (size_t i = 0; i < n; ++i) w[i] = std::min(std::max(x[i], lo), hi); S.expect(o.vec() == w, "clipper", "int");
            ea::rectify(in.begin(), in.end(), o.begin()); for (size_t i = 0; i < n; ++i) w[i] = std::abs(x[i]); S.expect(o.vec() == w, "rectify", "int");
            ea::derivative(in.begin(), in.end(), o.begin()); for (size_t i = 0; i < n; ++i) w[i] = i ? x[i] - x[i - 1] : x[i]; S.expect(o.vec() == w, "derivative", "int");
            Buf<double> d(n); auto gi = Buf<float>::from(g);
            ea::ceil(gi.begin(), gi.end(), d.begin()); for (size_t i = 0; i < n; ++i) S.expect(d[i] == std::ceil(static_cast<double>(g[i])), "ceil", "float to double");
            ea::round(gi.begin(), gi.end(), d.begin()); for (size_t i = 0; i < n; ++i) S.expect(d[i] == std::round(static_cast<double>(g[i])), "round", "float to double");
            double ma = static_cast<double>(maxabs(g)); if (ma > 0) { ea::normalize(gi.begin(), gi.end(), d.begin()); for (size_t i = 0; i < n; ++i) S.close(d[i], static_cast<ld>(g[i]) / maxabs(g), 1e-6L, "normalize", "float to double"); }
        });
    }
}

// ---------------------------------------------------------------- C13 spaces
static const int NSC = 4; enum Scale { MEL, ERB, BARK, CENT };
static const char* sname(int s) { static const char* n[] = {"mel", "erb", "bark", "cent"}; return n[s]; }
static ld h2(int s, ld f) {
    switch (s) {
        case MEL: return 1127.01048L * std::log1p(f / 700); case ERB: return 21.4L * std::log10(1 + 4.37L * f / 1000);
        case BARK: { ld b = 26.81L * f / (1960 + f) - 0.53L; return b < 2 ? b + 0.15L * (2 - b) : b > 20.1L ? b + 0.22L * (b - 20.1L) : b; }
        default: return 1200 / std::log(2.0L) * std::log(f) + 5700 - 1200 / std::log(2.0L) * std::log(440.0L);
    }
}
static ld dh2(int s, ld f) { // slope bound
    switch (s) { case MEL: return 1127.01048L / (700 + f); case ERB: return 21.4L / std::log(10.0L) * 0.00437L / (1 + 0.00437L * f); case BARK: return 1.22L * 26.81L * 1960 / ((1960 + f) * (1960 + f)); default: return 1200 / std::log(2.0L) / f; }
}
template <class T> T lib_h2(int s, T f) { using namespace edsp::auditory; return s == MEL ? hertz2mel(f) : s == ERB ? hertz2erb(f) : s == BARK ? hertz2bark(f) : hertz2cent(f); }
template <class T> T lib_2h(int s, T z) { using namespace edsp::auditory; return s == MEL ? mel2hertz(z) : s == ERB ? erb2hertz(z) : s == BARK ? bark2hertz(z) : cent2hertz(z); }
template <class T> void lin_site(Site& S) {
    auto szs = sizes(S.rng, S.reps(100, 300), {0, 1, 255, 256, 257, 1000, 1001, 4096, 8192, 10000, 16384, 65536, 65537, 100003, 300000}, S.reps(300, 3000), 4000, 0);
    for (size_t n : szs) {
        double sc = std::pow(10, S.rng.uniform(-4, 4)); T a = static_cast<T>(S.rng.uniform(-1, 1) * sc), b = static_cast<T>(S.rng.coin(0.1) ? static_cast<double>(a) : S.rng.uniform(-1, 1) * sc);
        if (S.rng.coin(0.3)) { a = static_cast<T>(S.rng.range(-50, 50)); b = static_cast<T>(S.rng.range(-50, 50)); }
        if (S.rng.coin(0.1)) a = 0;
        S.cover("length", static_cast<long>(n)); S.cover("direction", a < b ? 1 : a > b ? -1 : 0);
        S.run(std::string("linspace<") + tname<T>() + "> n=" + std::to_string(n) + " [" + num(a) + "," + num(b) + "]", n, n > 1, [&] {
            Buf<T> o(n, static_cast<T>(77)); ea::linspace(o.begin(), a, b, n);
            ld A = a, B = b, tol = 6 * eps<T>() * std::max(std::fabs(A), std::fabs(B));
            for (size_t i = 0; i < n; ++i) if (!S.close(o[i], n == 1 ? A : A + (B - A) * static_cast<ld>(i) / static_cast<ld>(n - 1), tol, "linspace", "index " + std::to_string(i))) break;
            for (size_t i = 1; i < n; ++i) if (!S.expect(a < b ? o[i] >= o[i - 1] : a > b ? o[i] <= o[i - 1] : o[i] == a, "linspace-monotone", std::to_string(i))) break;
            if (n) S.expect(o[0] == a, "linspace-start");
            std::vector<T> w(n + 2, static_cast<T>(42)); ea::linspace(w.begin() + 1, a, b, static_cast<int>(n)); S.expect(w.front() == 42 && w.back() == 42, "wrote-outside"); S.expect(same_bits(std::vector<T>(w.begin() + 1, w.end() - 1), o.vec()), "linspace-iterators");
            if (n <= 300) { std::list<T> l(n); ea::linspace(l.begin(), a, b, n); S.expect(same_bits(std::vector<T>(l.begin(), l.end()), o.vec()), "linspace-iterators", "list"); }
        });
        double lim = sizeof(T) == 4 ? 15 : 100, ls = S.rng.uniform(0, lim); T x1 = static_cast<T>(S.rng.uniform(-ls, ls)), x2 = static_cast<T>(S.rng.uniform(-ls, ls)); if (S.rng.coin(0.2)) { x1 = static_cast<T>(S.rng.range(-5, 5)); x2 = static_cast<T>(S.rng.range(-5, 5)); }
        S.run(std::string("logspace<") + tname<T>() + "> n=" + std::to_string(n) + " [" + num(x1) + "," + num(x2) + "]", n, n > 1, [&] {
            Buf<T> o(n, static_cast<T>(77)); ea::logspace(o.begin(), x1, x2, n); ld A = x1, B = x2, m = std::max(std::fabs(A), std::fabs(B));
            for (size_t i = 0; i < n; ++i) { ld r = std::pow(10.0L, n == 1 ? A : A + (B - A) * static_cast<ld>(i) / static_cast<ld>(n - 1)); if (!S.close(o[i], r, (6 * m * 2.3026L + 4) * eps<T>() * r, "logspace", "index " + std::to_string(i))) break; }
            std::vector<T> w(n + 2, static_cast<T>(42)); ea::logspace(w.begin() + 1, x1, x2, static_cast<long>(n)); S.expect(w.front() == 42 && w.back() == 42, "wrote-outside"); S.expect(same_bits(std::vector<T>(w.begin() + 1, w.end() - 1), o.vec()), "logspace-iterators");
        });
    }
}
SITE("C13", "linspace/logspace<double>") { lin_site<double>(S); }
SITE("C13", "linspace/logspace<float>") { lin_site<float>(S); }
template <class T> void space_site(Site& S, int s) {
    namespace au = edsp::auditory;
    auto szs = sizes(S.rng, S.reps(60, 200), {128, 1000, 4096, 8192, 16384, 65537}, S.reps(80, 1500), 2000, 0);
    for (size_t n : szs) {
        double lo = S.rng.coin(0.3) ? 20 : S.rng.uniform(s == CENT ? 17 : 0, 8000), hi = S.rng.coin(0.2) ? 22050 : lo + S.rng.uniform(0, 40000); T a = static_cast<T>(lo), b = static_cast<T>(hi);
        S.cover("length", static_cast<long>(n));
        S.run(std::string(sname(s)) + "space<" + tname<T>() + "> n=" + std::to_string(n) + " [" + num(a) + "," + num(b) + "]", n * 7 + static_cast<size_t>(s), n > 1, [&] {
            Buf<T> o(n, static_cast<T>(77));
            switch (s) { case MEL: au::melspace(o.begin(), o.end(), a, b); break; case ERB: au::erbspace(o.begin(), o.end(), a, b); break; case BARK: au::barkspace(o.begin(), o.end(), a, b); break; default: au::centspace(o.begin(), o.end(), a, b); }
            for (size_t i = 0; i < n; ++i) { ld A = a, B = b, f = n == 1 ? A : A + (B - A) * static_cast<ld>(i) / static_cast<ld>(n - 1); if (!S.close(o[i], h2(s, f), eps<T>() * (6 * B * dh2(s, f) + 8 * std::fabs(h2(s, f)) + (s == CENT ? 60000 : 4)), "space", "index " + std::to_string(i))) break; }
            for (size_t i = 1; i < n && a < b; ++i) if (!S.expect(o[i] >= o[i - 1], "space-monotone", std::to_string(i))) break;
            Buf<T> q(n, static_cast<T>(78)); au::audspace(q.begin(), a, b, n, s == MEL ? au::auditory_scale::mel : s == ERB ? au::auditory_scale::erb : s == BARK ? au::auditory_scale::bark : au::auditory_scale::cent);
            S.expect(same_bits(q.vec(), o.vec()), "audspace");
        });
    }
}
template <class T> struct RegSp { RegSp() { for (int s = 0; s < NSC; ++s) vm::registry().push_back({"C13", std::string(sname(s)) + "space<" + tname<T>() + ">", [s](Site& S) { space_site<T>(S, s); }}); } };
static RegSp<double> rs_d; static RegSp<float> rs_f;

// ---------------------------------------------------------------- C14 searches, comparison
template <class T> T elem(Rng& r, long span) { return static_cast<T>(r.range(-span, span)); }
template <> std::string elem<std::string>(Rng& r, long span) { return std::string(1 + r.below(2), static_cast<char>('a' + r.below(static_cast<uint64_t>(std::min(span, 20L))))); }
template <class T> std::string show(const T& v) { std::ostringstream o; o << v; return o.str(); }
template <class T> uint64_t hv(const std::vector<T>& v) { uint64_t h = 3; for (auto& x : v) h = mix(h, hash_str(show(x))); return h; }
template <class T> void search_site(Site& S, const char* nm) {
    for (long k = 0; k < S.reps(1500, 30000); ++k) {
        size_t n = k < 300 ? static_cast<size_t>(k % 30) : S.rng.below(k % 10 ? 60 : k % 100 ? 3000 : 20000); long span = S.rng.coin() ? 3 : S.rng.range(1, 2000);
        std::vector<T> v(n); for (auto& x : v) x = elem<T>(S.rng, span); T val = n && S.rng.coin(0.7) ? v[S.rng.below(n)] : elem<T>(S.rng, span + 1);
        if (n && S.rng.coin(0.15)) val = S.rng.coin() ? v.front() : v.back();
        S.cover("length", static_cast<long>(n));
        S.run(std::string("search<") + nm + "> n=" + std::to_string(n) + " value=" + show(val), mix(hv(v), hash_str(show(val))), n > 1, [&] {
            long want = -1; for (size_t i = 0; i < n; ++i) if (v[i] == val) { want = static_cast<long>(i); break; }
            S.count(want < 0 ? "absent" : "present");
            Buf<T> b = Buf<T>::from(v); const Buf<T>& cb = b;
            S.expect(ea::index_of(b.begin(), b.end(), val) == want, "index_of", std::to_string(ea::index_of(b.begin(), b.end(), val)) + " want " + std::to_string(want));
            S.expect(ea::index_of(v.crbegin(), v.crend(), val) == [&] { long w = -1, j = 0; for (auto it = v.crbegin(); it != v.crend(); ++it, ++j) if (*it == val) { w = j; break; } return w; }(), "index_of", "reverse");
            S.expect(ea::linear_search(cb.begin(), cb.end(), val) == (want < 0 ? cb.end() : cb.begin() + want), "linear_search");
            S.expect(edsp::meta::contains(cb.begin(), cb.end(), val) == (want >= 0), "contains");
            std::list<T> l(v.begin(), v.end()); S.expect(ea::index_of(l.begin(), l.end(), val) == want, "index_of", "list"); auto li = ea::linear_search(l.begin(), l.end(), val); S.expect(std::distance(l.begin(), li) == (want < 0 ? static_cast<long>(n) : want), "linear_search", "list");
            std::sort(b.begin(), b.end()); auto it = ea::binary_search(b.begin(), b.end(), val);
            long first = 0; while (first < static_cast<long>(n) && b[static_cast<size_t>(first)] < val) ++first;
            S.expect(it - b.begin() == (want < 0 ? static_cast<long>(n) : first), "binary_search", std::to_string(it - b.begin()));
            std::list<T> sl(b.begin(), b.end()); auto lt = ea::binary_search(sl.begin(), sl.end(), val); S.expect(std::distance(sl.begin(), lt) == (want < 0 ? static_cast<long>(n) : first), "binary_search", "list");
            // comparison
            std::vector<T> u(v); bool same = true;
            int mode = static_cast<int>(S.rng.below(5));
            if (mode == 1 && n) { u.pop_back(); same = false; } else if (mode == 2) { u.push_back(val); same = false; }
            else if (mode == 3 && n) { size_t i = S.rng.below(n); T o = elem<T>(S.rng, span + 1); same = o == u[i]; u[i] = o; } else if (mode == 4 && n) { u.back() = elem<T>(S.rng, span); same = u.back() == v.back(); }
            S.count(same ? "equal" : "different");
            auto bu = Buf<T>::from(u); auto bv = Buf<T>::from(v); std::list<T> lu(u.begin(), u.end());
            S.expect(ea::equal(bv.begin(), bv.end(), bu.begin(), bu.end()) == same && ea::equal(bu.begin(), bu.end(), bv.begin(), bv.end()) == same, "equal");
            S.expect(ea::equal(bv.begin(), bv.end(), lu.begin(), lu.end()) == same, "equal", "list");
            S.expect(ea::equal(bv.begin(), bv.end(), bu.begin(), bu.end(), [](const T& p, const T& q) { return p == q; }) == same, "equal-predicate");
            bool anyp = u.size() == n; for (size_t i = 0; anyp && i < n; ++i) anyp = !(u[i] < v[i]);
            S.expect(ea::equal(bv.begin(), bv.end(), bu.begin(), bu.end(), [](const T& p, const T& q) { return !(q < p); }) == anyp, "equal-predicate", "order");
        });
    }
}
SITE("C14", "double") { search_site<double>(S, "double"); }
SITE("C14", "float") { search_site<float>(S, "float"); }
SITE("C14", "int") { search_site<int>(S, "int"); }
SITE("C14", "string") { search_site<std::string>(S, "string"); }

// ---------------------------------------------------------------- C15 converters
template <class T> void hz_site(Site& S, int s) {
    std::vector<T> fs; for (long f : {20, 100, 440, 1000, 1960, 4000, 8000, 22050, 100000}) fs.push_back(static_cast<T>(f));
    if (s != CENT) fs.push_back(0); fs.push_back(static_cast<T>(16.4)); fs.push_back(static_cast<T>(17));
    // around the joints of the Bark correction
    for (double b : {2.0, 20.1}) { double f = 1960 * (b + 0.53) / (26.28 - b); for (double d : {-50., -1., -1e-3, 0., 1e-3, 1., 50.}) fs.push_back(static_cast<T>(f + d)); }
    for (long i = 0; i < S.reps(20000, 400000); ++i) fs.push_back(static_cast<T>(S.rng.coin() ? S.rng.uniform(16.4, 24000) : std::pow(10, S.rng.uniform(std::log10(16.4), 6))));
    if (s != CENT) for (long i = 0; i < 2000; ++i) fs.push_back(static_cast<T>(S.rng.uniform(0, 16.4)));
    std::sort(fs.begin(), fs.end());
    for (size_t b = 0; b < fs.size(); b += 500)
        S.run(std::string("hertz/") + sname(s) + "<" + tname<T>() + "> from " + num(fs[b]), hash_bytes(&fs[b], 1), true, [&] {
            for (size_t i = b; i < std::min(fs.size(), b + 500); ++i) {
                T f = fs[i]; ld r = h2(s, f), ft = eps<T>() * (std::fabs(r) * 6 + 6 + (s == CENT ? 50000 : s == BARK ? 60 : 0)); std::string w = num(f) + " Hz";
                T z = lib_h2(s, f); if (!S.close(z, r, ft, "hertz-to-scale", w)) break;
                ld back = lib_2h(s, z), sl = dh2(s, f) / (s == BARK ? 1.5L : 1); if (!S.close(back, f, 2 * ft / sl + 8 * eps<T>() * static_cast<ld>(f), "round-trip", w)) break;
                if (i + 1 < fs.size()) S.expect(lib_h2(s, fs[i + 1]) - z >= -2 * ft, "increasing", w);
                if (s == CENT) { S.expect(lib_h2(s, static_cast<T>(-f)) == -z, "odd", w); S.expect(lib_2h(s, static_cast<T>(-z)) == -lib_2h(s, z), "odd", w); }
            }
        });
    for (long k = 0; k < S.reps(400, 4000); ++k) {   // from the scale's side
        ld hi = h2(s, 22050), lo = s == CENT ? 1 : h2(s, 0); T z = static_cast<T>(S.rng.uniform(static_cast<double>(lo), static_cast<double>(hi)));
        S.run(std::string(sname(s)) + "/hertz<" + tname<T>() + "> " + num(z), hash_bytes(&z, 1), true, [&] {
            T f = lib_2h(s, z); ld a = 0, c = 1e6L; for (int i = 0; i < 120; ++i) { ld m = (a + c) / 2; (h2(s, m) < static_cast<ld>(z) ? a : c) = m; }
            ld t = eps<T>() * (8 * std::fabs(static_cast<ld>(z)) + 8 + (s == CENT ? 50000 : s == BARK ? 60 : 0)) / (dh2(s, a) / 1.5L) + 8 * eps<T>() * a; S.close(f, a, t, "scale-to-hertz");
        });
    }
}
template <class T> struct RegHz { RegHz() { for (int s = 0; s < NSC; ++s) vm::registry().push_back({"C15", std::string("hertz/") + sname(s) + "<" + tname<T>() + ">", [s](Site& S) { hz_site<T>(S, s); }}); } };
static RegHz<double> rh_d; static RegHz<float> rh_f;
template <class T> void level_site(Site& S) {
    namespace ec = edsp::converter;
    for (long k = 0; k < S.reps(300, 3000); ++k)
        S.run(std::string("levels/angles<") + tname<T>() + "> block " + std::to_string(k), static_cast<uint64_t>(k), true, [&] {
            for (int j = 0; j < 40; ++j) {
                ld e = eps<T>(); T m = static_cast<T>(std::pow(10, S.rng.uniform(-18, 18))), db = static_cast<T>(S.rng.uniform(-300, 300)), deg = static_cast<T>(S.rng.coin() ? static_cast<double>(S.rng.range(-720, 720)) : S.rng.uniform(-1e4, 1e4));
                ld lm = std::log10(static_cast<ld>(m)), D = db; std::string w = num(m);
                S.close(ec::mag2db(m), 20 * lm, 4 * e * (std::fabs(20 * lm) + 1), "mag2db", w); S.close(ec::pow2db(m), 10 * lm, 4 * e * (std::fabs(10 * lm) + 1), "pow2db", w);
                ld rm = std::pow(10.0L, D / 20), rp = std::pow(10.0L, D / 10), c = (4 + std::fabs(D) / 2) * e;
                S.close(ec::db2mag(db), rm, c * rm, "db2mag", num(db)); S.close(ec::db2pow(db), rp, 2 * c * rp, "db2pow", num(db));
                S.close(ec::db2mag(ec::mag2db(m)), m, (8 + 10 * std::fabs(lm)) * e * static_cast<ld>(m), "mag-round-trip", w); S.close(ec::db2pow(ec::pow2db(m)), m, (8 + 10 * std::fabs(lm)) * e * static_cast<ld>(m), "pow-round-trip", w);
                ld G = deg; S.close(ec::deg2rad(deg), G * PI / 180, 4 * e * std::fabs(G) * PI / 180, "deg2rad", num(deg)); S.close(ec::rad2deg(deg), G * 180 / PI, 4 * e * std::fabs(G) * 180 / PI, "rad2deg", num(deg));
                S.close(ec::rad2deg(ec::deg2rad(deg)), G, 8 * e * std::fabs(G), "angle-round-trip", num(deg));
            }
            S.expect(ec::mag2db(T(1)) == 0 && ec::pow2db(T(1)) == 0 && ec::db2mag(T(0)) == 1 && ec::db2pow(T(0)) == 1, "unit");
        });
}
SITE("C15", "levels and angles<double>") { level_site<double>(S); }
SITE("C15", "levels and angles<float>") { level_site<float>(S); }
template <class T> void cplx_site(Site& S) {
    namespace ec = edsp::converter; using C = std::complex<T>;
    for (long k = 0; k < S.reps(400, 8000); ++k) {
        size_t n = k < 40 ? static_cast<size_t>(k) : S.rng.below(k % 50 ? 900 : 70000); auto re = signal<T>(S.rng, n, static_cast<int>(S.rng.below(NSHAPES))), im = signal<T>(S.rng, n, static_cast<int>(S.rng.below(NSHAPES)));
        if (n && S.rng.coin(0.2)) { re[S.rng.below(n)] = std::numeric_limits<T>::infinity(); im[S.rng.below(n)] = static_cast<T>(-0.0); }
        S.run(std::string("complex<") + tname<T>() + "> n=" + std::to_string(n), hash_bytes(re.data(), n, hash_bytes(im.data(), n)), n > 1, [&] {
            auto a = Buf<T>::from(re), b = Buf<T>::from(im); Buf<C> z(n), y(n); Buf<T> p(n), q(n);
            ec::real2complex(a.begin(), a.end(), z.begin()); for (size_t i = 0; i < n; ++i) S.expect(z[i].real() == re[i] && z[i].imag() == 0, "real2complex");
            ec::real2complex(a.begin(), a.end(), b.begin(), y.begin()); for (size_t i = 0; i < n; ++i) S.expect(y[i].real() == re[i] && y[i].imag() == im[i], "ri2complex");
            ec::complex2real(y.begin(), y.end(), p.begin(), q.begin()); S.expect(same_bits(p.vec(), re) && same_bits(q.vec(), im), "complex-round-trip");
            S.expect(same_bits(a.vec(), re) && same_bits(b.vec(), im), "input-changed");
            if (n < 200) { std::list<T> la(re.begin(), re.end()), lb(im.begin(), im.end()); std::list<C> lz(n); ec::real2complex(la.begin(), la.end(), lb.begin(), lz.begin()); std::vector<C> v(lz.begin(), lz.end()); S.expect(same_bits(v, y.vec()), "ri2complex", "lists"); }
        });
    }
}
SITE("C15", "complex<double>") { cplx_site<double>(S); }
SITE("C15", "complex<float>") { cplx_site<float>(S); }
VM_MAIN
