// Discrete transforms, derived spectral functions and FFT-engine reuse.
#include "vm.hpp"
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
using namespace vm;
using cld = std::complex<ld>;

// ---------------------------------------------------------------- reference (defining sums)
struct Table {
    std::vector<cld> w; size_t n;
    explicit Table(size_t n_) : w(n_), n(n_) { for (size_t i = 0; i < n; ++i) { ld a = 2 * PI * static_cast<ld>(i) / static_cast<ld>(n); w[i] = {std::cos(a), std::sin(a)}; } }
    cld at(size_t k, size_t j) const { return w[(static_cast<unsigned __int128>(k) * j) % n]; }
};
static cld acc(const Table& t, const std::vector<cld>& x, size_t k, int sign) {
    cld s = 0;
    for (size_t j = 0; j < x.size(); ++j) { cld w = t.at(k, j); if (sign < 0) w = std::conj(w); s += cld(x[j].real() * w.real() - x[j].imag() * w.imag(), x[j].real() * w.imag() + x[j].imag() * w.real()); }
    return s;
}
// all bins at once, for lengths where the defining sums take too long: radix two, other lengths by Bluestein's convolution
static void fft2(std::vector<cld>& a, int sign) {
    size_t n = a.size();
    for (size_t i = 1, j = 0; i < n; ++i) { size_t bit = n >> 1; for (; j & bit; bit >>= 1) j ^= bit; j ^= bit; if (i < j) std::swap(a[i], a[j]); }
    Table t(n);
    for (size_t len = 2; len <= n; len <<= 1)
        for (size_t i = 0; i < n; i += len)
            for (size_t j = 0; j < len / 2; ++j) { cld w = t.w[n / len * j]; if (sign < 0) w = std::conj(w); cld u = a[i + j], b = a[i + j + len / 2], v(b.real() * w.real() - b.imag() * w.imag(), b.real() * w.imag() + b.imag() * w.real()); a[i + j] = u + v; a[i + j + len / 2] = u - v; }
}
static std::vector<cld> full_dft(const std::vector<cld>& x, int sign) {
    size_t n = x.size(); if (n < 2) return x;
    if ((n & (n - 1)) == 0) { auto a = x; fft2(a, sign); return a; }
    size_t m = 1; while (m < 2 * n + 1) m <<= 1;
    Table t(2 * n); auto chirp = [&](size_t i) { cld w = t.w[static_cast<size_t>(static_cast<unsigned __int128>(i) * i % (2 * n))]; return sign < 0 ? std::conj(w) : w; };
    std::vector<cld> a(m), b(m);
    for (size_t i = 0; i < n; ++i) { a[i] = x[i] * chirp(i); b[i] = std::conj(chirp(i)); if (i) b[m - i] = b[i]; }
    fft2(a, -1); fft2(b, -1); for (size_t i = 0; i < m; ++i) a[i] *= b[i];
    fft2(a, 1); std::vector<cld> o(n); for (size_t i = 0; i < n; ++i) o[i] = a[i] / static_cast<ld>(m) * chirp(i);
    return o;
}
template <class T> std::vector<cld> widen(const std::vector<T>& v) { return std::vector<cld>(v.begin(), v.end()); }
template <class T> std::vector<cld> widen(const std::vector<std::complex<T>>& v) { std::vector<cld> o; for (auto& c : v) o.push_back({c.real(), c.imag()}); return o; }
template <class T> ld norm2(const std::vector<T>& v) { ld s = 0; for (auto& c : v) s += static_cast<ld>(std::norm(cld(c))); return std::sqrt(s); }
template <class T> std::vector<std::complex<T>> csignal(Rng& r, size_t n, int sh) {
    auto a = signal<T>(r, n, sh), b = signal<T>(r, n, sh == CONST ? RAMP : sh); std::vector<std::complex<T>> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = {a[i], b[i]};
    return v;
}
template <class T> ld ftol(size_t n, ld x2) { return 24 * eps<T>() * (std::log2(static_cast<ld>(n)) + 3) * std::sqrt(static_cast<ld>(n)) * x2 + static_cast<ld>(std::numeric_limits<T>::min()) * 64; }
static std::vector<size_t> bins(Rng& r, size_t n, size_t all_below, size_t pick) {
    std::vector<size_t> b;
    if (n <= all_below) { for (size_t i = 0; i < n; ++i) b.push_back(i); return b; }
    for (size_t i : {size_t(0), size_t(1), size_t(2), n / 2, n - 1, n - 2, n / 3}) b.push_back(i);
    for (size_t i = 0; i < (n > 20000 ? pick / 3 : pick); ++i) b.push_back(r.below(n));
    return b;
}
template <class T> std::vector<size_t> tsizes(Site& S) {
    auto s = sizes(S.rng, S.reps(130, 300), {211, 256, 257, 300, 343, 360, 499, 512, 641, 720, 1000, 1021, 1024, 1025, 2048, 4096, 5000, 7919}, S.reps(10, 200), S.reps(700, 3000));
    for (size_t e : {8191, 8192, 10007, 16384, 30030, 32768, 65536, 65537, 100000, 131072}) if (S.reps(8, 8) == 8) s.push_back(e);
    if (S.thorough()) for (size_t e : {46189, 250047, 1 << 20}) s.push_back(e);
    return s;
}
static const size_t ALL = 420;
template <class C> bool cclose(Site& S, C a, cld r, ld tol, const char* kind, size_t i) {
    bool x = S.close(a.real(), r.real(), tol, kind, "re of bin " + std::to_string(i)), y = S.close(a.imag(), r.imag(), tol, kind, "im of bin " + std::to_string(i));
    return x && y;
}
template <class F> void each(Site& S, const char* nm, F&& f) {
    for (size_t n : f.szs) {
        int shapes = n <= 64 ? 3 : n <= 1100 ? 2 : 1;
        for (int k = 0; k < shapes; ++k) {
            int sh = static_cast<int>(S.rng.below(NSHAPES));
            if (k == 0) sh = GAUSS;
            size_t shift = S.rng.below(4);
            S.cover("length", static_cast<long>(n)); S.cover("shape", shape_name(sh));
            f(nm, n, sh, shift);
        }
    }
}
static std::string D(const char* nm, size_t n, int sh, size_t shift) { return std::string(nm) + " n=" + std::to_string(n) + " signal=" + shape_name(sh) + " offset=" + std::to_string(shift); }

template <class T> struct RDft {
    Site& S; std::vector<size_t> szs;
    void operator()(const char* nm, size_t n, int sh, size_t shift) {
        auto x = signal<T>(S.rng, n, sh); auto bs = bins(S.rng, n / 2 + 1, ALL, 40);
        S.run(D(nm, n, sh, shift), hash_bytes(x.data(), n), n > 1 && sh != ZERO, [&] {
            GBuf<T> in(x, shift); size_t m = n / 2 + 1; GBuf<std::complex<T>> out(m, GBuf<std::complex<T>>::guard(), shift);
            S.expect(static_cast<size_t>(edsp::make_fft_size(static_cast<long>(n))) == m, "size", "make_fft_size");
            edsp::dft(in.begin(), in.end(), out.begin());
            S.expect(same_bits(in.vec(), x), "input-modified"); S.expect(in.intact() && out.intact(), "wrote-outside");
            Table t(n); auto wx = widen(x); ld tol = ftol<T>(n, norm2(x));
            for (size_t k : bs) if (!cclose(S, out[k], acc(t, wx, k, -1), tol, "dft-value", k)) break;
            // every bin finite and Parseval over the half spectrum
            ld e = 0; for (size_t k = 0; k < m; ++k) { ld p = std::norm(cld(out[k])); e += (k == 0 || (n % 2 == 0 && k == n / 2)) ? p : 2 * p; }
            ld x2 = norm2(x); S.close(std::sqrt(e / n), x2, 24 * eps<T>() * (std::log2(static_cast<ld>(n)) + 3) * x2 + 1e-30L, "dft-energy");
            // container iterators give the same transform
            std::vector<T> vx(x); std::vector<std::complex<T>> vo(m);
            edsp::dft(vx.cbegin(), vx.cend(), vo.begin());
            for (size_t k = 0; k < m; ++k) if (!cclose(S, vo[k], cld(out[k]), tol, "dft-iterators", k)) break;
            // inverse
            if (n >= 2 && n % 2 == 0) {
                GBuf<T> back(n, GBuf<T>::guard(), shift); auto spec = out.vec();
                S.expect(static_cast<size_t>(edsp::make_ifft_size(static_cast<long>(m))) == n, "size", "make_ifft_size");
                edsp::idft(out.begin(), out.end(), back.begin());
                S.expect(same_bits(out.vec(), spec), "input-modified", "inverse"); S.expect(out.intact() && back.intact(), "wrote-outside", "inverse");
                ld rt = ftol<T>(n, x2) / std::sqrt(static_cast<ld>(n));
                for (size_t i = 0; i < n; ++i) if (!S.close(back[i], x[i], rt, "dft-roundtrip", "index " + std::to_string(i))) break;
            }
        });
    }
};
template <class T> struct IRDft { // arbitrary hermitian-consistent half spectra
    Site& S; std::vector<size_t> szs;
    void operator()(const char* nm, size_t m, int sh, size_t shift) {
        if (m < 2) return;
        if (m > 140000) m = 140000;
        auto X = csignal<T>(S.rng, m, sh); X[0].imag(0); X[m - 1].imag(0); size_t n = 2 * (m - 1);
        auto bs = bins(S.rng, n, ALL, 30);
        S.run(D(nm, m, sh, shift), hash_bytes(X.data(), m), sh != ZERO, [&] {
            GBuf<std::complex<T>> in(X, shift); GBuf<T> out(n, GBuf<T>::guard(), shift);
            edsp::idft(in.begin(), in.end(), out.begin());
            S.expect(same_bits(in.vec(), X), "input-modified"); S.expect(in.intact() && out.intact(), "wrote-outside");
            std::vector<cld> full(n); for (size_t k = 0; k < m; ++k) full[k] = cld(X[k].real(), X[k].imag()); for (size_t k = m; k < n; ++k) full[k] = std::conj(full[n - k]);
            Table t(n); ld tol = ftol<T>(n, norm2(full)) / n;
            for (size_t i : bs) if (!S.close(out[i], acc(t, full, i, +1).real() / static_cast<ld>(n), tol, "idft-value", "index " + std::to_string(i))) break;
        });
    }
};
template <class T> struct CDft {
    Site& S; std::vector<size_t> szs; bool inv;
    void operator()(const char* nm, size_t n, int sh, size_t shift) {
        auto x = csignal<T>(S.rng, n, sh); auto bs = bins(S.rng, n, ALL, 30);
        S.run(D(nm, n, sh, shift), hash_bytes(x.data(), n), n > 1 && sh != ZERO, [&] {
            using C = std::complex<T>;
            GBuf<C> in(x, shift), out(n, GBuf<C>::guard(), shift), back(n, GBuf<C>::guard(), shift);
            if (inv) edsp::cidft(in.begin(), in.end(), out.begin()); else edsp::cdft(in.begin(), in.end(), out.begin());
            S.expect(same_bits(in.vec(), x), "input-modified"); S.expect(in.intact() && out.intact(), "wrote-outside");
            Table t(n); auto wx = widen(x); ld x2 = norm2(x), sc = inv ? 1.0L / n : 1.0L, tol = ftol<T>(n, x2) * sc;
            for (size_t k : bs) if (!cclose(S, out[k], acc(t, wx, k, inv ? 1 : -1) * sc, tol, inv ? "cidft-value" : "cdft-value", k)) break;
            auto spec = out.vec();
            if (inv) edsp::cdft(out.begin(), out.end(), back.begin()); else edsp::cidft(out.begin(), out.end(), back.begin());
            S.expect(same_bits(out.vec(), spec), "input-modified", "inverse"); S.expect(out.intact() && back.intact(), "wrote-outside", "inverse");
            ld rt = ftol<T>(n, x2) / std::sqrt(static_cast<ld>(n));
            for (size_t i = 0; i < n; ++i) if (!cclose(S, back[i], cld(x[i].real(), x[i].imag()), rt, "cdft-roundtrip", i)) break;
            std::vector<C> vo(n); const std::vector<C> vx(x);
            if (inv) edsp::cidft(vx.begin(), vx.end(), vo.begin()); else edsp::cdft(vx.begin(), vx.end(), vo.begin());
            for (size_t k = 0; k < n; ++k) if (!cclose(S, vo[k], cld(out[k]), tol, "cdft-iterators", k)) break;
        });
    }
};
template <class T> struct Dct {
    Site& S; std::vector<size_t> szs;
    void operator()(const char* nm, size_t n, int sh, size_t shift) {
        auto x = signal<T>(S.rng, n, sh); auto bs = bins(S.rng, n, ALL, 30);
        S.run(D(nm, n, sh, shift), hash_bytes(x.data(), n), n > 1 && sh != ZERO, [&] {
            GBuf<T> in(x, shift), out(n, GBuf<T>::guard(), shift), back(n, GBuf<T>::guard(), shift), inv(n, GBuf<T>::guard(), shift);
            edsp::dct(in.begin(), in.end(), out.begin());
            S.expect(same_bits(in.vec(), x), "input-modified"); S.expect(in.intact() && out.intact(), "wrote-outside");
            ld x2 = norm2(x), tol = 4 * ftol<T>(n, x2);
            // 2*sum x_n cos(pi/N (n+1/2) k): table of cos over 4N-th roots
            Table t(4 * n);
            for (size_t k : bs) { ld s = 0; for (size_t j = 0; j < n; ++j) s += x[j] * t.at(2 * j + 1, k).real(); if (!S.close(out[k], 2 * s, tol, "dct-value", "bin " + std::to_string(k))) break; }
            auto spec = out.vec();
            edsp::idct(out.begin(), out.end(), back.begin());
            S.expect(same_bits(out.vec(), spec), "input-modified", "inverse"); S.expect(out.intact() && back.intact(), "wrote-outside", "inverse");
            ld rt = 4 * ftol<T>(n, x2) / std::sqrt(static_cast<ld>(n));
            for (size_t i = 0; i < n; ++i) if (!S.close(back[i], x[i], rt, "dct-roundtrip", "index " + std::to_string(i))) break;
            // the inverse of an arbitrary coefficient sequence: (1/2 X0 + sum X_n cos(pi/N n (k+1/2)))/N
            edsp::idct(in.begin(), in.end(), inv.begin());
            for (size_t k : bs) { ld s = x[0] / 2.0L; for (size_t j = 1; j < n; ++j) s += x[j] * t.at(2 * k + 1, j).real(); if (!S.close(inv[k], s / n, tol / n, "idct-value", "index " + std::to_string(k))) break; }
            std::vector<T> vo(n); edsp::dct(x.cbegin(), x.cend(), vo.begin());
            for (size_t k = 0; k < n; ++k) if (!S.close(vo[k], out[k], tol, "dct-iterators", std::to_string(k))) break;
        });
    }
};
template <class T> struct Hart {
    Site& S; std::vector<size_t> szs;
    void operator()(const char* nm, size_t n, int sh, size_t shift) {
        auto x = signal<T>(S.rng, n, sh); auto bs = bins(S.rng, n, ALL, 30);
        S.run(D(nm, n, sh, shift), hash_bytes(x.data(), n), n > 1 && sh != ZERO, [&] {
            GBuf<T> in(x, shift), out(n, GBuf<T>::guard(), shift), back(n, GBuf<T>::guard(), shift);
            edsp::hartley(in.begin(), in.end(), out.begin());
            S.expect(same_bits(in.vec(), x), "input-modified"); S.expect(in.intact() && out.intact(), "wrote-outside");
            Table t(n); ld x2 = norm2(x), tol = 2 * ftol<T>(n, x2);
            for (size_t k : bs) { ld s = 0; for (size_t j = 0; j < n; ++j) { cld w = t.at(k, j); s += x[j] * (w.real() + w.imag()); } if (!S.close(out[k], s, tol, "hartley-value", "bin " + std::to_string(k))) break; }
            edsp::hartley(out.begin(), out.end(), back.begin());       // involutive up to N
            ld rt = 2 * ftol<T>(n, x2) * std::sqrt(static_cast<ld>(n));
            for (size_t i = 0; i < n; ++i) if (!S.close(back[i], static_cast<ld>(x[i]) * n, rt, "hartley-involution", "index " + std::to_string(i))) break;
        });
    }
};
SITE("C01", "dft<double>") { each(S, "dft<double>", RDft<double>{S, tsizes<double>(S)}); }
SITE("C01", "dft<float>") { each(S, "dft<float>", RDft<float>{S, tsizes<float>(S)}); }
SITE("C01", "idft<double>") { each(S, "idft<double>", IRDft<double>{S, tsizes<double>(S)}); }
SITE("C01", "idft<float>") { each(S, "idft<float>", IRDft<float>{S, tsizes<float>(S)}); }
SITE("C01", "cdft<double>") { each(S, "cdft<double>", CDft<double>{S, tsizes<double>(S), false}); }
SITE("C01", "cdft<float>") { each(S, "cdft<float>", CDft<float>{S, tsizes<float>(S), false}); }
SITE("C01", "cidft<double>") { each(S, "cidft<double>", CDft<double>{S, tsizes<double>(S), true}); }
SITE("C01", "cidft<float>") { each(S, "cidft<float>", CDft<float>{S, tsizes<float>(S), true}); }
SITE("C01", "dct<double>") { each(S, "dct<double>", Dct<double>{S, tsizes<double>(S)}); }
SITE("C01", "dct<float>") { each(S, "dct<float>", Dct<float>{S, tsizes<float>(S)}); }
SITE("C01", "hartley<double>") { each(S, "hartley<double>", Hart<double>{S, tsizes<double>(S)}); }
SITE("C01", "hartley<float>") { each(S, "hartley<float>", Hart<float>{S, tsizes<float>(S)}); }
SITE("C01", "fft_sizes") {
    long top = S.reps(20000, 200000);
    for (long blk = 0; blk < top; blk += 500)
        S.run("sizes from " + std::to_string(blk), blk, true, [&] {
            for (long n = blk ? blk : 1; n < blk + 500; ++n) {
                S.expect(edsp::make_fft_size(n) == n / 2 + 1, "size", "make_fft_size(" + std::to_string(n) + ")");
                S.expect(edsp::make_fft_size(static_cast<int>(n)) == n / 2 + 1, "size", "make_fft_size int"); S.expect(edsp::make_fft_size(static_cast<size_t>(n)) == static_cast<size_t>(n) / 2 + 1, "size", "make_fft_size size_t");
                S.expect(edsp::make_ifft_size(n) == 2 * (n - 1), "size", "make_ifft_size"); S.expect(edsp::make_ifft_size(static_cast<int>(n)) == 2 * (n - 1), "size", "make_ifft_size int");
                if (n % 2 == 0) S.expect(edsp::make_ifft_size(edsp::make_fft_size(n)) == n, "size", "inverse sizes");
            }
        });
}

// ---------------------------------------------------------------- C02: derived spectral functions
static std::vector<size_t> dsizes(Site& S) { return sizes(S.rng, S.reps(90, 220), {97, 101, 127, 128, 129, 200, 255, 256, 257, 360, 499, 512, 700, 1000, 1024, 2049, 4095, 4096, 5000, 8192, 16384, 20011, 32768, 65536, 70000}, S.reps(12, 150), S.reps(500, 2500)); }
template <class T> ld ctol(size_t n, ld a, ld b) { return 48 * eps<T>() * (std::log2(2.0L * n) + 3) * a * b + static_cast<ld>(std::numeric_limits<T>::min()) * 64; }

template <class T> void conv_site(Site& S) {
    for (size_t n : dsizes(S))
        for (int rep = 0; rep < (n < 130 ? 3 : 1); ++rep) {
            int s1 = rep ? static_cast<int>(S.rng.below(NSHAPES)) : GAUSS, s2 = rep ? static_cast<int>(S.rng.below(NSHAPES)) : GAUSS;
            auto a = signal<T>(S.rng, n, s1), b = signal<T>(S.rng, n, s2);
            if (rep == 2) { b.assign(n, 0); b[S.rng.below(n)] = 1; } // delayed impulse
            auto idx = bins(S.rng, n, ALL, 40);
            S.cover("length", static_cast<long>(n));
            S.run("conv n=" + std::to_string(n) + " " + shape_name(s1) + "*" + (rep == 2 ? "delta" : shape_name(s2)), mix(hash_bytes(a.data(), n), hash_bytes(b.data(), n)), n > 1, [&] {
                GBuf<T> A(a), B(b), O(n);
                edsp::conv(A.begin(), A.end(), B.begin(), O.begin());
                S.expect(same_bits(A.vec(), a) && same_bits(B.vec(), b), "input-modified"); S.expect(A.intact() && B.intact() && O.intact(), "wrote-outside");
                ld tol = ctol<T>(n, norm2(a), norm2(b));
                for (size_t k : idx) { ld s = 0; for (size_t j = 0; j <= k; ++j) s += static_cast<ld>(a[j]) * b[k - j]; if (!S.close(O[k], s, tol, "conv-value", "index " + std::to_string(k))) break; }
                std::vector<T> r(n); edsp::conv(b.cbegin(), b.cend(), a.cbegin(), r.begin()); // commutes
                for (size_t k = 0; k < n; ++k) if (!S.close(r[k], O[k], 2 * tol, "conv-commutes", "index " + std::to_string(k))) break;
            });
        }
}
template <class T> void xcorr_site(Site& S) {
    for (size_t n : dsizes(S))
        for (int rep = 0; rep < (n < 130 ? 4 : 2); ++rep) {
            int s1 = rep ? static_cast<int>(S.rng.below(NSHAPES)) : GAUSS, s2 = rep ? static_cast<int>(S.rng.below(NSHAPES)) : GAUSS;
            auto a = signal<T>(S.rng, n, s1), b = signal<T>(S.rng, n, s2);
            bool autoc = rep & 1; int mode = static_cast<int>(S.rng.below(4)); bool biased = mode == 1, unbiased = mode == 2;
            auto idx = bins(S.rng, n, ALL, 40);
            S.cover("length", static_cast<long>(n)); S.cover("mode", std::string(autoc ? "auto" : "cross") + (biased ? "/biased" : unbiased ? "/unbiased" : "/raw"));
            S.run(std::string(autoc ? "autocorrelation" : "xcorr") + (biased ? " biased" : unbiased ? " unbiased" : " raw") + " n=" + std::to_string(n) + " " + shape_name(s1) + "," + shape_name(s2), mix(hash_bytes(a.data(), n), hash_bytes(b.data(), n)), n > 1, [&] {
                GBuf<T> A(a), B(b), O(n);
                auto sc = biased ? edsp::CorrelationScale::Biased : unbiased ? edsp::CorrelationScale::Unbiased : edsp::CorrelationScale::None;
                if (autoc) { if (mode) edsp::xcorr(A.begin(), A.end(), O.begin(), sc); else edsp::xcorr(A.begin(), A.end(), O.begin()); }
                else { if (mode) edsp::xcorr(A.begin(), A.end(), B.begin(), O.begin(), sc); else edsp::xcorr(A.begin(), A.end(), B.begin(), O.begin()); }
                S.expect(same_bits(A.vec(), a) && same_bits(B.vec(), b), "input-modified"); S.expect(A.intact() && B.intact() && O.intact(), "wrote-outside");
                const auto& y = autoc ? a : b; ld tol0 = ctol<T>(n, norm2(a), norm2(y)), tol = tol0;
                for (size_t k : idx) { ld s = 0; for (size_t j = 0; j + k < n; ++j) s += static_cast<ld>(a[j + k]) * y[j]; ld q = biased ? 1.0L / n : unbiased ? 1.0L / (n - k) : 1.0L; tol = tol0 * q; if (!S.close(O[k], s * q, tol, biased ? "xcorr-biased" : unbiased ? "xcorr-unbiased" : "xcorr-value", "lag " + std::to_string(k))) break; }
                if (autoc && !unbiased) for (size_t k = 1; k < n; ++k) if (!S.expect(std::fabs(static_cast<ld>(O[k])) <= static_cast<ld>(O[0]) + tol0, "xcorr-peak-at-zero", "lag " + std::to_string(k))) break;
            });
        }
}
template <class T> void spectrum_site(Site& S) {
    for (size_t n : dsizes(S))
        for (int rep = 0; rep < (n < 130 ? 3 : 1); ++rep) {
            int sh = rep ? static_cast<int>(S.rng.below(NSHAPES)) : GAUSS; auto x = signal<T>(S.rng, n, sh); auto idx = bins(S.rng, n / 2 + 1, ALL, 40);
            S.cover("length", static_cast<long>(n));
            S.run(std::string("spectrum n=") + std::to_string(n) + " " + shape_name(sh), hash_bytes(x.data(), n), n > 1, [&] {
                GBuf<T> in(x); GBuf<T> out(n / 2 + 1);
                edsp::spectrum(in.begin(), in.end(), out.begin());
                S.expect(same_bits(in.vec(), x), "input-modified"); S.expect(in.intact() && out.intact(), "wrote-outside");
                Table t(n); auto wx = widen(x); ld ft = ftol<T>(n, norm2(x)), tot = 0;
                for (size_t k = 0; k <= n / 2; ++k) { S.expect(out[k] >= 0, "spectrum-negative"); tot += ((k == 0 || 2 * k == n) ? 1 : 2) * static_cast<ld>(out[k]); }
                ld x2 = norm2(x); S.close(tot / n, x2 * x2, 2 * ft / std::sqrt(static_cast<ld>(n)) * x2 + 1e-35L, "spectrum-energy");
                for (size_t k : idx) { ld m = std::abs(acc(t, wx, k, -1)); if (!S.close(out[k], m * m, 2 * m * ft + ft * ft + 8 * eps<T>() * m * m, "spectrum-value", "bin " + std::to_string(k))) break; }
            });
        }
}
template <class T> void hilbert_site(Site& S) {
    for (size_t n : dsizes(S))
        for (int rep = 0; rep < (n < 130 ? 3 : 1); ++rep) {
            int sh = rep ? static_cast<int>(S.rng.below(NSHAPES)) : GAUSS; auto x = signal<T>(S.rng, n, sh);
            S.cover("length", static_cast<long>(n));
            S.run(std::string("hilbert n=") + std::to_string(n) + " " + shape_name(sh), hash_bytes(x.data(), n), n > 1, [&] {
                GBuf<T> in(x); GBuf<std::complex<T>> out(n);
                edsp::hilbert(in.begin(), in.end(), out.begin());
                S.expect(same_bits(in.vec(), x), "input-modified"); S.expect(in.intact() && out.intact(), "wrote-outside");
                ld x2 = norm2(x), tol = 2 * ftol<T>(n, x2) / std::sqrt(static_cast<ld>(n));
                for (size_t i = 0; i < n; ++i) if (!S.close(out[i].real(), x[i], tol, "hilbert-real", "index " + std::to_string(i))) break;
                // spectrum of the analytic signal: one-sided, doubled
                Table t(n); auto wx = widen(x); auto wo = widen(out.vec()); bool direct = n <= 300; std::vector<cld> fx, fo;
                if (!direct) { fx = full_dft(wx, -1); fo = full_dft(wo, -1); }
                for (size_t k = 0; k < n; ++k) {
                    cld want = direct ? acc(t, wx, k, -1) : fx[k]; ld g = (k == 0 || 2 * k == n) ? 1 : (2 * k < n ? 2 : 0); want *= g;
                    cld got = direct ? acc(t, wo, k, -1) : fo[k];
                    if (!cclose(S, got, want, 4 * ftol<T>(n, x2), "hilbert-spectrum", k)) break;
                }
            });
        }
}
template <class T> void cepstrum_site(Site& S) {
    for (size_t n : sizes(S.rng, S.reps(80, 160), {127, 128, 200, 256, 300, 400, 511, 512, 1000, 1024, 2048, 4096, 5000, 8192, 16384}, S.reps(10, 100), 300))
        for (int rep = 0; rep < 2; ++rep) {
            int sh = rep ? (S.rng.coin() ? SINE : UNIFORM) : GAUSS; auto x = signal<T>(S.rng, n, sh);
            S.cover("length", static_cast<long>(n));
            // domain: no spectral zero (log of zero); quantify conditioning from the reference
            size_t N = 2 * n; Table t(N); auto wx = widen(x); wx.resize(N); std::vector<ld> lg(N); ld mn = 1e300L;
            std::vector<cld> fx; if (n > 200) fx = full_dft(wx, -1);
            for (size_t k = 0; k <= n; ++k) { ld m = std::abs(n > 200 ? fx[k] : acc(t, wx, k, -1)); mn = std::min(mn, m); lg[k] = std::log(m); if (k && k < n) lg[N - k] = lg[k]; }
            ld x2 = norm2(x), ft = ftol<T>(N, x2);
            bool ok = mn > 64 * ft; // well away from a zero
            S.run(std::string("cepstrum n=") + std::to_string(n) + " " + shape_name(sh) + (ok ? "" : " (skipped: spectral zero)"), hash_bytes(x.data(), n), ok && n > 1, [&] {
                GBuf<T> in(x), out(n);
                edsp::cepstrum(in.begin(), in.end(), out.begin());
                S.expect(same_bits(in.vec(), x), "input-modified"); S.expect(in.intact() && out.intact(), "wrote-outside");
                if (!ok) return;
                ld lmax = 0; for (auto v : lg) lmax = std::max(lmax, std::fabs(v));
                ld tol = 2 * ft / mn + 32 * eps<T>() * lmax * (std::log2(static_cast<ld>(N)) + 3);
                std::vector<cld> fl; if (n > 200) fl = full_dft(widen(lg), 1);
                for (size_t q = 0; q < n; ++q) { ld s = 0; if (n > 200) s = fl[q].real(); else for (size_t k = 0; k < N; ++k) s += lg[k] * t.at(k, q).real(); if (!S.close(out[q], s / N, tol, "cepstrum-value", "index " + std::to_string(q))) break; }
            });
        }
}
SITE("C02", "conv<double>") { conv_site<double>(S); }
SITE("C02", "conv<float>") { conv_site<float>(S); }
SITE("C02", "xcorr<double>") { xcorr_site<double>(S); }
SITE("C02", "xcorr<float>") { xcorr_site<float>(S); }
SITE("C02", "spectrum<double>") { spectrum_site<double>(S); }
SITE("C02", "spectrum<float>") { spectrum_site<float>(S); }
SITE("C02", "hilbert<double>") { hilbert_site<double>(S); }
SITE("C02", "hilbert<float>") { hilbert_site<float>(S); }
SITE("C02", "cepstrum<double>") { cepstrum_site<double>(S); }
SITE("C02", "cepstrum<float>") { cepstrum_site<float>(S); }

// ---------------------------------------------------------------- C03: one engine, any history of transforms
// The oracle is the defining sum, so a stale plan, a stale buffer or a wrong alignment assumption shows as a wrong value.
enum Op { CF, CI, RF, RI, HT, DC, IDC, SCALE_C, SCALE_R, SCALE_D, NOPS };
static const char* opname(int o) { static const char* n[] = {"cdft", "cidft", "rdft", "irdft", "dht", "dct", "idct", "scale-c", "scale-r", "scale-d"}; return n[o]; }
template <class T> struct EngineModel {
    Site& S; size_t n; Table t; Table t4;
    EngineModel(Site& s, size_t n_) : S(s), n(n_), t(n_), t4(4 * n_) {}
    // the transform as defined; lengths that would take too long all at once through full_dft
    std::function<cld(size_t)> fourier(const std::vector<cld>& x, int sign) {
        if (n <= 300) return [this, x, sign](size_t k) { return acc(t, x, k, sign); };
        auto f = std::make_shared<std::vector<cld>>(full_dft(x, sign)); return [f](size_t k) { return (*f)[k]; };
    }
    template <class E> void apply(E& e, int op, size_t shift_in, size_t shift_out, int sh) {
        using C = std::complex<T>;
        ld N = static_cast<ld>(n);
        switch (op) {
            case CF: case CI: {
                auto x = csignal<T>(S.rng, n, sh); GBuf<C> in(x, shift_in), out(n, GBuf<C>::guard(), shift_out);
                if (op == CF) e.dft(in.begin(), out.begin()); else e.idft(in.begin(), out.begin());
                S.expect(same_bits(in.vec(), x), "engine-input-modified", opname(op)); S.expect(in.intact() && out.intact(), "engine-wrote-outside", opname(op));
                auto F = fourier(widen(x), op == CF ? -1 : 1); ld tol = ftol<T>(n, norm2(x));
                for (size_t k = 0; k < n; ++k) if (!cclose(S, out[k], F(k), tol, "engine-value", k)) break;
                break; }
            case RF: {
                auto x = signal<T>(S.rng, n, sh); GBuf<T> in(x, shift_in); GBuf<C> out(n / 2 + 1, GBuf<C>::guard(), shift_out);
                e.dft(in.begin(), out.begin());
                S.expect(same_bits(in.vec(), x), "engine-input-modified", opname(op)); S.expect(in.intact() && out.intact(), "engine-wrote-outside", opname(op));
                auto F = fourier(widen(x), -1); ld tol = ftol<T>(n, norm2(x));
                for (size_t k = 0; k <= n / 2; ++k) if (!cclose(S, out[k], F(k), tol, "engine-value", k)) break;
                break; }
            case RI: {
                auto X = csignal<T>(S.rng, n / 2 + 1, sh); X[0].imag(0); if (n % 2 == 0) X[n / 2].imag(0);
                GBuf<C> in(X, shift_in); GBuf<T> out(n, GBuf<T>::guard(), shift_out);
                e.idft(in.begin(), out.begin());
                S.expect(same_bits(in.vec(), X), "engine-input-modified", opname(op)); S.expect(in.intact() && out.intact(), "engine-wrote-outside", opname(op));
                std::vector<cld> full(n); for (size_t k = 0; k <= n / 2; ++k) full[k] = cld(X[k].real(), X[k].imag()); for (size_t k = n / 2 + 1; k < n; ++k) full[k] = std::conj(full[n - k]);
                ld tol = ftol<T>(n, norm2(full)); auto F = fourier(full, 1);
                for (size_t i = 0; i < n; ++i) if (!S.close(out[i], F(i).real(), tol, "engine-value", "irdft " + std::to_string(i))) break;
                break; }
            case HT: case DC: case IDC: {
                auto x = signal<T>(S.rng, n, sh); GBuf<T> in(x, shift_in), out(n, GBuf<T>::guard(), shift_out);
                if (op == HT) e.dht(in.begin(), out.begin()); else if (op == DC) e.dct(in.begin(), out.begin()); else e.idct(in.begin(), out.begin());
                S.expect(same_bits(in.vec(), x), "engine-input-modified", opname(op)); S.expect(in.intact() && out.intact(), "engine-wrote-outside", opname(op));
                ld tol = 4 * ftol<T>(n, norm2(x));
                for (size_t k : bins(S.rng, n, 300, 24)) {
                    ld s = 0;
                    if (op == HT) for (size_t j = 0; j < n; ++j) { cld w = t.at(k, j); s += x[j] * (w.real() + w.imag()); }
                    else if (op == DC) { for (size_t j = 0; j < n; ++j) s += x[j] * t4.at(2 * j + 1, k).real(); s *= 2; }
                    else { for (size_t j = 1; j < n; ++j) s += x[j] * t4.at(2 * k + 1, j).real(); s = 2 * s + x[0]; }
                    if (!S.close(out[k], s, tol, "engine-value", std::string(opname(op)) + " " + std::to_string(k))) break;
                }
                break; }
            case SCALE_C: { auto x = csignal<T>(S.rng, n, sh); GBuf<C> b(x); e.idft_scale(b.begin()); S.expect(b.intact(), "engine-wrote-outside", "scale"); for (size_t i = 0; i < n; ++i) if (!cclose(S, b[i], cld(x[i]) / N, 4 * eps<T>() * std::abs(cld(x[i])), "engine-scale", i)) break; break; }
            case SCALE_R: { auto x = signal<T>(S.rng, n, sh); GBuf<T> b(x); e.idft_scale(b.begin()); S.expect(b.intact(), "engine-wrote-outside", "scale"); for (size_t i = 0; i < n; ++i) if (!S.close(b[i], x[i] / N, 4 * eps<T>() * std::fabs(static_cast<ld>(x[i])), "engine-scale")) break; break; }
            case SCALE_D: { auto x = signal<T>(S.rng, n, sh); GBuf<T> b(x); e.idct_scale(b.begin()); S.expect(b.intact(), "engine-wrote-outside", "scale"); for (size_t i = 0; i < n; ++i) if (!S.close(b[i], x[i] / (2 * N), 4 * eps<T>() * std::fabs(static_cast<ld>(x[i])), "engine-scale")) break; break; }
        }
    }
};
static std::vector<size_t> esizes(Site& S) { return sizes(S.rng, 40, {48, 60, 64, 97, 100, 127, 128, 160, 192, 256, 509, 512, 1000, 1024, 2048, 4096, 8192, 16384}, S.reps(6, 80), 200); }
template <class T> void engine_site(Site& S, bool mixed, bool shifted) {
    for (size_t n : esizes(S))
        for (int rep = 0; rep < S.reps(3, 12); ++rep) {
            std::vector<std::array<int, 4>> ops; int len = static_cast<int>(S.rng.range(2, 7)), fixed = (static_cast<int>(n) + rep) % 7; std::string d; std::string kinds;
            for (int i = 0; i < len; ++i) {
                int o = mixed ? static_cast<int>(S.rng.below(NOPS)) : fixed;
                int si = shifted ? static_cast<int>(S.rng.below(4)) : 0, so = shifted ? static_cast<int>(S.rng.below(4)) : 0;
                ops.push_back({o, si, so, static_cast<int>(S.rng.below(NSHAPES))}); d += std::string(i ? " " : "") + opname(o) + "@" + std::to_string(si) + std::to_string(so);
            }
            Rng keep = S.rng;
            S.run(std::string(tname<T>()) + " engine n=" + std::to_string(n) + ": " + d, hash_str(d) ^ n, len > 1, [&] {
                edsp::fft_engine<T> e(n); EngineModel<T> m(S, n);
                for (auto& o : ops) { m.apply(e, o[0], o[1], o[2], o[3]); S.count("engine transforms"); }
            });
            S.rng = keep; S.rng.next(); S.cover("history", d);
        }
}
SITE("C03", "same-op<double>") { engine_site<double>(S, false, false); }
SITE("C03", "same-op<float>") { engine_site<float>(S, false, false); }
SITE("C03", "mixed-ops<double>") { engine_site<double>(S, true, false); }
SITE("C03", "mixed-ops<float>") { engine_site<float>(S, true, false); }
SITE("C03", "shifted-buffers<double>") { engine_site<double>(S, false, true); }
SITE("C03", "shifted-buffers<float>") { engine_site<float>(S, false, true); }
SITE("C03", "mixed-shifted<double>") { engine_site<double>(S, true, true); }
SITE("C03", "mixed-shifted<float>") { engine_site<float>(S, true, true); }
// Engines alive at the same time, created and destroyed in any order, do not disturb each other.
template <class T> void pool_site(Site& S) {
    for (int c = 0; c < S.reps(25, 200); ++c) {
        int steps = static_cast<int>(S.rng.range(8, 30));
        std::string d = std::string(tname<T>()) + " pool#" + std::to_string(c) + " steps=" + std::to_string(steps);
        Rng keep(S.rng.next());
        S.run(d, c, true, [&] {
            std::swap(keep, S.rng);
            std::vector<std::pair<size_t, std::unique_ptr<edsp::fft_engine<T>>>> pool;
            for (int s = 0; s < steps; ++s) {
                int what = static_cast<int>(S.rng.below(10));
                if (pool.empty() || what < 2) { size_t n = static_cast<size_t>(S.rng.coin(0.05) ? S.rng.range(70, 3000) : S.rng.range(1, 70)); pool.emplace_back(n, std::unique_ptr<edsp::fft_engine<T>>(new edsp::fft_engine<T>(n))); S.count("engines created"); }
                else if (what < 3) { pool.erase(pool.begin() + static_cast<long>(S.rng.below(pool.size()))); S.count("engines destroyed"); }
                else { auto& p = pool[S.rng.below(pool.size())]; EngineModel<T> m(S, p.first); m.apply(*p.second, static_cast<int>(S.rng.below(NOPS)), 0, 0, static_cast<int>(S.rng.below(NSHAPES))); S.count("engine transforms"); }
            }
            std::swap(keep, S.rng);
        });
    }
}
SITE("C03", "engine-pool<double>") { pool_site<double>(S); }
SITE("C03", "engine-pool<float>") { pool_site<float>(S); }
// If an engine can be copied or moved at all, the copies have to work and to be destroyed independently.
template <class T, bool CanCopy> struct CopyCase { static void go(Site& S, edsp::fft_engine<T>&, EngineModel<T>&) { S.count("engine is not copyable"); S.expect(true, "engine-copy"); } };
template <class T> struct CopyCase<T, true> {
    static void go(Site& S, edsp::fft_engine<T>& e, EngineModel<T>& m) {
        m.apply(e, RF, 0, 0, GAUSS);
        { edsp::fft_engine<T> c(e); m.apply(c, RF, 0, 0, GAUSS); }
        m.apply(e, RF, 0, 0, GAUSS); S.count("engine copies used");
    }
};
SITE("C03", "engine-copy") {
    for (size_t n : {2, 7, 16, 33}) {
        S.run("copy/destroy double n=" + std::to_string(n), n, true, [&] { edsp::fft_engine<double> e(n); EngineModel<double> m(S, n); CopyCase<double, std::is_copy_constructible<edsp::fft_engine<double>>::value>::go(S, e, m); });
        S.run("copy/destroy float n=" + std::to_string(n), n, true, [&] { edsp::fft_engine<float> e(n); EngineModel<float> m(S, n); CopyCase<float, std::is_copy_constructible<edsp::fft_engine<float>>::value>::go(S, e, m); });
    }
}
VM_MAIN
