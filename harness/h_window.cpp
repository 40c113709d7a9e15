// Window generators and scalar math helpers.
#include "vm.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/math/complex.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/windowing.hpp>
using namespace vm;
enum W { BARTLETT, BLACKMAN, BHARRIS, BNUTTALL, BOXCAR, FLATTOP, HAMMING, HANNING, RECT, TRIANG, WELCH, NW };
static const char* wname(int w) { static const char* n[] = {"bartlett", "blackman", "blackman_harris", "blackman_nuttall", "boxcar", "flattop", "hamming", "hanning", "rectangular", "triangular", "welch"}; return n[w]; }
template <class It> void gen(int w, It f, It l) {
    using namespace edsp::windowing;
    switch (w) {
        case BARTLETT: bartlett(f, l); break; case BLACKMAN: blackman(f, l); break; case BHARRIS: blackman_harris(f, l); break; case BNUTTALL: blackman_nutall(f, l); break;
        case BOXCAR: boxcar(f, l); break; case FLATTOP: flattop(f, l); break; case HAMMING: hamming(f, l); break; case HANNING: hanning(f, l); break;
        case RECT: rectangular(f, l); break; case TRIANG: triangular(f, l); break; case WELCH: welch(f, l); break;
    }
}
static ld cosine(const std::vector<ld>& a, ld n, ld N) { ld s = 0, t = 2 * PI * n / (N - 1), sg = 1; for (size_t k = 0; k < a.size(); ++k) { s += sg * a[k] * std::cos(static_cast<ld>(k) * t); sg = -sg; } return s; }
static ld ref(int w, ld n, ld N) {
    switch (w) {
        case BARTLETT: return 1 - std::fabs(2 * n / (N - 1) - 1);
        case BLACKMAN: return cosine({0.42L, 0.5L, 0.08L}, n, N);
        case BHARRIS: return cosine({0.35875L, 0.48829L, 0.14128L, 0.01168L}, n, N);
        case BNUTTALL: return cosine({0.3635819L, 0.4891775L, 0.1365995L, 0.0106411L}, n, N);
        case FLATTOP: return cosine({0.21557895L, 0.41663158L, 0.277263158L, 0.083578947L, 0.006947368L}, n, N);
        case HAMMING: return cosine({0.54L, 0.46L}, n, N);
        case HANNING: return cosine({0.5L, 0.5L}, n, N);
        case TRIANG: { ld L = std::fmod(N, 2) == 0 ? N : N + 1; return 1 - std::fabs((2 * n - (N - 1)) / L); }
        case WELCH: { ld h = (N - 1) / 2; return 1 - ((n - h) / h) * ((n - h) / h); }
        default: return 1;
    }
}
template <class T> void window_site(Site& S, int w) {
    auto szs = sizes(S.rng, S.reps(400, 2000), {511, 512, 513, 1000, 1023, 1024, 1025, 2047, 4096, 4097, 8192, 10000, 16384, 32768, 65535, 65536, 65537, 100003, 131072, 1000003}, S.reps(30, 300), S.reps(5000, 60000), 2);
    for (size_t n : szs) {
        S.cover("length", static_cast<long>(n));
        S.run(std::string(wname(w)) + "<" + tname<T>() + "> n=" + std::to_string(n), n * 64 + static_cast<size_t>(w) * 3 + sizeof(T), true, [&] {
            Buf<T> b(n, static_cast<T>(-7));
            gen(w, b.begin(), b.end());
            ld tol = 64 * eps<T>(), N = static_cast<ld>(n);
            for (size_t i = 0; i < n; ++i) if (!S.close(b[i], ref(w, static_cast<ld>(i), N), tol, "window-value", "index " + std::to_string(i))) break;
            for (size_t i = 0; i < n / 2; ++i) if (!S.close(b[i], b[n - 1 - i], tol, "window-symmetry", "index " + std::to_string(i))) break;
            for (size_t i = 0; i < n; ++i) if (!S.expect(b[i] <= 1 + tol + 1e-8L && b[i] >= (w == FLATTOP ? -0.1 : -tol), "window-range", "index " + std::to_string(i))) break;
            // exactly the given range is written, through any iterator kind
            std::vector<T> v(n + 6, static_cast<T>(42)); gen(w, v.begin() + 3, v.begin() + 3 + static_cast<long>(n));
            S.expect(v[0] == 42 && v[1] == 42 && v[2] == 42 && v[n + 3] == 42 && v[n + 4] == 42 && v[n + 5] == 42, "wrote-outside");
            for (size_t i = 0; i < n; ++i) if (!S.close(v[i + 3], b[i], tol, "window-iterators")) break;
            if (n <= 300) { std::list<T> l(n); gen(w, l.begin(), l.end()); size_t i = 0; for (auto x : l) if (!S.close(x, b[i++], tol, "window-iterators")) break; }
        });
    }
    S.run(std::string(wname(w)) + " empty range", 1, false, [&] { std::vector<T> v(4, static_cast<T>(42)); gen(w, v.begin() + 2, v.begin() + 2); S.expect(v == std::vector<T>(4, static_cast<T>(42)), "wrote-outside", "empty"); });
}
template <class T> struct RegW { RegW() { for (int w = 0; w < NW; ++w) vm::registry().push_back({"C05", std::string(wname(w)) + "<" + tname<T>() + ">", [w](Site& S) { window_site<T>(S, w); }}); } };
static RegW<double> rwd; static RegW<float> rwf;

// ---------------------------------------------------------------- C29 scalar helpers
namespace em = edsp::math;
SITE("C29", "primes") {
    long top = S.reps(60000, 600000); std::vector<bool> comp(static_cast<size_t>(top) + 1);
    for (long p = 2; p <= top; ++p) if (!comp[static_cast<size_t>(p)]) for (long q = p * p; q <= top; q += p) comp[static_cast<size_t>(q)] = true;
    for (long b = 0; b <= top; b += 1000)
        S.run("is_prime block " + std::to_string(b), b, true, [&] { for (long i = b; i < b + 1000 && i <= top; ++i) S.expect(em::is_prime(i) == (i >= 2 && !comp[static_cast<size_t>(i)]), "is_prime", std::to_string(i)); });
    std::vector<std::pair<uint64_t, bool>> big = {{2147483647ULL, true}, {4294967291ULL, true}, {4294967295ULL, false}, {1000000007ULL, true}, {999999000001ULL, true}, {46337ULL * 46337ULL, false}, {46337ULL * 46349ULL, false}, {25ULL, false}, {49ULL, false}, {35ULL, false}, {1000003ULL * 1000033ULL, false}};
    for (auto& b : big) S.run("is_prime " + std::to_string(b.first), b.first, true, [&] { S.expect(em::is_prime(b.first) == b.second, "is_prime", std::to_string(b.first)); });
    S.run("is_prime int types", 3, true, [&] { for (int i = 0; i < 3000; ++i) { S.expect(em::is_prime(i) == (i >= 2 && !comp[static_cast<size_t>(i)]), "is_prime", "int " + std::to_string(i)); S.expect(em::is_prime(static_cast<unsigned>(i)) == (i >= 2 && !comp[static_cast<size_t>(i)]), "is_prime", "unsigned"); } });
}
template <class T> void parity(Site& S, const char* nm) {
    std::vector<T> v; for (int i = 0; i < 3000; ++i) { v.push_back(static_cast<T>(i)); if (std::is_signed<T>::value) v.push_back(static_cast<T>(-i)); }
    v.push_back(std::numeric_limits<T>::max()); v.push_back(std::numeric_limits<T>::min()); for (int i = 0; i < 2000; ++i) v.push_back(static_cast<T>(S.rng.next()));
    S.run(std::string("parity/sign ") + nm, v.size(), true, [&] {
        for (T x : v) {
            bool odd = (static_cast<uint64_t>(x) & 1) != 0;
            S.expect(em::is_odd(x) == odd, "is_odd", num(x)); S.expect(em::is_even(x) == !odd, "is_even", num(x));
            S.expect(em::is_negative(x) == (x < 0), "is_negative", num(x)); S.expect(em::sign(x) == static_cast<T>(x < 0 ? -1 : 1), "sign", num(x));
        }
    });
}
template <class T> void pow2(Site& S, const char* nm) {
    const uint64_t mx = static_cast<uint64_t>(std::numeric_limits<T>::max()), top = uint64_t(1) << (63 - __builtin_clzll(mx));
    std::vector<uint64_t> v; for (uint64_t i = 1; i < 5000; ++i) v.push_back(i);
    for (int b = 1; b < 64; ++b) for (long d = -2; d <= 2; ++d) v.push_back((uint64_t(1) << b) + static_cast<uint64_t>(d));
    for (int i = 0; i < 3000; ++i) v.push_back(S.rng.next() >> S.rng.below(64));
    S.run(std::string("powers of two ") + nm, v.size(), true, [&] {
        for (uint64_t u : v) {
            if (u == 0 || u > mx) continue;
            T x = static_cast<T>(u); bool p = (u & (u - 1)) == 0;
            S.expect(em::is_power_two(x) == p, "is_power_two", num(x));
            if (u <= top) { uint64_t w = 1; while (w < u) w <<= 1; S.expect(static_cast<uint64_t>(em::next_power_two(x)) == w, "next_power_two", num(x) + " gave " + num(em::next_power_two(x))); }
        }
        S.expect(!em::is_power_two(static_cast<T>(0)), "is_power_two", "0");
        if (std::is_signed<T>::value) for (int i = 1; i < 300; ++i) { S.expect(!em::is_power_two(static_cast<T>(-i)), "is_power_two", "-" + std::to_string(i)); S.expect(em::next_power_two(static_cast<T>(-i)) == 0, "next_power_two", "-" + std::to_string(i)); }
    });
}
SITE("C29", "integers") {
    parity<int>(S, "int"); parity<long>(S, "long"); parity<short>(S, "short"); parity<unsigned>(S, "unsigned"); parity<size_t>(S, "size_t"); parity<long long>(S, "long long");
    pow2<int>(S, "int"); pow2<long>(S, "long"); pow2<unsigned>(S, "unsigned"); pow2<size_t>(S, "size_t"); pow2<short>(S, "short");
}
template <class T> void scalars(Site& S) {
    using L = std::numeric_limits<T>; std::vector<T> sp = {0, static_cast<T>(-0.0), 1, -1, L::min(), -L::min(), L::denorm_min(), L::min() / 2, L::max(), L::lowest(), L::infinity(), -L::infinity(), L::quiet_NaN(), L::epsilon(), static_cast<T>(0.5), static_cast<T>(-0.5)};
    for (int i = 0; i < S.reps(3000, 30000); ++i) sp.push_back(static_cast<T>((S.rng.coin() ? 1 : -1) * std::pow(10.0, S.rng.uniform(-30, 30))));
    for (size_t b = 0; b < sp.size(); b += 200)
        S.run(std::string("classification/scalar block ") + tname<T>() + " " + std::to_string(b), b, true, [&] {
            for (size_t i = b; i < std::min(sp.size(), b + 200); ++i) {
                T x = sp[i]; std::string d = num(x);
                uint64_t bits = 0; std::memcpy(&bits, &x, sizeof x); int eb = sizeof(T) == 4 ? 8 : 11, mb = sizeof(T) == 4 ? 23 : 52;
                uint64_t e = (bits >> mb) & ((1ULL << eb) - 1), m = bits & ((1ULL << mb) - 1), all = (1ULL << eb) - 1;
                S.expect(em::is_nan(x) == (e == all && m), "is_nan", d); S.expect(em::is_inf(x) == (e == all && !m), "is_inf", d);
                S.expect(em::is_denormal(x) == (e == 0 && m), "is_denormal", d); S.expect(em::is_zero(x) == (e == 0 && !m), "is_zero", d); S.expect(em::is_normal(x) == (e != 0 && e != all), "is_normal", d);
                std::complex<T> z(x, 1), y(1, x), u(2, 3);
                S.expect(em::is_nan(z) == (e == all && m) && em::is_nan(y) == (e == all && m) && !em::is_nan(u), "complex-is_nan", d); S.expect(em::is_inf(z) == (e == all && !m) && em::is_inf(y) == (e == all && !m), "complex-is_inf", d);
                if (e == all) continue;
                S.expect(em::is_negative(x) == (x < 0), "is_negative", d); S.expect(em::sign(x) == (x < 0 ? -1 : 1), "sign", d);
                ld v = x;
                if (std::fabs(v) < std::sqrt(static_cast<ld>(L::max())) / 2) S.close(em::square(x), v * v, 2 * eps<T>() * v * v + static_cast<ld>(L::min()), "square", d);
                if (v != 0 && std::fabs(v) > static_cast<ld>(L::min()) * 4 && std::fabs(v) < static_cast<ld>(L::max()) / 4) S.close(em::inv(x), 1 / v, 2 * eps<T>() / std::fabs(v) + static_cast<ld>(L::denorm_min()), "inv", d);
                S.close(em::half(x), v / 2, eps<T>() * std::fabs(v) + static_cast<ld>(L::denorm_min()), "half", d);
                T f = em::fract(x); S.expect(f >= 0 && f <= 1, "fract-range", d); S.close(f, v - std::floor(v), eps<T>(), "fract", d);
            }
        });
}
SITE("C29", "floating") { scalars<double>(S); scalars<float>(S); }
template <class T> void dists(Site& S) {
    for (int i = 0; i < S.reps(600, 6000); ++i) {
        T x = static_cast<T>(S.rng.gauss() * std::pow(10, S.rng.uniform(-3, 3))), y = static_cast<T>(S.rng.coin(0.1) ? x : S.rng.gauss() * std::pow(10, S.rng.uniform(-3, 3)));
        S.run(std::string("distance ") + tname<T>() + " " + num(x) + "," + num(y), static_cast<uint64_t>(i), x != y, [&] {
            ld a = x, b = y, d = a - b, t = 4 * eps<T>() * (std::fabs(a) + std::fabs(b));
            T m = em::distance<em::distances::manhattan>(x, y), e = em::distance<em::distances::euclidean>(x, y);
            S.close(m, std::fabs(d), t, "manhattan"); S.close(e, d * d, t * (std::fabs(d) + t), "euclidean");
            S.expect(m == em::distance<em::distances::manhattan>(y, x) && e == em::distance<em::distances::euclidean>(y, x), "distance-symmetry");
            if (x != 0 && y != 0) S.close(em::distance<em::distances::logarithmic>(x, y), std::log(std::fabs(a) / std::fabs(b)), 8 * eps<T>() * (1 + std::fabs(std::log(std::fabs(a)/std::fabs(b)))), "logarithmic");
            std::complex<T> z(x, y); S.close(em::magnitude(z), std::hypot(a, b), 4 * eps<T>() * std::hypot(a, b), "magnitude"); S.close(em::phase(z), std::atan2(b, a), 8 * eps<T>(), "phase");
            S.expect(em::real(z) == x && em::imag(z) == y && em::conj(z) == std::complex<T>(x, -y), "parts");
        });
    }
}
SITE("C29", "distances") { dists<double>(S); dists<float>(S); }
SITE("C29", "constants") {
    using C = em::constants<double>; using F = em::constants<float>;
    struct K { const char* n; double d; float f; ld r; };
    ld e = std::exp(1.0L);
    std::vector<K> ks = {
        {"half", C::half, F::half, 0.5L}, {"third", C::third, F::third, 1 / 3.0L}, {"two_thirds", C::two_thirds, F::two_thirds, 2 / 3.0L}, {"twothirds", C::twothirds, F::twothirds, 2 / 3.0L}, {"sixth", C::sixth, F::sixth, 1 / 6.0L}, {"three_quarters", C::three_quarters, F::three_quarters, 0.75L},
        {"root_two", C::root_two, F::root_two, std::sqrt(2.0L)}, {"root_three", C::root_three, F::root_three, std::sqrt(3.0L)}, {"half_root_two", C::half_root_two, F::half_root_two, std::sqrt(2.0L) / 2}, {"ln_two", C::ln_two, F::ln_two, std::log(2.0L)}, {"ln_ln_two", C::ln_ln_two, F::ln_ln_two, std::log(std::log(2.0L))},
        {"root_ln_four", C::root_ln_four, F::root_ln_four, std::sqrt(std::log(4.0L))}, {"one_div_root_two", C::one_div_root_two, F::one_div_root_two, 1 / std::sqrt(2.0L)}, {"pi", C::pi, F::pi, PI}, {"half_pi", C::half_pi, F::half_pi, PI / 2}, {"third_pi", C::third_pi, F::third_pi, PI / 3}, {"sixth_pi", C::sixth_pi, F::sixth_pi, PI / 6}, {"two_pi", C::two_pi, F::two_pi, 2 * PI},
        {"two_thirds_pi", C::two_thirds_pi, F::two_thirds_pi, 2 * PI / 3}, {"three_quarters_pi", C::three_quarters_pi, F::three_quarters_pi, 3 * PI / 4}, {"four_thirds_pi", C::four_thirds_pi, F::four_thirds_pi, 4 * PI / 3}, {"one_div_two_pi", C::one_div_two_pi, F::one_div_two_pi, 1 / (2 * PI)}, {"one_div_root_two_pi", C::one_div_root_two_pi, F::one_div_root_two_pi, 1 / std::sqrt(2 * PI)},
        {"root_pi", C::root_pi, F::root_pi, std::sqrt(PI)}, {"root_half_pi", C::root_half_pi, F::root_half_pi, std::sqrt(PI / 2)}, {"root_two_pi", C::root_two_pi, F::root_two_pi, std::sqrt(2 * PI)}, {"log_root_two_pi", C::log_root_two_pi, F::log_root_two_pi, std::log(std::sqrt(2 * PI))}, {"one_div_root_pi", C::one_div_root_pi, F::one_div_root_pi, 1 / std::sqrt(PI)}, {"root_one_div_pi", C::root_one_div_pi, F::root_one_div_pi, std::sqrt(1 / PI)},
        {"pi_minus_three", C::pi_minus_three, F::pi_minus_three, PI - 3}, {"four_minus_pi", C::four_minus_pi, F::four_minus_pi, 4 - PI}, {"pi_pow_e", C::pi_pow_e, F::pi_pow_e, std::pow(PI, e)}, {"pi_sqr", C::pi_sqr, F::pi_sqr, PI * PI}, {"pi_sqr_div_six", C::pi_sqr_div_six, F::pi_sqr_div_six, PI * PI / 6}, {"pi_cubed", C::pi_cubed, F::pi_cubed, PI * PI * PI}, {"cbrt_pi", C::cbrt_pi, F::cbrt_pi, std::cbrt(PI)}, {"one_div_cbrt_pi", C::one_div_cbrt_pi, F::one_div_cbrt_pi, 1 / std::cbrt(PI)},
        {"e", C::e, F::e, e}, {"exp_minus_half", C::exp_minus_half, F::exp_minus_half, std::exp(-0.5L)}, {"e_pow_pi", C::e_pow_pi, F::e_pow_pi, std::exp(PI)}, {"root_e", C::root_e, F::root_e, std::sqrt(e)}, {"log10_e", C::log10_e, F::log10_e, std::log10(e)}, {"one_div_log10_e", C::one_div_log10_e, F::one_div_log10_e, std::log(10.0L)}, {"ln_ten", C::ln_ten, F::ln_ten, std::log(10.0L)}, {"degree", C::degree, F::degree, PI / 180}, {"radian", C::radian, F::radian, 180 / PI},
        {"sin_one", C::sin_one, F::sin_one, std::sin(1.0L)}, {"cos_one", C::cos_one, F::cos_one, std::cos(1.0L)}, {"sinh_one", C::sinh_one, F::sinh_one, std::sinh(1.0L)}, {"cosh_one", C::cosh_one, F::cosh_one, std::cosh(1.0L)}, {"phi", C::phi, F::phi, (1 + std::sqrt(5.0L)) / 2}, {"ln_phi", C::ln_phi, F::ln_phi, std::log((1 + std::sqrt(5.0L)) / 2)}, {"one_div_ln_phi", C::one_div_ln_phi, F::one_div_ln_phi, 1 / std::log((1 + std::sqrt(5.0L)) / 2)},
        {"euler", C::euler, F::euler, 0.57721566490153286060651209L}, {"one_div_euler", C::one_div_euler, F::one_div_euler, 1 / 0.57721566490153286060651209L}, {"euler_sqr", C::euler_sqr, F::euler_sqr, 0.57721566490153286060651209L * 0.57721566490153286060651209L}, {"zeta_two", C::zeta_two, F::zeta_two, PI * PI / 6}, {"zeta_three", C::zeta_three, F::zeta_three, 1.2020569031595942853997381615L}, {"catalan", C::catalan, F::catalan, 0.91596559417721901505460351L},
        {"glaisher", C::glaisher, F::glaisher, 1.2824271291006226368753425689L}, {"khinchin", C::khinchin, F::khinchin, 2.6854520010653064453097148355L}, {"rayleigh_skewness", C::rayleigh_skewness, F::rayleigh_skewness, 2 * std::sqrt(PI) * (PI - 3) / std::pow(4 - PI, 1.5L)}, {"rayleigh_kurtosis_excess", C::rayleigh_kurtosis_excess, F::rayleigh_kurtosis_excess, -(6 * PI * PI - 24 * PI + 16) / ((4 - PI) * (4 - PI))}, {"rayleigh_kurtosis", C::rayleigh_kurtosis, F::rayleigh_kurtosis, 3 - (6 * PI * PI - 24 * PI + 16) / ((4 - PI) * (4 - PI))},
        {"extreme_value_skewness", C::extreme_value_skewness, F::extreme_value_skewness, 12 * std::sqrt(6.0L) * 1.2020569031595942853997381615L / (PI * PI * PI)}, {"two_div_pi", C::two_div_pi, F::two_div_pi, 2 / PI}, {"root_two_div_pi", C::root_two_div_pi, F::root_two_div_pi, std::sqrt(2 / PI)}};
    for (auto& k : ks) S.run(std::string("constant ") + k.n, hash_str(k.n), true, [&] { S.close(k.d, k.r, 2 * eps<double>() * std::fabs(k.r), "constant", k.n); S.close(k.f, k.r, 2 * eps<float>() * std::fabs(k.r), "constant", k.n); });
}
SITE("C29", "rand-range") {
    for (int i = 0; i < S.reps(150, 1500); ++i) {
        double a = S.rng.uniform(-100, 100), b = a + S.rng.uniform(0.001, 50); int ia = static_cast<int>(S.rng.range(-1000, 1000)), ib = ia + static_cast<int>(S.rng.range(0, 300));
        S.run("rand in [" + num(a) + "," + num(b) + "] and [" + std::to_string(ia) + "," + std::to_string(ib) + "]", static_cast<uint64_t>(i), true, [&] {
            for (int k = 0; k < 4; ++k) {
                double d = em::rand(a, b); S.expect(d >= a && d <= b, "rand-range", num(d)); float f = em::rand(static_cast<float>(a), static_cast<float>(b)); S.expect(f >= static_cast<float>(a) && f <= static_cast<float>(b), "rand-range", num(f));
                int n = em::rand(ia, ib); S.expect(n >= ia && n <= ib, "rand-range", std::to_string(n)); long m = em::rand(static_cast<long>(ia), static_cast<long>(ib)); S.expect(m >= ia && m <= ib, "rand-range", std::to_string(m));
            }
            S.expect(std::isfinite(em::rand<double>()) && std::isfinite(em::rand<float>()), "rand-finite"); em::rand<int>();
        });
    }
}
VM_MAIN
