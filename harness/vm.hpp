// Runtime-monitor support for the eDSP harnesses.
//
// A harness is a set of *sites*; a site is one entry point (or one family of entry points) of the
// library under one monitor. A site generates cases from its own seeded generator and hands each to
// Site::run(), which announces it in a memory-mapped progress file (so that a case that dies under a
// sanitizer can still be named), executes it, and records what the oracle saw.
#pragma once
#include <algorithm>
#include <array>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vm {

using ld = long double;

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    h *= 0xBF58476D1CE4E5B9ULL;
    return h ^ (h >> 29);
}
inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
template <class T> inline uint64_t hash_bytes(const T* p, size_t n, uint64_t h = 88172645463325252ULL) {
    const unsigned char* b = reinterpret_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n * sizeof(T); ++i) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}

// xoshiro-like deterministic generator, independent of libstdc++ distributions.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed ? seed : 0x1234567ULL) { for (int i = 0; i < 4; ++i) next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return lo + static_cast<long>(below(static_cast<uint64_t>(hi - lo + 1))); }
    double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    double gauss() {
        double u = unit(), v = unit();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    bool coin(double p = 0.5) { return unit() < p; }
    template <class C> auto pick(const C& c) -> typename C::value_type { return c[below(c.size())]; }
};

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}

template <class T> inline std::string num(T v) {
    std::ostringstream o; o.precision(17); o << v; return o.str();
}
template <class C> inline std::string seq(const C& c, size_t max = 12) {
    std::ostringstream o; o.precision(17); o << "["; size_t i = 0;
    for (const auto& v : c) { if (i) o << ","; if (i == max) { o << "...(" << std::distance(c.begin(), c.end()) << ")"; break; } o << v; ++i; }
    o << "]"; return o.str();
}

struct Config {
    uint64_t seed = 1; bool thorough = false; std::string site, out, prog; long from = 0, only = -1; bool list = false;
    std::string scratch;
};
inline Config& cfg() { static Config c; return c; }

struct Violation { std::string kind, desc, msg; long idx; };

class Site {
public:
    Site(std::string n, std::string property) : name(std::move(n)), prop(std::move(property)) {
        rng = Rng(mix(hash_str(name), cfg().seed * 0x2545F4914F6CDD1DULL));
    }
    Rng rng;
    std::string name, prop;
    // scale factor for workload sizes
#ifdef VM_BRIEF    // one of many build configurations
    long reps(long quick, long) const { return cfg().thorough ? quick : (quick + 3) / 4; }
#else
    long reps(long quick, long thorough) const { return cfg().thorough ? thorough : quick; }
#endif
    bool thorough() const { return cfg().thorough; }

    // Runs one case. `nontrivial` by the harness's rule; `h` identifies the case input for counting distinct cases.
    template <class F> void run(const std::string& desc, uint64_t h, bool nontrivial, F&& body) {
        long idx = next_idx++;
        if (idx < cfg().from || (cfg().only >= 0 && idx != cfg().only)) return;
        cur_idx = idx; cur_desc = desc;
        announce(idx, desc);
        ++evals;
        if (nontrivial) distinct.insert(mix(h, hash_str(desc)));
        if (samples.size() < 3 || (samples.size() < 6 && (evals & (evals - 1)) == 0)) samples.push_back(desc);
        body();
        announce_done(idx);
    }
    // ---- oracles
    void fail(const std::string& kind, const std::string& msg) {
        long c = ++kind_count[kind];
        ++nviol;
        if (c <= 40) viols.push_back({kind, cur_desc, msg, cur_idx});
    }
    bool expect(bool ok, const char* kind, const std::string& msg = "") { ++obs; if (!ok) fail(kind, msg); return ok; }
    // |a-r| <= tol, NaN-aware (NaN reference requires NaN, infinite reference requires equality)
    bool close(ld a, ld r, ld tol, const char* kind, const std::string& where = "") {
        ++obs;
        bool ok;
        if (std::isnan(r)) ok = std::isnan(a);
        else if (std::isinf(r)) ok = (a == r);
        else ok = std::isfinite(a) && std::fabs(a - r) <= tol;
        if (ok && tol > 0 && std::isfinite(r)) { ld q = std::fabs(a - r) / tol; if (q > max_ratio) { max_ratio = q; ratio_desc = std::string(kind) + " " + cur_desc; } }
        if (!ok) { std::ostringstream o; o.precision(20); o << where << " got " << a << " want " << r << " tol " << tol; fail(kind, o.str()); }
        return ok;
    }
    template <class A, class R> bool all_close(const A& a, const R& r, ld tol, const char* kind) {
        if (!expect(a.size() == r.size(), kind, "size mismatch")) return false;
        for (size_t i = 0; i < a.size(); ++i) if (!close(static_cast<ld>(a[i]), static_cast<ld>(r[i]), tol, kind, "index " + std::to_string(i))) return false;
        return true;
    }
    template <class A, class R> bool all_equal(const A& a, const R& r, const char* kind) {
        if (!expect(a.size() == r.size(), kind, "size " + std::to_string(a.size()) + " want " + std::to_string(r.size()))) return false;
        for (size_t i = 0; i < a.size(); ++i) { ++obs; if (!(a[i] == r[i])) { std::ostringstream o; o.precision(17); o << "index " << i << " got " << a[i] << " want " << r[i]; fail(kind, o.str()); return false; } }
        return true;
    }
    // a note of a state/dimension value that was seen, reported as a distinct count
    void cover(const std::string& dim, const std::string& v) { dims[dim].insert(v); }
    void cover(const std::string& dim, long v) { dims[dim].insert(std::to_string(v)); }
    void count(const std::string& what, long n = 1) { counters[what] += n; }

    void report(std::ostream& o) {
        o << "{\"site\":\"" << jesc(name) << "\",\"done\":true,\"evaluations\":" << evals << ",\"distinct\":" << distinct.size()
          << ",\"observations\":" << obs << ",\"max_err_over_tol\":" << static_cast<double>(max_ratio) << ",\"max_err_case\":\"" << jesc(ratio_desc.substr(0, 200)) << "\",\"cases\":" << next_idx << ",\"violations\":[";
        bool f = true;
        for (auto& v : viols) { if (!f) o << ","; f = false; o << "{\"kind\":\"" << jesc(v.kind) << "\",\"idx\":" << v.idx << ",\"desc\":\"" << jesc(v.desc) << "\",\"msg\":\"" << jesc(v.msg) << "\"}"; }
        o << "],\"samples\":["; f = true;
        for (auto& s : samples) { if (!f) o << ","; f = false; o << "\"" << jesc(s.substr(0, 600)) << "\""; }
        o << "],\"dims\":{"; f = true;
        for (auto& d : dims) { if (!f) o << ","; f = false; o << "\"" << jesc(d.first) << "\":" << d.second.size(); }
        o << "},\"counters\":{"; f = true;
        for (auto& d : counters) { if (!f) o << ","; f = false; o << "\"" << jesc(d.first) << "\":" << d.second; }
        o << "}}\n";
    }
    long evals = 0, obs = 0, nviol = 0, next_idx = 0, cur_idx = -1;
    ld max_ratio = 0;
    std::string cur_desc, ratio_desc;

private:
    void announce(long idx, const std::string& d) {
        char* p = map(); if (!p) return;
        long st[2] = {idx, 1};
        std::memcpy(p, st, sizeof st);
        size_t n = std::min<size_t>(d.size(), 4000);
        std::memcpy(p + 16, d.data(), n); p[16 + n] = 0;
    }
    void announce_done(long idx) { char* p = map(); if (!p) return; long st[2] = {idx, 0}; std::memcpy(p, st, sizeof st); }
    static char* map() {
        static char* p = [] () -> char* {
            if (cfg().prog.empty()) return nullptr;
            int fd = ::open(cfg().prog.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd < 0 || ::ftruncate(fd, 4096) != 0) { std::perror("progress"); std::_Exit(3); }
            void* m = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            ::close(fd);
            if (m == MAP_FAILED) { std::perror("mmap"); std::_Exit(3); }
            return static_cast<char*>(m);
        }();
        return p;
    }
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, long> kind_count, counters;
    std::map<std::string, std::set<std::string>> dims;
    std::vector<Violation> viols;
    std::vector<std::string> samples;
};

using SiteFn = std::function<void(Site&)>;
struct Entry { std::string prop, name; SiteFn fn; };
inline std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }
struct Reg { Reg(const char* prop, std::string name, SiteFn f) { registry().push_back({prop, std::move(name), std::move(f)}); } };
#define VM_CAT2(a, b) a##b
#define VM_CAT(a, b) VM_CAT2(a, b)
// SITE(prop, "name") { ... uses S ... }
#define SITE(prop, nm)                                                                   \
    static void VM_CAT(vm_site_, __LINE__)(vm::Site & S);                                \
    static vm::Reg VM_CAT(vm_reg_, __LINE__)(prop, nm, VM_CAT(vm_site_, __LINE__));      \
    static void VM_CAT(vm_site_, __LINE__)(vm::Site & S)

inline int main_(int argc, char** argv) {
    auto& c = cfg(); std::string prop;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { if (i + 1 >= argc) { std::cerr << "missing value\n"; std::exit(3); } return std::string(argv[++i]); };
        if (a == "--seed") c.seed = std::stoull(val());
        else if (a == "--tier") c.thorough = val() == "thorough";
        else if (a == "--site") c.site = val();
        else if (a == "--prop") prop = val();
        else if (a == "--out") c.out = val();
        else if (a == "--prog") c.prog = val();
        else if (a == "--from") c.from = std::stol(val());
        else if (a == "--only") c.only = std::stol(val());
        else if (a == "--scratch") c.scratch = val();
        else if (a == "--list") c.list = true;
        else { std::cerr << "bad argument " << a << "\n"; return 3; }
    }
    if (c.list) { for (auto& e : registry()) if (prop.empty() || e.prop == prop) std::cout << e.name << "\n"; return 0; }
    for (auto& e : registry()) {
        if (e.name != c.site || (!prop.empty() && e.prop != prop)) continue;
        Site s(e.name, e.prop);
        e.fn(s);
        std::ostringstream o; s.report(o);
        if (c.out.empty()) std::cout << o.str();
        else { FILE* f = std::fopen(c.out.c_str(), "w"); if (!f) { std::perror("out"); return 3; } std::fwrite(o.str().data(), 1, o.str().size(), f); std::fclose(f); }
        return 0;
    }
    std::cerr << "no such site " << c.site << "\n";
    return 3;
}

// ---- workload generation -------------------------------------------------------------------

// Exact-size heap buffer: any access outside it is seen by AddressSanitizer.
template <class T> struct Buf {
    std::unique_ptr<T[]> p; size_t n;
    explicit Buf(size_t n_, T v = T()) : p(new T[n_]), n(n_) { std::fill(p.get(), p.get() + n, v); }
    template <class V> static Buf from(const V& v) { Buf b(v.size()); std::copy(v.begin(), v.end(), b.p.get()); return b; }
    T* begin() { return p.get(); } T* end() { return p.get() + n; }
    const T* begin() const { return p.get(); } const T* end() const { return p.get() + n; }
    const T* cbegin() const { return p.get(); } const T* cend() const { return p.get() + n; }
    T& operator[](size_t i) { return p[i]; } const T& operator[](size_t i) const { return p[i]; }
    size_t size() const { return n; }
    std::vector<T> vec() const { return std::vector<T>(begin(), end()); }
};

// Buffer with wide guard zones, for calls that end in uninstrumented code (FFTW, libsndfile, ...):
// stray writes are seen as changed guards, stray reads pull in NaNs.
template <class T> struct GBuf {
    enum { G = 96 };
    std::vector<T> v; size_t n, off;
    static T guard() { return gv(static_cast<T*>(nullptr)); }
    template <class U> static U gv(U*) { return std::numeric_limits<U>::quiet_NaN(); }
    template <class U> static std::complex<U> gv(std::complex<U>*) { return {std::numeric_limits<U>::quiet_NaN(), std::numeric_limits<U>::quiet_NaN()}; }
    explicit GBuf(size_t n_, T fill = guard(), size_t shift = 0) : v(n_ + 2 * G + shift, guard()), n(n_), off(G + shift) { std::fill(v.begin() + off, v.begin() + off + n, fill); }
    explicit GBuf(const std::vector<T>& s, size_t shift = 0) : v(s.size() + 2 * G + shift, guard()), n(s.size()), off(G + shift) { std::copy(s.begin(), s.end(), v.begin() + off); }
    T* begin() { return v.data() + off; } T* end() { return begin() + n; }
    T& operator[](size_t i) { return v[off + i]; } const T& operator[](size_t i) const { return v[off + i]; }
    size_t size() const { return n; }
    std::vector<T> vec() const { return std::vector<T>(v.begin() + off, v.begin() + off + n); }
    bool intact() const {
        T g = guard();
        for (size_t i = 0; i < v.size(); ++i) if ((i < off || i >= off + n) && std::memcmp(&v[i], &g, sizeof(T)) != 0) return false;
        return true;
    }
};
template <class T> bool same_bits(const std::vector<T>& a, const std::vector<T>& b) {
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0);
}

enum Shape { GAUSS, UNIFORM, SINE, IMPULSE, CONST, ZERO, RAMP, ALT, SPARSE, WIDE, TIES, TINY, BIG, NEG, NSHAPES };
inline const char* shape_name(int s) {
    static const char* n[] = {"gauss", "uniform", "sine", "impulse", "const", "zero", "ramp", "alt", "sparse", "wide", "ties", "tiny", "big", "neg"};
    return n[s];
}
template <class T> std::vector<T> signal(Rng& r, size_t n, int shape) {
    std::vector<T> v(n);
    double f = r.uniform(0.001, 0.5), ph = r.uniform(0, 6.28), amp = std::pow(10.0, r.uniform(-2, 2)), c = r.uniform(-3, 3);
    size_t imp = n ? r.below(n) : 0;
    for (size_t i = 0; i < n; ++i) {
        double x = 0;
        switch (shape) {
            case GAUSS: x = r.gauss(); break;
            case UNIFORM: x = r.uniform(-1, 1) * amp; break;
            case SINE: x = amp * std::sin(6.283185307179586 * f * static_cast<double>(i) + ph) + 0.1 * r.gauss(); break;
            case IMPULSE: x = i == imp ? amp : 0; break;
            case CONST: x = c; break;
            case ZERO: x = 0; break;
            case RAMP: x = c + 0.25 * static_cast<double>(i); break;
            case ALT: x = (i & 1) ? -amp : amp; break;
            case SPARSE: x = r.coin(0.1) ? r.gauss() * amp : 0; break;
            case WIDE: x = (r.coin() ? 1 : -1) * std::pow(10.0, r.uniform(-4, 4)); break;
            case TIES: x = static_cast<double>(r.range(-3, 3)); break;
            case TINY: x = r.gauss() * 1e-12; break;
            case BIG: x = r.gauss() * 1e8; break;
            case NEG: x = -std::fabs(r.gauss()) - 0.5; break;
        }
        v[i] = static_cast<T>(x);
    }
    return v;
}
// sizes: everything small, then primes / powers of two / neighbours, then random
inline std::vector<size_t> sizes(Rng& r, size_t dense, std::initializer_list<size_t> extra, size_t nrand, size_t maxrand, size_t lo = 1) {
    std::vector<size_t> s;
    for (size_t i = lo; i <= dense; ++i) s.push_back(i);
    for (size_t e : extra) if (e >= lo) s.push_back(e);
    for (size_t i = 0; i < nrand; ++i) s.push_back(static_cast<size_t>(r.range(static_cast<long>(std::max<size_t>(lo, 1)), static_cast<long>(maxrand))));
    return s;
}
template <class T> ld maxabs(const std::vector<T>& v) { ld m = 0; for (auto& x : v) m = std::max(m, std::fabs(static_cast<ld>(x))); return m; }
template <class T> ld l2(const std::vector<T>& v) { ld m = 0; for (auto& x : v) m += static_cast<ld>(x) * static_cast<ld>(x); return std::sqrt(m); }
template <class T> ld l1(const std::vector<T>& v) { ld m = 0; for (auto& x : v) m += std::fabs(static_cast<ld>(x)); return m; }
template <class T> constexpr ld eps() { return static_cast<ld>(std::numeric_limits<T>::epsilon()); }
template <class T> const char* tname() { return sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "longdouble"; }
static const ld PI = 3.14159265358979323846264338327950288L;
} // namespace vm

#define VM_MAIN int main(int argc, char** argv) { return vm::main_(argc, argv); }
