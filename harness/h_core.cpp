// Environment (C25), library information and logger (C26).
#include "vm.hpp"
#include <dlfcn.h>
#include <atomic>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <fcntl.h>
#include <edsp/core/internal/config.hpp>
// distinguishable version numbers: the accessors must not confuse them
#undef E_VERSION_MAJOR
#undef E_VERSION_MINOR
#undef E_VERSION_PATCH
#undef E_VERSION_STR
#define E_VERSION_MAJOR 3
#define E_VERSION_MINOR 14
#define E_VERSION_PATCH 159
#define E_VERSION_STR "3.14.159"
#include <edsp/core/logger.hpp>
#include <edsp/core/library_info.hpp>
#include <edsp/core/system.hpp>
using namespace vm;
extern char** environ;

// ---- the C library's environment is not thread safe: its uses are made visible to the race detector
static int environment_shadow = 0; static std::atomic<long> env_calls{0};
template <class F> static F next_sym(const char* n) { return reinterpret_cast<F>(::dlsym(RTLD_NEXT, n)); }
using getenv_t = char* (*)(const char*); using setenv_t = int (*)(const char*, const char*, int); using unsetenv_t = int (*)(const char*);
static getenv_t real_getenv() { static getenv_t f = next_sym<getenv_t>("getenv"); return f; }
static setenv_t real_setenv() { static setenv_t f = next_sym<setenv_t>("setenv"); return f; }
static bool watch = false;
extern "C" char* getenv(const char* n) noexcept { if (!watch) return real_getenv()(n); volatile int r = environment_shadow; (void)r; env_calls.fetch_add(1, std::memory_order_relaxed); return real_getenv()(n); }
extern "C" int setenv(const char* n, const char* v, int o) noexcept { if (watch) { ++environment_shadow; env_calls.fetch_add(1, std::memory_order_relaxed); } return real_setenv()(n, v, o); }

using env = edsp::system_env; using sv = edsp::string_view;
// a view into an exact-size heap block whose next byte does not belong to it, or into a longer text
struct View { Buf<char> b; sv v; static std::vector<char> cat(std::string s, const std::string& t) { s += t; return std::vector<char>(s.begin(), s.end()); } View(const std::string& s, const std::string& tail) : b(Buf<char>::from(cat(s, tail))), v(s.empty() && tail.empty() ? sv() : sv(b.begin(), s.size())) {} };
template <class V> static std::string str_of(const V& v) { return std::string(v.data(), v.size()); }
static std::string ename(int e) { return std::to_string(e); }

SITE("C25", "histories") {
    for (long k = 0; k < S.reps(1500, 20000); ++k) {
        uint64_t rs = S.rng.next();
        S.run("environment history " + std::to_string(k), rs, true, [&] {
            Rng r(rs); std::map<std::string, std::string> model; std::vector<std::string> names; std::string pre = "EDSPV" + std::to_string(r.below(1000000)) + "_";
            for (int i = 0; i < 4; ++i) names.push_back(pre + std::string(1, static_cast<char>('A' + i))); names.push_back(pre + "A" + "LONGER"); names.push_back(pre + "Ab"); names.push_back(pre.substr(0, 6)); for (auto& n : names) ::unsetenv(n.c_str());
            std::string trace; long steps = 5 + static_cast<long>(r.below(25));
            for (long s = 0; s < steps; ++s) {
                int op = static_cast<int>(r.below(10)); std::string n = r.pick(names), tail = r.coin() ? "" : r.pick(std::vector<std::string>{"LONGER", "b", "=x", std::string(1, '\0') + "q"}); S.cover("operation", op);
                switch (op) {
                    case 0: case 1: case 2: {
                        std::string v; size_t len = r.coin(0.15) ? 0 : r.coin(0.1) ? r.below(5000) : r.below(20); for (size_t i = 0; i < len; ++i) v += static_cast<char>(1 + r.below(255)); bool over = r.coin(0.7); View a(n, tail), b(v, r.coin() ? "" : "xyz"); trace += " set(" + n.substr(pre.size() < n.size() ? pre.size() : 0) + "," + std::to_string(len) + (over ? ")" : ",keep)");
                        env::error e = r.coin(0.3) && over ? env::set_env(a.v, b.v) : env::set_env(a.v, b.v, over); S.expect(e == env::error::no_error, "set-error", trace + " " + ename(static_cast<int>(e))); if (over || !model.count(n)) model[n] = v; break;
                    }
                    case 3: { trace += " set()"; View b("v", ""); View a("", r.coin() ? "" : "ABC"); auto e = env::set_env(a.v, b.v); S.expect(e == env::error::empty, "set-empty-name", ename(static_cast<int>(e))); break; }
                    case 4: { trace += " set(=)"; std::string bad = r.coin() ? n + "=" : n + "=Q"; View a(bad, tail), b("v", ""); auto e = env::set_env(a.v, b.v); S.expect(e == env::error::invalid_argument, "set-bad-name", ename(static_cast<int>(e))); break; }
                    case 5: { trace += " get()"; View a("", r.coin() ? "" : n); auto g = env::get_env(a.v); S.expect(!g && g.error() == env::error::empty, "get-empty-name"); S.expect(!env::exist(a.v), "exist-empty-name"); break; }
                    case 6: { trace += " unset"; ::unsetenv(n.c_str()); model.erase(n); break; }
                    case 7: { trace += " putexternal"; ::setenv(n.c_str(), "external", 1); model[n] = "external"; break; }
                    default: break;
                }
                for (auto& m : names) {
                    View a(m, tail); auto g = env::get_env(a.v); auto it = model.find(m); bool there = it != model.end(); const char* c = ::getenv(m.c_str());
                    S.expect(env::exist(a.v) == there, "exist", trace + " : " + m + " want " + std::to_string(there));
                    if (S.expect(bool(g) == there, "get", trace + " : " + m)) { if (there) S.expect(str_of(g.value()) == it->second, "value", trace + " : " + m); else S.expect(g.error() == env::error::not_found, "get-error", ename(static_cast<int>(g.error()))); }
                    S.expect((c != nullptr) == there && (!c || it->second == c), "process-environment", trace + " : " + m); S.count("variables compared");
                }
            }
            for (auto& n : names) ::unsetenv(n.c_str());
        });
    }
}
// several threads: one writer per variable, any number of readers; values never go back, tear or vanish
SITE("C25", "concurrent use") {
    for (long k = 0; k < S.reps(12, 200); ++k) {
        int nw = 1 + static_cast<int>(S.rng.below(4)), nr = 1 + static_cast<int>(S.rng.below(4)); long n = 60 + static_cast<long>(S.rng.below(200)); uint64_t rs = S.rng.next();
        S.run("concurrent environment " + std::to_string(nw) + " writers " + std::to_string(nr) + " readers " + std::to_string(n) + " updates", rs, true, [&] {
            watch = true; std::vector<std::thread> t; std::atomic<bool> go{false}; std::vector<std::atomic<long>> begun(static_cast<size_t>(nw)), done(static_cast<size_t>(nw)); std::atomic<long> bad{0}, reads{0}, changed{0}; std::atomic<int> left{nw};
            std::string pre = "EDSPC" + std::to_string(rs % 1000003) + "_";
            for (int w = 0; w < nw; ++w) { begun[static_cast<size_t>(w)] = -1; done[static_cast<size_t>(w)] = -1; }
            for (int w = 0; w < nw; ++w) t.emplace_back([&, w] { while (!go) std::this_thread::yield(); std::string nm = pre + std::to_string(w); Rng r(rs + static_cast<uint64_t>(w)); for (long i = 0; i < n; ++i) { begun[static_cast<size_t>(w)] = i; std::string v = std::to_string(i) + "_" + std::string(r.below(200), 'x') + std::to_string(i); if (env::set_env(nm, v) != env::error::no_error) ++bad; done[static_cast<size_t>(w)] = i; if (r.coin(0.1)) env::set_env(pre + "g" + std::to_string(w) + "_" + std::to_string(i), "grow"); auto g = env::get_env(nm); if (!g || str_of(g.value()) != v) ++bad; } --left; });
            for (int q = 0; q < nr; ++q) t.emplace_back([&, q] { Rng r(rs * 3 + static_cast<uint64_t>(q)); std::vector<long> last(static_cast<size_t>(nw), -1); while (!go) std::this_thread::yield(); do { size_t w = r.below(static_cast<uint64_t>(nw)); long lo = done[w]; auto g = env::get_env(pre + std::to_string(w)); long hi = begun[w]; ++reads; if (!g) { if (lo >= 0) ++bad; continue; } std::string v = str_of(g.value()); long i = std::atol(v.c_str()); std::string is = std::to_string(i); if (v.size() < 2 * is.size() || v.compare(v.size() - is.size(), is.size(), is) || i < lo || i > hi || i < last[w]) ++bad; if (i != last[w]) ++changed; last[w] = i; if (r.coin(0.2) && lo >= 0 && !env::exist(pre + std::to_string(w))) ++bad; } while (left > 0); });
            go = true; for (auto& x : t) x.join(); watch = false;
            S.expect(bad == 0, "not-linearizable", std::to_string(bad.load())); for (int w = 0; w < nw; ++w) { auto g = env::get_env(pre + std::to_string(w)); S.expect(g && std::atol(str_of(g.value()).c_str()) == n - 1, "final-value"); }
            S.count("concurrent reads", reads); S.count("distinct values seen by readers", changed); S.count("environment calls watched", env_calls); env_calls = 0; S.cover("writers/readers", std::to_string(nw) + "/" + std::to_string(nr));
            for (char** e = environ; *e;) { std::string s = *e; if (s.compare(0, pre.size(), pre) == 0) ::unsetenv(s.substr(0, s.find('=')).c_str()); else ++e; }
        });
    }
}

// ---------------------------------------------------------------- C26
SITE("C26", "library information") {
    S.run(std::string("library information ") + __VERSION__, 1, true, [&] {
        using L = edsp::library_info;
        S.expect(L::major_version() == 3, "major", std::to_string(L::major_version())); S.expect(L::minor_version() == 14, "minor", std::to_string(L::minor_version())); S.expect(L::patch_version() == 159, "patch", std::to_string(L::patch_version())); S.expect(std::string(L::version()) == "3.14.159", "version", L::version());
        S.expect(std::string(L::build_date()) == __DATE__, "build-date", L::build_date()); S.expect(std::string(L::build_time()) == __TIME__ || (std::string(L::build_time()).size() == 8 && L::build_time()[2] == ':'), "build-time", L::build_time());
        edsp::fft_lib f = edsp::fft_lib::unknown; edsp::codec_lib c = edsp::codec_lib::unknown; edsp::resample_lib r = edsp::resample_lib::unknown; std::string fn = "not found", cn = fn, rn = fn;
#if defined(USE_LIBFFTW)
        f = edsp::fft_lib::fftw; fn = "FFTW";
#elif defined(USE_LIBPFFFT)
        f = edsp::fft_lib::pffft; fn = "PFFFT";
#elif defined(USE_LIBACCELERATE)
        f = edsp::fft_lib::accelerate; fn = "Apple Accelerate Framework";
#endif
#if defined(USE_LIBAUDIOFILE)
        c = edsp::codec_lib::audiofile; cn = "Audio File Library";
#elif defined(USE_LIBSNDFILE)
        c = edsp::codec_lib::sndfile; cn = "Lib SndFile";
#endif
#if defined(USE_LIBSAMPLERATE)
        r = edsp::resample_lib::sample_rate; rn = "libsample_rate";
#elif defined(USE_LIBRESAMPLE)
        r = edsp::resample_lib::resample; rn = "libresample";
#endif
        S.expect(L::fft_library() == f, "fft-library", std::to_string(static_cast<int>(L::fft_library())) + " want " + fn); S.expect(L::codec_library() == c, "codec-library", cn); S.expect(L::resample_library() == r, "resample-library", rn);
        S.cover("configuration", fn + "/" + cn + "/" + rn);
        auto text = [&](std::function<void(edsp::logger&)> go) { edsp::logger l(edsp::logger::off); go(l); return l.str(); };
        S.expect(text([](edsp::logger& l) { l << L::fft_library(); }).find(fn) != std::string::npos, "fft-name"); S.expect(text([](edsp::logger& l) { l << L::codec_library(); }).find(cn) != std::string::npos, "codec-name"); S.expect(text([](edsp::logger& l) { l << L::resample_library(); }).find(rn) != std::string::npos, "resample-name");
        struct { edsp::fft_lib v; const char* n; } all[] = {{edsp::fft_lib::fftw, "FFTW"}, {edsp::fft_lib::pffft, "PFFFT"}, {edsp::fft_lib::accelerate, "Apple Accelerate Framework"}, {edsp::fft_lib::unknown, "not found"}};
        for (auto& a : all) S.expect(text([&](edsp::logger& l) { l << a.v; }).find(a.n) != std::string::npos, "fft-name", a.n);
        S.expect(text([](edsp::logger& l) { l << edsp::codec_lib::audiofile; }) == "Audio File Library " && text([](edsp::logger& l) { l << edsp::codec_lib::sndfile; }) == "Lib SndFile " && text([](edsp::logger& l) { l << edsp::resample_lib::sample_rate; }) == "libsample_rate " && text([](edsp::logger& l) { l << edsp::resample_lib::resample; }) == "libresample ", "library-names");
    });
    S.run("system information", 2, true, [&] {
        using I = edsp::system_info;
#if defined(__clang__)
        S.expect(I::compiler() == edsp::compilers::clang, "compiler");
#else
        S.expect(I::compiler() == edsp::compilers::gcc, "compiler");
#endif
        S.cover("compiler", static_cast<int>(I::compiler()));
        S.expect(I::os() == edsp::systems::linux, "os");
#if defined(__x86_64__)
        S.expect(I::processor() == edsp::processors::x64, "processor");
#endif
        auto text = [&](std::function<void(edsp::logger&)> go) { edsp::logger l(edsp::logger::off); go(l); return l.str(); };
        using s = edsp::systems; struct { s v; const char* n; } os[] = {{s::windows, "Microsoft Windows OS "}, {s::linux, "Linux distribution "}, {s::freeBSD, "Free BSD distribution "}, {s::macOS, "Mac OS X system "}, {s::iOS, "iOS system "}, {s::android, "Android system "}};
        for (auto& o : os) S.expect(text([&](edsp::logger& l) { l << o.v; }) == o.n, "os-name", o.n);
        using p = edsp::processors; struct { p v; const char* n; } pr[] = {{p::x86, "x86 architecture "}, {p::x64, "x64 architecture "}, {p::arm, "arm architecture "}};
        for (auto& o : pr) S.expect(text([&](edsp::logger& l) { l << o.v; }) == o.n, "processor-name", o.n);
        using c = edsp::compilers; struct { c v; const char* n; } co[] = {{c::gcc, "gcc "}, {c::clang, "clang "}, {c::mvsc, "mvsc "}};
        for (auto& o : co) S.expect(text([&](edsp::logger& l) { l << o.v; }) == o.n, "compiler-name", o.n);
    });
}
// a logger's text: each item followed by one space, manipulators in place
static std::string stripped(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') { while (i < s.size() && s[i] != 'm') ++i; continue; } o += s[i]; } return o; }
template <class T> static std::string by_stream(T v) { std::ostringstream o; o << v; return o.str(); }
static void write_items(edsp::logger& l, Rng& r, std::string& want, int n) {
    for (int i = 0; i < n; ++i) switch (r.below(14)) {
        case 0: { auto v = static_cast<std::int16_t>(r.next()); l << v; want += by_stream(v) + " "; break; }
        case 1: { auto v = static_cast<std::uint16_t>(r.next()); l << v; want += by_stream(v) + " "; break; }
        case 2: { auto v = static_cast<std::int32_t>(r.next()); l << v; want += by_stream(v) + " "; break; }
        case 3: { auto v = static_cast<std::uint32_t>(r.next()); l << v; want += by_stream(v) + " "; break; }
        case 4: { auto v = static_cast<std::int64_t>(r.next()); l << v; want += by_stream(v) + " "; break; }
        case 5: { auto v = static_cast<std::uint64_t>(r.next()); l << v; want += by_stream(v) + " "; break; }
        case 6: { float v = static_cast<float>(r.gauss() * 1e3); l << v; want += by_stream(v) + " "; break; }
        case 7: { double v = r.coin(0.1) ? INFINITY : r.gauss() * std::pow(10, r.uniform(-8, 8)); l << v; want += by_stream(v) + " "; break; }
        case 8: { std::string s; size_t k = r.below(20); for (size_t j = 0; j < k; ++j) s += static_cast<char>(32 + r.below(95)); l << s.c_str(); want += s + " "; break; }
        case 9: { std::string s; size_t k = r.below(20); for (size_t j = 0; j < k; ++j) s += static_cast<char>(r.coin(0.1) ? 0 : 32 + r.below(95)); l << s; want += s + " "; break; }
        case 10: { std::string s; size_t k = r.below(20); for (size_t j = 0; j < k; ++j) s += static_cast<char>(32 + r.below(95)); View v(s, r.coin() ? "" : "TAIL"); l << v.v; want += s + " "; break; }
        case 11: if (r.coin()) { l << edsp::tab; want += "\t"; } else { l << edsp::endl; want += "\n"; } break;
        case 12: l.space(); want += " "; break;
        default: { using M = edsp::logger& (*)(edsp::logger&); static const struct { M m; const char* code; } col[] = {{edsp::red, "31"}, {edsp::yellow, "33"}, {edsp::blue, "34"}, {edsp::cyan, "36"}, {edsp::white, "37"}, {edsp::magenta, "35"}, {edsp::green, "32"}, {edsp::grey, "30"}, {edsp::bold, "1"}, {edsp::endc, "00"}, {edsp::reset, "00"}}; auto& c = col[r.below(9 + (r.coin() ? 2 : 0))]; l << c.m; want += std::string("\033[") + c.code + "m"; break; }
    }
}
SITE("C26", "logger text and threshold") {
    using lg = edsp::logger; static const lg::levels lv[] = {lg::trace, lg::debug, lg::info, lg::warning, lg::error, lg::critical, lg::off};
    for (long k = 0; k < S.reps(4000, 60000); ++k) {
        uint64_t rs = S.rng.next(); int d = static_cast<int>(k % 7), m = static_cast<int>((k / 7) % 7);
        S.run("logger default=" + std::to_string(d) + " message=" + std::to_string(m) + " #" + std::to_string(k), rs, true, [&] {
            Rng r(rs); std::ostringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf()); lg::set_default_level(lv[d]); bool dl = lg::default_level() == lv[d]; std::string want, got, name = "n" + std::to_string(r.below(1000)), nm; bool lvl = true, unset = true;
            std::string dn = lg::default_name(), dp = lg::default_path(); lg::set_default_name(name); lg::set_default_path("/dev/null/none"); bool names = lg::default_name() == name && lg::default_path() == "/dev/null/none"; lg::set_default_path(dp);
            { int how = static_cast<int>(r.below(4)); View nv("named", "tail"); std::unique_ptr<lg> l(how == 0 ? new lg(lv[m]) : how == 1 ? new lg(nv.v, lv[m]) : how == 2 ? new lg(nv.v, sv("console"), lv[m]) : new lg()); if (how == 3) l->set_level(lv[m]); nm = l->name(); names = names && nm == (how == 1 || how == 2 ? "named" : name); lvl = l->level() == lv[m];
              write_items(*l, r, want, static_cast<int>(r.below(12))); got = l->str(); unset = cap.str().empty(); }
            std::cout.rdbuf(old); lg::set_default_level(lg::trace); lg::set_default_name(dn); bool printed = lv[m] != lg::off && m >= d;
            S.expect(dl && lvl && names, "logger-settings", nm); S.expect(got == want, "logger-text", "got '" + got.substr(0, 200) + "' want '" + want.substr(0, 200) + "'"); S.expect(unset, "printed-early");
            S.expect(printed ? stripped(cap.str()) == stripped(want) && cap.str().compare(0, want.size(), want) == 0 : cap.str().empty(), "logger-output", std::string(printed ? "expected" : "not expected") + " got '" + cap.str().substr(0, 200) + "'"); S.count(printed ? "messages printed" : "messages suppressed"); S.cover("default/message level", d * 10 + m);
        });
    }
}
SITE("C26", "concurrent loggers") {
    for (long k = 0; k < S.reps(10, 150); ++k) {
        uint64_t rs = S.rng.next(); int nt = 2 + static_cast<int>(S.rng.below(6));
        S.run("concurrent loggers threads=" + std::to_string(nt) + " #" + std::to_string(k), rs, true, [&] {
            std::string f = cfg().scratch + "/log.txt"; std::fflush(stdout); int keep = ::dup(1), fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); ::dup2(fd, 1); ::close(fd);
            std::vector<std::thread> t; std::atomic<bool> go{false}; const int per = 60; for (int w = 0; w < nt; ++w) t.emplace_back([&, w] { while (!go) std::this_thread::yield(); for (int i = 0; i < per; ++i) eInfo() << "<" << w << i << std::string(static_cast<size_t>((w * 7 + i) % 40), 'q') << ">" << edsp::endl; });
            go = true; for (auto& x : t) x.join(); std::cout.flush(); std::fflush(stdout); ::dup2(keep, 1); ::close(keep);
            std::string s; if (FILE* h = std::fopen(f.c_str(), "rb")) { char b[65536]; size_t n; while ((n = std::fread(b, 1, sizeof b, h)) > 0) s.append(b, n); std::fclose(h); }
            std::multiset<std::string> got, want; std::string cur; for (char c : stripped(s)) if (c == '\n') { got.insert(cur); cur.clear(); } else cur += c;
            for (int w = 0; w < nt; ++w) for (int i = 0; i < per; ++i) want.insert("< " + std::to_string(w) + " " + std::to_string(i) + " " + std::string(static_cast<size_t>((w * 7 + i) % 40), 'q') + " > ");
            S.expect(got == want, "messages-interleaved", std::to_string(got.size()) + " lines of " + std::to_string(want.size())); S.count("concurrent messages", static_cast<long>(want.size()));
        });
    }
}
VM_MAIN
