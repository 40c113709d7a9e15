// C31: the headers as the units a program is made of.
//
// "alone" is a shared object made of one translation unit that includes one header and nothing else; "program" is the same
// unit linked with all the others into one executable; "order k" is a unit that includes every header, in the k-th order.
// Whatever way a program gets at a header, its functions give the same numbers.
#include "vm.hpp"
#include <dlfcn.h>
#include <sndfile.h>
#include <sys/stat.h>
using namespace vm;
using Fn = void (*)(const double*, const double*, const char*, void (*)(double));
struct Row { const char* header; const char* so; Fn program; std::vector<Fn> orders; };
#include "headers_gen.hpp"      // ROWS, N_ORDERS, STATE: generated next to the executable

static std::vector<double>* sink;
static void put(double v) { sink->push_back(v); }

static std::vector<double> call(Fn f, const std::vector<double>& x, const std::vector<double>& s, const std::string& dir) {
    std::vector<double> out;
    sink = &out;
    Buf<double> bx = Buf<double>::from(x), bs = Buf<double>::from(s);
    f(bx.begin(), bs.begin(), dir.c_str(), put);
    return out;
}

static std::string here() {
    char b[4096];
    ssize_t n = ::readlink("/proc/self/exe", b, sizeof b - 1);
    if (n <= 0) { std::perror("self"); std::exit(3); }
    std::string p(b, static_cast<size_t>(n));
    return p.substr(0, p.rfind('/') + 1);
}

static void compare(Site& S, const std::vector<double>& got, const std::vector<double>& want, const char* kind) {
    if (!S.expect(got.size() == want.size(), kind, "number of results")) return;
    for (size_t i = 0; i < got.size(); ++i)
        if (!S.close(got[i], want[i], 1e-12L * std::max<ld>(1, std::fabs(static_cast<ld>(want[i]))), kind, "result " + std::to_string(i))) return;
}

static void headers(Site& S, const std::string& group) {
    const std::string dir = cfg().scratch;
    for (const auto& r : ROWS) {
        std::string h = r.header, g = h.find('/') == std::string::npos ? "umbrella" : h.substr(0, h.find('/'));
        if (g != group) continue;
        for (long k = 0; k < S.reps(4, 200); ++k) {
            std::vector<double> x(16), s(16);
            for (size_t i = 0; i < 16; ++i) { x[i] = S.rng.uniform(0.1, 3.0); s[i] = S.rng.gauss(); }
            S.run(h + " input " + std::to_string(k), hash_bytes(x.data(), 16), true, [&] {
                SF_INFO info{};
                info.samplerate = 8000; info.channels = 2; info.format = SF_FORMAT_WAV | SF_FORMAT_FLOAT;
                SNDFILE* f = ::sf_open((dir + "/in.wav").c_str(), SFM_WRITE, &info);
                if (!f) { std::fprintf(stderr, "cannot write in.wav\n"); std::exit(3); }
                ::sf_write_double(f, s.data(), 16);
                ::sf_close(f);
                // never unloaded: the functions may leave state behind
                void* lib = ::dlopen((here() + r.so).c_str(), RTLD_NOW | RTLD_LOCAL);
                if (!S.expect(lib != nullptr, "loads alone", lib ? "" : ::dlerror())) return;
                Fn alone = reinterpret_cast<Fn>(::dlsym(lib, "edsp_header_alone"));
                if (!alone) { std::fprintf(stderr, "no entry in %s\n", r.so); std::exit(3); }
                auto a = call(alone, x, s, dir), p = call(r.program, x, s, dir);
                S.expect(std::strlen(r.so) > 0, "alone");
                compare(S, p, a, "several units in one program");
                for (size_t o = 0; o < r.orders.size(); ++o) { compare(S, call(r.orders[o], x, s, dir), a, "all headers together"); S.cover("include orders", static_cast<long>(o)); }
                S.cover("headers", h);
                S.count("results recorded", static_cast<long>(a.size()));
            });
        }
    }
}
#define GROUP(g) SITE("C31", "headers/" g) { headers(S, g); }
SITE("C31", "headers/umbrella") { headers(S, "umbrella"); }
SITE("C31", "headers/algorithm") { headers(S, "algorithm"); }
SITE("C31", "headers/auditory") { headers(S, "auditory"); }
SITE("C31", "headers/converter") { headers(S, "converter"); }
SITE("C31", "headers/core") { headers(S, "core"); }
SITE("C31", "headers/experimental") { headers(S, "experimental"); }
SITE("C31", "headers/feature") { headers(S, "feature"); }
SITE("C31", "headers/filter") { headers(S, "filter"); }
SITE("C31", "headers/io") { headers(S, "io"); }
SITE("C31", "headers/math") { headers(S, "math"); }
SITE("C31", "headers/meta") { headers(S, "meta"); }
SITE("C31", "headers/oscillators") { headers(S, "oscillators"); }
SITE("C31", "headers/random") { headers(S, "random"); }
SITE("C31", "headers/spectral") { headers(S, "spectral"); }
SITE("C31", "headers/statistics") { headers(S, "statistics"); }
SITE("C31", "headers/string") { headers(S, "string"); }
SITE("C31", "headers/types") { headers(S, "types"); }
SITE("C31", "headers/windowing") { headers(S, "windowing"); }

// one process-wide setting, whichever unit of the program sets or reads it
SITE("C31", "state/logger") {
    for (long k = 0; k < S.reps(60, 2000); ++k) {
        size_t a = S.rng.below(N_STATE), b = S.rng.below(N_STATE);
        int level = static_cast<int>(S.rng.below(5));
        std::string name = "n" + std::to_string(S.rng.below(100000)), path = "p" + std::to_string(S.rng.below(1000));
        S.run("unit " + std::to_string(a) + " sets level " + std::to_string(level) + " name " + name + ", unit " + std::to_string(b) + " reads", S.rng.next(), a != b, [&] {
            STATE[a].set(level, name.c_str(), path.c_str());
            int l = -1; std::string n, p;
            static std::string *sn, *sp; sn = &n; sp = &p;
            STATE[b].get(&l, [](const char* v) { *sn = v; }, [](const char* v) { *sp = v; });
            S.expect(l == level, "default level seen by another unit", std::to_string(l));
            S.expect(n == name, "default name seen by another unit", n);
            S.expect(p == path, "default path seen by another unit", p);
            S.cover("unit pairs", std::to_string(a) + "-" + std::to_string(b));
        });
    }
}
SITE("C31", "state/environment") {
    for (long k = 0; k < S.reps(60, 2000); ++k) {
        size_t a = S.rng.below(N_STATE), b = S.rng.below(N_STATE);
        std::string name = "EDSP_H" + std::to_string(S.rng.below(6)), value = "v" + std::to_string(S.rng.below(100000));
        S.run("unit " + std::to_string(a) + " sets " + name + "=" + value + ", unit " + std::to_string(b) + " reads", S.rng.next(), a != b, [&] {
            STATE[a].set_env(name.c_str(), value.c_str());
            static std::string got; got.clear();
            STATE[b].get_env(name.c_str(), [](const char* v, size_t n) { got.assign(v, n); });
            S.expect(got == value, "variable seen by another unit", got);
        });
    }
}
int main(int argc, char** argv) { return vm::main_(argc, argv); }
