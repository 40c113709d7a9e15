// Audio files (C21 round trip, C22 lifecycle and faults), resampling (C23), metadata (C24).
#include "vm.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/io/encoder.hpp>
#include <edsp/io/decoder.hpp>
#include <edsp/io/resampler.hpp>
#include <edsp/io/metadata.hpp>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <samplerate.h>
#include <signal.h>
#include <sndfile.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
using namespace vm;

// ---- interposed calls: handle bookkeeping, short or interrupted system calls -----------------
static std::map<void*, int>& open_handles() { static std::map<void*, int> m; return m; }
static long bad_close = 0, opened = 0;
template <class F> static F next_sym(const char* n) { return reinterpret_cast<F>(::dlsym(RTLD_NEXT, n)); }
extern "C" SNDFILE* sf_open(const char* p, int m, SF_INFO* i) { static auto f = next_sym<SNDFILE* (*)(const char*, int, SF_INFO*)>("sf_open"); SNDFILE* s = f(p, m, i); if (s) { ++open_handles()[s]; ++opened; } return s; }
extern "C" int sf_close(SNDFILE* s) {
    static auto f = next_sym<int (*)(SNDFILE*)>("sf_close");
    auto it = open_handles().find(s); if (s && it == open_handles().end()) { ++bad_close; return 1; }
    if (s) open_handles().erase(it);
    return f(s);
}
static Rng fault_rng(7); static int fault_mode = 0; static long faults = 0;   // 1: short transfers, 2: EINTR, 3: both
static size_t faulted(size_t n, bool& intr) {
    intr = false; if (!fault_mode) return n;
    if ((fault_mode & 2) && fault_rng.coin(0.3)) { intr = true; ++faults; return 0; }
    if ((fault_mode & 1) && n > 1 && fault_rng.coin(0.5)) { ++faults; return 1 + fault_rng.below(n - 1); }
    return n;
}
extern "C" ssize_t write(int fd, const void* b, size_t n) { static auto f = next_sym<ssize_t (*)(int, const void*, size_t)>("write"); bool i; n = fd > 2 ? faulted(n, i) : (i = false, n); if (i) { errno = EINTR; return -1; } return f(fd, b, n); }
extern "C" ssize_t read(int fd, void* b, size_t n) { static auto f = next_sym<ssize_t (*)(int, void*, size_t)>("read"); bool i; n = fd > 2 ? faulted(n, i) : (i = false, n); if (i) { errno = EINTR; return -1; } return f(fd, b, n); }

static int open_fds() { int n = 0; if (DIR* d = ::opendir("/proc/self/fd")) { while (::readdir(d)) ++n; ::closedir(d); } return n; }
static std::string path(const std::string& n) { return cfg().scratch + "/" + n; }
static std::string slurp(const std::string& p) { std::string s; if (FILE* f = std::fopen(p.c_str(), "rb")) { char b[65536]; size_t k; while ((k = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, k); std::fclose(f); } return s; }
static void spit(const std::string& p, const std::string& s) { FILE* f = std::fopen(p.c_str(), "wb"); if (!f) std::abort(); std::fwrite(s.data(), 1, s.size(), f); std::fclose(f); }

// ---- an independent RIFF/WAVE reader and writer ------------------------------------------------
static uint32_t u32(const std::string& s, size_t o) { return o + 4 <= s.size() ? static_cast<uint32_t>(static_cast<unsigned char>(s[o]) | (static_cast<unsigned char>(s[o + 1]) << 8) | (static_cast<unsigned char>(s[o + 2]) << 16)) | (static_cast<uint32_t>(static_cast<unsigned char>(s[o + 3])) << 24) : 0; }
static uint32_t u16(const std::string& s, size_t o) { return u32(s + std::string(4, '\0'), o) & 0xffff; }
static std::string le(uint32_t v, int n) { std::string s; for (int i = 0; i < n; ++i) s += static_cast<char>((v >> (8 * i)) & 255); return s; }
struct Wav { bool ok = false; unsigned tag = 0, ch = 0, rate = 0, bits = 0; std::string data; };
static Wav parse_wav(const std::string& s) {
    Wav w; if (s.size() < 12 || s.compare(0, 4, "RIFF") || s.compare(8, 4, "WAVE")) return w;
    for (size_t o = 12; o + 8 <= s.size();) {
        std::string id = s.substr(o, 4); size_t n = u32(s, o + 4);
        if (id == "fmt ") { w.tag = u16(s, o + 8); w.ch = u16(s, o + 10); w.rate = u32(s, o + 12); w.bits = u16(s, o + 22); if (w.tag == 0xFFFE && n >= 26) w.tag = u16(s, o + 32); }
        else if (id == "data") { w.data = s.substr(o + 8, n); w.ok = w.data.size() == n && w.ch > 0; }
        o += 8 + n + (n & 1);
    }
    return w;
}
static std::string make_wav(unsigned tag, unsigned ch, unsigned rate, unsigned bits, const std::string& data) {
    std::string f = le(tag, 2) + le(ch, 2) + le(rate, 4) + le(rate * ch * bits / 8, 4) + le(ch * bits / 8, 2) + le(bits, 2), b = "WAVEfmt " + le(16, 4) + f;
    if (tag != 1) b += "fact" + le(4, 4) + le(static_cast<uint32_t>(data.size() / (ch * bits / 8)), 4);
    b += "data" + le(static_cast<uint32_t>(data.size()), 4) + data + std::string(data.size() & 1, '\0');
    return "RIFF" + le(static_cast<uint32_t>(b.size()), 4) + b;
}
template <class T> std::string raw(const std::vector<T>& v) { return std::string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T)); }
template <class T> const char* sname() { return std::is_floating_point<T>::value ? (sizeof(T) == 4 ? "float" : "double") : sizeof(T) == 2 ? "int16" : "int32"; }
template <class T, bool F = std::is_floating_point<T>::value> struct Gen { static std::vector<T> make(Rng& r, size_t n) { auto v = signal<T>(r, n, static_cast<int>(r.below(NSHAPES))); if (n && r.coin(0.3)) for (int i = 0; i < 4; ++i) v[r.below(n)] = r.pick(std::vector<T>{0, static_cast<T>(-0.0), 1, -1, std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max() / 4, static_cast<T>(1.5), static_cast<T>(-1e-20)}); return v; } };
template <class T> struct Gen<T, false> { static std::vector<T> make(Rng& r, size_t n) { std::vector<T> v(n); int k = static_cast<int>(r.below(3)); for (auto& x : v) x = k == 0 ? static_cast<T>(r.next()) : k == 1 ? static_cast<T>(r.range(-100, 100)) : (r.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()); return v; } };

// reads `want` samples in random portions, of any size, and checks positions on the way
template <class T, class D> std::vector<T> read_all(Site& S, D& d, size_t want, size_t ch, Rng& r) {
    std::vector<T> out; long total = static_cast<long>(want); int guard = 0;
    while (static_cast<long>(out.size()) < total + 1 && guard++ < 100000) {
        size_t k = r.coin(0.2) ? r.below(5 * ch + 1) : r.coin(0.1) ? want + 7 : 1 + r.below(r.coin(0.2) ? want + 1 : want > 40000 ? 20000 : 4000); Buf<T> b(k, static_cast<T>(77));
        long before = static_cast<long>(out.size()), got = static_cast<long>(d.read(b.begin(), b.end())), expect = std::min<long>(static_cast<long>(k - k % ch), total - before);
        if (!S.expect(got == expect, "read-count", "asked " + std::to_string(k) + " at " + std::to_string(before) + " of " + std::to_string(total) + " got " + std::to_string(got) + " want " + std::to_string(expect))) break;
        for (size_t i = static_cast<size_t>(got); i < k; ++i) if (!S.expect(b[i] == static_cast<T>(77), "read-wrote-more")) break;
        out.insert(out.end(), b.begin(), b.begin() + got);
        S.expect(d.current() == static_cast<long>(out.size() / ch), "position", std::to_string(d.current()));
        if (before == total) break;
    }
    return out;
}
template <class T, std::size_t N> void decode_check(Site& S, const std::string& file, const std::vector<T>& x, size_t ch, unsigned rate, Rng& r) {
    edsp::io::decoder<T, N> d; if (!S.expect(d.open(file) && d.is_open(), "decoder-open")) return;
    long fr = static_cast<long>(x.size() / ch);
    S.expect(d.channels() == static_cast<long>(ch) && d.sample_rate() == rate && d.frames() == fr && d.samples() == static_cast<long>(x.size()), "decoder-info", std::to_string(d.channels()) + " ch " + std::to_string(d.frames()) + " frames " + num(d.sample_rate()));
    S.expect(d.seekable(), "seekable");
    auto y = read_all<T>(S, d, x.size(), ch, r); S.expect(same_bits(y, x), "decoded-samples", std::to_string(y.size()) + " of " + std::to_string(x.size()));
    for (int i = 0; i < 4 && fr > 0; ++i) {
        long p = r.coin(0.2) ? (r.coin() ? 0 : fr) : r.range(0, fr); S.expect(d.seek(p) == p && d.current() == p, "seek", std::to_string(p));
        size_t k = (1 + r.below(600)) * ch; Buf<T> b(k, static_cast<T>(77)); long got = d.read(b.begin(), b.end()), want = std::min<long>(static_cast<long>(k), static_cast<long>(x.size()) - p * static_cast<long>(ch));
        S.expect(got == want, "read-after-seek"); bool ok = got >= 0 && got <= want; for (long j = 0; ok && j < got; ++j) ok = std::memcmp(&b[static_cast<size_t>(j)], &x[static_cast<size_t>(p) * ch + static_cast<size_t>(j)], sizeof(T)) == 0; S.expect(ok, "samples-after-seek", "from frame " + std::to_string(p)); S.count("seeks");
    }
    S.expect(d.seek(fr + 5) < 0 || d.current() <= fr, "seek-beyond"); S.expect(d.seek(0) == 0, "seek-start");
    std::list<T> l(std::min<size_t>(x.size(), 50 * ch)); S.expect(d.read(l.begin(), l.end()) == static_cast<long>(l.size()) && std::equal(l.begin(), l.end(), x.begin(), [](T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0; }), "read-into-list");
    d.close(); S.expect(!d.is_open(), "closed");
}
template <class T> void round_trip(Site& S) {
    for (long k = 0; k < S.reps(220, 3000); ++k) {
        size_t ch = k < 60 ? 1 + static_cast<size_t>(k) % 10 : 1 + S.rng.below(S.rng.coin(0.2) ? 40 : 8), fr = k % 11 == 0 ? S.rng.below(4) : S.rng.coin(0.3) ? (1024 / ch + S.rng.below(5)) * (1 + S.rng.below(3)) : S.rng.below(S.rng.coin(0.1) ? 20000 : 3000); if (k % 29 == 7) { ch = 1 + S.rng.below(3); fr = 20000 + S.rng.below(S.thorough() ? 400000 : 80000); } const size_t portion = fr >= 20000 ? 1 + S.rng.below(50000) : 2000; unsigned rate = S.rng.pick(std::vector<unsigned>{8000, 11025, 22050, 32000, 44100, 48000, 96000, 192000, 1, 12345});
        auto x = Gen<T>::make(S.rng, fr * ch); std::string f = path("rt.wav"); uint64_t rs = S.rng.next();
        S.cover("channels", static_cast<long>(ch)); S.cover("frames modulo buffer", static_cast<long>((fr * ch) % 1024));
        S.run(std::string("encode/decode<") + sname<T>() + "> " + std::to_string(ch) + " channels " + std::to_string(fr) + " frames " + std::to_string(rate) + " Hz", mix(rs, fr), fr > 0, [&] {
            Rng r(rs);
            {
                edsp::io::encoder<T> e(rate, ch); S.expect(e.channels() == static_cast<long>(ch) && e.sample_rate() == rate && !e.is_open(), "encoder-info");
                if (!S.expect(e.open(f) && e.is_open(), "encoder-open")) return;
                size_t p = 0; while (p < x.size()) { size_t n = std::min(x.size() - p, (1 + r.below(r.coin() && fr < 20000 ? 10 : portion)) * ch); auto b = Buf<T>::from(std::vector<T>(x.begin() + static_cast<long>(p), x.begin() + static_cast<long>(p + n))); const Buf<T>& cb = b; long w = static_cast<long>(e.write(cb.begin(), cb.end())); if (!S.expect(w == static_cast<long>(n), "write-count", std::to_string(w))) break; p += n; S.count("writes"); }
                S.expect(e.channels() == static_cast<long>(ch) && e.sample_rate() == rate, "encoder-info", "after writing");
                if (r.coin()) { e.close(); S.expect(!e.is_open(), "closed"); }
            }
            // the file itself, by an independent reader
            Wav w = parse_wav(slurp(f)); S.expect(w.ok && w.ch == ch && w.rate == rate && w.bits == sizeof(T) * 8 && w.tag == (std::is_floating_point<T>::value ? 3u : 1u), "file-header", "tag " + std::to_string(w.tag) + " ch " + std::to_string(w.ch) + " rate " + std::to_string(w.rate) + " bits " + std::to_string(w.bits));
            S.expect(w.data == raw(x), "file-samples", std::to_string(w.data.size()) + " bytes");
            decode_check<T, 1024>(S, f, x, ch, rate, r); if (ch <= 16) decode_check<T, 16>(S, f, x, ch, rate, r); decode_check<T, 2048>(S, f, x, ch, rate, r);
            // and the library's reader on an independently written file
            std::string g = path("own.wav"); spit(g, make_wav(std::is_floating_point<T>::value ? 3 : 1, static_cast<unsigned>(ch), rate, sizeof(T) * 8, raw(x))); if (fr) decode_check<T, 1024>(S, g, x, ch, rate, r);
            ::unlink(f.c_str()); ::unlink(g.c_str());
        });
    }
}
SITE("C21", "float") { round_trip<float>(S); }
SITE("C21", "double") { round_trip<double>(S); }
SITE("C21", "int16") { round_trip<std::int16_t>(S); }
SITE("C21", "int32") { round_trip<std::int32_t>(S); }
// files of another sample type: integers are scaled to [-1,1), floating point values are kept
template <class T> void cross(Site& S) {
    for (long k = 0; k < S.reps(120, 1500); ++k) {
        size_t ch = 1 + S.rng.below(7), fr = 1 + S.rng.below(1500); int kind = static_cast<int>(S.rng.below(4)); std::string data; std::vector<ld> want;
        if (kind == 0) { auto v = Gen<std::int16_t>::make(S.rng, fr * ch); data = raw(v); for (auto x : v) want.push_back(static_cast<ld>(x) / 32768); }
        else if (kind == 1) { auto v = Gen<std::int32_t>::make(S.rng, fr * ch); data = raw(v); for (auto x : v) want.push_back(static_cast<ld>(x) / 2147483648.0L); }
        else if (kind == 2) { auto v = signal<float>(S.rng, fr * ch, static_cast<int>(S.rng.below(NSHAPES))); data = raw(v); for (auto x : v) want.push_back(x); }
        else { auto v = signal<double>(S.rng, fr * ch, static_cast<int>(S.rng.below(NSHAPES))); data = raw(v); for (auto x : v) want.push_back(x); }
        static const unsigned bits[] = {16, 32, 32, 64}; uint64_t rs = S.rng.next();
        S.run(std::string("read as ") + sname<T>() + " kind=" + std::to_string(kind) + " " + std::to_string(ch) + "x" + std::to_string(fr), mix(rs, fr), true, [&] {
            Rng r(rs); std::string g = path("cross.wav"); spit(g, make_wav(kind < 2 ? 1 : 3, static_cast<unsigned>(ch), 44100, bits[kind], data));
            edsp::io::decoder<T> d; if (!S.expect(d.open(g), "decoder-open")) return;
            auto y = read_all<T>(S, d, want.size(), ch, r); if (!S.expect(y.size() == want.size(), "read-count")) return;
            for (size_t i = 0; i < y.size(); ++i) if (!S.close(y[i], want[i], 2 * eps<T>() * std::fabs(want[i]), "converted-samples", "index " + std::to_string(i))) break;
            d.close(); ::unlink(g.c_str());
        });
    }
}
SITE("C21", "other sample types, as float") { cross<float>(S); }
SITE("C21", "other sample types, as double") { cross<double>(S); }

// ---------------------------------------------------------------- C22 lifecycle
struct FileSet { std::vector<std::string> good, bad; std::vector<std::vector<float>> x; std::vector<size_t> ch; };
static FileSet make_files(Rng& r) {
    FileSet f;
    for (int i = 0; i < 3; ++i) { size_t ch = 1 + r.below(3); auto v = signal<float>(r, ch * (20 + r.below(700)), GAUSS); std::string p = path("good" + std::to_string(i) + ".wav"); spit(p, make_wav(3, static_cast<unsigned>(ch), 8000, 32, raw(v))); f.good.push_back(p); f.x.push_back(v); f.ch.push_back(ch); }
    f.bad.push_back(path("missing.wav")); f.bad.push_back(cfg().scratch); f.bad.push_back(path("no/such/dir.wav")); f.bad.push_back(""); std::string g = path("garbage.wav"); std::string s; for (int i = 0; i < 300; ++i) s += static_cast<char>(r.next()); spit(g, s); f.bad.push_back(g); g = path("empty.wav"); spit(g, ""); f.bad.push_back(g); g = path("head.wav"); spit(g, "RIFF\x10"); f.bad.push_back(g);
    return f;
}
SITE("C22", "decoder histories") {
    for (long k = 0; k < S.reps(900, 15000); ++k) {
        uint64_t rs = S.rng.next();
        S.run("decoder history " + std::to_string(k), rs, true, [&] {
            Rng r(rs); auto fs = make_files(r); int fds = open_fds(); open_handles().clear(); bad_close = 0; std::string trace; long steps = 2 + static_cast<long>(r.below(14));
            {
                std::unique_ptr<edsp::io::decoder<float>> d(new edsp::io::decoder<float>()); int cur = -1; long pos = 0;
                for (long s = 0; s < steps; ++s) {
                    int op = static_cast<int>(r.below(8)); S.cover("state/operation", std::to_string(cur >= 0) + "/" + std::to_string(op));
                    switch (op) {
                        case 0: case 1: { size_t i = r.below(fs.good.size()); trace += " open" + std::to_string(i); S.expect(d->open(fs.good[i]), "open", trace); cur = static_cast<int>(i); pos = 0; break; }
                        case 2: { size_t i = r.below(fs.bad.size()); trace += " openbad" + std::to_string(i); S.expect(!d->open(fs.bad[i]), "open-bad", trace); cur = -1; break; }
                        case 3: trace += " close"; d->close(); cur = -1; break;
                        case 4: case 5: {
                            size_t n = r.below(1500); Buf<float> b(n, 77.f); long got = d->read(b.begin(), b.end()); trace += " read" + std::to_string(n); long want = 0;
                            if (cur >= 0) { size_t c = fs.ch[static_cast<size_t>(cur)]; want = std::min<long>(static_cast<long>(n - n % c), static_cast<long>(fs.x[static_cast<size_t>(cur)].size()) - pos); }
                            if (S.expect(got == want, "read", trace + " got " + std::to_string(got) + " want " + std::to_string(want)) && cur >= 0) { for (long j = 0; j < got; ++j) if (!S.expect(b[static_cast<size_t>(j)] == fs.x[static_cast<size_t>(cur)][static_cast<size_t>(pos + j)], "read-data", trace)) break; pos += got; }
                            break;
                        }
                        case 6: if (cur >= 0) { size_t c = fs.ch[static_cast<size_t>(cur)]; long f = static_cast<long>(r.below(fs.x[static_cast<size_t>(cur)].size() / c + 1)); trace += " seek" + std::to_string(f); S.expect(d->seek(f) == f, "seek", trace); pos = f * static_cast<long>(c); } else { trace += " seek-closed"; d->seek(3); d->current(); d->seekable(); } break;
                        default: trace += " new"; d.reset(new edsp::io::decoder<float>()); cur = -1; break;
                    }
                    S.expect(d->is_open() == (cur >= 0), "is_open", trace);
                    if (cur >= 0) { auto c = fs.ch[static_cast<size_t>(cur)]; S.expect(d->channels() == static_cast<long>(c) && d->samples() == static_cast<long>(fs.x[static_cast<size_t>(cur)].size()) && d->sample_rate() == 8000 && d->current() == pos / static_cast<long>(c), "info", trace); }
                    else S.expect(d->frames() == 0 && d->samples() == 0, "info-closed", trace + " frames " + std::to_string(d->frames()));
                    S.expect(static_cast<long>(open_handles().size()) == (cur >= 0), "handles", trace + " open handles " + std::to_string(open_handles().size())); S.expect(bad_close == 0, "closed-twice", trace); S.count("steps");
                }
            }
            S.expect(open_handles().empty() && open_fds() == fds, "leaked-file", trace); S.expect(bad_close == 0, "closed-twice", trace);
        });
    }
    S.count("files opened", opened);
}
SITE("C22", "encoder histories") {
    for (long k = 0; k < S.reps(700, 12000); ++k) {
        uint64_t rs = S.rng.next(); size_t ch = 1 + S.rng.below(4);
        S.run("encoder history " + std::to_string(k) + " channels=" + std::to_string(ch), rs, true, [&] {
            Rng r(rs); int fds = open_fds(); open_handles().clear(); bad_close = 0; std::string trace; std::map<int, std::vector<float>> files; long steps = 2 + static_cast<long>(r.below(14));
            {
                std::unique_ptr<edsp::io::encoder<float>> e(new edsp::io::encoder<float>(8000, ch)); int cur = -1;
                for (long s = 0; s < steps; ++s) {
                    int op = static_cast<int>(r.below(8)); S.cover("state/operation", std::to_string(cur >= 0) + "/" + std::to_string(op));
                    switch (op) {
                        case 0: case 1: { int i = static_cast<int>(r.below(3)); if (i == cur) e->close(); trace += " open" + std::to_string(i); S.expect(e->open(path("e" + std::to_string(i) + ".wav")), "open", trace); cur = i; files[i].clear(); break; }
                        case 2: { trace += " openbad"; S.expect(!e->open(r.coin() ? path("no/such/x.wav") : cfg().scratch), "open-bad", trace); cur = -1; break; }
                        case 3: trace += " close"; e->close(); cur = -1; break;
                        case 4: case 5: case 6: { auto v = signal<float>(r, r.coin(0.1) ? 0 : ch * (1 + r.below(300)), GAUSS); trace += " write" + std::to_string(v.size()); auto b = Buf<float>::from(v); long w = static_cast<long>(e->write(b.begin(), b.end())); S.expect(w == (cur >= 0 ? static_cast<long>(v.size()) : 0), "write", trace + " wrote " + std::to_string(w)); if (cur >= 0) files[cur].insert(files[cur].end(), v.begin(), v.end()); break; }
                        default: trace += " new"; e.reset(new edsp::io::encoder<float>(8000, ch)); cur = -1; break;
                    }
                    S.expect(e->is_open() == (cur >= 0), "is_open", trace); S.expect(e->channels() == static_cast<long>(ch) && e->sample_rate() == 8000, "info", trace);
                    S.expect(static_cast<long>(open_handles().size()) == (cur >= 0), "handles", trace); S.expect(bad_close == 0, "closed-twice", trace); S.count("steps");
                }
            }
            S.expect(open_handles().empty() && open_fds() == fds, "leaked-file", trace); S.expect(bad_close == 0, "closed-twice", trace);
            for (auto& f : files) { Wav w = parse_wav(slurp(path("e" + std::to_string(f.first) + ".wav"))); S.expect(w.ok && w.ch == ch && w.data == raw(f.second), "file-content", trace + " file " + std::to_string(f.first)); S.count("files verified"); }
        });
    }
}
struct Try {
    template <class T> static void go(T& t, std::true_type) { T c(t); }
    template <class T> static void go(T&, std::false_type) {}
};
SITE("C22", "copies") {
    S.run("copied handles", 1, true, [&] {
        // either copies are refused, or a copy and its source can both be used and released
        S.count("copyable types", std::is_copy_constructible<edsp::io::decoder<float>>::value + std::is_copy_constructible<edsp::io::encoder<float>>::value + std::is_copy_constructible<edsp::io::resampler<float>>::value);
        Rng r(5); auto fs = make_files(r); open_handles().clear(); bad_close = 0;
        { edsp::io::decoder<float> d; d.open(fs.good[0]); Try::go(d, std::is_copy_constructible<edsp::io::decoder<float>>()); }
        { edsp::io::encoder<float> e(8000, 1); e.open(path("c.wav")); Try::go(e, std::is_copy_constructible<edsp::io::encoder<float>>()); }
        S.expect(bad_close == 0, "closed-twice", "copy");
        { edsp::io::resampler<float> e(1, edsp::io::linear, 1.5f); Try::go(e, std::is_copy_constructible<edsp::io::resampler<float>>()); }
    });
}
// interrupted and short system calls must not be visible
SITE("C22", "interrupted system calls") {
    for (long k = 0; k < S.reps(150, 3000); ++k) {
        uint64_t rs = S.rng.next(); size_t ch = 1 + S.rng.below(3); int mode = 1 + static_cast<int>(S.rng.below(3));
        S.run("short/interrupted transfers mode=" + std::to_string(mode) + " case " + std::to_string(k), rs, true, [&] {
            Rng r(rs); auto v = signal<float>(r, ch * (1 + r.below(3000)), GAUSS); std::string f = path("intr.wav"); fault_rng = Rng(rs ^ 99); faults = 0;
            { edsp::io::encoder<float> e(8000, ch); fault_mode = mode; bool o = e.open(f); long w = o ? static_cast<long>(e.write(v.begin(), v.end())) : -1; e.close(); fault_mode = 0; S.expect(o && w == static_cast<long>(v.size()), "interrupted-write", std::to_string(w)); }
            Wav w = parse_wav(slurp(f)); S.expect(w.ok && w.data == raw(v), "interrupted-write", "file content");
            { edsp::io::decoder<float> d; std::vector<float> y(v.size()); fault_mode = mode; bool o = d.open(f); long n = o ? static_cast<long>(d.read(y.begin(), y.end())) : -1; d.close(); fault_mode = 0; S.expect(o && n == static_cast<long>(v.size()) && same_bits(y, v), "interrupted-read", std::to_string(n)); }
            S.count("injected faults", faults);
        });
    }
}
// a file system that stops accepting data: what is reported as written is in the file
SITE("C22", "full file system") {
    ::signal(SIGXFSZ, SIG_IGN);
    for (long k = 0; k < S.reps(200, 3000); ++k) {
        uint64_t rs = S.rng.next(); size_t ch = 1 + S.rng.below(3);
        S.run("file size limit case " + std::to_string(k), rs, true, [&] {
            Rng r(rs); std::string f = path("full.wav"); ::unlink(f.c_str()); rlim_t lim = 200 + r.below(20000); struct rlimit old, now; ::getrlimit(RLIMIT_FSIZE, &old); now = old; now.rlim_cur = lim;
            std::vector<float> sent; long reported = 0; bool shortw = false, opened_ok = false;
            ::setrlimit(RLIMIT_FSIZE, &now);
            { edsp::io::encoder<float> e(8000, ch); opened_ok = e.open(f); for (int i = 0; i < 30 && !shortw && opened_ok; ++i) { auto v = signal<float>(r, ch * (1 + r.below(300)), GAUSS); long w = static_cast<long>(e.write(v.begin(), v.end())); if (!S.expect(w >= 0 && w <= static_cast<long>(v.size()), "write-count", std::to_string(w))) break; sent.insert(sent.end(), v.begin(), v.end()); reported += w; shortw = w < static_cast<long>(v.size()); } e.close(); }
            ::setrlimit(RLIMIT_FSIZE, &old);
            S.count(shortw ? "limit reached" : "limit not reached"); if (!opened_ok) return;
            edsp::io::decoder<float> d; if (!S.expect(d.open(f), "reopen-after-full")) return;
            std::vector<float> y(sent.size() + 50 * ch); long n = d.read(y.begin(), y.end()); S.expect(n >= reported - reported % static_cast<long>(ch) && n <= reported + static_cast<long>(ch), "stored-samples", "reported " + std::to_string(reported) + " stored " + std::to_string(n));
            bool same = true; for (long i = 0; i < std::min<long>(n, reported) && same; ++i) same = y[static_cast<size_t>(i)] == sent[static_cast<size_t>(i)]; S.expect(same, "stored-prefix");
        });
    }
}
// damaged files: no crash, never more samples than announced or asked for
SITE("C22", "damaged files") {
    for (long k = 0; k < S.reps(600, 20000); ++k) {
        uint64_t rs = S.rng.next();
        S.run("damaged file " + std::to_string(k), rs, true, [&] {
            Rng r(rs); size_t ch = 1 + r.below(4); auto v = signal<float>(r, ch * (1 + r.below(400)), GAUSS); std::string s = make_wav(3, static_cast<unsigned>(ch), 8000, 32, raw(v)); bool cut = r.coin();
            if (cut) s.resize(r.below(s.size() + 1)); else for (int i = 0; i < 1 + static_cast<int>(r.below(4)); ++i) s[r.below(r.coin(0.8) ? 60 : s.size())] = static_cast<char>(r.next());
            std::string f = path("dmg.wav"); spit(f, s); int fds = open_fds();
            { edsp::io::decoder<float> d; bool o = d.open(f); S.expect(o == d.is_open(), "is_open"); S.count(o ? "accepted" : "refused");
              Buf<float> b(1 + r.below(3000), 77.f); long tot = 0; for (int i = 0; i < 6; ++i) { long n = d.read(b.begin(), b.end()); if (!S.expect(n >= 0 && n <= static_cast<long>(b.size()), "read-count", std::to_string(n))) break; for (size_t j = static_cast<size_t>(n); j < b.size(); ++j) if (i == 0 && !S.expect(b[j] == 77.f, "read-wrote-more")) break; if (cut && i == 0 && n > 0 && d.channels() == static_cast<long>(ch)) { bool same = true; for (long j = 0; j < n && same; ++j) same = static_cast<size_t>(j) < v.size() && std::memcmp(&b[static_cast<size_t>(j)], &v[static_cast<size_t>(j)], 4) == 0; S.expect(same, "truncated-prefix"); } tot += n; if (!n) break; }
              if (!o) S.expect(tot == 0, "read-closed"); d.seek(1); d.current(); }
            S.expect(open_fds() == fds, "leaked-file");
        });
    }
}

// ---------------------------------------------------------------- C23 resampling
namespace ei = edsp::io;
static ei::resample_quality quality(int q) { switch (q) { case 0: return ei::best_quality; case 1: return ei::medium_quality; case 2: return ei::sinc_fastest; case 3: return ei::zero_order_hold; default: return ei::linear; } }
static const int src_q[] = {SRC_SINC_BEST_QUALITY, SRC_SINC_MEDIUM_QUALITY, SRC_SINC_FASTEST, SRC_ZERO_ORDER_HOLD, SRC_LINEAR};
static const char* qn[] = {"best", "medium", "fastest", "hold", "linear"};
// what a stream of blocks must give: the sample rate converter itself, offered floor(ratio*frames) output frames per block
struct RefSrc {
    SRC_STATE* s; double ratio; long ch; int e = 0;
    RefSrc(int q, long c, double r) : s(src_new(q, static_cast<int>(c), &e)), ratio(r), ch(c) {}
    ~RefSrc() { src_delete(s); }
    std::pair<long, std::vector<float>> go(const std::vector<float>& x) { SRC_DATA d{}; d.input_frames = static_cast<long>(x.size()) / ch; d.output_frames = static_cast<long>(ratio * static_cast<double>(d.input_frames)); std::vector<float> o(static_cast<size_t>(d.output_frames * ch) + 1, 0.f); d.data_in = x.data(); d.data_out = o.data(); d.src_ratio = ratio; d.end_of_input = 0; e = src_process(s, &d); o.resize(static_cast<size_t>(d.output_frames_gen * ch)); return {d.input_frames_used, o}; }
};
static std::vector<float> run_block(Site& S, ei::resampler<float>& rs, const std::vector<float>& x, long ch, double ratio, long& used) {
    long fr = static_cast<long>(x.size()) / ch, cap = static_cast<long>(static_cast<double>(static_cast<float>(ratio)) * static_cast<double>(fr)); auto in = Buf<float>::from(x); GBuf<float> out(static_cast<size_t>(cap * ch));
    auto p = rs.process(in.begin(), in.end(), out.begin()); used = p.first;
    S.expect(p.first >= 0 && p.first <= fr && p.second >= 0 && p.second <= cap, "resampled-counts", "used " + std::to_string(p.first) + " of " + std::to_string(fr) + ", made " + std::to_string(p.second) + " of " + std::to_string(cap));
    S.expect(out.intact(), "wrote-outside"); S.expect(same_bits(in.vec(), x), "input-changed"); S.expect(rs.error() == 0, "resampler-error", std::string(rs.error_string().data()));
    auto v = out.vec(); long n = std::min(std::max(p.second, 0L), cap); for (long i = n * ch; i < cap * ch; ++i) if (!S.expect(std::isnan(v[static_cast<size_t>(i)]), "wrote-more-than-reported")) break;
    v.resize(static_cast<size_t>(n * ch)); for (auto s : v) if (!S.expect(!std::isnan(s), "wrote-less-than-reported")) break;
    return v;
}
static void stream_site(Site& S, int q) {
    for (long k = 0; k < S.reps(120, 1200); ++k) {
        long ch = k % 3 ? 1 + static_cast<long>(S.rng.below(2)) : 1 + static_cast<long>(S.rng.below(6)); float ratio = S.rng.coin(0.4) ? S.rng.pick(std::vector<float>{1.f, 2.f, 0.5f, 48000.f / 44100.f, 44100.f / 48000.f, 0.25f, 4.f, 1.5f, 16.f, 1.f / 16}) : static_cast<float>(std::pow(2, S.rng.uniform(-5, 5))); uint64_t rs = S.rng.next();
        S.cover("channels", ch); S.cover("ratio", num(ratio));
        S.run(std::string("stream ") + qn[q] + " channels=" + std::to_string(ch) + " ratio=" + num(ratio) + " #" + std::to_string(k), rs, true, [&] {
            Rng r(rs); ei::resampler<float> a(ch, quality(q), ratio); RefSrc ref(src_q[q], ch, ratio); S.expect(a.error() == 0 && a.channels() == ch && a.quality() == quality(q) && a.ratio() == ratio, "resampler-info");
            std::vector<ei::resampler<float>*> mono; std::vector<std::unique_ptr<ei::resampler<float>>> own; for (long c = 0; c < ch; ++c) { own.emplace_back(new ei::resampler<float>(1, quality(q), ratio)); }
            std::vector<std::vector<float>> blocks; int nb = 1 + static_cast<int>(r.below(6)), reset_at = r.coin(0.4) ? static_cast<int>(r.below(static_cast<uint64_t>(nb))) : -1;
            for (int b = 0; b < nb; ++b) {
                if (b == reset_at) { S.expect(a.reset() == 0, "reset"); src_reset(ref.s); for (auto& m : own) m->reset(); S.count("resets"); }
                auto x = signal<float>(r, static_cast<size_t>(ch) * (r.coin(0.1) ? r.below(3) : 1 + r.below(k % 16 == 3 ? 20000 / static_cast<uint64_t>(ch) : 500)), r.coin() ? GAUSS : SINE); long used = 0, mu = 0;
                auto y = run_block(S, a, x, ch, ratio, used); auto w = ref.go(x); S.expect(used == w.first && y.size() == w.second.size(), "stream-counts", "block " + std::to_string(b) + " used " + std::to_string(used) + " want " + std::to_string(w.first) + ", made " + std::to_string(y.size()) + " want " + std::to_string(w.second.size()));
                if (y.size() == w.second.size()) for (size_t i = 0; i < y.size(); ++i) if (!S.close(y[i], w.second[i], 1e-6L * (1 + std::fabs(static_cast<ld>(w.second[i]))), "stream-samples", "block " + std::to_string(b) + " sample " + std::to_string(i))) break;
                for (long c = 0; c < ch && ch > 1; ++c) { std::vector<float> xc; for (size_t i = static_cast<size_t>(c); i < x.size(); i += static_cast<size_t>(ch)) xc.push_back(x[i]); auto yc = run_block(S, *own[static_cast<size_t>(c)], xc, 1, ratio, mu); if (!S.expect(yc.size() * static_cast<size_t>(ch) == y.size() && mu == used, "channels-independent", "counts")) break; for (size_t i = 0; i < yc.size(); ++i) if (!S.close(y[i * static_cast<size_t>(ch) + static_cast<size_t>(c)], yc[i], 1e-4L * (1 + std::fabs(static_cast<ld>(yc[i]))), "channels-independent", "channel " + std::to_string(c))) break; }
                S.count("blocks"); S.count("frames made", static_cast<long>(y.size()) / ch);
            }
        });
    }
}
struct RegQ { RegQ() { for (int q = 0; q < 5; ++q) vm::registry().push_back({"C23", std::string("stream ") + qn[q], [q](Site& S) { stream_site(S, q); }}); } };
static RegQ rq;
// what the output is: the same sinusoid on the new time grid
SITE("C23", "sinusoids keep their frequency") {
    for (long k = 0; k < S.reps(200, 3000); ++k) {
        int q = static_cast<int>(k % 5); float ratio = static_cast<float>(std::pow(2, S.rng.uniform(-2, 2))); long ch = 1 + static_cast<long>(S.rng.below(2)); double fmax = (q < 3 ? 0.35 : 0.02) * std::min(1.0f, ratio), f = S.rng.uniform(0.1, 1) * fmax, ph = S.rng.uniform(0, 6), amp = S.rng.uniform(0.1, 2);
        S.run(std::string("sinusoid ") + qn[q] + " ratio=" + num(ratio) + " f=" + num(f), hash_bytes(&f, 1), true, [&] {
            size_t fr = 4000; std::vector<float> x(fr * static_cast<size_t>(ch)); for (size_t i = 0; i < fr; ++i) for (long c = 0; c < ch; ++c) x[i * static_cast<size_t>(ch) + static_cast<size_t>(c)] = static_cast<float>((c ? -0.5 : 1) * amp * std::sin(2 * M_PI * f * static_cast<double>(i) + ph));
            ei::resampler<float> a(ch, quality(q), ratio); std::vector<float> y; long at = 0; while (at < static_cast<long>(fr)) { std::vector<float> blk(x.begin() + at * ch, x.begin() + std::min<long>(static_cast<long>(fr), at + 700) * ch); long used = 0; auto o = run_block(S, a, blk, ch, ratio, used); y.insert(y.end(), o.begin(), o.end()); if (!used && o.empty()) break; at += used; }
            long made = static_cast<long>(y.size()) / ch; S.expect(std::labs(made - static_cast<long>(ratio * static_cast<float>(at))) <= static_cast<long>(ratio * 700) + 400, "resampled-length", std::to_string(made));
            // fit a sinusoid of the expected frequency (delay free) on the middle half
            for (long c = 0; c < ch; ++c) { long lo = made / 4, hi = made * 3 / 4; ld ss = 0, sc = 0, cc = 0, ys = 0, yc = 0, yy = 0; for (long i = lo; i < hi; ++i) { ld t = 2 * PI * static_cast<ld>(f) * static_cast<ld>(i) / static_cast<ld>(ratio), s = std::sin(t), o = std::cos(t), v = y[static_cast<size_t>(i * ch + c)]; ss += s * s; sc += s * o; cc += o * o; ys += v * s; yc += v * o; yy += v * v; } ld det = ss * cc - sc * sc; if (hi - lo < 50 || det < 1) { S.count("too short"); continue; } ld A = (ys * cc - yc * sc) / det, B = (yc * ss - ys * sc) / det, res = 0; for (long i = lo; i < hi; ++i) { ld t = 2 * PI * static_cast<ld>(f) * static_cast<ld>(i) / static_cast<ld>(ratio), d = static_cast<ld>(y[static_cast<size_t>(i * ch + c)]) - A * std::sin(t) - B * std::cos(t); res += d * d; }
                ld want = amp * (c ? 0.5L : 1), rel = std::sqrt(res / static_cast<ld>(hi - lo)) / want; S.expect(rel < (q < 3 ? 2e-3L : 0.12L), "sinusoid-distorted", num(rel)); S.close(std::hypot(A, B), want, (q < 3 ? 0.02L : 0.05L) * want, "sinusoid-amplitude"); S.count("sinusoids fitted"); }
        });
    }
}
SITE("C23", "ratio validation") {
    for (long k = 0; k < S.reps(400, 4000); ++k) {
        float r = k < 20 ? std::vector<float>{1.f / 256, 256.f, 0.f, -1.f, 1.f / 257, 257.f, 255.9f, 256.1f, 1.f, 1e-9f, 1e9f, -256.f, 0.0039f, 0.00391f, 100.f, 0.5f, 2.f, 300.f, 1000.f, 0.001f}[static_cast<size_t>(k)] : static_cast<float>(std::pow(2, S.rng.uniform(-12, 12)) * (S.rng.coin(0.9) ? 1 : -1));
        S.run("valid_ratio " + num(r), hash_bytes(&r, 1), true, [&] { S.expect(ei::resampler<float>::valid_ratio(r) == (r >= 1.f / 256 && r <= 256.f), "valid_ratio", num(r)); });
    }
}

// ---------------------------------------------------------------- C24 metadata
struct Tags { std::string title, artist, album, genre; unsigned track = 0, year = 0; };
static std::string word(Rng& r, size_t max) { static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_.,:;!?'()"; std::string s; size_t n = 1 + r.below(max); for (size_t i = 0; i < n; ++i) s += a[r.below(sizeof a - 1)]; while (!s.empty() && s.front() == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); return s.empty() ? "x" : "T" + s; }
static std::string be(uint32_t v, int n) { std::string s; for (int i = n - 1; i >= 0; --i) s += static_cast<char>((v >> (8 * i)) & 255); return s; }
static std::string mp3_frames() { std::string f("\xFF\xFB\x90\x00", 4); f.resize(417, '\0'); std::string s; for (int i = 0; i < 8; ++i) s += f; return s; }
static std::string id3v2(const Tags& t, int ver) {
    std::string b; auto fr = [&](const char* id, const std::string& v) { if (v.empty()) return; std::string d = std::string(1, '\0') + v; b += std::string(id) + (ver == 4 ? std::string{static_cast<char>((d.size() >> 21) & 127), static_cast<char>((d.size() >> 14) & 127), static_cast<char>((d.size() >> 7) & 127), static_cast<char>(d.size() & 127)} : be(static_cast<uint32_t>(d.size()), 4)) + std::string(2, '\0') + d; };
    fr("TIT2", t.title); fr("TPE1", t.artist); fr("TALB", t.album); fr("TCON", t.genre); if (t.track) fr("TRCK", std::to_string(t.track) + (t.track % 2 ? "/99" : "")); if (t.year) fr(ver == 4 ? "TDRC" : "TYER", std::to_string(t.year));
    size_t n = b.size(); return std::string("ID3") + static_cast<char>(ver) + std::string(2, '\0') + std::string{static_cast<char>((n >> 21) & 127), static_cast<char>((n >> 14) & 127), static_cast<char>((n >> 7) & 127), static_cast<char>(n & 127)} + b;
}
static std::string id3v1(const Tags& t) { auto f = [](std::string s, size_t n) { s.resize(n, '\0'); return s; }; return "TAG" + f(t.title, 30) + f(t.artist, 30) + f(t.album, 30) + f(t.year ? std::to_string(t.year) : "", 4) + f("", 28) + std::string(1, '\0') + std::string(1, static_cast<char>(t.track)) + static_cast<char>(t.genre == "Rock" ? 17 : t.genre == "Jazz" ? 8 : 255); }
static std::string vorbis(const Tags& t) { std::vector<std::string> c; auto a = [&](const char* k, const std::string& v) { if (!v.empty()) c.push_back(std::string(k) + "=" + v); }; a("TITLE", t.title); a("ARTIST", t.artist); a("ALBUM", t.album); a("GENRE", t.genre); if (t.track) a("TRACKNUMBER", std::to_string(t.track)); if (t.year) a("DATE", std::to_string(t.year)); std::string s = le(4, 4) + "test" + le(static_cast<uint32_t>(c.size()), 4); for (auto& x : c) s += le(static_cast<uint32_t>(x.size()), 4) + x; return s; }
static std::string flac(const Tags& t) { std::string si = be(4096, 2) + be(4096, 2) + be(0, 3) + be(0, 3); uint64_t v = (uint64_t(44100) << 44) | (uint64_t(1) << 41) | (uint64_t(15) << 36) | 1000; si += be(static_cast<uint32_t>(v >> 32), 4) + be(static_cast<uint32_t>(v), 4) + std::string(16, '\0'); std::string vc = vorbis(t); return "fLaC" + std::string(1, '\0') + be(34, 3) + si + std::string(1, static_cast<char>(0x84)) + be(static_cast<uint32_t>(vc.size()), 3) + vc + std::string("\xFF\xF8\xC9\x18", 4) + std::string(64, '\0'); }
static std::string id3v2(const Tags& t, int ver);
static std::string info_wav(const Tags& t) { std::string l = id3v2(t, 4), w = make_wav(1, 1, 8000, 16, std::string(200, '\1')), c = "ID3 " + le(static_cast<uint32_t>(l.size()), 4) + l + std::string(l.size() & 1, '\0'); w += c; std::string n = le(static_cast<uint32_t>(w.size() - 8), 4); std::copy(n.begin(), n.end(), w.begin() + 4); return w; }
enum Fmt { ID3V1, ID3V23, ID3V24, BOTH, FLACF, WAVINFO, NFMT };
static const char* fname(int f) { static const char* n[] = {"id3v1.mp3", "id3v23.mp3", "id3v24.mp3", "id3v1+2.mp3", "vorbis.flac", "id3.wav"}; return n[f]; }
static std::string encode_tags(int f, const Tags& t) { switch (f) { case ID3V1: return mp3_frames() + id3v1(t); case ID3V23: return id3v2(t, 3) + mp3_frames(); case ID3V24: return id3v2(t, 4) + mp3_frames(); case BOTH: return id3v2(t, 4) + mp3_frames() + id3v1(t); case FLACF: return flac(t); default: return info_wav(t); } }
static Tags random_tags(Rng& r, int f) { Tags t; size_t m = f == ID3V1 || f == BOTH ? 27 : r.coin(0.1) ? 2000 : 60; auto some = [&] { return r.coin(0.85); }; if (some()) t.title = word(r, m); if (some()) t.artist = word(r, m); if (some()) t.album = word(r, m); if (some()) t.genre = f == ID3V1 ? (r.coin() ? "Rock" : "Jazz") : r.coin(0.3) ? "Rock" : "G" + word(r, 20); if (f == BOTH && !t.genre.empty()) t.genre = "Rock"; if (some()) t.track = 1 + static_cast<unsigned>(r.below(f == ID3V1 || f == BOTH ? 200 : 900)); if (some()) t.year = 1900 + static_cast<unsigned>(r.below(200)); return t; }
SITE("C24", "tags of well-formed files") {
    for (long k = 0; k < S.reps(900, 15000); ++k) {
        int f = static_cast<int>(k % NFMT); auto t = random_tags(S.rng, f); uint64_t h = hash_str(t.title + "|" + t.artist + "|" + t.album + "|" + t.genre + std::to_string(t.track * 3000 + t.year));
        S.cover("format", f); S.cover("missing fields", std::to_string(f) + std::to_string(t.title.empty()) + std::to_string(t.artist.empty()) + std::to_string(t.album.empty()) + std::to_string(t.genre.empty()) + std::to_string(!t.track) + std::to_string(!t.year));
        S.run(std::string("tags ") + fname(f) + " #" + std::to_string(k), h, true, [&] {
            std::string p = path(fname(f)); std::string body = encode_tags(f, t); spit(p, body); int fds = open_fds();
            { ei::metadata m(p); ei::metadata c(m);
              for (int rep = 0; rep < 2; ++rep) { auto& q = rep ? c : m; S.expect(q.title() == t.title, "title", "got '" + q.title() + "' want '" + t.title + "'"); S.expect(q.artist() == t.artist, "artist", "got '" + q.artist() + "' want '" + t.artist + "'"); S.expect(q.album() == t.album, "album", q.album()); S.expect(q.genre() == t.genre, "genre", "got '" + q.genre() + "' want '" + t.genre + "'"); S.expect(q.track() == t.track, "track", std::to_string(q.track()) + " want " + std::to_string(t.track)); S.expect(q.year() == t.year, "year", std::to_string(q.year()) + " want " + std::to_string(t.year)); } }
            S.expect(slurp(p) == body, "file-changed"); S.expect(open_fds() == fds, "leaked-file"); ::unlink(p.c_str());
        });
    }
}
SITE("C24", "files without readable tags") {
    static const char* ext[] = {"wav", "mp3", "flac", "ogg", "m4a", "ape", "wv", "aiff", "txt", ""};
    for (long k = 0; k < S.reps(400, 6000); ++k) {
        std::string e = ext[S.rng.below(10)]; int kind = static_cast<int>(S.rng.below(5)); uint64_t rs = S.rng.next();
        S.run("no tags kind=" + std::to_string(kind) + " ." + e + " #" + std::to_string(k), rs, true, [&] {
            Rng r(rs); std::string p = path("plain." + e);
            if (kind == 0) p = path("missing." + e); else if (kind == 1) { p = path("dir." + e); ::mkdir(p.c_str(), 0700); } else if (kind == 2) spit(p, ""); else if (kind == 3) { std::string s; for (int i = 0; i < 200; ++i) s += static_cast<char>(1 + r.below(100)); spit(p, s); } else { p = path("plain.wav"); spit(p, make_wav(1, 2, 8000, 16, std::string(400, '\2'))); }
            S.cover("kind/extension", std::to_string(kind) + e); int fds = open_fds();
            { ei::metadata m(p); S.expect(m.title().empty() && m.artist().empty() && m.album().empty() && m.genre().empty(), "text-from-nothing", m.title()); S.expect(m.track() == 0 && m.year() == 0, "number-from-nothing"); }
            S.expect(open_fds() == fds, "leaked-file"); if (kind == 1) ::rmdir(p.c_str()); else if (kind) ::unlink(p.c_str());
        });
    }
}
SITE("C24", "damaged files") {
    for (long k = 0; k < S.reps(600, 8000); ++k) {
        int f = static_cast<int>(k % NFMT); uint64_t rs = S.rng.next();
        S.run(std::string("damaged ") + fname(f) + " #" + std::to_string(k), rs, true, [&] {
            Rng r(rs); auto s = encode_tags(f, random_tags(r, f)); if (r.coin()) s.resize(r.below(s.size() + 1)); else for (int i = 0; i < 3; ++i) s[r.below(s.size())] = static_cast<char>(r.next());
            std::string p = path(fname(f)); spit(p, s); int fds = open_fds(); { ei::metadata m(p); size_t n = m.title().size() + m.artist().size() + m.album().size() + m.genre().size(); S.expect(n < s.size() * 4 + 100, "text-longer-than-file", std::to_string(n)); S.expect(m.title() == m.title() && m.track() == m.track() && m.year() == m.year(), "stable"); S.count(n ? "with text" : "without text"); } S.expect(open_fds() == fds, "leaked-file"); ::unlink(p.c_str());
        });
    }
}
VM_MAIN
