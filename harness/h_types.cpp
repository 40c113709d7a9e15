// C19: string helpers; C20: ring buffers.
#include "vm.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/string/join.hpp>
#include <edsp/string/split.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include <edsp/string/trim.hpp>
#include <edsp/types/ring_buffer.hpp>
#include <edsp/types/fixed_ring_buffer.hpp>
using namespace vm;

// ------------------------------------------------------------------------------- strings
namespace {
const std::string WS = " \t\n\v\f\r";
std::string hex(const std::string& s) {
    std::string o; char b[4];
    for (unsigned char c : s) { if (o.size() > 200) { o += "..."; break; } if (c > 32 && c < 127 && c != '%') o += static_cast<char>(c); else { std::snprintf(b, sizeof b, "%%%02x", c); o += b; } }
    return o;
}
// alphabets: ASCII letters, ASCII with blanks, delimiters only, every byte, whitespace mixed with high bytes
std::string text(Rng& r, size_t n, int alpha, char delim) {
    std::string s(n, ' ');
    for (auto& c : s) switch (alpha) {
        case 0: c = static_cast<char>(r.coin() ? 'a' + r.below(26) : 'A' + r.below(26)); break;
        case 1: c = r.coin(0.3) ? ' ' : static_cast<char>(33 + r.below(94)); break;
        case 2: c = r.coin(0.6) ? delim : static_cast<char>('a' + r.below(3)); break;
        case 3: c = static_cast<char>(r.below(256)); break;
        case 4: c = r.coin(0.5) ? WS[r.below(WS.size())] : static_cast<char>(128 + r.below(128)); break;
        case 5: c = r.coin(0.3) ? '\0' : static_cast<char>('a' + r.below(26)); break;
        default: c = static_cast<char>(r.coin(0.7) ? WS[r.below(WS.size())] : '@' + r.below(60)); break;
    }
    return s;
}
std::vector<std::string> ref_split(const std::string& s, char d, bool keep_empty) {
    std::vector<std::string> o; size_t b = 0;
    while (true) {
        size_t e = s.find(d, b);
        std::string t = s.substr(b, e == std::string::npos ? e : e - b);
        if (keep_empty || !t.empty()) o.push_back(t);
        if (e == std::string::npos) break;
        b = e + 1;
    }
    return o;
}
std::string ref_case(std::string s, bool lower) {
    for (auto& c : s) { if (lower && c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); if (!lower && c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); }
    return s;
}
std::string ref_trim(const std::string& s, bool l, bool r) {
    size_t b = 0, e = s.size();
    if (l) while (b < e && WS.find(s[b]) != std::string::npos) ++b;
    if (r) while (e > b && WS.find(s[e - 1]) != std::string::npos) --e;
    return s.substr(b, e - b);
}
std::string show(const std::vector<std::string>& v) { std::string o; for (auto& s : v) { o += "'" + hex(s) + "' "; if (o.size() > 200) break; } return o; }
}

SITE("C19", "strings.case") {
    for (int c = 0; c < 256; ++c) {
        std::string one(1, static_cast<char>(c));
        S.run("char " + std::to_string(c), c, true, [&] {
            std::string o(1, '?');
            edsp::string::tolower(one.begin(), one.end(), o.begin()); S.expect(o == ref_case(one, true), "lower", hex(o));
            edsp::string::toupper(one.begin(), one.end(), o.begin()); S.expect(o == ref_case(one, false), "upper", hex(o));
        });
    }
    for (long k = 0; k < S.reps(3000, 60000); ++k) {
        auto s = text(S.rng, S.rng.below(S.rng.coin(0.1) ? 3000 : 40), static_cast<int>(S.rng.below(7)), ' ');
        S.run("case len=" + std::to_string(s.size()) + " '" + hex(s) + "'", hash_str(s), !s.empty(), [&] {
            auto in = Buf<char>::from(s); Buf<char> out(s.size());
            edsp::string::tolower(in.begin(), in.end(), out.begin());
            std::string lo(out.begin(), out.end()); S.expect(lo == ref_case(s, true), "lower", hex(lo));
            S.expect(std::equal(in.begin(), in.end(), s.begin()), "input-changed");
            edsp::string::toupper(in.begin(), in.end(), out.begin());
            std::string up(out.begin(), out.end()); S.expect(up == ref_case(s, false), "upper", hex(up));
            std::string back; edsp::string::tolower(up.begin(), up.end(), std::back_inserter(back));
            S.expect(back == ref_case(s, true), "lower(upper)");
            std::string ip = s; edsp::string::toupper(ip.begin(), ip.end(), ip.begin()); S.expect(ip == up, "in-place");
            std::list<char> L(s.begin(), s.end()); std::string fl; edsp::string::tolower(L.begin(), L.end(), std::back_inserter(fl)); S.expect(fl == lo, "list-iterators");
        });
    }
}
SITE("C19", "strings.trim") {
    for (int c = 0; c < 256; ++c) for (int pos = 0; pos < 3; ++pos) {
        std::string s = pos == 0 ? std::string(1, static_cast<char>(c)) : pos == 1 ? std::string(1, static_cast<char>(c)) + "x" + std::string(1, static_cast<char>(c)) : "x" + std::string(1, static_cast<char>(c)) + "x";
        S.run("trim '" + hex(s) + "'", hash_str(s), true, [&] { auto t = s; edsp::string::trim(t); S.expect(t == ref_trim(s, true, true), "trim", hex(t)); });
    }
    for (long k = 0; k < S.reps(6000, 100000); ++k) {
        int a = static_cast<int>(S.rng.below(8));
        auto s = a == 7 ? std::string(S.rng.below(20), WS[S.rng.below(6)]) : text(S.rng, S.rng.below(k % 400 == 7 ? 200000 : S.rng.coin(0.05) ? 4000 : 30), a, ' ');
        if (S.rng.coin(0.3)) s = text(S.rng, S.rng.below(6), 7, ' ') + s + text(S.rng, S.rng.below(6), 7, ' ');
        S.run("trim len=" + std::to_string(s.size()) + " '" + hex(s) + "'", hash_str(s), !s.empty(), [&] {
            auto l = s, r = s, b = s; edsp::string::ltrim(l); edsp::string::rtrim(r); edsp::string::trim(b);
            S.expect(l == ref_trim(s, true, false), "ltrim", hex(l)); S.expect(r == ref_trim(s, false, true), "rtrim", hex(r)); S.expect(b == ref_trim(s, true, true), "trim", hex(b));
            auto again = b; edsp::string::trim(again); S.expect(again == b, "idempotent");
            S.cover("removed-left", static_cast<long>(s.size() - l.size())); S.cover("removed-right", static_cast<long>(s.size() - r.size()));
        });
    }
}
SITE("C19", "strings.split") {
    for (long k = 0; k < S.reps(8000, 150000); ++k) {
        int a = static_cast<int>(S.rng.below(7));
        char d = S.rng.coin(0.5) ? ' ' : S.rng.coin(0.3) ? static_cast<char>(S.rng.below(256)) : S.rng.pick(std::string(",;|a\n\0\xff", 7));
        auto s = text(S.rng, S.rng.below(k % 400 == 7 ? 200000 : S.rng.coin(0.05) ? 5000 : 40), a, d);
        S.run("split on %" + std::to_string(static_cast<unsigned char>(d)) + " len=" + std::to_string(s.size()) + " '" + hex(s) + "'", hash_str(s), s.find(d) != std::string::npos, [&] {
            std::vector<std::string> out; const auto before = s;
            edsp::string::split(s, std::back_inserter(out), d);
            auto ref = ref_split(s, d, false);
            S.expect(out == ref, "segments", show(out) + "want " + show(ref)); S.expect(s == before, "input-changed");
            S.cover("segments", static_cast<long>(ref.size()));
            if (d == ' ') { std::vector<std::string> o2; edsp::string::split(s, std::back_inserter(o2)); S.expect(o2 == ref, "default-delimiter"); }
            // exact-size destination: nothing is written beyond the number of segments
            Buf<std::string> dst(ref.size()); edsp::string::split(s, dst.begin(), d); S.expect(dst.vec() == ref, "exact-destination");
            std::string j = "old"; edsp::string::join(out.begin(), out.end(), j, d);
            std::string jr; for (size_t i = 0; i < ref.size(); ++i) { if (i) jr += d; jr += ref[i]; }
            S.expect(j == jr, "join(split)", hex(j));
        });
    }
}
SITE("C19", "strings.join") {
    for (long k = 0; k < S.reps(8000, 150000); ++k) {
        size_t n = S.rng.below(k % 400 == 7 ? 20000 : S.rng.coin(0.05) ? 400 : 8); int a = static_cast<int>(S.rng.below(7));
        char d = S.rng.coin(0.4) ? ' ' : static_cast<char>(S.rng.below(256));
        std::vector<std::string> parts;
        bool noempty = S.rng.coin();
        for (size_t i = 0; i < n; ++i) {
            auto p = text(S.rng, S.rng.below(12), a, d);
            if (noempty) { p.erase(std::remove(p.begin(), p.end(), d), p.end()); if (p.empty()) p = std::string(1, static_cast<char>(d + 1)); }
            parts.push_back(p);
        }
        std::string ref; for (size_t i = 0; i < n; ++i) { if (i) ref += d; ref += parts[i]; }
        S.run("join with %" + std::to_string(static_cast<unsigned char>(d)) + " " + std::to_string(n) + " parts " + show(parts), hash_str(ref), n > 1, [&] {
            std::string o = "previous content"; const auto before = parts;
            edsp::string::join(parts.begin(), parts.end(), o, d); S.expect(o == ref, "joined", "'" + hex(o) + "' want '" + hex(ref) + "'"); S.expect(parts == before, "input-changed");
            if (d == ' ') { std::string o2; edsp::string::join(parts.begin(), parts.end(), o2); S.expect(o2 == ref, "default-delimiter"); }
            std::list<std::string> L(parts.begin(), parts.end()); std::string o3; edsp::string::join(L.begin(), L.end(), o3, d); S.expect(o3 == ref, "list-iterators");
            if (noempty) { std::vector<std::string> b; edsp::string::split(o, std::back_inserter(b), d); S.expect(b == parts, "split(join)"); S.count("round-trips"); }
        });
    }
}

// ------------------------------------------------------------------------------- ring buffers
namespace {
template <class T> T elem(uint64_t v);
template <> int elem<int>(uint64_t v) { return static_cast<int>(v); }
template <> double elem<double>(uint64_t v) { return static_cast<double>(v) * 0.5; }
template <> std::string elem<std::string>(uint64_t v) { return std::string(1 + v % 40, static_cast<char>('a' + v % 26)) + std::to_string(v); }
// An element whose copies are tracked: every live object is registered, so a use of a dead one is seen.
struct Tracked {
    uint64_t v; Tracked* self; uint64_t* heap;
    Tracked(uint64_t x = 0) : v(x), self(this), heap(new uint64_t(x)) {}
    Tracked(const Tracked& o) : v(o.v), self(this), heap(new uint64_t(*o.heap)) {}
    Tracked& operator=(const Tracked& o) { v = o.v; *heap = *o.heap; return *this; }
    ~Tracked() { delete heap; }
    bool operator==(const Tracked& o) const { return self == this && o.self == &o && v == o.v && *heap == *o.heap; }
};
template <> Tracked elem<Tracked>(uint64_t v) { return Tracked(v); }

template <class R, class T> void check_all(Site& S, R& r, const std::deque<T>& m, size_t cap, const char* op) {
    std::string at = std::string(" after ") + op;
    S.expect(r.size() == m.size(), "size", num(r.size()) + " want " + num(m.size()) + at);
    S.expect(r.capacity() == cap, "capacity", num(r.capacity()) + " want " + num(cap) + at);
    S.expect(r.empty() == m.empty(), "empty", at); S.expect(r.full() == (m.size() == cap), "full", at);
    if (r.size() != m.size()) return;
    const R& c = r;
    if (!m.empty()) {
        S.expect(r.front() == m.front() && c.front() == m.front(), "front", at); S.expect(r.back() == m.back() && c.back() == m.back(), "back", at);
    }
    bool ok = true; size_t i = 0;
    for (auto it = r.begin(); it != r.end() && i <= m.size(); ++it, ++i) ok = ok && i < m.size() && *it == m[i];
    S.expect(ok && i == m.size(), "iteration", at); ok = true; i = 0;
    for (auto it = c.begin(); it != c.end() && i <= m.size(); it++, ++i) ok = ok && i < m.size() && *it == m[i];
    S.expect(ok && i == m.size(), "const-iteration", at); ok = true; i = 0;
    for (auto it = c.cbegin(); it != c.cend() && i <= m.size(); ++it, ++i) ok = ok && i < m.size() && *it == m[i];
    S.expect(ok && i == m.size(), "c-iteration", at); ok = true; i = 0;
    for (auto it = r.rbegin(); it != r.rend() && i <= m.size(); ++it, ++i) ok = ok && i < m.size() && *it == m[m.size() - 1 - i];
    S.expect(ok && i == m.size(), "reverse-iteration", at); ok = true; i = 0;
    for (auto it = c.rbegin(); it != c.rend() && i <= m.size(); ++it, ++i) ok = ok && i < m.size() && *it == m[m.size() - 1 - i];
    S.expect(ok && i == m.size(), "const-reverse-iteration", at); ok = true; i = 0;
    for (auto it = c.crbegin(); it != c.crend() && i <= m.size(); ++it, ++i) ok = ok && i < m.size() && *it == m[m.size() - 1 - i];
    S.expect(ok && i == m.size(), "c-reverse-iteration", at); ok = true;
    for (i = 0; i < m.size(); ++i) {
        ok = ok && r[i] == m[i] && c[i] == m[i] && r.at(i) == m[i] && c.at(i) == m[i];
        auto it = r.begin() + static_cast<int>(i); ok = ok && *it == m[i] && it - r.begin() == static_cast<long>(i);
        auto e = r.end() - static_cast<int>(m.size() - i); ok = ok && *e == m[i] && e == it && !(e < it) && it <= e && e >= it;
        if (i) { auto p = it; --p; ok = ok && p < it && it > p && p != it && *p == m[i - 1]; }
    }
    S.expect(ok, "indexing", at);
    ok = true;
    for (size_t bad : {m.size(), m.size() + 1, cap, cap + 7, static_cast<size_t>(-1)}) if (bad >= m.size()) {
        bool thrown = false; try { (void) r.at(bad); } catch (const std::out_of_range&) { thrown = true; }
        bool thrown2 = false; try { (void) c.at(bad); } catch (const std::out_of_range&) { thrown2 = true; }
        ok = ok && thrown && thrown2;
    }
    S.expect(ok, "at-out-of-range", at);
    S.expect(static_cast<size_t>(std::distance(r.begin(), r.end())) == m.size(), "distance", at);
    S.expect(r.data() == r.buffer().data() && r.buffer().size() == cap, "storage", at);
}

template <class T> void model_push_back(std::deque<T>& m, size_t cap, const T& v) { if (m.size() == cap) m.pop_front(); m.push_back(v); }
template <class T> void model_push_front(std::deque<T>& m, size_t cap, const T& v) { if (m.size() == cap) m.pop_back(); m.push_front(v); }

// Makes rings of one kind: `resizable` says whether resize() and the filling constructor exist.
template <class T> struct Vec { using R = edsp::ring_buffer<T>; static constexpr bool resizable = true;
    static std::unique_ptr<R> make(size_t n) { return std::unique_ptr<R>(new R(n)); }
    static std::unique_ptr<R> filled(size_t n, const T& v) { return std::unique_ptr<R>(new R(n, v)); }
    static void resize(R& r, size_t n) { r.resize(n); } };
template <class T, size_t N> struct Fix { using R = edsp::fixed_ring_buffer<T, N>; static constexpr bool resizable = false;
    static std::unique_ptr<R> make(size_t) { return std::unique_ptr<R>(new R()); }
    static std::unique_ptr<R> filled(size_t, const T& v) { std::unique_ptr<R> p(new R()); for (size_t i = 0; i < N; ++i) p->push_back(v); return p; }
    static void resize(R&, size_t) {} };

template <class K, class T> void histories(Site& S, size_t fixed_cap, long reps) {
    for (long k = 0; k < reps; ++k) {
        size_t cap = fixed_cap ? fixed_cap : k % 25 == 3 ? 1 + S.rng.below(3000) : 1 + S.rng.below(S.rng.coin(0.1) ? 64 : 9);
        uint64_t seed = S.rng.next(); bool fill = S.rng.coin(0.3);
        S.run("cap=" + num(cap) + (fill ? " filled" : " empty") + " seed=" + num(seed), seed, true, [&] {
            Rng r(seed); uint64_t v = 1; size_t C = cap; std::deque<T> m;
            auto p = fill ? K::filled(C, elem<T>(99)) : K::make(C);
            if (fill) m.assign(C, elem<T>(99));
            check_all(S, *p, m, C, fill ? "filling construction" : "construction");
            int bias = static_cast<int>(r.below(4)); // mostly push / balanced / mostly pop / front-heavy
            int n = static_cast<int>(8 + r.below(60));
            for (int s = 0; s < n; ++s) {
                int x = static_cast<int>(r.below(100)); const char* op = "nothing";
                int pb = bias == 0 ? 60 : bias == 3 ? 15 : 30, pf = pb + (bias == 3 ? 45 : 15);
                if (C > 64 && r.coin(0.2)) { op = "many push_back"; for (size_t i = r.below(2 * C); i > 0; --i) { auto e = elem<T>(++v); p->push_back(e); model_push_back(m, C, e); } }
                else if (x < pb) { auto e = elem<T>(++v); op = "push_back"; if (r.coin()) p->push_back(e); else { op = "emplace_back"; p->emplace_back(e); } model_push_back(m, C, e); }
                else if (x < pf) { auto e = elem<T>(++v); op = "emplace_front"; p->emplace_front(e); model_push_front(m, C, e); }
                else if (x < pf + 8) { if (!m.empty()) { op = "pop_front"; p->pop_front(); m.pop_front(); } }
                else if (x < pf + 16) { if (!m.empty()) { op = "pop_back"; p->pop_back(); m.pop_back(); } }
                else if (x < pf + 18) { op = "clear"; p->clear(); m.clear(); }
                else if (x < pf + 20) { if (K::resizable) { op = "resize"; C = cap > 64 ? 1 + r.below(3000) : 1 + r.below(12); K::resize(*p, C); m.clear(); } }
                else if (x < pf + 22) { op = "move-construct"; std::unique_ptr<typename K::R> q(new typename K::R(std::move(*p))); p = std::move(q); }
                else if (x < pf + 24) { op = "move-assign"; size_t C2 = fixed_cap ? fixed_cap : 1 + r.below(6); auto q = K::make(C2); for (size_t i = r.below(2 * C2); i > 0; --i) q->push_back(elem<T>(7)); *q = std::move(*p); p = std::move(q); }
                else if (x < pf + 28) { if (!m.empty()) { op = "write by index"; size_t i = r.below(m.size()); auto e = elem<T>(++v); (r.coin() ? (*p)[i] : p->at(i)) = e; m[i] = e; } }
                else if (x < pf + 31) { if (!m.empty()) { op = "write by iterator"; size_t i = r.below(m.size()); auto e = elem<T>(++v); *(p->begin() + static_cast<int>(i)) = e; m[i] = e; } }
                else if (x < pf + 33) { if (!m.empty()) { op = "write front/back"; auto e = elem<T>(++v); if (r.coin()) { p->front() = e; m.front() = e; } else { p->back() = e; m.back() = e; } } }
                else if (x < pf + 36) { op = "std::reverse"; std::reverse(p->begin(), p->end()); std::reverse(m.begin(), m.end()); }
                else { op = "std::rotate"; if (!m.empty()) { size_t i = r.below(m.size()); std::rotate(p->begin(), p->begin() + static_cast<int>(i), p->end()); std::rotate(m.begin(), m.begin() + static_cast<long>(i), m.end()); } }
                check_all(S, *p, m, C, op);
                S.cover("capacity/size", num(C) + "/" + num(m.size())); S.count("operations"); S.cover("op", op);
                if (m.size() == C) S.count("states-full"); if (m.empty()) S.count("states-empty");
            }
        });
    }
}
}
SITE("C20", "ring_buffer<int>") { histories<Vec<int>, int>(S, 0, S.reps(400, 12000)); }
SITE("C20", "ring_buffer<double>") { histories<Vec<double>, double>(S, 0, S.reps(400, 12000)); }
SITE("C20", "ring_buffer<string>") { histories<Vec<std::string>, std::string>(S, 0, S.reps(400, 12000)); }
SITE("C20", "ring_buffer<tracked>") { histories<Vec<Tracked>, Tracked>(S, 0, S.reps(300, 10000)); }
SITE("C20", "fixed_ring_buffer<int,1>") { histories<Fix<int, 1>, int>(S, 1, S.reps(100, 3000)); }
SITE("C20", "fixed_ring_buffer<int,2>") { histories<Fix<int, 2>, int>(S, 2, S.reps(100, 3000)); }
SITE("C20", "fixed_ring_buffer<double,5>") { histories<Fix<double, 5>, double>(S, 5, S.reps(300, 9000)); }
SITE("C20", "fixed_ring_buffer<string,7>") { histories<Fix<std::string, 7>, std::string>(S, 7, S.reps(300, 9000)); }
SITE("C20", "fixed_ring_buffer<tracked,16>") { histories<Fix<Tracked, 16>, Tracked>(S, 16, S.reps(300, 9000)); }
SITE("C20", "sorting and searching a wrapped ring") {
    for (long k = 0; k < S.reps(300, 8000); ++k) {
        size_t cap = 1 + S.rng.below(60); size_t pushes = S.rng.below(3 * cap + 1); uint64_t seed = S.rng.next();
        S.run("cap=" + num(cap) + " pushes=" + num(pushes), seed, pushes > 1, [&] {
            Rng r(seed); edsp::ring_buffer<int> b(cap); std::deque<int> m;
            for (size_t i = 0; i < pushes; ++i) { int v = static_cast<int>(r.below(50)); b.push_back(v); model_push_back(m, cap, v); }
            std::sort(b.begin(), b.end()); std::sort(m.begin(), m.end()); check_all(S, b, m, cap, "std::sort");
            int x = static_cast<int>(r.below(50));
            S.expect(std::lower_bound(b.begin(), b.end(), x) - b.begin() == std::lower_bound(m.begin(), m.end(), x) - m.begin(), "lower_bound");
            S.expect(std::find(b.begin(), b.end(), x) - b.begin() == std::find(m.begin(), m.end(), x) - m.begin(), "find");
            S.expect(std::accumulate(b.begin(), b.end(), 0) == std::accumulate(m.begin(), m.end(), 0), "accumulate");
        });
    }
}
VM_MAIN
