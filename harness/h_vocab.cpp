// C32: the vocabulary types (optional, any, variant, expected, string_view, span) against models with C++17 semantics.
// The contained type keeps a register of living objects, so that every construction over a living object, every
// destruction of a dead one, every leak and every value left behind in a source is seen.
#include "vm.hpp"
#include <edsp/types/any.hpp>
#include <edsp/types/expected.hpp>
#include <edsp/types/optional.hpp>
#include <edsp/types/span.hpp>
#include <edsp/types/string_view.hpp>
#include <edsp/types/variant.hpp>
using namespace vm;

static Site* CUR;
enum { MOVED = -7777 };
struct Boom {};
// construction and assignment may fail at a chosen moment
static long fuse = -1;
static void burn() { if (fuse >= 0 && fuse-- == 0) throw Boom(); }

template <int Tag> struct Tracked {
    static std::set<const void*>& live() { static std::set<const void*> s; return s; }
    int v;
    void born() { if (!live().insert(this).second) CUR->fail("constructed over a living object", "tag " + std::to_string(Tag)); }
    Tracked() : v(0) { burn(); born(); }
    explicit Tracked(int a) : v(a) { burn(); born(); }
    Tracked(int a, int b) : v(a * 1000 + b) { burn(); born(); }
    Tracked(const Tracked& o) : v(o.seen()) { burn(); born(); }
    Tracked(Tracked&& o) noexcept : v(o.seen()) { o.v = MOVED; born(); }
    Tracked& operator=(const Tracked& o) { seen(); burn(); v = o.seen(); return *this; }
    Tracked& operator=(Tracked&& o) noexcept { seen(); int w = o.seen(); o.v = MOVED; v = w; return *this; }
    ~Tracked() { if (!live().erase(this)) CUR->fail("destroyed an object that does not live", "tag " + std::to_string(Tag)); }
    int seen() const { if (!live().count(this)) CUR->fail("used an object that does not live", "tag " + std::to_string(Tag)); return v; }
    bool operator==(const Tracked& o) const { return seen() == o.seen(); }
    bool operator!=(const Tracked& o) const { return seen() != o.seen(); }
    bool operator<(const Tracked& o) const { return seen() < o.seen(); }
    bool operator>(const Tracked& o) const { return seen() > o.seen(); }
    bool operator<=(const Tracked& o) const { return seen() <= o.seen(); }
    bool operator>=(const Tracked& o) const { return seen() >= o.seen(); }
};
using A = Tracked<1>;
using B = Tracked<2>;
using D = Tracked<3>;
namespace std {
    template <int Tag> struct hash<Tracked<Tag>> { size_t operator()(const Tracked<Tag>& t) const { return static_cast<size_t>(t.seen()) * 31u; } };
}
template <class T> static long living() { return static_cast<long>(T::live().size()); }

// alignment beyond that of any fundamental type
struct alignas(64) Wide { double d[4]; Wide(double x = 0) : d{x, x, x, x} {} bool aligned() const { return reinterpret_cast<uintptr_t>(this) % 64 == 0; } };

template <class X, class Y> static void relations(Site& S, const X& x, const Y& y, bool eq, bool lt, bool gt, const char* kind) {
    S.expect((x == y) == eq, kind, "==");
    S.expect((x != y) == !eq, kind, "!=");
    S.expect((x < y) == lt, kind, "<");
    S.expect((x > y) == gt, kind, ">");
    S.expect((x <= y) == (lt || eq), kind, "<=");
    S.expect((x >= y) == (gt || eq), kind, ">=");
}

// ---------------------------------------------------------------------------------------------- optional
struct OptModel { bool has = false; int v = 0; };
using Opt = edsp::optional<A>;
static void check(Site& S, const std::vector<Opt>& o, const std::vector<OptModel>& m) {
    long n = 0;
    for (size_t i = 0; i < o.size(); ++i) {
        S.expect(o[i].has_value() == m[i].has && static_cast<bool>(o[i]) == m[i].has, "has_value");
        if (o[i].has_value() && m[i].has) {
            S.expect((*o[i]).seen() == m[i].v && o[i]->v == m[i].v && o[i].value().v == m[i].v, "value", std::to_string((*o[i]).v) + " want " + std::to_string(m[i].v));
            ++n;
        }
    }
    S.expect(living<A>() == n, "living objects", std::to_string(living<A>()) + " want " + std::to_string(n));
}
SITE("C32", "optional") {
    CUR = &S;
    for (long k = 0; k < S.reps(3000, 100000); ++k) {
        uint64_t seed = S.rng.next();
        S.run("history " + std::to_string(seed), seed, true, [&] {
            Rng r(seed);
            {
                std::vector<Opt> o(4);
                std::vector<OptModel> m(4);
                for (int step = 0; step < 40; ++step) {
                    size_t i = r.below(4), j = r.below(4);
                    int v = static_cast<int>(r.range(0, 5));
                    int op = static_cast<int>(r.below(20));
                    S.cover("operation and states", std::to_string(op) + (m[i].has ? "+" : "-") + (i == j ? "self" : m[j].has ? "+" : "-"));
                    switch (op) {
                        case 0: o[i] = nonstd::nullopt; m[i] = {}; break;
                        case 1: { A a(v); o[i] = a; m[i] = {true, v}; S.expect(a.seen() == v, "assignment took the value of its source"); break; }
                        case 2: o[i] = A(v); m[i] = {true, v}; break;
                        case 3: { A& ref = o[i].emplace(v); m[i] = {true, v}; S.expect(&ref == &*o[i], "emplace returns the object"); break; }
                        case 4: o[i].emplace(v, 2); m[i] = {true, v * 1000 + 2}; break;
                        case 5: o[i] = o[j]; m[i] = m[j]; break;
                        case 6: if (i != j) { o[i] = std::move(o[j]); m[i] = m[j]; if (m[j].has) m[j].v = MOVED; } break;
                        case 7: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
                        case 8: { using std::swap; swap(o[i], o[j]); std::swap(m[i], m[j]); break; }
                        case 9: o[i].reset(); m[i] = {}; break;
                        case 10: { Opt c(o[i]); S.expect(c.has_value() == m[i].has && (!m[i].has || c->v == m[i].v), "copy"); break; }
                        case 11: { Opt c(std::move(o[i])); S.expect(c.has_value() == m[i].has && (!m[i].has || c->v == m[i].v), "move"); if (m[i].has) m[i].v = MOVED; break; }
                        case 12: { bool thrown = false; try { (void) o[i].value(); } catch (const nonstd::bad_optional_access&) { thrown = true; } S.expect(thrown == !m[i].has, "value() of an empty one throws"); break; }
                        case 13: { A d(99); A got = o[i].value_or(d); S.expect(got.v == (m[i].has ? m[i].v : 99) && d.v == 99, "value_or"); break; }
                        case 14: if (m[i].has) { (*o[i]).v = v; m[i].v = v; } break;
                        case 15: if (m[i].has) { o[i]->v = v; m[i].v = v; } break;
                        case 16: {
                            bool eq = m[i].has == m[j].has && (!m[i].has || m[i].v == m[j].v);
                            bool lt = m[j].has && (!m[i].has || m[i].v < m[j].v), gt = m[i].has && (!m[j].has || m[j].v < m[i].v);
                            relations(S, o[i], o[j], eq, lt, gt, "comparison");
                            A a(v);
                            relations(S, o[i], a, m[i].has && m[i].v == v, !m[i].has || m[i].v < v, m[i].has && m[i].v > v, "comparison with a value");
                            relations(S, a, o[i], m[i].has && m[i].v == v, m[i].has && v < m[i].v, !m[i].has || v > m[i].v, "comparison of a value");
                            relations(S, o[i], nonstd::nullopt, !m[i].has, false, m[i].has, "comparison with nullopt");
                            relations(S, nonstd::nullopt, o[i], !m[i].has, m[i].has, false, "comparison of nullopt");
                            break;
                        }
                        case 17: if (m[i].has) { S.expect(std::hash<Opt>()(o[i]) == std::hash<A>()(*o[i]), "hash"); } break;
                        case 18: { auto c = nonstd::make_optional(A(v)); S.expect(c.has_value() && c->v == v, "make_optional"); break; }
                        case 19: {   // a copy that fails leaves nothing behind and the target as it was or without a value
                            A a(v);
                            fuse = static_cast<long>(r.below(2));
                            bool thrown = false;
                            try { if (r.coin()) o[i] = a; else { Opt c(a); } } catch (const Boom&) { thrown = true; }
                            fuse = -1;
                            S.count(thrown ? "failed copies" : "copies");
                            m[i] = {o[i].has_value(), o[i].has_value() ? o[i]->v : 0};
                            break;
                        }
                    }
                    check(S, o, m);
                }
            }
            S.expect(living<A>() == 0, "living objects after destruction", std::to_string(living<A>()));
            A::live().clear();
        });
    }
    S.run("conversions and alignment", 1, true, [&] {
        edsp::optional<int> a(3);
        edsp::optional<long> b(a), c;
        c = a;
        S.expect(*b == 3 && *c == 3 && *a == 3, "conversion");
        edsp::optional<std::string> s("text"), t;
        t = s;
        S.expect(*s == "text" && t == s, "string");
        std::string src = "a long enough string that it lives on the heap";
        edsp::optional<std::string> u(src);
        t = src;
        S.expect(src.size() == 46 && u == src && t == src, "the source of a copy keeps its value");
        for (int i = 0; i < 5; ++i) {
            std::unique_ptr<edsp::optional<std::unique_ptr<int>>> p(new edsp::optional<std::unique_ptr<int>>(std::unique_ptr<int>(new int(4))));
            auto q = std::move(*p);
            S.expect(q.has_value() && **q == 4 && p->has_value() && !**p, "move-only contents");
        }
        edsp::optional<Wide> w[3];
        for (auto& x : w) { x = Wide(2.5); S.expect(x->aligned() && x->d[3] == 2.5, "alignment"); }
    });
}

// ---------------------------------------------------------------------------------------------- any
struct AnyModel { int tag = 0, v = 0; };     // tag 0: empty, 1: A, 2: B, 3: int, 4: std::string
static const char* LONGS[] = {"", "short", "a string that is long enough to live on the heap", "another string that is long enough to live on the heap"};
static void check(Site& S, const std::vector<edsp::any>& o, const std::vector<AnyModel>& m) {
    long na = 0, nb = 0;
    const std::type_info* types[] = {&typeid(void), &typeid(A), &typeid(B), &typeid(int), &typeid(std::string)};
    for (size_t i = 0; i < o.size(); ++i) {
        S.expect(o[i].has_value() == (m[i].tag != 0), "has_value");
        S.expect(o[i].type() == *types[m[i].tag], "type");
        const A* a = nonstd::any_cast<A>(&o[i]); const B* b = nonstd::any_cast<B>(&o[i]); const int* n = nonstd::any_cast<int>(&o[i]); const std::string* s = nonstd::any_cast<std::string>(&o[i]);
        S.expect((a != nullptr) == (m[i].tag == 1) && (b != nullptr) == (m[i].tag == 2) && (n != nullptr) == (m[i].tag == 3) && (s != nullptr) == (m[i].tag == 4), "any_cast of a pointer");
        S.expect(nonstd::any_cast<long>(&o[i]) == nullptr, "any_cast to another type");
        if (a) { ++na; S.expect(a->seen() == m[i].v, "value", std::to_string(a->v) + " want " + std::to_string(m[i].v)); }
        if (b) { ++nb; S.expect(b->seen() == m[i].v, "value", std::to_string(b->v)); }
        if (n) S.expect(*n == m[i].v, "value");
        if (s) S.expect(*s == LONGS[m[i].v], "value", *s);
    }
    S.expect(living<A>() == na && living<B>() == nb, "living objects", std::to_string(living<A>()) + " " + std::to_string(living<B>()));
}
SITE("C32", "any") {
    CUR = &S;
    for (long k = 0; k < S.reps(3000, 100000); ++k) {
        uint64_t seed = S.rng.next();
        S.run("history " + std::to_string(seed), seed, true, [&] {
            Rng r(seed);
            {
                std::vector<edsp::any> o(4);
                std::vector<AnyModel> m(4);
                for (int step = 0; step < 40; ++step) {
                    size_t i = r.below(4), j = r.below(4);
                    int v = static_cast<int>(r.range(0, 3));
                    int op = static_cast<int>(r.below(18));
                    S.cover("operation and contents", std::to_string(op) + ":" + std::to_string(m[i].tag) + (i == j ? "self" : std::to_string(m[j].tag)));
                    switch (op) {
                        case 0: { A a(v); o[i] = a; m[i] = {1, v}; S.expect(a.seen() == v, "the source of an assignment keeps its value", std::to_string(a.v)); break; }
                        case 1: { const A a(v); o[i] = a; m[i] = {1, v}; break; }
                        case 2: o[i] = A(v); m[i] = {1, v}; break;
                        case 3: o[i] = B(v); m[i] = {2, v}; break;
                        case 4: { int x = v; o[i] = x; m[i] = {3, v}; break; }
                        case 5: { std::string s = LONGS[v]; o[i] = s; m[i] = {4, v}; S.expect(s == LONGS[v], "the source of an assignment keeps its value", s); break; }
                        case 6: { std::string s = LONGS[v]; edsp::any c(s); S.expect(s == LONGS[v], "the source of a construction keeps its value", s); o[i] = c; m[i] = {4, v}; S.expect(nonstd::any_cast<std::string>(c) == LONGS[v], "the source of a copy keeps its value"); break; }
                        case 7: o[i].emplace<B>(v, 3); m[i] = {2, v * 1000 + 3}; break;
                        case 8: { A a(v); o[i].emplace<A>(a); m[i] = {1, v}; S.expect(a.seen() == v, "the source of an emplace keeps its value"); break; }
                        case 9: o[i] = o[j]; m[i] = m[j]; break;
                        case 10: if (i != j) { o[i] = std::move(o[j]); m[i] = m[j]; o[j].reset(); m[j] = {}; } break;
                        case 11: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
                        case 12: { using std::swap; swap(o[i], o[j]); std::swap(m[i], m[j]); break; }
                        case 13: o[i].reset(); m[i] = {}; break;
                        case 14: { edsp::any c(o[i]); std::vector<edsp::any> x; x.push_back(c); S.expect(c.has_value() == (m[i].tag != 0) && c.type() == o[i].type(), "copy"); break; }
                        case 15: {
                            bool thrown = false; int got = -1;
                            try { got = nonstd::any_cast<A>(o[i]).v; } catch (const nonstd::bad_any_cast&) { thrown = true; }
                            S.expect(thrown == (m[i].tag != 1) && (thrown || got == m[i].v), "any_cast");
                            thrown = false;
                            try { got = nonstd::any_cast<const A&>(static_cast<const edsp::any&>(o[i])).v; } catch (const std::bad_cast&) { thrown = true; }
                            S.expect(thrown == (m[i].tag != 1) && (thrown || got == m[i].v), "any_cast to a reference");
                            break;
                        }
                        case 16: if (m[i].tag == 1) { nonstd::any_cast<A>(&o[i])->v = v; m[i].v = v; } break;
                        case 17: {   // strong guarantee of assignment
                            A a(v);
                            fuse = 0;
                            bool thrown = false;
                            try { if (r.coin()) o[i] = static_cast<const A&>(a); else if (m[j].tag == 1) o[i] = o[j]; else throw Boom(); } catch (const Boom&) { thrown = true; }
                            fuse = -1;
                            S.expect(thrown, "a failing copy reaches the caller");
                            break;
                        }
                    }
                    check(S, o, m);
                }
            }
            S.expect(living<A>() == 0 && living<B>() == 0, "living objects after destruction");
            A::live().clear(); B::live().clear();
        });
    }
}

// ---------------------------------------------------------------------------------------------- variant
using Var = edsp::variant<int, A, B, std::string>;
struct VarModel { size_t index = 0; int v = 0; };
static bool less(const VarModel& a, const VarModel& b) { return a.index != b.index ? a.index < b.index : a.index == 3 ? std::string(LONGS[a.v]) < LONGS[b.v] : a.v < b.v; }
struct Look {
    size_t operator()(const int& x) const { return 1000 + static_cast<size_t>(x); }
    size_t operator()(const A& x) const { return 100000 + static_cast<size_t>(x.seen()); }
    size_t operator()(const B& x) const { return 200000 + static_cast<size_t>(x.seen()); }
    size_t operator()(const std::string& x) const { return 300000 + x.size(); }
};
struct LookTwo { template <class X, class Y> size_t operator()(const X& x, const Y& y) const { return Look()(x) * 1000003u + Look()(y); } };
static size_t look(const VarModel& m) { return m.index == 0 ? 1000 + static_cast<size_t>(m.v) : m.index == 3 ? 300000 + std::strlen(LONGS[m.v]) : m.index * 100000 + static_cast<size_t>(m.v); }
static void check(Site& S, const std::vector<Var>& o, const std::vector<VarModel>& m) {
    long na = 0, nb = 0;
    for (size_t i = 0; i < o.size(); ++i) {
        if (!S.expect(o[i].index() == m[i].index, "index", std::to_string(o[i].index()) + " want " + std::to_string(m[i].index))) continue;
        S.expect(nonstd::holds_alternative<int>(o[i]) == (m[i].index == 0) && nonstd::holds_alternative<A>(o[i]) == (m[i].index == 1) && nonstd::holds_alternative<B>(o[i]) == (m[i].index == 2) && nonstd::holds_alternative<std::string>(o[i]) == (m[i].index == 3), "holds_alternative");
        const int* p0 = nonstd::get_if<int>(&o[i]); const A* p1 = nonstd::get_if<A>(&o[i]); const B* p2 = nonstd::get_if<2>(&o[i]); const std::string* p3 = nonstd::get_if<3>(&o[i]);
        S.expect((p0 != nullptr) == (m[i].index == 0) && (p1 != nullptr) == (m[i].index == 1) && (p2 != nullptr) == (m[i].index == 2) && (p3 != nullptr) == (m[i].index == 3), "get_if");
        if (p0) S.expect(*p0 == m[i].v, "value");
        if (p1) { ++na; S.expect(p1->seen() == m[i].v, "value", std::to_string(p1->v) + " want " + std::to_string(m[i].v)); }
        if (p2) { ++nb; S.expect(p2->seen() == m[i].v, "value", std::to_string(p2->v) + " want " + std::to_string(m[i].v)); }
        if (p3) S.expect(*p3 == LONGS[m[i].v], "value", *p3);
    }
    S.expect(living<A>() == na && living<B>() == nb, "living objects", std::to_string(living<A>()) + " " + std::to_string(living<B>()) + " want " + std::to_string(na) + " " + std::to_string(nb));
}
SITE("C32", "variant") {
    CUR = &S;
    for (long k = 0; k < S.reps(3000, 100000); ++k) {
        uint64_t seed = S.rng.next();
        S.run("history " + std::to_string(seed), seed, true, [&] {
            Rng r(seed);
            {
                std::vector<Var> o(4);
                std::vector<VarModel> m(4);
                for (int step = 0; step < 40; ++step) {
                    size_t i = r.below(4), j = r.below(4);
                    int v = static_cast<int>(r.range(0, 3));
                    int op = static_cast<int>(r.below(18));
                    S.cover("operation and contents", std::to_string(op) + ":" + std::to_string(m[i].index) + (i == j ? "self" : std::to_string(m[j].index)));
                    switch (op) {
                        case 0: o[i] = 5 + v; m[i] = {0, 5 + v}; break;
                        case 1: { A a(v); o[i] = a; m[i] = {1, v}; S.expect(a.seen() == v, "the source of an assignment keeps its value"); break; }
                        case 2: o[i] = A(v); m[i] = {1, v}; break;
                        case 3: o[i] = B(v); m[i] = {2, v}; break;
                        case 4: { std::string s = LONGS[v]; o[i] = s; m[i] = {3, v}; S.expect(s == LONGS[v], "the source of an assignment keeps its value"); break; }
                        case 5: o[i] = std::string(LONGS[v]); m[i] = {3, v}; break;
                        case 6: { Var c(A{v}); o[i] = c; m[i] = {1, v}; S.expect(nonstd::get<A>(c).v == v, "the source of a copy keeps its value"); break; }
                        case 7: o[i].emplace<B>(v, 3); m[i] = {2, v * 1000 + 3}; break;
                        case 8: o[i].emplace<1>(v); m[i] = {1, v}; break;
                        case 9: o[i] = o[j]; m[i] = m[j]; break;
                        case 10: if (i != j && m[j].index != 3) { o[i] = std::move(o[j]); m[i] = m[j]; if (m[j].index) m[j].v = MOVED; } break;
                        case 11: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
                        case 12: { using std::swap; swap(o[i], o[j]); std::swap(m[i], m[j]); break; }
                        case 13: { Var c(o[i]); S.expect(c.index() == m[i].index && c == o[i], "copy"); Var d(std::move(c)); S.expect(d == o[i], "move"); break; }
                        case 14: {
                            bool thrown = false; int got = -1;
                            try { got = nonstd::get<A>(o[i]).v; } catch (const nonstd::bad_variant_access&) { thrown = true; }
                            S.expect(thrown == (m[i].index != 1) && (thrown || got == m[i].v), "get by type");
                            thrown = false;
                            try { got = nonstd::get<2>(o[i]).v; } catch (const nonstd::bad_variant_access&) { thrown = true; }
                            S.expect(thrown == (m[i].index != 2) && (thrown || got == m[i].v), "get by index");
                            break;
                        }
                        case 15: relations(S, o[i], o[j], !less(m[i], m[j]) && !less(m[j], m[i]), less(m[i], m[j]), less(m[j], m[i]), "comparison"); break;
                        case 16:
                            S.expect(nonstd::visit(Look(), o[i]) == look(m[i]), "visit");
                            S.expect(nonstd::visit(LookTwo(), o[i], o[j]) == look(m[i]) * 1000003u + look(m[j]), "visit of two");
                            break;
                        case 17: if (m[i].index == 1) { nonstd::get<A>(o[i]).v = v; m[i].v = v; } else if (m[i].index == 3) { nonstd::get<3>(o[i]) = LONGS[v]; m[i].v = v; } break;
                    }
                    check(S, o, m);
                }
            }
            S.expect(living<A>() == 0 && living<B>() == 0, "living objects after destruction");
            A::live().clear(); B::live().clear();
        });
    }
    S.run("alignment and size", 1, true, [&] {
        edsp::variant<char, Wide, short> w[3];
        for (auto& x : w) { x = Wide(2.5); S.expect(nonstd::get<Wide>(x).aligned() && nonstd::get<1>(x).d[3] == 2.5, "alignment"); x = 'c'; S.expect(nonstd::get<char>(x) == 'c', "narrow alternative"); }
    });
}

// ---------------------------------------------------------------------------------------------- expected
using Exp = edsp::expected<A, B>;
struct ExpModel { bool has = true; int v = 0; };
static void check(Site& S, const std::vector<Exp>& o, const std::vector<ExpModel>& m) {
    long na = 0, nb = 0;
    for (size_t i = 0; i < o.size(); ++i) {
        if (!S.expect(o[i].has_value() == m[i].has && static_cast<bool>(o[i]) == m[i].has, "has_value")) continue;
        if (m[i].has) { ++na; S.expect((*o[i]).seen() == m[i].v && o[i]->v == m[i].v && o[i].value().v == m[i].v, "value", std::to_string((*o[i]).v) + " want " + std::to_string(m[i].v)); }
        else { ++nb; S.expect(o[i].error().seen() == m[i].v, "error", std::to_string(o[i].error().v) + " want " + std::to_string(m[i].v)); }
    }
    S.expect(living<A>() == na && living<B>() == nb, "living objects", std::to_string(living<A>()) + " " + std::to_string(living<B>()) + " want " + std::to_string(na) + " " + std::to_string(nb));
}
SITE("C32", "expected") {
    CUR = &S;
    for (long k = 0; k < S.reps(3000, 100000); ++k) {
        uint64_t seed = S.rng.next();
        S.run("history " + std::to_string(seed), seed, true, [&] {
            Rng r(seed);
            {
                std::vector<Exp> o(4);
                std::vector<ExpModel> m(4);
                for (int step = 0; step < 40; ++step) {
                    size_t i = r.below(4), j = r.below(4);
                    int v = static_cast<int>(r.range(0, 3));
                    int op = static_cast<int>(r.below(16));
                    S.cover("operation and states", std::to_string(op) + (m[i].has ? "+" : "-") + (i == j ? "self" : m[j].has ? "+" : "-"));
                    switch (op) {
                        case 0: { A a(v); o[i] = a; m[i] = {true, v}; S.expect(a.seen() == v, "the source of an assignment keeps its value"); break; }
                        case 1: o[i] = A(v); m[i] = {true, v}; break;
                        case 2: o[i] = edsp::make_unexpected(B(v)); m[i] = {false, v}; break;
                        case 3: { const auto u = edsp::make_unexpected(B(v)); o[i] = u; m[i] = {false, v}; S.expect(u.value().v == v, "the source of an assignment keeps its value"); break; }
                        case 4: o[i].emplace(v, 3); m[i] = {true, v * 1000 + 3}; break;
                        case 5: { Exp& ref = (o[i] = o[j]); m[i] = m[j]; S.expect(&ref == &o[i], "copy assignment returns its target"); break; }
                        case 6: if (i != j) { o[i] = std::move(o[j]); m[i] = m[j]; m[j].v = MOVED; } break;
                        case 7: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
                        case 8: { using std::swap; swap(o[i], o[j]); std::swap(m[i], m[j]); break; }
                        case 9: { Exp c(o[i]); S.expect(c.has_value() == m[i].has && (m[i].has ? c->v : c.error().v) == m[i].v, "copy"); Exp d(std::move(c)); S.expect(d.has_value() == m[i].has && (m[i].has ? d->v : d.error().v) == m[i].v, "move"); break; }
                        case 10: {
                            bool thrown = false; int got = -1;
                            try { got = o[i].value().v; } catch (const nonstd::bad_expected_access<B>& e) { thrown = true; got = e.error().v; }
                            S.expect(thrown == !m[i].has && got == m[i].v, "value() throws the error");
                            break;
                        }
                        case 11: { A d(99); A got = o[i].value_or(d); S.expect(got.v == (m[i].has ? m[i].v : 99) && d.v == 99, "value_or"); break; }
                        case 12: {
                            bool eq = m[i].has == m[j].has && m[i].v == m[j].v;
                            S.expect((o[i] == o[j]) == eq, "==", std::to_string(m[i].has) + std::to_string(m[i].v) + " " + std::to_string(m[j].has) + std::to_string(m[j].v));
                            S.expect((o[i] != o[j]) == !eq, "!=");
                            A a(v); auto u = edsp::make_unexpected(B(v));
                            S.expect((o[i] == a) == (m[i].has && m[i].v == v) && (o[i] != a) == !(m[i].has && m[i].v == v), "comparison with a value");
                            S.expect((o[i] == u) == (!m[i].has && m[i].v == v) && (o[i] != u) == !(!m[i].has && m[i].v == v), "comparison with an error");
                            break;
                        }
                        case 13: if (m[i].has) (*o[i]).v = v; else o[i].error().v = v; m[i].v = v; break;
                        case 14: { Exp c(edsp::make_unexpected(B(v))); S.expect(!c.has_value() && c.error().v == v, "construction from an error"); o[i] = c; m[i] = {false, v}; break; }
                        case 15: { Exp c{A(v)}; S.expect(c.has_value() && c->v == v, "construction from a value"); Exp d; S.expect(d.has_value() && d->v == 0, "default construction"); break; }
                    }
                    check(S, o, m);
                }
            }
            S.expect(living<A>() == 0 && living<B>() == 0, "living objects after destruction");
            A::live().clear(); B::live().clear();
        });
    }
    S.run("simple contents and alignment", 1, true, [&] {
        edsp::expected<std::string, int> a("text"), b = edsp::make_unexpected(4);
        S.expect(a.has_value() && *a == "text" && !b.has_value() && b.error() == 4 && b.value_or("z") == "z", "string or int");
        std::swap(a, b);
        S.expect(b.has_value() && *b == "text" && !a.has_value() && a.error() == 4, "swapped");
        edsp::expected<Wide, char> w[3] = {Wide(2), edsp::make_unexpected('c'), Wide(3)};
        S.expect(w[0]->aligned() && w[2]->aligned() && w[2]->d[3] == 3 && w[1].error() == 'c', "alignment");
    });
}

// ---------------------------------------------------------------------------------------------- string_view
static size_t pos_(size_t p) { return p; }
SITE("C32", "string_view") {
    CUR = &S;
    const size_t npos = std::string::npos;
    for (long k = 0; k < S.reps(20000, 600000); ++k) {
        uint64_t seed = S.rng.next();
        Rng r(seed);
        auto text = [&](size_t n) { std::string s; for (size_t i = 0; i < n; ++i) { char c = "ab\0c\xe9"[r.below(5)]; s += c; } return s; };
        std::string hs = text(r.below(r.coin(0.2) ? 3 : 14)), ns = r.coin() ? text(r.below(4)) : hs.substr(hs.empty() ? 0 : r.below(hs.size() + 1), r.below(4));
        size_t p = r.coin(0.3) ? npos : r.below(hs.size() + 3), p2 = r.below(hs.size() + 2), n1 = r.coin(0.2) ? npos : r.below(6), n2 = r.below(5), q2 = r.below(ns.size() + 2);
        char c = hs.empty() || r.coin(0.3) ? 'z' : hs[r.below(hs.size())];
        S.run("'" + jesc(hs) + "' with '" + jesc(ns) + "' at " + std::to_string(p), seed, !hs.empty(), [&] {
            auto hb = Buf<char>::from(hs), nb = Buf<char>::from(ns);
            edsp::string_view h(hb.begin(), hs.size()), n(nb.begin(), ns.size());
            S.expect(h.size() == hs.size() && h.length() == hs.size() && h.empty() == hs.empty() && h.data() == hb.begin(), "size and data");
            S.expect(std::string(h.begin(), h.end()) == hs && std::string(h.rbegin(), h.rend()) == std::string(hs.rbegin(), hs.rend()) && std::string(h.cbegin(), h.cend()) == hs, "iteration");
            for (size_t i = 0; i < hs.size(); ++i) S.expect(h[i] == hs[i] && h.at(i) == hs[i], "element");
            if (!hs.empty()) S.expect(h.front() == hs.front() && h.back() == hs.back(), "front and back");
            bool thrown = false;
            try { (void) h.at(hs.size() + n2); } catch (const std::out_of_range&) { thrown = true; }
            S.expect(thrown, "at() beyond the end throws");
#define CMP(f) S.expect(pos_(h.f(n, p)) == hs.f(ns, p), #f, std::to_string(pos_(h.f(n, p))) + " want " + std::to_string(hs.f(ns, p)))
            CMP(find); CMP(rfind); CMP(find_first_of); CMP(find_last_of); CMP(find_first_not_of); CMP(find_last_not_of);
#undef CMP
#define CMP(f) S.expect(pos_(h.f(n)) == hs.f(ns), #f " from the default position"); S.expect(pos_(h.f(c, p)) == hs.f(c, p), #f " of a character"); S.expect(pos_(h.f(nb.begin(), p, ns.size())) == hs.f(ns.data(), p, ns.size()), #f " of an array")
            CMP(find); CMP(rfind); CMP(find_first_of); CMP(find_last_of); CMP(find_first_not_of); CMP(find_last_not_of);
#undef CMP
            thrown = false;
            bool want = false;
            std::string a, b;
            try { a = hs.substr(p2, n1); } catch (const std::out_of_range&) { want = true; }
            try { auto s = h.substr(p2, n1); b = std::string(s.data(), s.size()); } catch (const std::out_of_range&) { thrown = true; }
            S.expect(thrown == want && a == b, "substr");
            auto sgn = [](int x) { return (x > 0) - (x < 0); };
            S.expect(sgn(h.compare(n)) == sgn(hs.compare(ns)), "compare");
            int x = 9, y = 9;
            try { x = sgn(hs.compare(p2, n1, ns)); } catch (const std::out_of_range&) {}
            try { y = sgn(h.compare(p2, n1, n)); } catch (const std::out_of_range&) {}
            S.expect(x == y, "compare of a part");
            x = y = 9;
            try { x = sgn(hs.compare(p2, n1, ns, q2, n2)); } catch (const std::out_of_range&) {}
            try { y = sgn(h.compare(p2, n1, n, q2, n2)); } catch (const std::out_of_range&) {}
            S.expect(x == y, "compare of parts");
            relations(S, h, n, hs == ns, hs < ns, hs > ns, "comparison");
            { std::string cs = ns.c_str(); relations(S, h, cs.c_str(), hs == cs, hs < cs, hs > cs, "comparison with a C string"); edsp::string_view v(cs.c_str()); S.expect(v.size() == cs.size(), "from a C string"); edsp::string_view w(cs); S.expect(w.size() == cs.size() && w.data() == cs.data(), "from a string"); }
            size_t cut = hs.empty() ? 0 : r.below(hs.size() + 1);
            { auto v = h; v.remove_prefix(cut); S.expect(std::string(v.data(), v.size()) == hs.substr(cut), "remove_prefix"); }
            { auto v = h; v.remove_suffix(cut); S.expect(std::string(v.data(), v.size()) == hs.substr(0, hs.size() - cut), "remove_suffix"); }
            { auto v = h, w = n; v.swap(w); S.expect(v.data() == n.data() && w.data() == h.data() && v.size() == n.size() && w.size() == h.size(), "swap"); }
            { std::ostringstream o, e; o << h; e << hs; S.expect(o.str() == e.str(), "output"); }
            { std::ostringstream o, e; o.width(9); e.width(9); o << h << '|'; e << hs << '|'; S.expect(o.str() == e.str(), "padded output", jesc(o.str()) + " want " + jesc(e.str())); }
            { std::ostringstream o, e; o.width(9); e.width(9); o << std::left << h << '|'; e << std::left << hs << '|'; S.expect(o.str() == e.str(), "left-aligned output"); }
            { edsp::string_view other(ns.data(), ns.size()); S.expect(std::hash<edsp::string_view>()(n) == std::hash<edsp::string_view>()(other), "equal views have equal hashes"); }
            edsp::string_view empty;
            S.expect(empty.empty() && empty.size() == 0 && empty.begin() == empty.end() && pos_(empty.find(n)) == std::string().find(ns) && pos_(empty.rfind(n)) == std::string().rfind(ns), "default view");
        });
    }
}

// ---------------------------------------------------------------------------------------------- span
SITE("C32", "span") {
    CUR = &S;
    for (long k = 0; k < S.reps(10000, 300000); ++k) {
        uint64_t seed = S.rng.next();
        Rng r(seed);
        size_t n = r.below(12), off = r.below(n + 1), cnt = r.below(n - off + 1);
        S.run("length " + std::to_string(n) + " part " + std::to_string(off) + "+" + std::to_string(cnt), seed, n > 0, [&] {
            std::vector<int> v(n);
            for (auto& x : v) x = static_cast<int>(r.range(-3, 3));
            auto b = Buf<int>::from(v);
            edsp::span<int> s(b.begin(), static_cast<std::ptrdiff_t>(n)), e;
            edsp::span<const int> cs(s), ce(b.begin(), b.end());
            auto list = [](edsp::span<const int> x) { return std::vector<int>(x.begin(), x.end()); };
            S.expect(static_cast<size_t>(s.size()) == n && s.empty() == (n == 0) && s.data() == b.begin() && static_cast<size_t>(s.size_bytes()) == n * sizeof(int), "size and data");
            S.expect(e.empty() && e.size() == 0, "default span");
            S.expect(list(s) == v && list(cs) == v && list(ce) == v && std::vector<int>(s.rbegin(), s.rend()) == std::vector<int>(v.rbegin(), v.rend()) && std::vector<int>(s.cbegin(), s.cend()) == v, "iteration");
            for (size_t i = 0; i < n; ++i) S.expect(s[static_cast<std::ptrdiff_t>(i)] == v[i] && &s[static_cast<std::ptrdiff_t>(i)] == b.begin() + i, "element");
            auto part = [&](size_t o, size_t c) { return std::vector<int>(v.begin() + static_cast<long>(o), v.begin() + static_cast<long>(o + c)); };
            S.expect(list(s.first(static_cast<std::ptrdiff_t>(cnt))) == part(0, cnt), "first");
            S.expect(list(s.last(static_cast<std::ptrdiff_t>(cnt))) == part(n - cnt, cnt), "last");
            S.expect(list(s.subspan(static_cast<std::ptrdiff_t>(off))) == part(off, n - off), "subspan");
            S.expect(list(s.subspan(static_cast<std::ptrdiff_t>(off), static_cast<std::ptrdiff_t>(cnt))) == part(off, cnt), "subspan with a length");
            edsp::span<int> fv(v);
            S.expect(fv.data() == v.data() && static_cast<size_t>(fv.size()) == n, "from a vector");
            for (auto& x : s) x += 1;
            for (size_t i = 0; i < n; ++i) S.expect(b[i] == v[i] + 1, "writes go to the array");
            int arr[5] = {1, 2, 3, 4, 5};
            edsp::span<int, 5> fixed(arr);
            edsp::span<const int> dyn(fixed);
            S.expect(fixed.size() == 5 && dyn.size() == 5 && dyn.data() == arr && fixed[4] == 5 && fixed.first<2>().size() == 2 && fixed.last<2>()[0] == 4 && (fixed.subspan<1, 3>()[2] == 4), "fixed extent");
        });
    }
}

int main(int argc, char** argv) { return vm::main_(argc, argv); }
