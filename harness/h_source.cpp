// C09: oscillators; C10: envelopes and mu-law companding; C11: random and noise generators.
#include "vm.hpp"
#include <chrono>
#include <ratio>
#include <boost/math/distributions.hpp>
#include <edsp/math/constant.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/oscillator.hpp>
#include <edsp/random.hpp>
#include <edsp/experimental/envelope/adsr.hpp>
#include <edsp/experimental/envelope/ar.hpp>
#include <edsp/experimental/quantizer/mu_law_compressor.hpp>
using namespace vm;

// The generators are seeded from the clock: a clock of our own makes the runs reproducible.
namespace std { namespace chrono { inline namespace _V2 {
    system_clock::time_point system_clock::now() noexcept {
        static uint64_t k = 0;
        uint64_t v = mix(vm::cfg().seed * 977 + 5, ++k) >> 3;
        return time_point(duration(static_cast<rep>(v)));
    }
}}}

// ------------------------------------------------------------------------------- C09
namespace {
enum Kind { SIN, SQUARE, SAW, TRI };
ld frac(ld x) { return x - std::floor(x); }
// expected value at time t and the largest change a relative perturbation d of the phase can cause (-1: at a jump)
ld wave(Kind k, ld f, ld t, ld ph, ld w, ld dphase, ld& slack) {
    slack = 0;
    if (k == SIN) { slack = dphase * 2 * PI; return std::sin(2 * PI * f * t + ph); }
    ld x = frac(f * t);
    auto near = [&](ld edge) { ld d = std::fabs(x - edge); return d <= dphase || std::fabs(d - 1) <= dphase; };
    if (k == SQUARE) { if (near(0) || near(w) || near(1)) slack = -1; return x < w ? 1 : -1; }
    if (k == TRI) w = 0.5L;
    // piecewise linear; discontinuous only when w is 0 or 1
    if (w <= 0) { if (near(0) || near(1)) slack = -1; else slack = 2 * dphase; return 1 - 2 * x; }
    if (w >= 1) { if (near(0) || near(1)) slack = -1; else slack = 2 * dphase; return 2 * x - 1; }
    slack = 2 * dphase / std::min(w, 1 - w) + dphase;
    return x < w ? 2 * x / w - 1 : 1 - 2 * (x - w) / (1 - w);
}
template <class T> struct Osc {
    Kind k; std::unique_ptr<edsp::oscillators::sin_oscillator<T>> s; std::unique_ptr<edsp::oscillators::square_oscillator<T>> q;
    std::unique_ptr<edsp::oscillators::sawtooth_oscillator<T>> w; std::unique_ptr<edsp::oscillators::triangular_oscillator<T>> t;
    Osc(Kind k_, T a, T fs, T f, T x) : k(k_) {
        if (k == SIN) s.reset(new edsp::oscillators::sin_oscillator<T>(a, fs, f, x));
        if (k == SQUARE) q.reset(new edsp::oscillators::square_oscillator<T>(a, fs, f, x));
        if (k == SAW) w.reset(new edsp::oscillators::sawtooth_oscillator<T>(a, fs, f, x));
        if (k == TRI) t.reset(new edsp::oscillators::triangular_oscillator<T>(a, fs, f));
    }
    edsp::oscillators::oscillator<T>& base() { return k == SIN ? static_cast<edsp::oscillators::oscillator<T>&>(*s) : k == SQUARE ? static_cast<edsp::oscillators::oscillator<T>&>(*q) : k == SAW ? static_cast<edsp::oscillators::oscillator<T>&>(*w) : static_cast<edsp::oscillators::oscillator<T>&>(*t); }
    T tick() { return k == SIN ? (*s)() : k == SQUARE ? (*q)() : k == SAW ? (*w)() : (*t)(); }
    void shape(T x) { if (k == SIN) s->set_phase(x); if (k == SQUARE) q->set_duty(x); if (k == SAW) w->set_width(x); }
    T shape() { return k == SIN ? s->phase() : k == SQUARE ? q->duty() : k == SAW ? w->width() : T(0.5); }
    Osc copy() { Osc o(*this, 0); return o; }
private:
    Osc(Osc& o, int) : k(o.k) { if (o.s) s.reset(new edsp::oscillators::sin_oscillator<T>(*o.s)); if (o.q) q.reset(new edsp::oscillators::square_oscillator<T>(*o.q)); if (o.w) w.reset(new edsp::oscillators::sawtooth_oscillator<T>(*o.w)); if (o.t) t.reset(new edsp::oscillators::triangular_oscillator<T>(*o.t)); }
};
const char* kn[] = {"sin", "square", "sawtooth", "triangular"};

template <class T> void osc_history(Site& S, Kind k, long reps) {
    for (long c = 0; c < reps; ++c) {
        uint64_t seed = S.rng.next(); Rng r(seed);
        auto amp_ = [&] { return static_cast<T>(r.coin(0.2) ? 1 : r.uniform(-4, 4)); };
        auto fs_ = [&] { static const double F[] = {8000, 44100, 48000, 1, 100, 96000, 22050}; return static_cast<T>(r.coin(0.6) ? F[r.below(7)] : r.uniform(10, 50000)); };
        auto shape_ = [&] { return static_cast<T>(k == SIN ? r.uniform(-7, 7) : r.coin(0.2) ? (r.coin() ? 0.0 : 1.0) : r.coin(0.2) ? 0.5 : r.uniform(0.02, 0.98)); };
        T amp = amp_(), fs = fs_(), f = static_cast<T>(fs * (r.coin(0.2) ? 0.25 : r.uniform(0.0005, 0.6))), sh = shape_();
        if (k == TRI) sh = T(0.5);
        S.run(std::string(kn[k]) + "<" + tname<T>() + "> amp=" + num(amp) + " fs=" + num(fs) + " f=" + num(f) + " shape=" + num(sh) + " seed=" + num(seed), seed, amp != 0, [&] {
            Osc<T> o(k, amp, fs, f, sh);
            ld t = 0; T last_t = 0;
            const int n = c % 60 == 17 ? static_cast<int>(3000 + r.below(20000)) : static_cast<int>(20 + r.below(120)); const double busy = n > 1000 ? 0.002 : 0.12; long since = 0; ld base_t = 0;
            for (int i = 0; i < n; ++i) {
                if (r.coin(busy)) switch (r.below(9)) {
                    case 0: amp = amp_(); o.base().set_amplitude(amp); S.cover("op", "amplitude"); break;
                    case 1: f = static_cast<T>(fs * r.uniform(0.0005, 0.6)); o.base().set_frequency(f); S.cover("op", "frequency"); break;
                    case 2: if (k != TRI) { sh = shape_(); o.shape(sh); S.cover("op", "shape"); } break;
                    case 3: o.base().reset(); since = 0; base_t = 0; S.cover("op", "reset"); break;
                    case 4: base_t = static_cast<T>(r.uniform(0, 50) / static_cast<double>(f)); o.base().set_timestamp(static_cast<T>(base_t)); since = 0; S.cover("op", "timestamp"); break;
                    case 5: { T nf = fs_(); base_t = o.base().timestamp(); since = 0; fs = nf; o.base().set_sample_rate(fs); S.cover("op", "sample_rate"); break; }
                    case 6: { Osc<T> cp = o.copy(); for (int z = 0; z < 5; ++z) cp.tick(); cp.base().set_amplitude(99); cp.shape(T(0.1)); S.cover("op", "copy"); break; }
                    case 7: { Osc<T> cp = o.copy(); o = std::move(cp); S.cover("op", "continue-from-copy"); break; }
                    default: o.base().set_amplitude(amp); o.base().set_frequency(f); break;
                }
                S.expect(o.base().amplitude() == amp && o.base().frequency() == f && o.base().sample_rate() == fs, "getters");
                S.close(o.shape(), sh, 4 * eps<T>() * std::fabs(static_cast<ld>(sh)), "shape-getter");
                S.close(o.base().sampling_period(), 1.0L / static_cast<ld>(fs), 2 * eps<T>() / static_cast<ld>(fs), "sampling-period");
                // the clock: since the last reset / set_timestamp / set_sample_rate, one period per sample
                t = base_t + static_cast<ld>(since) / static_cast<ld>(fs);
                last_t = o.base().timestamp();
                S.close(last_t, t, 2 * eps<T>() * static_cast<ld>(since + 1) * (std::fabs(t) + 1 / static_cast<ld>(fs)), "timestamp");
                T y = o.tick(); ++since;
                ld x = static_cast<ld>(f) * static_cast<ld>(last_t), slack, dph = 8 * eps<T>() * (std::fabs(x) + 1);
                ld ref = wave(k, f, last_t, k == SIN ? static_cast<ld>(sh) : 0, sh, dph, slack);
                if (k == SIN) slack += 8 * eps<T>() * (std::fabs(static_cast<ld>(sh)) + 1);
                ld A = std::fabs(static_cast<ld>(amp));
                if (slack < 0) { S.expect(std::fabs(std::fabs(static_cast<ld>(y)) - A) <= A * (16 * dph + 8 * eps<T>()), "at-edge", num(y)); S.count("samples-at-a-jump"); }
                else { S.close(y, ref * static_cast<ld>(amp), A * (slack + 16 * eps<T>()), "value", "t=" + num(last_t)); S.count("samples-compared"); }
                S.expect(std::fabs(static_cast<ld>(y)) <= A * (1 + 8 * eps<T>() + (slack > 0 ? slack : 0)), "bounded", num(y));
            }
        });
    }
}
}
SITE("C09", "sin<double>") { osc_history<double>(S, SIN, S.reps(1500, 60000)); }
SITE("C09", "sin<float>") { osc_history<float>(S, SIN, S.reps(1500, 60000)); }
SITE("C09", "square<double>") { osc_history<double>(S, SQUARE, S.reps(1500, 60000)); }
SITE("C09", "square<float>") { osc_history<float>(S, SQUARE, S.reps(1500, 60000)); }
SITE("C09", "sawtooth<double>") { osc_history<double>(S, SAW, S.reps(1500, 60000)); }
SITE("C09", "sawtooth<float>") { osc_history<float>(S, SAW, S.reps(1500, 60000)); }
SITE("C09", "triangular<double>") { osc_history<double>(S, TRI, S.reps(1500, 60000)); }
SITE("C09", "triangular<float>") { osc_history<float>(S, TRI, S.reps(1500, 60000)); }
SITE("C09", "long runs") {
    // period and mean of a long run: every period has the same duty and the frequency does not drift
    for (long c = 0; c < S.reps(24, 300); ++c) {
        Kind k = static_cast<Kind>(c % 4); int P = static_cast<int>(S.rng.range(8, 200)); double fs = S.rng.uniform(1000, 48000), f = fs / P, duty = S.rng.uniform(0.1, 0.9);
        long N = S.reps(30000, 200000);
        S.run(std::string(kn[k]) + " period=" + std::to_string(P) + " fs=" + num(fs) + " duty=" + num(duty) + " N=" + std::to_string(N), static_cast<uint64_t>(c) * 977 + static_cast<uint64_t>(P), true, [&] {
            Osc<double> o(k, 1, fs, f, k == SIN ? 0.0 : duty); std::vector<double> y(static_cast<size_t>(N)); for (auto& v : y) v = o.tick();
            long ups = 0; for (size_t i = 1; i < y.size(); ++i) if (y[i - 1] < 0 && y[i] >= 0) ++ups;
            S.expect(std::labs(ups - N / P) <= 2, "frequency", std::to_string(ups) + " periods, want " + std::to_string(N / P));
            ld bad = 0, d;
            for (size_t i = static_cast<size_t>(P); i < y.size(); ++i) { d = std::fabs(static_cast<ld>(y[i] - y[i - static_cast<size_t>(P)])); if (k == SQUARE || k == SAW) { if (d > 1e-6L) ++bad; } else bad = std::max(bad, d > 1e-6L ? 1e9L : 0.0L); }
            // a sample that falls exactly on an edge may go either way by rounding
            S.expect(bad <= static_cast<ld>(3 * N / P), "periodic", num(bad));
            if (k == SQUARE) { ld act = 0; for (double v : y) act += v > 0; S.close(act / N, duty, 1.5L / P, "duty-cycle"); }
        });
    }
}

// ------------------------------------------------------------------------------- C10
namespace {
struct AdsrModel {
    enum St { IDLE, ATT, DEC, SUS, REL } st = IDLE;
    ld fs = 44100, target = 0, v = 0, ar = 0.001L, dr = 0.001L, rr = 0.001L, rt = -1, sus = 0.5L;
    bool ambiguous = false; ld err = 0;
    void tie(ld a, ld b, ld rate) { if (std::fabs(a - b) <= 1e-3L * rate + 8 * err) ambiguous = true; }
    void step() {
        switch (st) {
            case ATT: v += ar; tie(v, target, ar); if (v >= target) { v = target; target = sus; st = DEC; } break;
            case DEC: if (v > sus) { v -= dr; tie(v, sus, dr); if (v <= sus) { v = sus; st = SUS; } } else { v += dr; if (v != sus) tie(v, sus, dr); if (v >= sus) { v = sus; st = SUS; } } break;
            case REL: v -= rr; tie(v, 0, rr); if (v <= 0) { v = 0; st = IDLE; } break;
            default: break;
        }
    }
};
template <class T> void adsr_history(Site& S, long reps) {
    for (long c = 0; c < reps; ++c) {
        uint64_t seed = S.rng.next();
        S.run(std::string("adsr<") + tname<T>() + "> seed=" + num(seed), seed, true, [&] {
            Rng r(seed); edsp::envelope::adsr<T> e, unit; AdsrModel m; ld err = 0; const ld E = eps<T>();
            auto both = [&](auto f) { f(e); f(unit); };
            long samples = 0;
            for (int a = 0; a < 40 && !m.ambiguous; ++a) {
                int x = static_cast<int>(r.below(12)); bool idle = m.st == AdsrModel::IDLE;
                if (idle && x < 7) {
                    T p = static_cast<T>(std::exp(r.uniform(-7, -0.3)));
                    switch (x) {
                        case 0: both([&](auto& q) { q.set_attack_rate(p); }); m.ar = p; S.expect(e.attack_rate() == p, "attack_rate"); break;
                        case 1: both([&](auto& q) { q.set_decay_rate(p); }); m.dr = p; S.expect(e.decay_rate() == p, "decay_rate"); break;
                        case 2: both([&](auto& q) { q.set_release_rate(p); }); m.rr = p; m.rt = -1; S.expect(e.release_rate() == p, "release_rate"); break;
                        case 3: { T s = static_cast<T>(r.uniform(0.05, 0.95)); both([&](auto& q) { q.set_sustain_level(s); }); m.sus = s; S.expect(e.sustain_level() == s, "sustain_level"); break; }
                        case 4: { T t = static_cast<T>(r.uniform(3, 60)) / static_cast<T>(m.fs); both([&](auto& q) { q.set_attack_time(t); }); m.ar = 1 / (static_cast<ld>(t) * m.fs); S.close(e.attack_time(), t, 8 * E * t, "attack_time"); S.close(e.attack_rate(), m.ar, 8 * E * m.ar, "attack_time->rate"); m.ar = e.attack_rate(); break; }
                        case 5: { T t = static_cast<T>(r.uniform(3, 60)) / static_cast<T>(m.fs); both([&](auto& q) { q.set_decay_time(t); }); m.dr = (1 - m.sus) / (static_cast<ld>(t) * m.fs); S.close(e.decay_time(), t, 16 * E * t, "decay_time"); S.close(e.decay_rate(), m.dr, 16 * E * m.dr, "decay_time->rate"); m.dr = e.decay_rate(); break; }
                        default: { T t = static_cast<T>(r.uniform(3, 60)) / static_cast<T>(m.fs); both([&](auto& q) { q.set_release_time(t); }); m.rt = t; m.rr = m.sus / (static_cast<ld>(t) * m.fs); S.expect(e.release_time() == t, "release_time"); S.close(e.release_rate(), m.rr, 8 * E * m.rr, "release_time->rate"); break; }
                    }
                    S.cover("op", x);
                } else if (x == 7) {
                    T fs = static_cast<T>(r.coin() ? 8000 : r.uniform(1000, 96000)); both([&](auto& q) { q.set_sample_rate(fs); });
                    ld k = m.fs / static_cast<ld>(fs); m.fs = fs; m.ar *= k; m.dr *= k; m.rr *= k;
                    S.close(e.attack_rate(), m.ar, 16 * E * m.ar, "rate rescaled"); S.close(e.decay_rate(), m.dr, 16 * E * m.dr, "rate rescaled"); S.close(e.release_rate(), m.rr, 16 * E * m.rr, "rate rescaled");
                    m.ar = e.attack_rate(); m.dr = e.decay_rate(); m.rr = e.release_rate(); S.cover("op", "sample_rate"); S.expect(e.sample_rate() == fs, "sample_rate");
                } else if (x == 8 && !idle) {
                    T t = static_cast<T>(r.uniform(0.05, 0.97)); both([&](auto& q) { q.set_target(t); }); m.target = t; m.sus = t;
                    if (std::fabs(m.v - m.target) <= err + 1e-4L) { m.ambiguous = true; break; }
                    m.st = m.v < m.target ? AdsrModel::ATT : AdsrModel::DEC; S.cover("op", "set_target");
                } else if (idle || m.st == AdsrModel::REL) {
                    if (idle && r.coin(0.3)) { T t = static_cast<T>(r.uniform(0.1, 2)); both([&](auto& q) { q.set_attack_target(t); }); m.target = t; S.expect(e.attack_target() == t, "attack_target"); S.cover("op", "attack_target"); }
                    both([&](auto& q) { q.key_on(); }); if (m.target <= 0) m.target = 1; m.st = AdsrModel::ATT; S.cover("op", "key_on");
                } else if (r.coin(0.5)) {
                    both([&](auto& q) { q.key_off(); }); m.target = 0; m.st = AdsrModel::REL; if (m.rt > 0) { m.rr = m.v / (m.rt * m.fs); S.close(e.release_rate(), m.rr, (4 * err + 16 * E * m.v) / (m.rt * m.fs), "release-rate-at-key-off"); m.rr = e.release_rate(); } S.cover("op", "key_off");
                }
                int n = static_cast<int>(r.below(r.coin(0.02) ? 20000 : r.coin(0.3) ? 400 : 25));
                std::vector<T> in(static_cast<size_t>(n)), out(in.size()); for (auto& z : in) z = static_cast<T>(r.gauss());
                auto ap = e; bool block = r.coin(); if (block) { ap.apply(in.begin(), in.end(), out.begin()); }
                for (int i = 0; i < n && !m.ambiguous; ++i) {
                    auto before = m.st; m.err = err; m.step(); ++samples; err += 8 * E * (std::fabs(m.v) + std::max(m.ar, std::max(m.dr, m.rr)));
                    if (m.st == AdsrModel::IDLE || m.st == AdsrModel::SUS) err = E * 4;
                    T v = unit(T(1)), y = e(in[static_cast<size_t>(i)]);
                    if (m.ambiguous) break;
                    S.close(v, m.v, err * 4 + 1e-9L * E, "level", "state " + std::to_string(before) + " sample " + std::to_string(samples));
                    if (m.st == AdsrModel::IDLE) S.expect(v == 0, "silent-when-idle");
                    if (before == AdsrModel::SUS) S.expect(v == static_cast<T>(m.v) || std::fabs(static_cast<ld>(v) - m.v) <= E, "sustain-holds");
                    S.close(y, static_cast<ld>(v) * static_cast<ld>(in[static_cast<size_t>(i)]), 2 * E * std::fabs(static_cast<ld>(v) * static_cast<ld>(in[static_cast<size_t>(i)])), "envelope*input");
                    if (block) S.expect(out[static_cast<size_t>(i)] == y, "apply=samples");
                    S.cover("transition", std::to_string(before) + ">" + std::to_string(m.st));
                }
            }
            S.count("samples", samples); if (m.ambiguous) S.count("histories-stopped-at-a-tie");
        });
    }
}
template <class T> void ar_history(Site& S, long reps) {
    for (long c = 0; c < reps; ++c) {
        uint64_t seed = S.rng.next(); Rng r(seed);
        double fs = r.coin() ? 44100 : r.uniform(1000, 96000), at = r.coin(0.15) ? 0 : std::exp(r.uniform(-3, 4)), rt = r.coin(0.15) ? 0 : std::exp(r.uniform(-3, 6)); bool rect = r.coin();
        S.run(std::string("ar<") + tname<T>() + "> fs=" + num(fs) + " attack=" + num(at) + "ms release=" + num(rt) + "ms" + (rect ? " rectified" : "") + " seed=" + num(seed), seed, true, [&] {
            T Fs = static_cast<T>(fs), A = static_cast<T>(at), R = static_cast<T>(rt); const ld E = eps<T>();
            edsp::envelope::ar<T> e(Fs, A, R, rect); ld y = 0, err = 0, lo = 0, hi = 0;
            auto gain = [](ld ms, ld f) { return ms > 0 ? std::exp(-1000 / (ms * f)) : 0.0L; };
            ld ga = gain(A, Fs), gr = gain(R, Fs);
            for (int a = 0; a < 12; ++a) {
                bool rs = false;
                switch (r.below(9)) {
                    case 0: e.reset(); rs = true; break;
                    case 1: A = static_cast<T>(std::exp(r.uniform(-3, 4))); e.set_attack_time(A); rs = true; break;
                    case 2: R = static_cast<T>(std::exp(r.uniform(-3, 6))); e.set_release_time(R); rs = true; break;
                    case 3: Fs = static_cast<T>(r.uniform(1000, 96000)); e.set_sample_rate(Fs); rs = true; break;
                    case 4: rect = !rect; e.set_rectification(rect); break;
                    default: break;
                }
                if (rs) { y = 0; err = 0; lo = hi = 0; ga = gain(A, Fs); gr = gain(R, Fs); S.count("restarts"); }
                S.expect(e.attack_time() == A && e.release_time() == R && e.sample_rate() == Fs && e.rectification() == rect, "getters");
                auto x = signal<T>(r, 1 + r.below(r.coin(0.02) ? 10000 : 60), static_cast<int>(r.below(NSHAPES)));
                std::vector<T> out(x.size()); auto cp = e; if (r.coin()) { auto ip = x; e.apply(ip.begin(), ip.end(), ip.begin()); out = ip; } else e.apply(x.begin(), x.end(), out.begin());
                for (size_t i = 0; i < x.size(); ++i) {
                    T one = cp(x[i]); S.expect(one == out[i], "apply=samples");
                    ld v = rect ? std::fabs(static_cast<ld>(x[i])) : static_cast<ld>(x[i]);
                    ld g = y < v ? ga : gr; ld last = y;
                    y = (1 - g) * v + g * last; err = std::max(ga, gr) * err + 8 * E * (std::fabs(v) + std::fabs(last)) + 4 * static_cast<ld>(std::numeric_limits<T>::min());
                    if (std::fabs(v - last) <= err) err += std::fabs(v - last);
                    S.close(out[i], y, err * 2, "follower");
                    lo = std::min(lo, v); hi = std::max(hi, v);
                    S.expect(out[i] >= lo - err - 4 * E * std::fabs(lo) && out[i] <= hi + err + 4 * E * hi, "between-extremes", num(out[i]));
                    S.count(y > last ? "samples-rising" : "samples-falling");
                }
                y = out.empty() ? y : static_cast<ld>(out.back()); err = 0; // continue from the observed state
            }
        });
    }
}
template <class T> void mu_law(Site& S, long reps) {
    for (long c = 0; c < reps; ++c) {
        size_t n = 1 + S.rng.below(60); T mx = static_cast<T>(S.rng.coin() ? 1 : std::exp(S.rng.uniform(-3, 10))); long mu = S.rng.coin(0.4) ? 255 : 1 + static_cast<long>(S.rng.below(2000));
        std::vector<T> x(n); for (auto& v : x) v = static_cast<T>(S.rng.coin(0.1) ? 0 : S.rng.coin(0.1) ? (S.rng.coin() ? mx : -mx) : static_cast<T>(S.rng.uniform(-1, 1) * static_cast<double>(mx)));
        S.run(std::string("mu-law<") + tname<T>() + "> max=" + num(mx) + " mu=" + num(mu) + " " + seq(x, 4), hash_bytes(x.data(), n), true, [&] {
            const ld E = eps<T>(), M = mx, MU = mu, L = std::log(1 + MU);
            auto in = Buf<T>::from(x); Buf<T> out(n), back(n), ex(n);
            edsp::quantizer::mu_law_compression(in.begin(), in.end(), out.begin(), mx, mu);
            edsp::quantizer::inverse_mu_law_compression(out.begin(), out.end(), back.begin(), mx, mu);
            edsp::quantizer::inverse_mu_law_compression(in.begin(), in.end(), ex.begin(), mx, mu);
            for (size_t i = 0; i < n; ++i) {
                ld a = std::fabs(static_cast<ld>(x[i])), s = x[i] < 0 ? -1 : 1;
                S.close(out[i], s * M * std::log(1 + MU * a / M) / L, 64 * E * M, "compressed");
                S.close(ex[i], s * M * (std::pow(1 + MU, a / M) - 1) / MU, 64 * E * M * L, "expanded");
                S.close(back[i], x[i], 128 * E * M * (1 + L), "expand(compress)"); S.expect(std::fabs(static_cast<ld>(out[i])) <= M * (1 + 8 * E), "bounded");
                S.expect(in[i] == x[i], "input-changed");
            }
            auto ip = x; edsp::quantizer::mu_law_compression(ip.begin(), ip.end(), ip.begin(), mx, mu); S.expect(ip == out.vec(), "in-place");
            auto so = x; std::sort(so.begin(), so.end()); edsp::quantizer::mu_law_compression(so.begin(), so.end(), so.begin(), mx, mu); bool mono = true; for (size_t i = 1; i < n; ++i) mono = mono && so[i] >= so[i - 1] - 4 * E * M; S.expect(mono, "monotone");
        });
    }
}
}
SITE("C10", "adsr<double>") { adsr_history<double>(S, S.reps(1500, 40000)); }
SITE("C10", "adsr<float>") { adsr_history<float>(S, S.reps(1500, 40000)); }
SITE("C10", "ar<double>") { ar_history<double>(S, S.reps(2000, 100000)); }
SITE("C10", "ar<float>") { ar_history<float>(S, S.reps(2000, 100000)); }
SITE("C10", "mu-law<double>") { mu_law<double>(S, S.reps(1500, 40000)); }
SITE("C10", "mu-law<float>") { mu_law<float>(S, S.reps(1500, 40000)); }
SITE("C10", "adsr times") {
    for (long c = 0; c < S.reps(400, 10000); ++c) {
        double fs = S.rng.uniform(1000, 48000); int na = static_cast<int>(S.rng.range(5, 200)), nd = static_cast<int>(S.rng.range(5, 200)), nr = static_cast<int>(S.rng.range(5, 200)); double sus = S.rng.uniform(0.1, 0.9);
        S.run("fs=" + num(fs) + " attack=" + std::to_string(na) + " decay=" + std::to_string(nd) + " release=" + std::to_string(nr) + " sustain=" + num(sus), static_cast<uint64_t>(c * 31 + na * 1000 + nd), true, [&] {
            edsp::envelope::adsr<double> e; e.set_sample_rate(fs); e.set_sustain_level(sus); e.set_attack_time(na / fs); e.set_decay_time(nd / fs); e.set_release_time(nr / fs);
            for (int i = 0; i < 7; ++i) S.expect(e(1.0) == 0, "idle before key-on");
            e.key_on(); int k = 0; double p = -1, v = 0; while ((v = e(1.0)) > p && v < 1 && k < 1000) { p = v; ++k; } ++k;
            S.expect(v == 1 && std::abs(k - na) <= 1, "attack-time", std::to_string(k) + " want " + std::to_string(na));
            k = 0; p = v; do { p = v; v = e(1.0); ++k; } while (v > sus && v < p && k < 1000);
            S.expect(v == sus && std::abs(k - nd) <= 1, "decay-time", std::to_string(k) + " want " + std::to_string(nd));
            for (int i = 0; i < 50; ++i) S.expect(e(1.0) == sus, "sustain");
            bool early = S.rng.coin(); (void) early; e.key_off(); k = 0; do { p = v; v = e(1.0); ++k; } while (v > 0 && v < p && k < 1000);
            S.expect(v == 0 && std::abs(k - nr) <= 1, "release-time", std::to_string(k) + " want " + std::to_string(nr));
            for (int i = 0; i < 7; ++i) S.expect(e(1.0) == 0, "idle after release");
        });
    }
}

// ------------------------------------------------------------------------------- C11
namespace {
// Kolmogorov-Smirnov: P(sqrt(n) D > 3.6) < 2e-11
void ks(Site& S, std::vector<double> v, const std::function<double(double)>& cdf, const char* kind) {
    std::sort(v.begin(), v.end()); double D = 0, n = static_cast<double>(v.size()); bool fin = true;
    for (size_t i = 0; i < v.size(); ++i) { if (!std::isfinite(v[i])) { fin = false; break; } double F = cdf(v[i]); D = std::max(D, std::max(F - static_cast<double>(i) / n, static_cast<double>(i + 1) / n - F)); }
    S.expect(fin, "not-a-number"); S.close(D * std::sqrt(n), 0, 3.6, kind);
}
// chi-square of a discrete distribution on 0..K-1 plus tail, Wilson-Hilferty normal score
void chi2(Site& S, const std::vector<double>& v, const std::function<double(int)>& pmf, int K, const char* kind) {
    std::vector<double> cnt(static_cast<size_t>(K) + 1), pr(cnt.size()); double n = static_cast<double>(v.size()), tot = 0;
    for (int k = 0; k < K; ++k) { pr[static_cast<size_t>(k)] = pmf(k); tot += pmf(k); } pr.back() = std::max(0.0, 1 - tot);
    bool ok = true; for (double x : v) { if (x < 0 || x != std::floor(x)) { ok = false; continue; } cnt[static_cast<size_t>(std::min<double>(x, K))]++; }
    S.expect(ok, "support");
    double c = 0, pe = 0, pc = 0; int df = -1; bool imp = false;
    for (size_t k = 0; k < cnt.size(); ++k) { if (pr[k] <= 1e-15 && cnt[k] > 0) imp = true; pe += pr[k] * n; pc += cnt[k]; if (pe >= 10) { c += (pc - pe) * (pc - pe) / pe; ++df; pe = pc = 0; } }
    S.expect(!imp, "support"); if (df < 1) return;
    double z = (std::cbrt(c / df) - (1 - 2.0 / (9 * df))) / std::sqrt(2.0 / (9 * df)); S.expect(z < 7, kind, "z=" + num(z)); S.count("chi-square-bins", df);
}
void uncorrelated(Site& S, const std::vector<double>& v, const char* kind) { // bounded samples: rank-free lag correlations
    double n = static_cast<double>(v.size()), m = 0; for (double x : v) m += x / n; double q = 0; for (double x : v) q += (x - m) * (x - m);
    if (std::all_of(v.begin(), v.end(), [&](double x) { return x == v[0]; })) return;
    for (size_t lag = 1; lag <= 5; ++lag) { double c = 0; for (size_t i = lag; i < v.size(); ++i) c += (v[i] - m) * (v[i - lag] - m); S.close(c / q * std::sqrt(n), 0, 7.5, kind, "lag " + std::to_string(lag)); }
}
template <class G> std::vector<double> draw(G& g, long n) { std::vector<double> v(static_cast<size_t>(n)); for (auto& x : v) x = static_cast<double>(g()); return v; }
using namespace edsp::random; using D = DistributionType;
const long N = 20000;
template <class G, class F> void one(Site& S, const std::string& d, G make, F check) {
    S.run(d, hash_str(d), true, [&] {
        auto g = make(); auto v = draw(g, N); check(v); S.count("draws", N);
        auto h = make(); auto w = draw(h, 64); S.expect(!std::equal(w.begin(), w.end(), v.begin()) || std::all_of(w.begin(), w.end(), [&](double x) { return x == w[0]; }), "two generators gave the same sequence");
    });
}
}
SITE("C11", "continuous distributions") {
    namespace bm = boost::math; Rng& r = S.rng;
    auto cdf = [&](auto d) { return [d](double x) { return bm::cdf(d, x); }; };
    for (long c = 0; c < S.reps(8, 400); ++c) {
        double a = r.uniform(-5, 5), b = a + r.uniform(0.1, 9), s = r.uniform(0.2, 4), k = r.uniform(0.6, 6);
        std::string p = " a=" + num(a) + " b=" + num(b) + " s=" + num(s) + " k=" + num(k);
        auto pos = [](auto f) { return [f](double x) { return x <= 0 ? 0.0 : f(x); }; };
        auto uni = [a, b](double x) { return std::min(1.0, std::max(0.0, (x - a) / (b - a))); };
        one(S, "uniform" + p, [&] { return random_generator<D::Uniform, double>(a, b); }, [&](auto& v) { ks(S, v, uni, "distribution"); uncorrelated(S, v, "independent"); for (double x : v) if (!(x >= a && x < b)) S.expect(false, "support"); });
        one(S, "uniform<float>" + p, [&] { return random_generator<D::Uniform, float>(static_cast<float>(a), static_cast<float>(b)); }, [&](auto& v) { ks(S, v, uni, "distribution"); uncorrelated(S, v, "independent"); });
        one(S, "exponential" + p, [&] { return random_generator<D::Exponential, double>(s); }, [&](auto& v) { ks(S, v, pos(cdf(bm::exponential(s))), "distribution"); });
        one(S, "gamma" + p, [&] { return random_generator<D::Gamma, double>(k, s); }, [&](auto& v) { ks(S, v, pos(cdf(bm::gamma_distribution<>(k, s))), "distribution"); });
        one(S, "weibull" + p, [&] { return random_generator<D::Weibull, double>(k, s); }, [&](auto& v) { ks(S, v, pos(cdf(bm::weibull(k, s))), "distribution"); });
        one(S, "extreme value" + p, [&] { return random_generator<D::ExtremeValue, double>(a, s); }, [&](auto& v) { ks(S, v, cdf(bm::extreme_value(a, s)), "distribution"); });
        one(S, "normal" + p, [&] { return random_generator<D::Normal, double>(a, s); }, [&](auto& v) { ks(S, v, cdf(bm::normal(a, s)), "distribution"); uncorrelated(S, v, "independent"); });
        one(S, "normal<float>" + p, [&] { return random_generator<D::Normal, float>(static_cast<float>(a), static_cast<float>(s)); }, [&](auto& v) { ks(S, v, cdf(bm::normal(a, s)), "distribution"); });
        one(S, "lognormal" + p, [&] { return random_generator<D::LogNormal, double>(a / 4, s / 4); }, [&](auto& v) { ks(S, v, pos(cdf(bm::lognormal(a / 4, s / 4))), "distribution"); });
        one(S, "chi squared" + p, [&] { return random_generator<D::ChiSquared, double>(k); }, [&](auto& v) { ks(S, v, pos(cdf(bm::chi_squared(k))), "distribution"); });
        one(S, "cauchy" + p, [&] { return random_generator<D::Cauchy, double>(a, s); }, [&](auto& v) { ks(S, v, cdf(bm::cauchy(a, s)), "distribution"); });
        one(S, "fisher" + p, [&] { return random_generator<D::Fisher, double>(k, s + 1); }, [&](auto& v) { ks(S, v, pos(cdf(bm::fisher_f(k, s + 1))), "distribution"); });
        one(S, "student" + p, [&] { return random_generator<D::Student, double>(k); }, [&](auto& v) { ks(S, v, cdf(bm::students_t(k)), "distribution"); });
        std::vector<double> iv{a, b, b + s}, w{k, s}, wl{k, s, 0.5};
        one(S, "piecewise constant" + p, [&] { return random_generator<D::PieceWiseConstant, double>(iv.begin(), iv.end(), w.begin()); }, [&](auto& v) {
            double P = k / (k + s); ks(S, v, [&](double x) { return x < a ? 0 : x < b ? P * (x - a) / (b - a) : x < b + s ? P + (1 - P) * (x - b) / s : 1.0; }, "distribution"); });
        one(S, "piecewise linear" + p, [&] { return random_generator<D::PieceWiseLinear, double>(iv.begin(), iv.end(), wl.begin()); }, [&](auto& v) {
            double A1 = (k + s) / 2 * (b - a), A2 = (s + 0.5) / 2 * s, T = A1 + A2;
            ks(S, v, [&](double x) { if (x < a) return 0.0; if (x < b) { double u = x - a; return (k * u + (s - k) * u * u / (2 * (b - a))) / T; } if (x < b + s) { double u = x - b; return (A1 + s * u + (0.5 - s) * u * u / (2 * s)) / T; } return 1.0; }, "distribution"); });
    }
}
SITE("C11", "discrete distributions") {
    namespace bm = boost::math; Rng& r = S.rng;
    auto pmf = [&](auto d) { return [d](int k) { return bm::pdf(d, k); }; };
    for (long c = 0; c < S.reps(12, 600); ++c) {
        double q = r.coin(0.2) ? (r.coin() ? 0.0 : 1.0) : r.uniform(0.02, 0.98), q2 = r.uniform(0.05, 0.9), l = r.uniform(0.3, 20); int n = static_cast<int>(r.range(1, 30));
        std::string p = " p=" + num(q) + " q=" + num(q2) + " lambda=" + num(l) + " n=" + std::to_string(n);
        auto ber = [q](int k) { return k == 0 ? 1 - q : k == 1 ? q : 0.0; };
        auto prob = [&](auto& v) { chi2(S, v, ber, 2, "distribution"); uncorrelated(S, v, "independent"); if (q == 0 || q == 1) S.expect(std::all_of(v.begin(), v.end(), [&](double x) { return x == q; }), "certain"); };
        one(S, "binary<double>" + p, [&] { return binary_generator<double>(q); }, prob);
        one(S, "binary<float>" + p, [&] { return binary_generator<float>(static_cast<float>(q)); }, prob);
        one(S, "bernoulli" + p, [&] { return random_generator<D::Bernoulli, bool>(q); }, prob);
        one(S, "binomial" + p, [&] { return random_generator<D::Binomial, int>(n, q2); }, [&](auto& v) { chi2(S, v, pmf(bm::binomial(n, q2)), n + 1, "distribution"); });
        one(S, "geometric" + p, [&] { return random_generator<D::Geometric, int>(q2); }, [&](auto& v) { chi2(S, v, pmf(bm::geometric(q2)), 60, "distribution"); });
        one(S, "poisson" + p, [&] { return random_generator<D::Poisson, int>(l); }, [&](auto& v) { chi2(S, v, pmf(bm::poisson(l)), 60, "distribution"); });
        one(S, "discrete" + p, [&] { return random_generator<D::Discrete, int>(std::initializer_list<double>{q2, l, 1.0}); }, [&](auto& v) { double T = q2 + l + 1; chi2(S, v, [&](int k) { return k == 0 ? q2 / T : k == 1 ? l / T : k == 2 ? 1 / T : 0.0; }, 3, "distribution"); });
        one(S, "white noise<int>" + p, [&] { return white_noise_generator<int>(-n, 2 * n); }, [&](auto& v) { auto w = v; for (auto& x : w) x += n; chi2(S, w, [&](int k) { return k <= 3 * n ? 1.0 / (3 * n + 1) : 0.0; }, 3 * n + 1, "distribution"); uncorrelated(S, v, "independent"); });
        double cv = r.uniform(-9, 9); S.run("constant " + num(cv), hash_str(num(cv)), true, [&] { constant_generator<double> g(cv); bool ok = true; for (int i = 0; i < 100; ++i) ok = ok && g() == cv; S.expect(ok, "constant"); });
        int lo = static_cast<int>(r.range(-20, 20)), hi = lo + static_cast<int>(r.range(0, 9));
        S.run("math::rand<int> in [" + std::to_string(lo) + "," + std::to_string(hi) + "]", hash_str(p), true, [&] {
            std::vector<double> v; for (int i = 0; i < 2000; ++i) v.push_back(edsp::math::rand(lo, hi) - lo);
            chi2(S, v, [&](int k) { return k <= hi - lo ? 1.0 / (hi - lo + 1) : 0.0; }, hi - lo + 1, "distribution"); });
        double a = r.uniform(-5, 5), b = a + r.uniform(0.1, 9);
        S.run("math::rand<double> in [" + num(a) + "," + num(b) + "]", hash_str(p), true, [&] { std::vector<double> v; for (int i = 0; i < 2000; ++i) v.push_back(edsp::math::rand(a, b)); ks(S, v, [&](double x) { return x < a ? 0 : x > b ? 1 : (x - a) / (b - a); }, "distribution"); });
    }
}
namespace {
// mean power of v (windowed segments) in a band of normalised frequencies, by direct DFT
double band(const std::vector<double>& v, double f0, double f1) {
    const size_t L = 512; double acc = 0; int cnt = 0;
    for (size_t s = 0; s + L <= v.size(); s += L) for (int j = 0; j < 6; ++j) {
        double f = f0 + (f1 - f0) * (j + 0.5) / 6, re = 0, im = 0;
        for (size_t i = 0; i < L; ++i) { double w = 0.5 - 0.5 * std::cos(2 * 3.141592653589793 * static_cast<double>(i) / L), t = 2 * 3.141592653589793 * f * static_cast<double>(i); re += w * v[s + i] * std::cos(t); im += w * v[s + i] * std::sin(t); }
        acc += re * re + im * im; ++cnt;
    }
    return acc / cnt;
}
double slope(const std::vector<double>& v) { return 10 * std::log10(band(v, 0.1, 0.2) / band(v, 0.0125, 0.025)) / 3; } // dB per octave
template <class T> void noises(Site& S) {
    for (long c = 0; c < S.reps(8, 200); ++c) {
        T mx = static_cast<T>(S.rng.uniform(0.1, 5)), mn = S.rng.coin(0.7) ? -mx : static_cast<T>(-S.rng.uniform(0, 4)); std::string p = std::string("<") + tname<T>() + "> in [" + num(mn) + "," + num(mx) + "]";
        auto uni = [mn, mx](double x) { return std::min(1.0, std::max(0.0, (x - mn) / (double(mx) - mn))); };
        auto inside = [&](const std::vector<double>& v, double tol) { for (double x : v) if (!(x >= mn - tol && x <= mx + tol)) { S.expect(false, "range", num(x)); return; } S.expect(true, "range"); };
        double A = std::max(std::fabs(double(mn)), std::fabs(double(mx))), E = static_cast<double>(eps<T>());
        one(S, "white" + p, [&] { return white_noise_generator<T>(mn, mx); }, [&](auto& v) { inside(v, 0); ks(S, v, uni, "uniform"); uncorrelated(S, v, "white"); if (mn == -mx) S.close(slope(v), 0, 0.6, "flat"); });
        one(S, "brown" + p, [&] { return brown_noise_generator<T>(mn, mx); }, [&](auto& v) {
            std::vector<double> w; double y = 0; for (double o : v) { double z = o / 3.5; w.push_back((1.02 * z - y) / 0.02); y = z; }
            inside(w, 4e2 * E * A); ks(S, w, uni, "driven by uniform white noise"); uncorrelated(S, w, "white"); if (mn == -mx) S.close(slope(v), -6, 1, "-6 dB per octave"); });
        one(S, "pink" + p, [&] { return pink_noise_generator<T>(mn, mx); }, [&](auto& v) {
            double b[7] = {}; const double P[] = {0.99886, 0.99332, 0.96900, 0.86650, 0.55000, -0.7616}, G[] = {0.0555179, 0.0750759, 0.1538520, 0.3104856, 0.5329522, -0.0168980}; std::vector<double> w;
            for (double o : v) { double rest = b[6], g = 0.5362; for (int k = 0; k < 6; ++k) { rest += P[k] * b[k]; g += G[k]; } double x = (o / 0.11 - rest) / g; w.push_back(x); for (int k = 0; k < 6; ++k) b[k] = P[k] * b[k] + G[k] * x; b[6] = 0.115926 * x; }
            inside(w, 2e3 * E * A); ks(S, w, uni, "driven by uniform white noise"); uncorrelated(S, w, "white"); if (mn == -mx) S.close(slope(v), -3, 1, "-3 dB per octave"); });
        one(S, "perlin" + p, [&] { return perlin_noise_generator<T>(); }, [&](auto& v) { bool in = true; double mean = 0, q = 0; for (double x : v) { in = in && x >= -1 - 4 * E && x <= 1 + 4 * E; mean += x / N; q += x * x / N; } S.expect(in, "range"); S.expect(q > 0.01 && std::fabs(mean) < 0.2, "spread", num(mean) + " " + num(q)); });
    }
}
}
SITE("C11", "noise<double>") { noises<double>(S); }
SITE("C11", "noise<float>") { noises<float>(S); }
VM_MAIN
