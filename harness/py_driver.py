"""Monitors of the Python interface (C28): runs inside the interpreter that loads the pedsp module built with the
sanitizers from the current tree, calls every function on hostile arrays and compares with numpy oracles.
Same command line and report format as the C++ harnesses (vm.hpp)."""
import argparse, hashlib, json, math, os, struct, sys
import numpy as np

SITES = {}


def site(name):
    def deco(f):
        SITES[name] = f
        return f
    return deco


class Monitor:
    def __init__(self, a, name):
        self.a, self.name = a, name
        seed = int(hashlib.sha256(("C28|%s|%d" % (name, a.seed)).encode()).hexdigest()[:16], 16)
        self.rng = np.random.RandomState(seed % (1 << 32))
        self.case_seed = seed
        self.idx = -1
        self.evals = self.obs = 0
        self.hashes = set()
        self.viol, self.samples, self.dims, self.counters = [], [], {}, {}
        self.max_err = 0.0
        self.desc = ""
        self.prog = open(a.prog, "wb", buffering=0) if a.prog else None

    def reps(self, q, t):
        return t if self.a.tier == "thorough" else q

    def run(self, desc, body, nontrivial=True):
        """One case: body(rng) draws from a stream of its own, so that a case is the same whichever cases ran before."""
        self.idx += 1
        if self.a.only >= 0 and self.idx != self.a.only or self.idx < self.a.frm:
            return
        self.desc = desc
        if self.prog:
            self.prog.seek(0)
            self.prog.write(struct.pack("<qq", self.idx, 1) + desc.encode()[:2000] + b"\0")
        try:
            body(np.random.RandomState((self.case_seed * 1000003 + self.idx * 7919) % (1 << 32)))
        except AssertionError:
            raise
        except Exception as e:      # the case only does what must work: an exception is an observation
            self.fail("exception", "%s: %s" % (type(e).__name__, str(e)[:300]))
        self.evals += 1
        if nontrivial:
            self.hashes.add(hashlib.md5(desc.encode()).hexdigest())
        if self.idx % 97 == 0 and len(self.samples) < 4:
            self.samples.append(desc[:160])

    def fail(self, kind, msg):
        if len(self.viol) < 50:
            self.viol.append(dict(kind=kind, idx=self.idx, desc=self.desc[:1500], msg=msg[:600], log=""))

    def expect(self, ok, kind, msg=""):
        self.obs += 1
        if not ok:
            self.fail(kind, msg() if callable(msg) else msg)

    def cover(self, dim, val):
        k = "%s=%s" % (dim, val)
        self.dims[k] = self.dims.get(k, 0) + 1

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def close(self, got, ref, tol, kind, where=""):
        got, ref = np.asarray(got), np.asarray(ref)
        self.obs += max(1, got.size)
        if got.shape != ref.shape:
            return self.fail(kind + "-shape", "%s shape %s, expected %s" % (where, got.shape, ref.shape))
        if got.size == 0:
            return
        tol = np.broadcast_to(np.asarray(tol, dtype=float), got.shape)
        with np.errstate(all="ignore"):
            same = (got == ref) | (np.isnan(got) & np.isnan(ref))
            err = np.where(same, 0, np.abs(got - ref))
            bad = ~same & ~(err <= tol)
            r = np.where(tol > 0, err / np.where(tol > 0, tol, 1), 0)
            r = r[np.isfinite(r)]
            if r.size:
                self.max_err = max(self.max_err, float(np.max(r)))
        if np.any(bad):
            i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(bad)))
            g, f = np.atleast_1d(got)[i], np.atleast_1d(ref)[i]
            self.fail(kind, "%s at %s: %r, expected %r (tolerance %.3g)" % (where, i, g, f, np.atleast_1d(tol)[i]))

    def report(self):
        return dict(evaluations=self.evals, distinct=len(self.hashes), observations=self.obs, violations=self.viol, samples=self.samples,
                    dims=self.dims, counters=self.counters, max_err_over_tol=self.max_err)


# ---------------------------------------------------------------- arrays

LAYOUTS = ["plain", "step2", "reversed", "offset", "column", "readonly", "bigendian", "float32", "int64", "int32", "unaligned", "fortran-row", "step-3", "memmap-like"]


def layout(rng, values, kind, complex_=False):
    """An array showing (at least approximately, see the returned reference) the values through a memory layout."""
    t = np.complex128 if complex_ else np.float64
    v = np.asarray(values, dtype=t)
    n = len(v)
    junk = lambda k: (rng.standard_normal(k) * 1e3 + 77).astype(t)
    if kind == "step2":
        b = junk(2 * n + 1); b[0:2 * n:2] = v; a = b[0:2 * n:2]
    elif kind == "reversed":
        a = v[::-1].copy()[::-1]
    elif kind == "offset":
        b = junk(n + 7); b[3:3 + n] = v; a = b[3:3 + n]
    elif kind == "column":
        b = junk(n * 3).reshape(n, 3); b[:, 1] = v; a = b[:, 1]
    elif kind == "readonly":
        a = v.copy(); a.flags.writeable = False
    elif kind == "bigendian":
        a = v.astype(">c16" if complex_ else ">f8")
    elif kind == "float32":
        a = v.astype(np.complex64 if complex_ else np.float32)
    elif kind in ("int64", "int32"):
        lim = 1000
        a = np.clip(np.where(np.isfinite(v.real), v.real, 0), -lim, lim).round().astype(kind)
    elif kind == "unaligned":
        raw = np.zeros(v.nbytes + 1, dtype=np.uint8)
        raw[1:] = np.frombuffer(v.tobytes(), dtype=np.uint8)
        a = raw[1:].view(t)
    elif kind == "fortran-row":
        b = np.asfortranarray(junk(4 * n).reshape(4, n)); b[2, :] = v; a = b[2, :]
    elif kind == "step-3":
        b = junk(3 * n + 2); b[1:1 + 3 * n:3] = v[::-1]; a = b[1:1 + 3 * n:3][::-1]
    elif kind == "memmap-like":
        a = np.frombuffer(bytearray(v.tobytes()), dtype=t)
    else:
        a = v.copy()
    return a, a.astype(t)


def values(rng, n, shape):
    k = np.arange(n)
    if shape == "noise":
        return rng.standard_normal(n)
    if shape == "sine":
        return np.sin(0.1 + k * rng.uniform(0.01, 3))
    if shape == "impulse":
        v = np.zeros(n); v[rng.randint(n)] = -2.5
        return v
    if shape == "ints":
        return rng.randint(-4, 5, n).astype(float)
    if shape == "halves":
        return rng.randint(-9, 10, n) / 2.0
    if shape == "mixed":
        return rng.standard_normal(n) * 10.0 ** rng.randint(-6, 7, n)
    if shape == "offset":
        return 1e4 + rng.standard_normal(n)
    if shape == "const":
        return np.full(n, 1.25)
    if shape == "positive":
        return rng.uniform(0.01, 4, n)
    if shape == "rising":
        return np.cumsum(rng.uniform(0, 2, n).round()) - 3
    raise KeyError(shape)


SHAPES = ["noise", "sine", "impulse", "ints", "halves", "mixed", "offset", "const", "positive"]
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 500, 1000, 1024, 4099, 20000, 70001]


def E():
    return np.finfo(float).eps


def array_cases(S, what, call, shapes=SHAPES, lo=1, quick=60, thorough=2500, arity=1, complex_=False, hi=1 << 30):
    """call(rng, arrays, refs, n): arrays to pass to pedsp, refs the same values as plain float64."""
    sz = [n for n in SIZES if lo <= n <= hi]
    for i in range(S.reps(quick, thorough)):
        kind = LAYOUTS[i % len(LAYOUTS)] if i % 3 else "plain"
        shape = shapes[(i // 3) % len(shapes)]
        if complex_ and kind in ("int64", "int32"):
            kind = "plain"
        n = sz[(i * 7 + i // 11) % len(sz)]

        def body(rng, kind=kind, shape=shape, n=n):
            if rng.rand() < 0.3:
                n = int(rng.randint(lo, 300))
            arrs, refs, copies = [], [], []
            for j in range(arity):
                v = values(rng, n, shape)
                if complex_:
                    v = v + 1j * values(rng, n, shapes[rng.randint(len(shapes))])
                k = kind if j == 0 or rng.rand() < 0.5 else LAYOUTS[rng.randint(len(LAYOUTS))]
                if complex_ and k in ("int64", "int32"):
                    k = "plain"
                if shape == "positive" and k in ("int64", "int32"):
                    v = np.ceil(v.real)
                a, r = layout(rng, v, k, complex_)
                arrs.append(a); refs.append(r); copies.append(a.copy())
            before = [sys.getrefcount(a) for a in arrs]
            call(rng, arrs, refs, n)
            after = [sys.getrefcount(a) for a in arrs]
            S.expect(before == after, "reference-count", lambda: "%s -> %s" % (before, after))
            for a, c in zip(arrs, copies):
                S.expect(a.tobytes() == c.tobytes(), "input-modified", "")
            S.cover("layout", kind)
            S.cover("size", "1" if n == 1 else "2-9" if n < 10 else "10-99" if n < 100 else ">=100")
        S.run("%s n=%d %s %s" % (what, n, kind, shape), body)


def result_array(S, r, n, dtype=np.float64):
    S.expect(isinstance(r, np.ndarray) and r.dtype == dtype and r.shape == (n,), "result-type", lambda: "%s %s, expected (%d,) %s" % (getattr(r, "dtype", type(r)), getattr(r, "shape", ""), n, dtype))


def rejects(S, f, desc, exc=(ValueError, TypeError)):
    """The call must raise (and, under the sanitizers, touch nothing it should not)."""
    def body(rng):
        try:
            r = f(rng)
        except Exception as e:
            S.expect(isinstance(e, exc) or "ArgumentError" in type(e).__name__, "wrong-exception", repr(e)[:200])
            S.count("rejected calls")
            return
        S.expect(False, "not-rejected", "returned %r" % (r,))
    S.run(desc, body)


def bad_arrays(S, name, f, complex_ok=False):
    """f(array) for arrays that are not one-dimensional (or not real)."""
    rejects(S, lambda rng: f(rng.standard_normal((2, 3))), name + " of a 2-D array")
    rejects(S, lambda rng: f(rng.standard_normal((2, 3, 2))), name + " of a 3-D array")
    rejects(S, lambda rng: f(np.array(1.5)), name + " of a 0-D array")
    rejects(S, lambda rng: f("text"), name + " of a string")
    if not complex_ok:
        rejects(S, lambda rng: f(np.ones(4) + 1j), name + " of a complex array")


def bad_pairs(S, name, f):
    rejects(S, lambda rng: f(rng.standard_normal(64), rng.standard_normal(3)), name + " of 64 and 3 elements")
    rejects(S, lambda rng: f(rng.standard_normal(3), rng.standard_normal(64)), name + " of 3 and 64 elements")
    rejects(S, lambda rng: f(rng.standard_normal(4), rng.standard_normal((4, 1))), name + " of a 1-D and a 2-D array")
    rejects(S, lambda rng: f(rng.standard_normal((4, 1)), rng.standard_normal(4)), name + " of a 2-D and a 1-D array")


# ---------------------------------------------------------------- element-wise and array algorithms

def away(x):
    return np.sign(x) * np.floor(np.abs(x) + 0.5)


def register_elementwise():
    import pedsp.algorithm as al
    table = dict(ceil=np.ceil, floor=np.floor, round=away, trunc=np.trunc, abs=np.abs)
    for name, ref in table.items():
        def run(S, name=name, ref=ref):
            f = getattr(al, name)
            def call(rng, a, r, n):
                out = f(a[0]); result_array(S, out, n)
                S.expect(not np.shares_memory(out, a[0]), "result-aliases-input")
                S.close(out, ref(r[0]), 0, "value", name)
            array_cases(S, name, call); bad_arrays(S, name, f)
        SITES["algorithm-" + name] = run

    @site("algorithm-normalize")
    def _(S):
        def call(rng, a, r, n):
            m = np.max(np.abs(r[0]))
            out = al.normalize(a[0]); result_array(S, out, n)
            if m > 0:
                S.close(out, r[0] / m, 4 * E(), "value")
        array_cases(S, "normalize", call); bad_arrays(S, "normalize", al.normalize)

    @site("algorithm-scale")
    def _(S):
        def call(rng, a, r, n):
            k, lo, hi = rng.uniform(-5, 5), -rng.uniform(0, 2), rng.uniform(0, 2)
            S.close(al.scale(a[0], k), r[0] * k, 0, "scale")
            S.close(al.scale_clip(a[0], k, lo, hi), np.clip(r[0] * k, lo, hi), 0, "scale_clip")
            S.close(al.clip(a[0], lo, hi), np.clip(r[0], lo, hi), 0, "clip")
        array_cases(S, "scale/clip", call)
        for n, f in (("scale", lambda x: al.scale(x, 2.0)), ("scale_clip", lambda x: al.scale_clip(x, 2.0, -1.0, 1.0)), ("clip", lambda x: al.clip(x, -1.0, 1.0))):
            bad_arrays(S, n, f)

    @site("algorithm-concatenate-pad")
    def _(S):
        def call(rng, a, r, n):
            m = int(rng.randint(0, 60))
            b, rb = layout(rng, values(rng, m, "noise") if m else np.zeros(0), LAYOUTS[rng.randint(len(LAYOUTS))])
            out = al.concatenate(a[0], b); result_array(S, out, n + m)
            S.close(out, np.concatenate([r[0], rb]), 0, "concatenate")
            out = al.pad(a[0], n + m); result_array(S, out, n + m)
            S.close(out, np.concatenate([r[0], np.zeros(m)]), 0, "pad")
        array_cases(S, "concatenate/pad", call)
        bad_arrays(S, "pad", lambda x: al.pad(x, 10)); bad_arrays(S, "concatenate", lambda x: al.concatenate(x, np.ones(3)))
        bad_arrays(S, "concatenate (second)", lambda x: al.concatenate(np.ones(3), x))
        for n, m in ((5, 4), (100, 0), (3, -1), (1000, 10)):
            rejects(S, lambda rng, n=n, m=m: al.pad(np.ones(n), m), "pad %d elements to %d" % (n, m))

    @site("algorithm-spaces")
    def _(S):
        for i in range(S.reps(80, 3000)):
            def body(rng):
                n = int(rng.choice([0, 1, 2, 3, 10, 101, 1000, rng.randint(2, 4000)]))
                x1, x2 = rng.uniform(-5, 5, 2)
                ref = np.array([x1 if n == 1 else x1 + k * (x2 - x1) / (n - 1) for k in range(n)])
                out = al.linspace(x1, x2, n); result_array(S, out, n)
                S.close(out, ref, 8 * E() * (abs(x1) + abs(x2)), "linspace")
                out = al.logspace(x1, x2, n); result_array(S, out, n)
                S.close(out, 10.0 ** ref, 10.0 ** ref * 40 * E() * (2 + abs(x1) + abs(x2)), "logspace")
            S.run("linspace/logspace #%d" % i, body)
        rejects(S, lambda rng: al.linspace(0.0, 1.0, -3), "linspace of -3 points")

    @site("algorithm-search")
    def _(S):
        def call(rng, a, r, n):
            v = r[0][rng.randint(n)] if rng.rand() < 0.6 else rng.uniform(-6, 6)
            w = np.nonzero(r[0] == v)[0]
            first = int(w[0]) if len(w) else -1
            S.expect(al.index_of(a[0], v) == first, "index_of", lambda: "%r, expected %d" % (al.index_of(a[0], v), first))
            S.expect(al.linear_search(a[0], v) == first, "linear_search", lambda: "%r, expected %d" % (al.linear_search(a[0], v), first))
            k = LAYOUTS[rng.randint(len(LAYOUTS))]
            b, rb = layout(rng, np.sort(r[0]), k)
            w = np.nonzero(rb == v)[0]
            first = int(w[0]) if len(w) else -1
            S.expect(al.binary_search(b, v) == first, "binary_search", lambda: "%r, expected %d" % (al.binary_search(b, v), first))
            c, rc = layout(rng, r[0] if rng.rand() < 0.5 else np.where(np.arange(n) == rng.randint(n), r[0] + 1, r[0]), k)
            S.expect(bool(al.equal(a[0], c)) == bool(np.array_equal(r[0], rc)), "equal", "")
            S.expect(not al.equal(a[0], np.ones(n + 1)), "equal-sizes", "")
        array_cases(S, "search", call, shapes=["ints", "rising", "halves", "noise", "const"])
        bad_arrays(S, "index_of", lambda x: al.index_of(x, 1.0)); bad_arrays(S, "equal", lambda x: al.equal(x, np.ones(4)))


# ---------------------------------------------------------------- statistics, features

def cm(x, k):
    m = np.mean(x.astype(np.longdouble))
    return float(np.mean((x.astype(np.longdouble) - m) ** k))


def stat_refs():
    L = np.longdouble
    return {
        "max": (lambda x: np.max(x), 0), "min": (lambda x: np.min(x), 0), "max_abs": (lambda x: np.max(np.abs(x)), 0), "min_abs": (lambda x: np.min(np.abs(x)), 0),
        "mean": (lambda x: float(np.mean(x.astype(L))), 1), "median": (lambda x: np.median(x), 1), "norm": (lambda x: float(np.sqrt(np.sum(x.astype(L) ** 2))), 1),
    }


def register_statistics():
    import pedsp.statistics as st
    for name, (ref, rounding) in stat_refs().items():
        def run(S, name=name, ref=ref, rounding=rounding):
            f = getattr(st, name)
            def call(rng, a, r, n):
                S.close(f(a[0]), ref(r[0]), rounding * 4 * E() * (n + 4) * (np.max(np.abs(r[0])) * math.sqrt(n) + 1e-300), "value", name)
            array_cases(S, name, call); bad_arrays(S, name, f)
        SITES["statistics-" + name] = run

    @site("statistics-moments")
    def _(S):
        def call(rng, a, r, n):
            x = r[0]; c = x - np.mean(x); sc = np.max(np.abs(x)); d = np.max(np.abs(c))
            # absolute error of a centred sample
            e = 8 * E() * (n + 4) * sc + 1e-300
            for k in range(1, 9):
                S.close(st.moment(a[0], k), cm(x, k), k * (d + e) ** (k - 1) * e + 8 * E() * (n + 8) * (d + e) ** k, "moment", "order %d" % k)
            v = cm(x, 2)
            got = st.variance(a[0])
            S.expect(got >= 0, "variance-negative", repr(got))
            S.close(got, v, 2 * d * e + 8 * E() * (n + 8) * (d + e) ** 2 + e * e * 4, "variance")
            S.close(st.standard_deviation(a[0]) ** 2, got, 8 * E() * got + 1e-300, "standard_deviation")
            if v > (1e-3 * sc) ** 2 and sc > 0:
                t = 1e-9 * (1 + n / 50.) * (1 + (d * d / v) ** 2)
                S.close(st.skewness(a[0]), cm(x, 3) / v ** 1.5, t, "skewness")
                S.close(st.kurtosis(a[0]), cm(x, 4) / v ** 2, t, "kurtosis")
        array_cases(S, "moments", call)
        for n in ("variance", "standard_deviation", "skewness", "kurtosis"):
            bad_arrays(S, n, getattr(st, n))
        bad_arrays(S, "moment", lambda x: st.moment(x, 2))

    @site("statistics-means")
    def _(S):
        def call(rng, a, r, n):
            x = r[0].astype(np.longdouble)
            t = 40 * E() * (n + 10)
            g = float(np.exp(np.mean(np.log(x)))); S.close(st.geometric_mean(a[0]), g, g * t, "geometric")
            h = float(n / np.sum(1 / x)); S.close(st.harmonic_mean(a[0]), h, h * t, "harmonic")
            b = int(rng.randint(1, 5)); p = float(np.mean(x ** b) ** (np.longdouble(1) / b)); S.close(st.generalized_mean(a[0], b), p, p * t, "generalized", "beta %d" % b)
        array_cases(S, "means", call, shapes=["positive"])
        bad_arrays(S, "geometric_mean", st.geometric_mean); bad_arrays(S, "harmonic_mean", st.harmonic_mean); bad_arrays(S, "generalized_mean", lambda x: st.generalized_mean(x, 2))

    @site("statistics-peak")
    def _(S):
        def call(rng, a, r, n):
            i, v = st.peak(a[0])
            S.expect((i, v) == (int(np.argmax(r[0])), np.max(r[0])), "peak", lambda: repr((i, v)))
            i, v = st.peak_abs(a[0])
            S.expect(i == int(np.argmax(np.abs(r[0]))) and abs(v) == np.max(np.abs(r[0])), "peak_abs", lambda: repr((i, v)))
        array_cases(S, "peak", call); bad_arrays(S, "peak", st.peak); bad_arrays(S, "peak_abs", st.peak_abs)

    # features: f(x) -> value, on non-negative samples
    idx = lambda x: np.arange(len(x), dtype=np.longdouble)
    L = np.longdouble

    def centroid(f, w):
        return np.sum(f * w) / np.sum(w)

    def spread(f, w):
        c = centroid(f, w)
        return np.sqrt(np.sum((f - c) ** 2 * w) / np.sum(w))

    def entropy(p):
        q = p[p > 0]
        return -np.sum(q * np.log2(q)) / np.log2(L(len(p)))

    def decrease(x):
        return np.sum((x[1:] - x[0]) / idx(x)[1:]) / np.sum(x[1:])

    def flat(x):
        return np.exp(np.mean(np.log(x))) / np.mean(x)

    def crest(x):
        return np.max(np.abs(x)) / np.sum(np.abs(x))

    def slope(f, x):
        n = len(x)
        return (n * np.sum(f * x) - np.sum(f) * np.sum(x)) / (n * np.sum(f * f) - np.sum(f) ** 2) / np.sum(x)

    def irregularity(x):
        return np.sum((x[:-1] - x[1:]) ** 2) / np.sum(x[:-1] ** 2)

    import pedsp.spectral as sp
    one = {
        "statistics-crest": (st.crest, crest, 1), "statistics-decrease": (st.decrease, decrease, 2), "statistics-flatness": (st.flatness, flat, 1),
        "statistics-centroid": (st.centroid, lambda x: centroid(idx(x), x), 1), "statistics-spread": (st.spread, lambda x: spread(idx(x), x), 2),
        "spectral-crest": (sp.spectral_crest, crest, 1), "spectral-decrease": (sp.spectral_decrease, decrease, 2), "spectral-flatness": (sp.spectral_flatness, flat, 1),
        "spectral-irregularity": (sp.spectral_irregularity, irregularity, 2), "spectral-entropy": (sp.spectral_entropy, lambda x: entropy(x / np.sum(x)), 2),
        "spectral-skewness": (sp.spectral_skewness, lambda x: L(cm(x, 3)) / L(cm(x, 2)) ** L(1.5), 8), "spectral-kurtosis": (sp.spectral_kurtosis, lambda x: L(cm(x, 4)) / L(cm(x, 2)) ** 2, 8),
    }
    for name, (f, ref, lo) in one.items():
        def run(S, name=name, f=f, ref=ref, lo=lo):
            def call(rng, a, r, n):
                x = r[0].astype(L)
                if "ness" in name or "kurt" in name:
                    if cm(x, 2) < 1e-4 * float(np.max(np.abs(x))) ** 2:
                        return
                v = float(ref(x))
                S.close(f(a[0]), v, 1e-11 * (n + 10) * (abs(v) + (1 if "crest" not in name else 0)), "value", name)
            array_cases(S, name, call, shapes=["positive"], lo=lo); bad_arrays(S, name, f)
        SITES["feature-" + name] = run

    @site("feature-statistics-entropy")
    def _(S):
        def call(rng, a, r, n):
            x = np.abs(r[0]) + (rng.rand(n) < 0.9) * 0.1
            p = x / np.sum(x)
            k = LAYOUTS[rng.randint(8)]
            b, rb = layout(rng, p, k if k not in ("float32",) else "plain")
            v = float(entropy(rb.astype(L)))
            S.close(st.entropy(b), v, 1e-12 * (n + 10), "value")
        array_cases(S, "entropy", call, lo=2, shapes=["noise", "positive"]); bad_arrays(S, "entropy", st.entropy)

    @site("feature-rolloff")
    def _(S):
        def call(rng, a, r, n):
            pct = rng.uniform(0.05, 0.99)
            c = np.cumsum(r[0].astype(L) ** 2); lim = L(pct) * c[-1]
            k = np.nonzero(c > lim)[0]
            k = int(k[0]) if len(k) else n - 1
            if np.min(np.abs(c - lim)) < 1e-9 * c[-1]:
                return
            S.close(st.rolloff(a[0], pct), k / n, 4 * E(), "rolloff")
            S.close(sp.spectral_rolloff(a[0], pct), k / n, 4 * E(), "spectral_rolloff")
        array_cases(S, "rolloff", call, shapes=["positive"]); bad_arrays(S, "rolloff", lambda x: st.rolloff(x, 0.5)); bad_arrays(S, "spectral_rolloff", lambda x: sp.spectral_rolloff(x, 0.5))

    two = {
        "statistics-weighted_centroid": (st.weighted_centroid, None), "statistics-weighted_spread": (st.weighted_spread, None),
        "spectral-centroid": (sp.spectral_centroid, None), "spectral-spread": (sp.spectral_spread, None),
        "statistics-slope": (st.slope, None), "spectral-slope": (sp.spectral_slope, None),
        "statistics-flux": (st.flux, None), "spectral-flux": (sp.spectral_flux, None), "spectral-variation": (sp.spectral_variation, None),
    }
    for name, (f, _) in two.items():
        def run(S, name=name, f=f):
            def call(rng, a, r, n):
                x, y = r[0].astype(L), r[1].astype(L)
                if "centroid" in name:
                    # arguments: values (or spectrum) and their weights / frequencies, as in the C++ functions
                    refs = [centroid(x, y), centroid(y, x)]
                    v = refs[ORDER[name]]
                elif "spread" in name:
                    v = [spread(x, y), spread(y, x)][ORDER[name]]
                elif "slope" in name:
                    f_ = [x, y][ORDER[name]]
                    if n * np.sum(f_ * f_) - np.sum(f_) ** 2 < 1e-6 * n * np.sum(f_ * f_):
                        return
                    v = [slope(x, y), slope(y, x)][ORDER[name]]
                elif "flux" in name:
                    d = x / np.sum(x) - y / np.sum(y)
                    v = np.sum(d * d)
                else:
                    v = 1 - np.sum(x * y) / np.sqrt(np.sum(x * x) * np.sum(y * y))
                v = float(v)
                S.close(f(a[0], a[1]), v, 1e-9 * (n + 10) * (abs(v) + 1) if "slope" in name else 1e-11 * (n + 10) * (abs(v) + 1), "value", name)
            array_cases(S, name, call, shapes=["positive"], lo=3, arity=2); bad_arrays(S, name, lambda x: f(x, np.ones(6))); bad_arrays(S, name + " (second)", lambda x: f(np.ones(6), x)); bad_pairs(S, name, f)
        SITES["feature2-" + name] = run


# which of the two arguments holds the values: established from the documentation of the C++ functions
ORDER = {"statistics-weighted_centroid": 1, "statistics-weighted_spread": 1, "spectral-centroid": 1, "spectral-spread": 1, "statistics-slope": 1, "spectral-slope": 1}


def register_temporal():
    import pedsp.temporal as te
    import pedsp.converter as co
    L = np.longdouble

    @site("temporal-features")
    def _(S):
        def call(rng, a, r, n):
            x = r[0].astype(L); en = float(np.sum(x * x)); t = 8 * E() * (n + 8)
            S.close(te.energy(a[0]), en, en * t, "energy")
            S.close(te.power(a[0]), en / n, en / n * t, "power")
            S.close(te.rms(a[0]), math.sqrt(en / n), math.sqrt(en / n) * t, "rms")
            S.close(te.rssq(a[0]), math.sqrt(en), math.sqrt(en) * t, "rssq")
            if en > 0:
                S.close(te.leq(a[0]), 10 * math.log10(en / n), 1e-10, "leq")
            sr, thr = float(rng.choice([1, 8000, 44100])), rng.uniform(0.05, 0.95)
            S.close(te.duration(a[0], sr), n / sr, 4 * E() * n / sr, "duration")
            m = float(np.max(np.abs(x)))
            if not np.any(np.abs(np.abs(r[0]) - thr * m) < 1e-9 * m) and m > 0:
                S.close(te.effective_duration(a[0], sr, thr), np.sum(np.abs(r[0]) > thr * m) / sr, 4 * E() * n / sr, "effective_duration")
            if n > 1:
                s = np.where(r[0] < 0, -1, 1)
                S.close(te.azcr(a[0]), np.sum(s[1:] != s[:-1]) / (n - 1), 4 * E(), "azcr")
        array_cases(S, "temporal", call)
        for n in ("energy", "power", "rms", "rssq", "leq", "azcr"):
            bad_arrays(S, n, getattr(te, n))
        bad_arrays(S, "duration", lambda x: te.duration(x, 2.0)); bad_arrays(S, "effective_duration", lambda x: te.effective_duration(x, 2.0, 0.5))

    @site("temporal-difference-functions")
    def _(S):
        def call(rng, a, r, n):
            x = r[0]
            d = [(x[:n - k] - x[k:]) for k in range(n)]
            s = np.sum(np.abs(x)) * 2
            out = te.amdf(a[0]); result_array(S, out, n); S.close(out, [np.sum(np.abs(v)) / n for v in d], 8 * E() * (s + 1e-300), "amdf")
            out = te.asdf(a[0]); result_array(S, out, n); S.close(out, [np.sum(v * v) / n for v in d], 8 * E() * (n + 8) * (np.max(np.abs(x)) ** 2 * 4 + 1e-300), "asdf")
        array_cases(S, "amdf/asdf", call, hi=200); bad_arrays(S, "amdf", te.amdf); bad_arrays(S, "asdf", te.asdf)

    @site("converter-arrays")
    def _(S):
        def call(rng, a, r, n):
            x, y = r
            rms = math.sqrt(float(np.mean(x.astype(L) ** 2)))
            S.close(co.peak2peak(a[0]), np.max(x) - np.min(x), 2 * E() * np.max(np.abs(x)), "peak2peak")
            if rms > 0:
                S.close(co.peak2rms(a[0]), np.max(np.abs(x)) / rms, 8 * E() * (n + 8) * np.max(np.abs(x)) / rms, "peak2rms")
            out = co.real2complex(a[0]); result_array(S, out, n, np.complex128); S.close(out, x + 0j, 0, "real2complex")
            out = co.ri2complex(a[0], a[1]); result_array(S, out, n, np.complex128); S.close(out, x + 1j * y, 0, "ri2complex")
            z, rz = layout(rng, x + 1j * y, str(rng.choice(["plain", "step2", "reversed", "column", "bigendian", "readonly", "unaligned"])), True)
            re, im = co.complex2real(z); result_array(S, re, n); result_array(S, im, n)
            S.close(re, rz.real, 0, "complex2real", "real"); S.close(im, rz.imag, 0, "complex2real", "imag")
            re, im = co.complex2real(a[0]); S.close(re, x, 0, "complex2real-of-real", "real"); S.close(im, np.zeros(n), 0, "complex2real-of-real", "imag")
        array_cases(S, "converters", call, arity=2)
        for nme in ("peak2peak", "peak2rms", "real2complex"):
            bad_arrays(S, nme, getattr(co, nme))
        bad_arrays(S, "complex2real", co.complex2real, True); bad_pairs(S, "ri2complex", co.ri2complex)

    @site("converter-scalars")
    def _(S):
        import pedsp.auditory as au
        def t(f, x, v, name, tol=1e-12):
            S.close(f(x), v, tol * (abs(v) + 1), name, "at %r" % x)
        for i in range(S.reps(100, 4000)):
            def body(rng):
                x = 10.0 ** rng.uniform(-6, 6); d = rng.uniform(-150, 150); g = rng.uniform(-1000, 1000)
                t(co.mag2db, x, 20 * math.log10(x), "mag2db"); t(co.db2mag, d, 10 ** (d / 20), "db2mag"); t(co.pow2db, x, 10 * math.log10(x), "pow2db"); t(co.db2pow, d, 10 ** (d / 10), "db2pow")
                t(co.deg2rad, g, g * math.pi / 180, "deg2rad"); t(co.rad2deg, g, g * 180 / math.pi, "rad2deg")
                h = rng.uniform(20, 20000)
                t(au.hertz2mel, h, 1127.01048 * math.log(1 + h / 700), "hertz2mel"); t(au.hertz2erb, h, 21.4 * math.log10(1 + 0.00437 * h), "hertz2erb"); t(au.hertz2cent, h, 1200 * math.log2(h / 440) + 5700, "hertz2cent")
                b = 26.81 * h / (1960 + h) - 0.53
                b = b + 0.15 * (2 - b) if b < 2 else b + 0.22 * (b - 20.1) if b > 20.1 else b
                t(au.hertz2bark, h, b, "hertz2bark")
                for s in ("mel", "erb", "cent", "bark"):
                    f, g2 = getattr(au, "hertz2" + s), getattr(au, s + "2hertz")
                    t(g2, f(h), h, s + "2hertz", 1e-9)
                n = int(rng.choice([0, 1, 2, 3, 33, 500])); lo, hi = rng.uniform(20, 500), rng.uniform(600, 20000)
                lin = np.array([lo if n == 1 else lo + k * (hi - lo) / (n - 1) for k in range(n)])
                for s in ("mel", "erb", "cent", "bark"):
                    out = getattr(au, s + "space")(lo, hi, n); result_array(S, out, n)
                    S.close(out, [getattr(au, "hertz2" + s)(v) for v in lin], 1e-8, s + "space")
            S.run("scalars #%d" % i, body)
        for s in ("mel", "erb", "cent", "bark"):
            rejects(S, lambda rng, s=s: getattr(au, s + "space")(20.0, 100.0, -2), s + "space of -2 points")


# ---------------------------------------------------------------- spectral, windows

def register_spectral():
    import pedsp.spectral as sp
    import pedsp.windowing as wi
    L = np.longdouble

    def reg(name, f, ref, out_n, dtype=np.float64, complex_=False, lo=1, scale=None, shapes=SHAPES, hi=1 << 30):
        def run(S):
            def call(rng, a, r, n):
                out = f(a[0]); m = out_n(n); result_array(S, out, m, dtype)
                v = ref(r[0])
                k = (scale or (lambda x: np.sum(np.abs(x))))(r[0]) + 1e-300
                S.close(out, v, 40 * E() * k * (4 + math.log2(n)), "value", name)
            array_cases(S, name, call, complex_=complex_, lo=lo, shapes=shapes, hi=hi); bad_arrays(S, name, f, complex_)
        SITES["spectral-" + name] = run

    def dct(x):
        n = len(x); k = np.arange(n)[:, None]
        return 2 * np.cos(np.pi * ((k * (2 * np.arange(n)[None, :] + 1)) % (4 * n)) / (2 * n)) @ x

    def idct(x):
        n = len(x); j = np.arange(n)[:, None]
        c = np.cos(np.pi * ((np.arange(n)[None, :] * (2 * j + 1)) % (4 * n)) / (2 * n)); c[:, 1:] *= 2
        return c @ x / (2 * n)

    def hartley(x):
        f = np.fft.fft(x)
        return f.real - f.imag

    def hilbert(x):
        n = len(x); f = np.fft.fft(x); h = np.zeros(n); h[0] = 1
        if n % 2 == 0:
            h[n // 2] = 1; h[1:n // 2] = 2
        else:
            h[1:(n + 1) // 2] = 2
        return np.fft.ifft(f * h)
    reg("rfft", sp.rfft, np.fft.rfft, lambda n: n // 2 + 1, np.complex128)
    reg("fft", sp.fft, np.fft.fft, lambda n: n, np.complex128, True)
    reg("ifft", sp.ifft, np.fft.ifft, lambda n: n, np.complex128, True)
    reg("irfft", sp.irfft, lambda z: np.fft.irfft(z, 2 * (len(z) - 1)), lambda n: 2 * (n - 1), complex_=True, lo=2)
    reg("dct", sp.dct, dct, lambda n: n, hi=300)
    reg("idct", sp.idct, idct, lambda n: n, hi=300)
    reg("hartley", sp.hartley, hartley, lambda n: n)
    reg("hilbert", sp.hilbert, hilbert, lambda n: n, np.complex128)
    reg("spectrum", sp.spectrum, lambda x: np.abs(np.fft.rfft(x)) ** 2, lambda n: n // 2 + 1, scale=lambda x: np.sum(np.abs(x)) ** 2)

    @site("spectral-conv-xcorr")
    def _(S):
        def call(rng, a, r, n):
            k = float(np.linalg.norm(r[0]) * np.linalg.norm(r[1])) + 1e-300
            t = 60 * E() * k * (5 + math.log2(n))
            out = sp.conv(a[0], a[1]); result_array(S, out, n); S.close(out, np.convolve(r[0], r[1])[:n], t, "conv")
            out = sp.xcorr(a[0], a[1]); result_array(S, out, n); S.close(out, np.correlate(r[0], r[1], "full")[n - 1:], t, "xcorr")
        array_cases(S, "conv/xcorr", call, arity=2); bad_pairs(S, "conv", sp.conv); bad_pairs(S, "xcorr", sp.xcorr)
        bad_arrays(S, "conv", lambda x: sp.conv(x, np.ones(6))); bad_arrays(S, "xcorr", lambda x: sp.xcorr(np.ones(6), x))

    @site("spectral-cepstrum")
    def _(S):
        def call(rng, a, r, n):
            z = np.abs(np.fft.fft(r[0], 2 * n))
            if np.min(z) < 1e-3 * np.max(z):
                return
            S.count("cepstra compared")
            out = sp.cepstrum(a[0]); result_array(S, out, n); S.close(out, np.fft.ifft(np.log(z)).real[:n], 1e-9, "cepstrum")
        array_cases(S, "cepstrum", call, shapes=["noise", "impulse", "positive"]); bad_arrays(S, "cepstrum", sp.cepstrum)

    @site("windowing")
    def _(S):
        def cosines(c):
            return lambda n: sum(((-1) ** i) * v * np.cos(2 * np.pi * i * np.arange(n) / (n - 1)) for i, v in enumerate(c))
        def welch(n):
            h = (n - 1) / 2.
            return 1 - ((np.arange(n) - h) / h) ** 2
        def bartlett(n):
            return 1 - np.abs(2 * np.arange(n) / (n - 1.) - 1)
        def triangular(n):
            k = np.minimum(np.arange(n), np.arange(n)[::-1])
            return (2 * k + 1) / n if n % 2 == 0 else 2 * (k + 1) / (n + 1)
        table = dict(hamming=cosines([0.54, 0.46]), hanning=cosines([0.5, 0.5]), blackman=cosines([0.42, 0.5, 0.08]), blackman_harris=cosines([0.35875, 0.48829, 0.14128, 0.01168]),
                     blackman_nutall=cosines([0.3635819, 0.4891775, 0.1365995, 0.0106411]), flattop=cosines([0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368]),
                     welch=welch, bartlett=bartlett, triangular=triangular, boxcar=lambda n: np.ones(n), rectangular=lambda n: np.ones(n))
        for name, ref in table.items():
            for n in [2, 3, 4, 5, 8, 9, 100, 101, 1024] + [int(S.rng.randint(2, 3000)) for _ in range(S.reps(3, 200))]:
                def body(rng, name=name, ref=ref, n=n):
                    out = getattr(wi, name)(n); result_array(S, out, n); S.close(out, ref(n), 100 * E() * 10, "window", name)
                S.run("%s of %d" % (name, n), body)
            rejects(S, lambda rng, name=name: getattr(wi, name)(-1), name + " of -1 points")


# ---------------------------------------------------------------- classes

def register_classes():
    import pedsp.filter as fi
    import pedsp.oscillator as osc
    L = np.longdouble
    kinds = dict(average=(fi.MovingAverageFilter, lambda w: np.mean(w)), rms=(fi.MovingRmsFilter, lambda w: np.sqrt(np.mean(w * w))), median=(fi.MovingMedianFilter, lambda w: np.median(w)))
    for name, (cls, ref) in kinds.items():
        def run(S, name=name, cls=cls, ref=ref):
            for i in range(S.reps(40, 1500)):
                def body(rng):
                    n = int(rng.randint(1, 20)); f = cls(n); w = [0.0] * n; peak = 1e-300
                    S.expect(f.size() == n, "size", "")
                    for _ in range(25):
                        op = rng.randint(10)
                        if op == 0:
                            f.reset(); w = [0.0] * n; peak = 1e-300; S.count("resets")
                        elif op == 1:
                            n = int(rng.randint(1, 20)); f.resize(n); w = [0.0] * n; peak = 1e-300; S.count("resizes")
                            S.expect(f.size() == n, "size", "")
                        elif op < 6:
                            v = float(rng.standard_normal() * 10); w = w[1:] + [v]; peak = max(peak, abs(v))
                            t = 1e-12 * peak if name != "rms" else 1e-6 * peak
                            S.close(f(v), ref(np.array(w)), t, "sample")
                        else:
                            m = int(rng.randint(1, 40)); x, r = layout(rng, rng.standard_normal(m) * 5, LAYOUTS[rng.randint(len(LAYOUTS))]); e = []
                            for v in r:
                                w = w[1:] + [float(v)]; e.append(ref(np.array(w))); peak = max(peak, abs(float(v)))
                            out = f.filter(x); result_array(S, out, m); S.close(out, e, 1e-12 * peak if name != "rms" else 1e-6 * peak, "block")
                S.run("moving %s history #%d" % (name, i), body)
            bad_arrays(S, "filter", lambda x: cls(3).filter(x))
        SITES["filter-" + name] = run

    def saw(x, w):
        return np.where(x < w, 2 * x / w - 1 if w > 0 else 0, 1 - 2 * (x - w) / (1 - w) if w < 1 else 0)

    @site("oscillator")
    def _(S):
        for i in range(S.reps(60, 2000)):
            def body(rng):
                kind = ["Sinusoidal", "Square", "Sawtooth", "Triangular"][i % 4]
                amp, sr, fr = rng.uniform(0.1, 5), float(rng.choice([8000, 44100, 1000])), rng.uniform(5, 400)
                extra = rng.uniform(0.1, 0.9)
                o = osc.Triangular(amp, sr, fr) if kind == "Triangular" else getattr(osc, kind)(amp, sr, fr, extra)
                if kind == "Triangular":
                    extra = 0.5
                t = 0.0
                for _ in range(12):
                    op = rng.randint(9)
                    if op == 0:
                        amp = rng.uniform(0.1, 5); o.set_amplitude(amp); S.expect(o.amplitude() == amp, "getter", "amplitude")
                    elif op == 1:
                        fr = rng.uniform(5, 400); o.set_frequency(fr); S.expect(o.frequency() == fr, "getter", "frequency")
                    elif op == 2:
                        sr = rng.uniform(1000, 48000); o.set_sample_rate(sr); S.expect(o.sample_rate() == sr, "getter", "sample_rate")
                    elif op == 3:
                        t = rng.uniform(0, 2); o.set_timestamp(t); S.expect(o.timestamp() == t, "getter", "timestamp")
                    elif op == 4:
                        o.reset(); t = 0.0
                    elif op == 5 and kind != "Triangular":
                        extra = rng.uniform(0.1, 0.9)
                        dict(Sinusoidal=lambda v: o.set_phase(v), Square=lambda v: o.set_duty(v), Sawtooth=lambda v: o.set_width(v))[kind](extra)
                        S.expect(dict(Sinusoidal=lambda: o.phase(), Square=lambda: o.duty(), Sawtooth=lambda: o.width())[kind]() == extra, "getter", "phase/duty/width")
                    else:
                        n = int(rng.randint(0, 300)); out = o.generate(n); result_array(S, out, n)
                        ts = t + np.arange(n, dtype=L) / L(sr); t = t + n / sr
                        ph = (ts * L(fr)).astype(L); x = (ph - np.floor(ph)).astype(float)
                        if kind == "Sinusoidal":
                            S.close(out, amp * np.sin((2 * L(np.pi) * ph + L(extra)).astype(float)), 1e-8 * amp, "sine")
                        else:
                            ref = np.where(x < extra, 1.0, -1.0) if kind == "Square" else saw(x, extra)
                            edge = np.minimum(np.minimum(x, 1 - x), np.abs(x - extra)) < 1e-8
                            keep = ~edge if kind == "Square" else np.ones(n, bool)
                            S.close(out[keep], amp * ref[keep], 1e-6 * amp, kind.lower())
                        S.expect(abs(o.timestamp() - t) < 1e-9 * (1 + t), "timestamp", "")
                        t = o.timestamp()
                        S.count("samples generated", n)
            S.run("oscillator history #%d" % i, body)
        rejects(S, lambda rng: osc.Sinusoidal(1.0, 8000.0, 10.0, 0.0).generate(-1), "generate -1 samples")


def register_strings():
    import pedsp.string as ps
    import pedsp.core as pc
    WS = " \t\n\v\f\r"

    @site("string")
    def _(S):
        alphabet = [chr(c) for c in range(1, 127)] + list(WS) * 4 + ["é", "ß", "中", "😀", "\0"]
        for i in range(S.reps(150, 8000)):
            def body(rng):
                s = "".join(alphabet[rng.randint(len(alphabet))] for _ in range(rng.randint(0, 40)))
                s = "".join(WS[rng.randint(6)] for _ in range(rng.randint(3))) + s + "".join(WS[rng.randint(6)] for _ in range(rng.randint(3)))
                eq = lambda got, ref, k: S.expect(got == ref, k, lambda: "%r of %r, expected %r" % (got, s, ref))
                eq(ps.trim(s), s.strip(WS), "trim"); eq(ps.ltrim(s), s.lstrip(WS), "ltrim"); eq(ps.rtrim(s), s.rstrip(WS), "rtrim")
                up = "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s); lo = "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
                eq(ps.to_upper(s), up, "to_upper"); eq(ps.to_lower(s), lo, "to_lower")
                d = [",", ";", " ", "a", "\n"][rng.randint(5)]
                eq(list(ps.split(s, d)), [p for p in s.split(d) if p], "split")
                parts = ["".join(alphabet[rng.randint(126)] for _ in range(rng.randint(0, 5))) for _ in range(rng.randint(0, 6))]
                eq(ps.join(parts, d), d.join(parts), "join")
            S.run("strings #%d" % i, body)

    @site("core")
    def _(S):
        def body(rng):
            S.expect(pc.get_version() == "%d.%d.%d" % (pc.get_major_version(), pc.get_minor_version(), pc.get_patch_version()), "version", lambda: pc.get_version())
            import re
            S.expect(re.match(r"^[A-Z][a-z]{2} [ \d]\d \d{4}$", pc.get_build_date()) is not None, "build-date", lambda: pc.get_build_date())
            S.expect(re.match(r"^\d\d:\d\d:\d\d$", pc.get_build_time()) is not None, "build-time", lambda: pc.get_build_time())
            for f, lib in (("fft", "fftw"), ("codec", "sndfile"), ("resample", "samplerate")):
                v = getattr(pc, "get_%s_library" % f)()
                S.expect(lib in v.lower(), "library", lambda: v)
        S.run("versions and libraries", body)
        libc = __import__("ctypes").CDLL(None)
        libc.getenv.restype = __import__("ctypes").c_char_p
        env = {}
        for i in range(S.reps(150, 5000)):
            def body(rng):
                k = "PEDSP_T%d" % rng.randint(6); op = rng.randint(4)
                if op == 0:
                    v = "".join(chr(rng.randint(32, 127)) for _ in range(rng.randint(0, 30)))
                    S.expect(pc.set_environment(k, v) == 0, "set", ""); env[k] = v
                elif op == 1:
                    libc.unsetenv(k.encode()); env.pop(k, None)
                v, e = pc.get_environment(k)
                S.expect((v, e == 0) == (env.get(k, ""), k in env), "get", lambda: "%r %r, expected %r" % (v, e, env.get(k)))
                S.expect(bool(pc.exist_environment(k)) == (k in env), "exist", k)
                S.expect((libc.getenv(k.encode()) or b"").decode() == env.get(k, ""), "process-environment", k)
                S.expect(pc.set_environment("", "x") != 0 and pc.set_environment("A=B", "x") != 0, "invalid-name", "")
            S.run("environment #%d" % i, body)


# ---------------------------------------------------------------- audio files

def parse_wav(b):
    assert b[:4] == b"RIFF" and b[8:12] == b"WAVE"
    p, fmt, data = 12, None, None
    while p + 8 <= len(b):
        t, n = b[p:p + 4], struct.unpack("<I", b[p + 4:p + 8])[0]
        if t == b"fmt ":
            fmt = struct.unpack("<HHIIHH", b[p + 8:p + 24])
        if t == b"data":
            data = b[p + 8:p + 8 + n]
        p += 8 + n + (n & 1)
    return fmt, data


def write_wav(path, ch, sr, samples):
    d = np.asarray(samples, dtype="<f4").tobytes()
    h = b"RIFF" + struct.pack("<I", 36 + len(d)) + b"WAVEfmt " + struct.pack("<IHHIIHH", 16, 3, ch, sr, sr * ch * 4, ch * 4, 32) + b"data" + struct.pack("<I", len(d))
    open(path, "wb").write(h + d)


def register_io():
    import pedsp.io as io
    import ctypes as C

    @site("io-encoder")
    def _(S):
        for i in range(S.reps(40, 1200)):
            def body(rng):
                ch, sr = int(rng.randint(1, 7)), int(rng.choice([8000, 11025, 44100, 96000])); p = os.path.join(S.a.scratch, "e.wav")
                e = io.Encoder(sr, ch)
                S.expect(not e.is_open() and e.channels() == ch and e.samplerate() == sr, "properties", "")
                S.expect(e.write(np.zeros(ch, np.float32)) == 0, "write-closed", "")
                S.expect(e.open(p) and e.is_open(), "open", "")
                all_ = []
                for _ in range(rng.randint(0, 8)):
                    m = int(rng.randint(1, 500)) * ch
                    x = rng.uniform(-1, 1, m).astype(np.float32); k = rng.randint(5)
                    if k == 1:
                        b = np.full(2 * m, 9, np.float32); b[::2] = x; a = b[::2]
                    elif k == 2:
                        a = x[::-1].copy()[::-1]
                    elif k == 3:
                        a = x.astype(">f4")
                    else:
                        a = x
                    n = e.write(a); S.expect(n == m, "written", lambda: "%d of %d" % (n, m)); all_.append(x)
                if rng.rand() < 0.5:
                    e.close(); S.expect(not e.is_open(), "close", "")
                else:
                    del e
                fmt, data = parse_wav(open(p, "rb").read())
                S.expect(fmt[:3] == (3, ch, sr) and fmt[5] == 32, "header", lambda: repr(fmt))
                S.close(np.frombuffer(data, "<f4"), np.concatenate(all_ + [np.zeros(0, np.float32)]), 0, "samples")
                S.count("files written")
            S.run("encoder #%d" % i, body)
        bad = lambda x: io.Encoder(8000, 1).write(x)
        rejects(S, lambda rng: bad(rng.standard_normal((2, 3)).astype(np.float32)), "write of a 2-D array")
        rejects(S, lambda rng: bad(np.array(1.5, np.float32)), "write of a 0-D array")

    @site("io-decoder")
    def _(S):
        for i in range(S.reps(40, 1200)):
            def body(rng):
                ch, sr, fr = int(rng.randint(1, 7)), int(rng.choice([8000, 44100])), int(rng.randint(0, 2500)); p = os.path.join(S.a.scratch, "d.wav")
                x = rng.uniform(-1, 1, fr * ch).astype(np.float32); write_wav(p, ch, sr, x)
                d = io.Decoder()
                S.expect(not d.is_open() and len(d.read(10)) == 0, "closed", "")
                S.expect(not d.open(p + ".missing") and not d.is_open(), "missing", "")
                S.expect(d.open(p) and d.is_open(), "open", "")
                S.expect((d.channels(), d.samplerate(), d.frames(), bool(d.seekable())) == (ch, sr, fr, True), "properties", lambda: repr((d.channels(), d.samplerate(), d.frames())))
                pos, kept = 0, []
                for _ in range(rng.randint(1, 12)):
                    if rng.rand() < 0.3:
                        pos = int(rng.randint(0, fr + 1)); S.expect(d.seek(pos) == pos, "seek", "")
                    m = int(rng.randint(0, 4000)); r = d.read(m)
                    k = min(m // ch, fr - pos)
                    ref = x[pos * ch:(pos + k) * ch]; pos += k
                    S.expect(r.dtype == np.float32, "dtype", "")
                    S.close(r, ref, 0, "samples"); kept.append((r, ref))
                d.close(); S.expect(not d.is_open() and len(d.read(4)) == 0, "after-close", "")
                del d
                for r, ref in kept:
                    S.close(r, ref, 0, "samples-outlive-decoder")
                S.count("files read")
            S.run("decoder #%d" % i, body)

    class SRC_DATA(C.Structure):
        _fields_ = [("data_in", C.c_void_p), ("data_out", C.c_void_p), ("input_frames", C.c_long), ("output_frames", C.c_long), ("used", C.c_long), ("gen", C.c_long), ("end", C.c_int), ("ratio", C.c_double)]

    @site("io-resampler")
    def _(S):
        lib = C.CDLL("libsamplerate.so.0")
        lib.src_new.restype = C.c_void_p; lib.src_process.argtypes = [C.c_void_p, C.c_void_p]; lib.src_delete.argtypes = [C.c_void_p]; lib.src_reset.argtypes = [C.c_void_p]
        Q = [(io.ResampleQuality.BestQuality, 0), (io.ResampleQuality.MediumQuality, 1), (io.ResampleQuality.Fastest, 2), (io.ResampleQuality.ZeroOrderHold, 3), (io.ResampleQuality.Linear, 4)]
        for i in range(S.reps(40, 1000)):
            def body(rng):
                q, qi = Q[i % 5]; ch = int(rng.randint(1, 5)); ratio = float([0.5, 2, 1, 1.5, 0.7, 3.3][rng.randint(6)])
                ratio = float(np.float32(ratio))
                r = io.Resampler(ch, q, ratio)
                S.expect(int(r.quality()) == qi and abs(r.ratio() - ratio) < 1e-6 and r.error() == 0, "properties", "")
                err = C.c_int(); st = lib.src_new(qi, ch, C.byref(err))
                for _ in range(8):
                    if rng.rand() < 0.15:
                        r.reset(); lib.src_reset(st); S.count("resets")
                    n = int(rng.choice([0, 32, 64, 500, rng.randint(32, 900)]))   # libsamplerate 0.2 reads before shorter blocks
                    x = rng.uniform(-1, 1, n * ch).astype(np.float32)
                    a = x
                    if rng.rand() < 0.3:
                        b = np.full(2 * len(x), 9, np.float32); b[::2] = x; a = b[::2]
                    out, used = r.process(a)
                    room = int(ratio * n); o = np.zeros(max(1, room) * ch, np.float32); src = np.concatenate([x, np.zeros(1, np.float32)])
                    d = SRC_DATA(src.ctypes.data, o.ctypes.data, n, room, 0, 0, 0, ratio)
                    lib.src_process(st, C.byref(d))
                    S.expect((used, len(out)) == (d.used, d.gen * ch), "counts", lambda: "%r, expected %r" % ((used, len(out)), (d.used, d.gen * ch)))
                    if len(out) == d.gen * ch:
                        S.close(out, o[:d.gen * ch], 0, "samples")
                    S.count("blocks resampled")
                lib.src_delete(st)
                v = float(10 ** rng.uniform(-4, 4)); S.expect(bool(io.Resampler.valid_ratio(v)) == (1 / 256. <= v <= 256), "valid_ratio", repr(v))
            S.run("resampler #%d" % i, body)
        rejects(S, lambda rng: io.Resampler(1, io.ResampleQuality.Linear, 1.0).process(rng.standard_normal((2, 3)).astype(np.float32)), "process of a 2-D array")

    @site("io-metadata")
    def _(S):
        for i in range(S.reps(30, 800)):
            def body(rng):
                p = os.path.join(S.a.scratch, "m.mp3")
                f = {k: "".join(chr(rng.randint(33, 127)) for _ in range(rng.randint(0, 25))) for k in ("title", "artist", "album")}
                year, track = int(rng.randint(1900, 2030)), int(rng.randint(1, 100))
                frame = bytes.fromhex("fffb9064") + bytes(413)
                tag = b"TAG" + f["title"].encode().ljust(30, b"\0") + f["artist"].encode().ljust(30, b"\0") + f["album"].encode().ljust(30, b"\0") + str(year).encode() + bytes(28) + b"\0" + bytes([track]) + bytes([17])
                has = rng.rand() < 0.8
                open(p, "wb").write(frame * 4 + (tag if has else b""))
                m = io.MetaDataReader(p)
                got = (m.title(), m.artist(), m.album(), m.year(), m.track(), m.genre())
                ref = (f["title"], f["artist"], f["album"], year, track, "Rock") if has else ("", "", "", 0, 0, "")
                S.expect(got == ref, "metadata", lambda: "%r, expected %r" % (got, ref))
                m = io.MetaDataReader(p + ".missing")
                S.expect((m.title(), m.artist(), m.album(), m.year(), m.track(), m.genre()) == ("", "", "", 0, 0, ""), "missing-file", "")
            S.run("metadata #%d" % i, body)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop"); ap.add_argument("--site"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick")
    ap.add_argument("--out"); ap.add_argument("--prog"); ap.add_argument("--from", dest="frm", type=int, default=0); ap.add_argument("--only", type=int, default=-1)
    ap.add_argument("--scratch", default="."); ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    import pedsp  # noqa: F401
    for r in (register_elementwise, register_statistics, register_temporal, register_spectral, register_classes, register_strings, register_io):
        r()
    if a.list:
        print("\n".join(SITES))
        return 0
    S = Monitor(a, a.site)
    np.seterr(all="ignore")
    SITES[a.site](S)
    with open(a.out, "w") as f:
        json.dump(S.report(), f, default=float)
    return 0


sys.exit(main())
