"""Builds the C31 monitor: every public header in a unit of its own, and all of them together in several orders."""
import os, random, re, shutil, subprocess
import headers_table

PRE = """#define OUT(v) out(static_cast<double>(v))
#define RANGE(p, n) for (int i_ = 0; i_ < (n); ++i_) out((p)[i_])
#define ARGS const double* x, const double* s, const char* dir, void (*out)(double)
#define USE double y[64] = {}; (void) x; (void) s; (void) dir; (void) out; (void) y
"""
STATE = """struct StateFns;
namespace {
    void set(int l, const char* n, const char* p) { edsp::logger::set_default_level(static_cast<edsp::logger::levels>(l)); edsp::logger::set_default_name(n); edsp::logger::set_default_path(p); }
    void get(int* l, void (*n)(const char*), void (*p)(const char*)) { *l = static_cast<int>(edsp::logger::default_level()); n(edsp::logger::default_name().c_str()); p(edsp::logger::default_path().c_str()); }
    void set_env(const char* n, const char* v) { edsp::system_env::set_env(n, v); }
    void get_env(const char* n, void (*f)(const char*, size_t)) { auto v = edsp::system_env::get_env(n); if (v.has_value()) f(v.value().data(), v.value().size()); }
}
"""
N_STATE = 3


def functions(h):
    """OUT and RANGE are macros of the unit, defined after the headers so that they cannot hide what a header lacks."""
    return headers_table.H[h]


def generate(t, n_orders):
    """Writes the sources; returns [(source, object, kind)]."""
    names = sorted(headers_table.H)
    srcs = []
    def put(name, text, kind):
        p = os.path.join(t, name)
        with open(p, "w") as f:
            f.write(text)
        srcs.append((p, kind))
    for i, h in enumerate(names):
        put("h%03d.cpp" % i, "#include <edsp/%s>\n%sextern \"C\" void program_%d(ARGS) { USE; %s }\nextern \"C\" __attribute__((visibility(\"default\"))) void edsp_header_alone(ARGS);\n"
            "#ifdef ALONE\nextern \"C\" void edsp_header_alone(ARGS) { program_%d(x, s, dir, out); }\n#endif\n" % (h, PRE, i, headers_table.H[h], i), "alone")
    for k in range(n_orders):
        o = list(names)
        if k == 1:
            o.reverse()
        elif k > 1:
            random.Random(k * 7919).shuffle(o)
        put("o%d.cpp" % k, "".join("#include <edsp/%s>\n" % h for h in o) + PRE
            + "".join("extern \"C\" void order_%d_%d(ARGS) { USE; %s }\n" % (k, i, headers_table.H[h]) for i, h in enumerate(names)), "order")
    state = ""
    for k in range(N_STATE):
        inc = ["core/logger.hpp", "core/system.hpp"]
        if k == 1:
            inc.reverse()
        if k == 2:
            inc = ["io.hpp", "filter.hpp"] + inc
        put("s%d.cpp" % k, "".join("#include <edsp/%s>\n" % h for h in inc) + STATE + "#include \"state.hpp\"\nextern const StateFns state_%d;\nconst StateFns state_%d = {set, get, set_env, get_env};\n" % (k, k), "state")
        state += "extern const StateFns state_%d;\n" % k
    fns = "#pragma once\n#include <cstddef>\nstruct StateFns { void (*set)(int, const char*, const char*); void (*get)(int*, void (*)(const char*), void (*)(const char*)); void (*set_env)(const char*, const char*); void (*get_env)(const char*, void (*)(const char*, size_t)); };\n"
    with open(os.path.join(t, "state.hpp"), "w") as f:
        f.write(fns)
    with open(os.path.join(t, "headers_gen.hpp"), "w") as f:
        f.write("#include \"state.hpp\"\n#define ARGS const double*, const double*, const char*, void (*)(double)\nextern \"C\" {\n")
        for i in range(len(names)):
            f.write("void program_%d(ARGS);" % i + "".join(" void order_%d_%d(ARGS);" % (k, i) for k in range(n_orders)) + "\n")
        f.write("}\n" + state)
        f.write("static const Row ROWS[] = {\n" + "".join("    {\"%s\", \"h%03d.so\", program_%d, {%s}},\n" % (h, i, i, ", ".join("order_%d_%d" % (k, i) for k in range(n_orders))) for i, h in enumerate(names)) + "};\n")
        f.write("static const size_t N_STATE = %d;\nstatic const StateFns STATE[] = {%s};\n" % (N_STATE, ", ".join("state_%d" % k for k in range(N_STATE))))
    return srcs


def build(unit, env):
    """env: repo, verif, build directory, san flags, libs, tree_hash, compile_all, CompileFailure from run.py."""
    import hashlib
    repo, here = env["REPO"], os.path.join(env["VERIF"], "harness")
    cxx, std, san, orders = unit["cxx"], unit["std"], unit["san"], unit.get("orders", 3)
    flags = env["SAN"][san] + [f for f in env["COMMON"] if f not in ("-include", "cstdint")] + ["-O0", "-g0", "-fPIC", "-fno-gnu-unique" if cxx == "g++" else "-fPIC", "-fvisibility=hidden", "-I" + os.path.join(repo, "include"), "-I/usr/include/taglib"]
    key = env["tree_hash"]([os.path.join(repo, "include"), os.path.join(repo, "bindings", "c", "include")] + [os.path.join(here, f) for f in ("h_headers.cpp", "headers_table.py", "headers_build.py", "vm.hpp")])
    key = hashlib.sha256((key + repr((cxx, std, flags, orders))).encode()).hexdigest()[:20]
    out = os.path.join(env["BUILD"], "headers-" + key)
    run = os.path.join(out, "run")
    if os.path.exists(run):
        os.utime(out)
        return run
    t = out + ".%d.tmp" % os.getpid()
    os.makedirs(t)
    try:
        jobs, objs, libs = [], [], []
        cc = [cxx, "-std=" + std] + flags
        srcs = generate(t, orders)
        for p, kind in sorted(srcs, key=lambda s: s[1] != "order"):
            o = p[:-4] + ".o"
            objs.append(o)
            jobs.append((cc + ["-c", p, "-o", o], p))
        jobs.append((cc + ["-I" + t, "-I" + here, "-c", os.path.join(here, "h_headers.cpp"), "-o", os.path.join(t, "main.o")], "h_headers.cpp"))
        for h in sorted(os.listdir(os.path.join(repo, "bindings", "c", "include", "cedsp"))):
            if h.endswith(".h"):
                for i, lang in enumerate((["gcc", "-x", "c", "-std=c99"], ["clang", "-x", "c", "-std=c11"], [cxx, "-x", "c++", "-std=" + std])):
                    p = os.path.join(t, "c_%s_%d.c" % (h, i))
                    with open(p, "w") as f:
                        f.write("#include <cedsp/%s>\n#include <cedsp/%s>\nint unit_of_its_own;\n" % (h, h))
                    jobs.append((lang + ["-w", "-fsyntax-only", "-I" + os.path.join(repo, "bindings", "c", "include"), p], "cedsp/" + h))
        env["compile_all"](jobs)
        link = [cxx] + env["SAN"][san] + ["-pthread"]
        jobs = []
        for p, kind in srcs:
            if kind == "alone":
                jobs.append((cc + ["-DALONE", "-shared", p, "-o", p[:-4] + ".so"] + env["LIBS"], p))
        jobs.append((link + ["-o", os.path.join(t, "run")] + objs + [os.path.join(t, "main.o")] + env["LIBS"], "the program made of all units"))
        env["compile_all"](jobs)
        for f in os.listdir(t):
            if not f.endswith(".so") and f != "run":
                os.unlink(os.path.join(t, f))
        try:
            os.rename(t, out)
        except OSError:
            if not os.path.exists(run):
                raise
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return run
