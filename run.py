#!/usr/bin/env python3
"""Runs the runtime-monitoring check of one property against /repo's working tree.

usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--site RE] [--jobs N]
       run.py --replay FILE        re-executes the cases of a replay file
       run.py --selftest           toolchain check used by setup_cmd

exit 0: held on everything explored (known findings are printed as KNOWN-FINDING lines)
exit 1: VIOLATION line printed
exit 2: the check itself could not give an answer
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EDSP_REPO", "/repo")
sys.path.insert(0, VERIF)
import checks  # noqa: E402

BUILD = os.path.join(VERIF, ".build")
COMMON = ["-include", "cstdint", "-DNDEBUG", "-DUSE_LIBFFTW", "-DUSE_LIBSNDFILE", "-DUSE_LIBSAMPLERATE", "-DUSE_TAGLIB",
          "-w", "-g1", "-fno-omit-frame-pointer", "-pthread"]
LIBS = ["-lfftw3", "-lfftw3f", "-lsndfile", "-lsamplerate", "-ltag", "-lm", "-ldl"]
SAN = {
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,null", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-O1"],
    # whole undefined set, including reference-to-null
    "tsan": ["-fsanitize=thread", "-O1"],
    "none": ["-O2"],
    # the optimised flavour users get: catches code whose behaviour differs under -O3 -NDEBUG
    "opt": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    "o3": ["-O3"],
    "o0": ["-O0"],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:strict_string_checks=1:max_allocation_size_mb=2048:detect_invalid_pointer_pairs=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=86:report_bugs=1:second_deadlock_stack=1:suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"),
    "LC_ALL": "C",
}


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            h.update(base.encode()); h.update(open(base, "rb").read()); continue
        for d, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def clean_build(limit=60):
    try:
        ents = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
    except OSError:
        return
    ents = [e for e in ents if time.time() - os.path.getmtime(e) > 600]
    ents.sort(key=os.path.getmtime)
    for e in ents[:max(0, len(ents) - limit)]:
        try:
            shutil.rmtree(e) if os.path.isdir(e) else os.unlink(e)
        except OSError:
            pass


class CompileFailure(Exception):
    """The compiler rejected a harness that compiles against the original sources: the interface it uses is gone or broken."""


def compile_all(jobs):
    """jobs: (command, source); at most as many at a time as there are cores."""
    def one(job):
        r = subprocess.run(job[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout, job[1]
    with cf.ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        for rc, text, src in ex.map(one, jobs):
            if rc:
                if rc == 1 and re.search(r"\berror: |undefined reference|multiple definition", text) and "internal compiler error" not in text and "Killed" not in text:
                    raise CompileFailure("%s\n%s" % (src, "\n".join(l for l in text.split("\n") if re.search(r"error: |required from|undefined reference|multiple definition", l))[:4000]))
                raise RuntimeError("cannot compile %s\n%s" % (src, text[-6000:]))


PYTHONS = ["/opt/vp/venv/bin/python3", sys.executable, "/opt/veriftools/pyvenv/bin/python3", "python3"]


def build_pymodule(unit):
    """Builds the Python extension with the sanitizers; returns a script that runs the monitors inside the interpreter."""
    py = next((p for p in PYTHONS if subprocess.run([p, "-c", "import sys, numpy; sys.exit(sys.version_info[:2] != (3, 12))"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0), None) \
        if not os.environ.get("EDSP_PYTHON") else os.environ["EDSP_PYTHON"]
    if not py:
        raise RuntimeError("no python 3.12 with numpy")
    san = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,null,alignment", "-fno-sanitize-recover=all"]
    base = ["g++"] + san + ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fPIC"] + COMMON + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "bindings", "c", "include")]
    pyf = ["-std=c++14", "-DBOOST_NUMPY_DYN_LINK", "-DBOOST_PYTHON_DYN_LINK", "-DMODULE_NAME=pedsp", "-I/usr/include/python3.12", "-I" + os.path.join(REPO, "bindings", "python", "include")]
    driver = os.path.join(VERIF, "harness", unit["src"])
    key = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "bindings"), driver])
    key = hashlib.sha256((key + repr((base, pyf, py))).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "pedsp-" + key)
    run = os.path.join(out, "run")
    if os.path.exists(run):
        os.utime(out)
        return run
    t = out + ".%d.tmp" % os.getpid()
    os.makedirs(t)
    try:
        jobs, objs = [], []
        for kind, flags in (("python", pyf), ("c", ["-std=c++17"])):
            d = os.path.join(REPO, "bindings", kind, "src")
            for r, _, fs in sorted(os.walk(d)):
                for f in sorted(fs):
                    if f.endswith((".c", ".cpp", ".cc")):
                        s = os.path.join(r, f)
                        o = os.path.join(t, "%d.o" % len(objs))
                        objs.append(o)
                        jobs.append((base[:1] + ["-x", "c++"] + base[1:] + flags + ["-c", s, "-o", o], s))
        compile_all(jobs)
        r = subprocess.run(["g++"] + san + ["-shared", "-o", os.path.join(t, "pedsp.so")] + objs + LIBS + ["-lboost_numpy312", "-lboost_python312", "-lpython3.12"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise (CompileFailure if re.search("undefined reference|multiple definition", r.stdout) else RuntimeError)("linking pedsp\n" + r.stdout[-3000:])
        for o in objs:
            os.unlink(o)
        pre = " ".join(subprocess.run(["g++", "-print-file-name=" + l], stdout=subprocess.PIPE, text=True).stdout.strip() for l in ("libasan.so", "libubsan.so", "libstdc++.so"))
        with open(os.path.join(t, "run"), "w") as f:
            f.write("#!/bin/sh\nexec env LD_PRELOAD='%s' PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1 PYTHONPATH='%s' '%s' '%s' \"$@\"\n" % (pre, out, py, driver))
        os.chmod(os.path.join(t, "run"), 0o755)
        try:
            os.rename(t, out)
        except OSError:
            if not os.path.exists(run):
                raise
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return run


LOCKS, LOCKS_GUARD = {}, threading.Lock()


def build(unit):
    """One build at a time for each distinct unit: the same binary may serve several properties."""
    k = repr(sorted((a, repr(b)) for a, b in unit.items() if a not in ("as_prop", "baseline", "env")))
    with LOCKS_GUARD:
        lock = LOCKS.setdefault(k, threading.Lock())
    with lock:
        return build_unit(unit)


def build_unit(unit):
    """Compiles one harness from /repo's current tree; returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    if unit.get("pymodule"):
        return build_pymodule(unit)
    if unit.get("headers"):
        sys.path.insert(0, os.path.join(VERIF, "harness"))
        import headers_build
        return headers_build.build(unit, globals())
    src = os.path.join(VERIF, "harness", unit["src"])
    san = unit.get("san", "asan")
    cxx = unit.get("cxx", "g++")
    std = unit.get("std", "c++14")
    extra = [p for e in unit.get("repo_srcs", []) for p in sorted(glob.glob(os.path.join(REPO, e)))] + [os.path.join(VERIF, "harness", e) for e in unit.get("c_srcs", [])]
    flags = SAN[san] + COMMON + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "bindings"), "-I" + os.path.join(REPO, "bindings", "c", "include"), "-I" + os.path.join(VERIF, "harness")] + unit.get("flags", [])
    key = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "bindings", "c"), os.path.join(VERIF, "harness", "vm.hpp"), src]
                    + [os.path.join(VERIF, "harness", x) for x in unit.get("deps", []) + unit.get("c_srcs", [])])
    key = hashlib.sha256((key + repr((san, cxx, std, flags, extra, unit.get("libs", [])))).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "%s-%s-%s" % (os.path.splitext(unit["src"])[0], san, key))
    if os.path.exists(out):
        os.utime(out)
        return out
    t = out + ".%d.tmp" % os.getpid()
    objs = []
    try:
        jobs = []
        for i, s in enumerate([src] + extra):
            o = t + ".%d.o" % i
            lang = ["-x", "c", "-std=c99"] if s.startswith(VERIF) and s.endswith(".c") else ["-x", "c++", "-std=" + ("c++17" if s.startswith(REPO) else std)]
            use = [f for f in flags if f not in ("-include", "cstdint")] if "c" in lang else flags
            jobs.append(([cxx] + lang + use + ["-c", s, "-o", o], s))
            objs.append(o)
        compile_all(jobs)
        r = subprocess.run([cxx] + SAN[san] + ["-pthread", "-o", t] + objs + unit.get("libs", []) + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise (CompileFailure if re.search("undefined reference|multiple definition", r.stdout) else RuntimeError)("linking %s\n%s" % (unit["src"], r.stdout[-3000:]))
        os.rename(t, out)
    finally:
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)
    return out


def classify(rc, err):
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        txt = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "#", m.group(1))
        loc = re.search(r"([\w./+-]+\.(?:hpp|cpp|c|h)):(\d+):\d+: runtime error", err)
        return "ubsan:" + txt[:90], (os.path.basename(loc.group(1)) if loc else "") + " " + m.group(0)[:300]
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.*)", err)
        where = next((f for f in fr if "edsp" in f or "/repo/" in f), fr[0] if fr else "")
        return "asan:" + m.group(1), where[:300]
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
    if m:
        fr = re.findall(r"#\d+ (.*)", err)
        where = next((f for f in fr if "edsp" in f or "/repo/" in f or "fftw" in f), fr[0] if fr else "")
        return "tsan:" + m.group(1), where[:300]
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return "exception:" + m.group(1), err[-300:]
    if "Assertion" in err:
        return "assertion", err[-400:]
    if rc < 0:
        try:
            return "signal:" + signal.Signals(-rc).name, err[-300:]
        except ValueError:
            pass
    return "exit:%d" % rc, err[-400:]


class Runner:
    def __init__(self, prop, tier, seed, jobs):
        self.prop, self.tier, self.seed, self.jobs = prop, tier, seed, jobs
        self.tmp = tempfile.mkdtemp(prefix="edsp-%s-" % prop)
        self.deadline = time.time() + (780 if tier == "quick" else 6 * 3600)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def one(self, binary, unit, site, frm=0, only=-1):
        tag = hashlib.sha1(("%s|%s|%d|%d|%f" % (binary, site, frm, only, time.time())).encode()).hexdigest()[:12]
        out, prog, errf = (os.path.join(self.tmp, tag + e) for e in (".json", ".prog", ".err"))
        scratch = os.path.join(self.tmp, tag + ".d")
        os.makedirs(scratch)
        env = dict(os.environ, **ENV)
        env.update(unit.get("env", {}))
        env["TMPDIR"] = scratch
        cmd = (unit.get("runner", []) + [binary, "--prop", unit.get("as_prop", self.prop), "--site", site, "--seed", str(self.seed), "--tier", self.tier, "--out", out,
               "--prog", prog, "--from", str(frm), "--only", str(only), "--scratch", scratch])
        stall = unit.get("stall", 90)
        with open(errf, "w") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=scratch, start_new_session=True)
            last, t_last, hung = None, time.time(), False
            while True:
                try:
                    p.wait(0.5 if time.time() - t_last > 2 else 0.05)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = self.progress(prog)[0:2]
                if cur != last:
                    last, t_last = cur, time.time()
                if time.time() - t_last > stall or time.time() > self.deadline:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        err = open(errf, errors="replace").read()
        if len(err) > 200000:
            err = err[:100000] + err[-100000:]
        idx, running, desc = self.progress(prog)
        res = None
        if not hung and p.returncode == 0 and os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        for f in (out, prog, errf):
            if os.path.exists(f):
                os.unlink(f)
        shutil.rmtree(scratch, ignore_errors=True)
        return dict(rc=p.returncode, hung=hung, late=time.time() > self.deadline, err=err, idx=idx, running=running, desc=desc, res=res)

    @staticmethod
    def progress(path):
        try:
            b = open(path, "rb").read(4096)
        except OSError:
            return (-1, 0, "")
        if len(b) < 16:
            return (-1, 0, "")
        return (int.from_bytes(b[:8], "little", signed=True), int.from_bytes(b[8:16], "little"), b[16:].split(b"\0")[0].decode("latin-1"))

    def site(self, binary, unit, site, only=-1):
        """Runs a site to completion, restarting after a case that dies."""
        agg = dict(site=site, evaluations=0, distinct=0, observations=0, violations=[], samples=[], dims={}, counters={}, error=None, crashes=0, max_err=0.0)
        frm = 0
        crashes = 0
        hang_idx = None
        while True:
            r = self.one(binary, unit, site, frm, only)
            if r["res"]:
                res = r["res"]
                for k in ("evaluations", "distinct", "observations"):
                    agg[k] += res[k]
                agg["violations"] += res["violations"]
                agg["samples"] += res["samples"]
                agg["max_err"] = max(agg["max_err"], res.get("max_err_over_tol", 0.0))
                for k, v in res["dims"].items():
                    agg["dims"][k] = agg["dims"].get(k, 0) + v
                for k, v in res["counters"].items():
                    agg["counters"][k] = agg["counters"].get(k, 0) + v
                return agg
            if r["late"]:
                agg["error"] = "out of time in site %s" % site
                return agg
            if r["rc"] == 3 and not r["hung"]:
                agg["error"] = "harness error in %s: %s" % (site, r["err"][-500:])
                return agg
            if r["idx"] < 0:
                # died before the first case: a sanitizer report in static setup still counts
                kind, msg = classify(r["rc"], r["err"])
                if kind.startswith(("asan", "ubsan", "tsan")):
                    agg["violations"].append(dict(kind="crash:" + kind, idx=-1, desc="(before first case)", msg=msg, log=r["err"][:6000]))
                else:
                    agg["error"] = "harness %s died before its first case (%s): %s" % (site, kind, r["err"][-500:])
                return agg
            if r["hung"]:
                if hang_idx != r["idx"]:      # inconclusive the first time: run again from there
                    hang_idx = r["idx"]
                    frm = r["idx"]
                    continue
                kind, msg = "hang", "case makes no progress (twice)"
            else:
                kind, msg = classify(r["rc"], r["err"])
                kind = "crash:" + kind
            agg["violations"].append(dict(kind=kind, idx=r["idx"], desc=r["desc"], msg=msg, log=r["err"][:6000]))
            agg["evaluations"] += max(0, r["idx"] - frm + 1)
            crashes += 1
            agg["crashes"] = crashes
            if crashes >= unit.get("max_crashes", 12) or only >= 0:
                return agg
            frm = r["idx"] + 1


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) site=(\S+) kind=(\S+)(?: case=(\S+))? :: (.*)", line.strip())
            if m:
                out.append(dict(prop=m.group(1), site=m.group(2), kind=m.group(3), case=m.group(4), what=m.group(5)))
            elif line.startswith("known:"):
                print("bad known-findings line: " + line.strip())
                sys.exit(2)
    return out


def match_known(known, prop, site, v):
    for k in known:
        if k["prop"] == prop and re.fullmatch(k["site"], site) and re.fullmatch(k["kind"], v["kind"].replace(" ", "_")) \
                and (not k["case"] or re.search(k["case"], v["desc"])):
            return k
    return None


def unit_name(u):
    n = u["src"] + ":" + u.get("san", "asan")
    return "%s:%s:%s:%s" % (n, u["cxx"], u["std"], u["as_prop"]) if u.get("as_prop") else n


def confirm(rn, unit, site, r):
    """A build configuration is at fault only where the reference build (gcc, C++14, sanitizers, assertions off) is quiet."""
    kept = []
    for v in r["violations"]:
        base = rn.site(build(unit["baseline"]), dict(unit["baseline"], as_prop=unit["as_prop"]), site, only=v["idx"]) if v["idx"] >= 0 else None
        if base and base["violations"]:
            r["counters"]["deviations of every build alike, left to the property itself"] = r["counters"].get("deviations of every build alike, left to the property itself", 0) + 1
        else:
            kept.append(v)
    r["violations"] = kept


def check(prop, tier, seed, site_re, jobs):
    t0 = time.time()
    spec = checks.CHECKS[prop]
    rn = Runner(prop, tier, seed, jobs)
    try:
        clean_build()
        if spec.get("python"):
            results, errors = spec["python"](rn, spec, site_re)
        else:
            with cf.ThreadPoolExecutor(jobs) as ex:
                units = [u for u in spec["units"] if tier == "thorough" or not u.get("thorough_only")]
                def safe(u):
                    try:
                        return build(u)
                    except CompileFailure as e:
                        return e
                bins = list(ex.map(safe, units))
            failed = [(u, b) for u, b in zip(units, bins) if isinstance(b, Exception)]
            work = []
            for u, b in zip(units, bins):
                if isinstance(b, Exception):
                    continue
                names = subprocess.run([b, "--list", "--prop", u.get("as_prop", prop)], stdout=subprocess.PIPE, text=True, env=dict(os.environ, **ENV)).stdout.split("\n")
                for n in names:
                    if n and (not site_re or re.search(site_re, n)):
                        work.append((b, u, n))
            with cf.ThreadPoolExecutor(jobs) as ex:
                def go(w):
                    t = time.time()
                    r = rn.site(*w)
                    r["wall"] = round(time.time() - t, 2)
                    r["unit"] = unit_name(w[1])
                    if w[1].get("as_prop"):
                        confirm(rn, w[1], w[2], r)
                        r["site"] = "%s:%s" % (unit_name(w[1]), w[2])
                    r["unit_spec"] = w[1]
                    return r
                results = list(ex.map(go, work))
            for u, b in failed:     # what the property's monitors use no longer compiles: nobody can rely on it
                results.append(dict(site="build:" + unit_name(u), unit=unit_name(u), evaluations=1, distinct=1, observations=1, samples=[], dims={}, counters={}, error=None,
                                    violations=[dict(kind="does-not-compile", idx=-1, desc="building %s (%s)" % (u["src"], u.get("san", "asan")), msg=str(b)[:600], log=str(b))]))
            errors = [r["error"] for r in results if r["error"]]
    finally:
        rn.close()
    known = load_known()
    seen_known, bad = {}, []
    for r in results:
        for v in r["violations"]:
            k = match_known(known, prop, r["site"], v)
            if k:
                seen_known.setdefault(k["what"], []).append((r["site"], v))
            else:
                bad.append((r, v))
    ev = sum(r["evaluations"] for r in results)
    dn = sum(r["distinct"] for r in results)
    obs = sum(r["observations"] for r in results)
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            samples.append("%s: %s" % (r["site"], s))
    dims, counters = {}, {}
    for r in results:
        for k, v in r["dims"].items():
            dims["%s" % k] = dims.get(k, 0) + v
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=spec["rule"], samples=samples[:24], oracle_comparisons=obs,
               sites={r["site"]: dict(evaluations=r["evaluations"], comparisons=r["observations"], build=r.get("unit", ""), wall_s=r.get("wall", 0), max_err_over_tol=float("%.3g" % r.get("max_err", 0))) for r in results},
               observed_values=dims, observed_events=counters,
               known_findings_seen={k: len(v) for k, v in seen_known.items()})
    evidence = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov,
                    assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not site_re:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for what, vs in seen_known.items():
        print("KNOWN-FINDING: property=%s %s (%d observed, e.g. %s: %s)" % (prop, what, len(vs), vs[0][0], vs[0][1]["desc"][:120].replace("\n", " ")))
    for e in errors:
        print("CHECK-ERROR property=%s %s" % (prop, e))
    if bad:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, violations=[dict(site=r["site"], unit=r.get("unit", ""), **v) for r, v in bad[:200]]), f, indent=1)
        shown = set()
        for r, v in bad:
            if (r["site"], v["kind"]) in shown or len(shown) >= 12:
                continue
            shown.add((r["site"], v["kind"]))
            print("  site=%s kind=%s case#%d %s\n      %s" % (r["site"], v["kind"], v["idx"], v["desc"][:300], v["msg"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        return 2
    if not site_re and (ev < spec.get("min_evaluations", 50) or obs < spec.get("min_observations", 100) or dn < 2):
        print("CHECK-ERROR property=%s the monitors observed too little (%d cases, %d comparisons)" % (prop, ev, obs))
        return 2
    print("OK property=%s tier=%s seed=%d: %d cases (%d distinct non-trivial), %d oracle comparisons over %d sites, %.1f s" % (prop, tier, seed, ev, dn, obs, len(results), time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    spec = checks.CHECKS[d["property"]]
    rn = Runner(d["property"], d["tier"], d["seed"], 1)
    bad = 0
    try:
        for v in d["violations"][:20]:
            if spec.get("python"):
                print("replay: run.py %s --seed %d --tier %s --site '%s'" % (d["property"], d["seed"], d["tier"], re.escape(v["site"])))
                return check(d["property"], d["tier"], d["seed"], "^" + re.escape(v["site"]) + "$", 4)
            u = next(u for u in spec["units"] if unit_name(u) == v["unit"])
            if v["kind"] == "does-not-compile":
                try:
                    build(u)
                except CompileFailure as e:
                    bad += 1
                    print("reproduced: does not compile\n" + str(e)[:2000])
                continue
            r = rn.site(build(u), u, v["site"][len(unit_name(u)) + 1:] if u.get("as_prop") else v["site"], only=v["idx"])
            for w in r["violations"]:
                bad += 1
                print("reproduced site=%s case#%d kind=%s %s\n   %s" % (v["site"], w["idx"], w["kind"], w["desc"][:400], w["msg"][:400]))
    finally:
        rn.close()
    print("reproduced %d violation(s)" % bad)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--site")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        for tool in ("g++", "clang++"):
            if not shutil.which(tool):
                print("missing " + tool)
                return 1
        os.makedirs(BUILD, exist_ok=True)
        print("toolchain present; %d checks registered" % len(checks.CHECKS))
        return 0
    if a.replay:
        return replay(a.replay)
    if a.prop not in checks.CHECKS:
        print("unknown property")
        return 2
    try:
        return check(a.prop, "thorough" if a.tier == "thorough" else "quick", a.seed, a.site, a.jobs)
    except Exception:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR property=%s internal error" % a.prop)
        return 2


if __name__ == "__main__":
    sys.exit(main())
