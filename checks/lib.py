"""Common machinery of the checks: incremental build of the library from
/repo's working tree, harness execution, TLC runs, evidence and verdicts."""
import concurrent.futures, hashlib, json, math, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = max(1, os.cpu_count() or 1)
THOROUGH = TIER == "thorough"


class Inconclusive(Exception):
    """The machinery (not the code under test) failed."""


class Rejected(Exception):
    """The code under test left the behaviour the specification allows."""
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


# ---------------------------------------------------------------- build ----
CXX = ["g++", "-std=c++14", "-fPIC", "-w", "-pthread"]
INC = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "source"),
       "-I", "/usr/include/eigen3", "-I", HARN, "-I", os.path.join(HARN, "stub")]


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(f):
    with open(f, "rb") as fh:
        return fh.read()


def _headers(*dirs):
    out = []
    for d in dirs:
        for r, _, fs in sorted(os.walk(d)):
            for f in sorted(fs):
                if f.endswith((".hpp", ".h")):
                    out.append(os.path.join(r, f))
    h = hashlib.sha256()
    for f in out:
        h.update(f.encode())
        h.update(_read(f))
    return h.hexdigest()


def library_sources():
    """The sources of libHimalaya and libDSZ (everything but the Mathematica link)."""
    base = os.path.join(REPO, "source", "himalaya")
    src = []
    for r, _, fs in os.walk(base):
        if os.path.basename(r) == "LibraryLink":
            continue
        for f in fs:
            if f.endswith((".cpp", ".cc", ".c", ".f", ".f90")):
                src.append(os.path.join(r, f))
    return sorted(src)


def _compile(job):
    cmd, out = job
    if os.path.exists(out):
        return None
    tmp = "%s.%d.tmp" % (out, os.getpid())
    wd = tempfile.mkdtemp(prefix="cc.", dir=CACHE)
    try:
        r = sh(cmd + ["-o", tmp], cwd=wd)
        if r.returncode:
            return "%s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-4000:])
        os.replace(tmp, out)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return None


def _obj(src, flags, key):
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    if src.endswith((".f", ".f90")):
        cmd = ["gfortran", "-fPIC", "-w", "-O2"] + [x for x in flags if x.startswith(("-fsan", "-g1"))] + ["-c", src]
        key = ""
    else:
        cmd = CXX + flags + INC + ["-c", src]
    name = re.sub(r"\W+", "_", os.path.relpath(src, "/"))
    out = os.path.join(CACHE, "obj", "%s.%s.o" % (name, _hash(_read(src), " ".join(cmd), key)))
    return (cmd, out)


def lib_flags(src):
    # the hierarchy files are huge straight-line expressions: optimising them
    # costs most of the build time and buys nothing here
    return ["-O0"] if "/hierarchies/" in src else ["-O2"]


def build(harnesses, extra_link=(), san=()):
    """Builds library objects and the named harness programs (harness/<n>.cpp);
    returns {name: path}."""
    t0 = time.time()
    hdr = _headers(os.path.join(REPO, "include"), os.path.join(REPO, "source"))
    hhdr = _headers(HARN)
    jobs = [_obj(s, lib_flags(s) + list(san), hdr) for s in library_sources()]
    big = sorted(jobs, key=lambda j: -os.path.getsize([x for x in j[0] if x.startswith(REPO) and os.path.isfile(x)][-1]))
    hjobs = {}
    for n in harnesses:
        s = os.path.join(HARN, n + ".cpp")
        # _read(hashed link sources) is added because a harness may include sources of the library
        hjobs[n] = _obj(s, ["-O1", "-fno-access-control"] + list(san),
                        hdr + hhdr + _hash(*[_read(f) for f in _linksrc()]))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(_compile, list(hjobs.values()) + big) if e]
    if errs:
        raise Inconclusive("build failed:\n" + "\n".join(errs))
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    out = {}
    objs = [j[1] for j in jobs]
    for n, (c, o) in hjobs.items():
        b = os.path.join(CACHE, "bin", "%s.%s" % (n, _hash(o, *objs, *extra_link)))
        if not os.path.exists(b):
            tmp = b + ".%d" % os.getpid()
            r = sh(["g++", "-pthread", "-o", tmp, o] + objs + list(san) + ["-lgfortran", "-lm"] + list(extra_link))
            if r.returncode:
                raise Inconclusive("link failed: " + r.stderr.decode(errors="replace")[-3000:])
            os.replace(tmp, b)
        out[n] = b
    _prune()
    STATS["build_s"] = round(time.time() - t0, 1)
    return out


def _linksrc():
    d = os.path.join(REPO, "source", "himalaya", "LibraryLink")
    if not os.path.isdir(d):
        return []
    return sorted(os.path.join(d, f) for f in os.listdir(d))


def _prune(limit=1500 * 1024 * 1024):
    fs = []
    for sub in ("obj", "bin"):
        d = os.path.join(CACHE, sub)
        for f in os.listdir(d) if os.path.isdir(d) else []:
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
                fs.append((st.st_atime, st.st_size, p))
            except OSError:
                pass
    tot = sum(f[1] for f in fs)
    for _, s, p in sorted(fs):
        if tot <= limit:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        tot -= s


def kernel():
    """Compiles the Java overrides of module Real64; returns the class path entry."""
    src = os.path.join(SPEC, "Real64.java")
    d = os.path.join(CACHE, "java", _hash(_read(src)))
    if not os.path.exists(os.path.join(d, "Real64.class")):
        tmp = d + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = sh(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", tmp, src])
        if r.returncode:
            raise Inconclusive("javac: " + r.stderr.decode())
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


# ------------------------------------------------------------- work dirs ---
class Work:
    """Scratch directory of one check; removed on exit."""
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix="run.", dir=CACHE)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.d, n)


def run_harness(binary, args=(), stdin=None, env=None, timeout=600, cwd=None, ok=(0,)):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run([binary] + [str(a) for a in args], input=stdin, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=e, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise Rejected("the library did not return within %d s" % timeout)
    return r


# ------------------------------------------------------------------ TLC ----
STATS = {"states": 0, "transitions": 0, "traces": 0, "events": 0, "samples": [], "mc": [], "actions": {}}


def tlc(module, cfg=None, env=None, workers=1, args=(), timeout=800, heap="3g", expect_ok=True):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg; returns (ok, output, info)."""
    k = kernel()
    meta = tempfile.mkdtemp(prefix="tlc.", dir=CACHE)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
           "-cp", ":".join([TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar", k]),
           "tlc2.TLC", "-noTE", "-metadir", meta, "-workers", str(workers),
           "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("TLC timeout on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    m = re.findall(r"([\d,]+) states generated,? ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    info = {"generated": gen, "distinct": dist, "rc": r.returncode}
    ok = r.returncode == 0 and "No error has been found" in out
    sim = "-simulate" in args
    if sim:
        ok = r.returncode == 0
        m = re.findall(r"([\d,]+) states checked", out)
        if m:
            info["generated"] = info["distinct"] = int(m[-1].replace(",", ""))
    STATS["states"] += info["distinct"]
    STATS["transitions"] += info["generated"]
    if not ok and r.returncode not in (10, 11, 12, 13, 14) and "violated" not in out and "is false" not in out:
        # parse error, evaluation error, crash: not a verdict about the code
        raise Inconclusive("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, out[-3500:]))
    return ok, out, info


def model_check(module, cfg=None, workers=JOBS, must_cover=(), timeout=800, **kw):
    """Exhaustive check of a design configuration; any error is an error of the model."""
    ok, out, info = tlc(module, cfg, workers=workers, args=["-coverage", "1"], timeout=timeout, **kw)
    if not ok:
        raise Inconclusive("design model %s/%s violated:\n%s" % (module, cfg, out[-3000:]))
    cov = {}
    for name, d, g in re.findall(r"^<(\w+) line[^>]*>: (\d+):(\d+)", out, re.M):
        cov[name] = max(cov.get(name, 0), int(g))
    for a in must_cover:
        if cov.get(a, 0) == 0:
            raise Inconclusive("vacuous model %s: action %s never taken" % (module, a))
    STATS["mc"].append({"module": module, "config": cfg or module, "states": info["distinct"],
                        "transitions": info["generated"],
                        "actions_taken": {a: cov[a] for a in must_cover if a in cov}})
    return info


def must_fail(module, cfg, workers=2, **kw):
    """A deliberately broken variant of a design: TLC has to find the violation."""
    ok, out, info = tlc(module, cfg, workers=workers, **kw)
    if ok or "is violated" not in out:
        raise Inconclusive("the broken design %s/%s was not refuted:\n%s" % (module, cfg, out[-1500:]))
    STATS["mc"].append({"module": module, "config": cfg, "refuted": True})


def simulate(module, cfg, num, depth, seed, env=None, timeout=300):
    """Random behaviours of the specification; returns the JSON objects printed as ~BEH <json>."""
    ok, out, info = tlc(module, cfg, env=env, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
                        timeout=timeout)
    beh = []
    for m in re.findall(r'^"~BEH (.*)"$', out, re.M):
        beh.append(json.loads(m.encode().decode("unicode_escape")))
    if not beh:
        raise Inconclusive("no behaviours generated by %s/%s:\n%s" % (module, cfg, out[-2000:]))
    STATS["mc"].append({"module": module, "config": cfg, "behaviours": len(beh)})
    return beh


def validate(module, trace, cfg=None, env=None, name=None, timeout=800, count=1, heap="3g"):
    """Validates a recorded trace (ndjson file) against spec/<module>.tla.
    Returns None if accepted, otherwise a description of the first rejected event."""
    e = {"TRACE": trace}
    e.update(env or {})
    n = sum(1 for _ in open(trace))
    if n == 0:
        raise Inconclusive("empty trace for %s" % module)
    ok, out, info = tlc(module, cfg, env=e, timeout=timeout, heap=heap)
    if ok:
        STATS["traces"] += count
        STATS["events"] += n
        return None
    at = info["distinct"]        # the initial state + one per accepted event
    lines = open(trace).read().splitlines()
    bad = lines[at - 1] if 0 < at <= len(lines) else "(after the last event)"
    said = [re.sub(r"\s+", " ", w) for w in re.findall(r'^<<\s*"FAIL".*?>>\s*$', out, re.S | re.M)]
    why = [w for w in said if re.search(r", %d ?>>$" % at, w.strip())] or said
    inv = re.findall(r"(?:Invariant|property) (\w+) (?:is|was) violated", out)
    return {"event_index": at, "event": bad[:4000], "failed": [w[:300] for w in why][:8], "invariant": inv[:2],
            "tlc": out[-1500:] if not (why or inv) else ""}


def validate_parallel(jobs, workers=None):
    """jobs: list of (module, trace, kwargs). Returns list of results."""
    with concurrent.futures.ThreadPoolExecutor(workers or max(1, JOBS // 2)) as ex:
        return list(ex.map(lambda j: validate(j[0], j[1], **j[2]), jobs))


# ------------------------------------------------------------- findings ----
def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith("#") and line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def keep_replay(prop, files, note):
    d = os.path.join(VERIF, "replays", "%s-%s" % (prop, time.strftime("%Y%m%d-%H%M%S")))
    i = 0
    while os.path.exists(d + ("" if not i else "-%d" % i)):
        i += 1
    d = d + ("" if not i else "-%d" % i)
    os.makedirs(d)
    for f in files or []:
        if f and os.path.exists(f):
            shutil.copy(f, d)
    with open(os.path.join(d, "what.txt"), "w") as fh:
        fh.write(note + "\n")
    return d


def finish(prop, level, t0, violations=0, assumptions=None, extra=None):
    cov = {"states": STATS["states"], "transitions": STATS["transitions"],
           "traces_validated_against_impl": STATS["traces"], "trace_events": STATS["events"],
           "samples": STATS["samples"][:6] or ["none"], "model_runs": STATS["mc"],
           "build_s": STATS.get("build_s", 0)}
    cov.update(extra or {})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
          "coverage": cov, "assumptions": assumptions or [], "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")


# --------------------------------------------------------------- points ----
ARR = {"mq2": 9, "md2": 9, "mu2": 9, "ml2": 9, "me2": 9, "Au": 9, "Ad": 9, "Ae": 9, "Yu": 9, "Yd": 9, "Ye": 9}


def fmt(x):
    return repr(float(x)) if x == x and abs(x) != math.inf else ("nan" if x != x else ("inf" if x > 0 else "-inf"))


def point_line(p):
    """Serialises a point {name: number | [9 numbers]} for the harness."""
    t = []
    for k, v in p.items():
        if isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                t += ["%s.%d" % (k, i), fmt(x)]
        else:
            t += [k, fmt(v)]
    return " ".join(t)


def diag(a, b, c):
    return [a, 0, 0, 0, b, 0, 0, 0, c]


def rpoint(rng, lo=500., hi=5000., gaugeless=False, spread=(.5, 2.), same=.4, third_only=False):
    """A random, mostly physical, parameter point."""
    def L(a, b):
        return math.exp(rng.uniform(math.log(a), math.log(b)))
    MS = L(lo, hi)

    def M():
        return MS if rng.random() < same else MS * L(*spread)
    tb = L(1.5, 50)
    beta = math.atan(tb)
    mu = M() * (-1 if rng.random() < .3 else 1)
    v = rng.uniform(240, 250)
    p = dict(scale=MS * L(.7, 1.4), mu=mu, g1=rng.uniform(.44, .48), g2=rng.uniform(.62, .67), g3=rng.uniform(1., 1.1),
             vd=v * math.cos(beta), vu=v * math.sin(beta))
    for k in ("mq2", "md2", "mu2", "ml2", "me2"):
        a, b = M(), M()
        c = M() if rng.random() < .5 else a
        p[k] = diag(a * a, c * c, b * b)
    p["Au"] = diag(rng.uniform(-1, 1) * MS, rng.uniform(-1, 1) * MS, rng.uniform(-2, 2) * MS + mu / tb)
    p["Ad"] = diag(0, rng.uniform(-1, 1) * MS, rng.uniform(-1, 1) * MS)
    p["Ae"] = diag(0, rng.uniform(-1, 1) * MS, rng.uniform(-1, 1) * MS)
    p["Yu"] = diag(1e-5, 4e-3, rng.uniform(.75, .9))
    p["Yd"] = diag(1e-5 * tb, 2e-4 * tb, .006 * tb * rng.uniform(.8, 1.2))
    p["Ye"] = diag(3e-6 * tb, 6e-4 * tb, .01 * tb if tb < 20 else .2)
    p["MA"], p["M1"], p["M2"], p["MG"] = M(), M(), M(), M()
    if gaugeless:
        p["g1"] = p["g2"] = 1e-4
    return p


def supply(rng, p, prob=.5):
    """Adds optional input which need not agree with what the other parameters imply."""
    beta = math.atan(p["vu"] / p["vd"])
    v = math.hypot(p["vu"], p["vd"])
    tree = dict(MW=.5 * p["g2"] * v, MZ=.5 * math.sqrt(.6 * p["g1"] ** 2 + p["g2"] ** 2) * v, Mt=p["Yu"][8] * p["vu"] / 2 ** .5,
                Mb=p["Yd"][8] * p["vd"] / 2 ** .5, Mtau=p["Ye"][8] * p["vd"] / 2 ** .5)
    for k, x in tree.items():
        if rng.random() < prob:
            p[k] = x * rng.uniform(.85, 1.15)
    for M, t, s2, a, b in (("MSt", "theta_t", "s2t", "mq2", "mu2"), ("MSb", "theta_b", "s2b", "mq2", "md2"), ("MStau", "theta_tau", "s2tau", "ml2", "me2")):
        if rng.random() < .6 * prob:
            m = [p[a][8] ** .5 * rng.uniform(.95, 1.05), p[b][8] ** .5 * rng.uniform(.95, 1.05)]
            x = rng.uniform(-1.5, 1.5)
            p[M] = m
            r = rng.random()
            if r < .7:
                p[t] = x
            if r > .4:
                p[s2] = math.sin(2 * x)
    return p


# stop masses m1 <= m2, gluino and light-squark mass in units of MS for which a hierarchy fits best
REGIMES = {"h3": (1, 1.03, 1.05, 1.03), "h32q2g": (1, 1.05, 1.02, 1.03), "h3q22g": (1, 1.05, 1.03, 1.06), "h4": (1, 1.02, .98, 5),
           "h5": (1, 2, .98, 8), "h5g1": (1, 2, 1.02, 8), "h6": (.3, 1, .98, 8), "h6g2": (.3, 1, 1.02, 8), "h6b": (.3, 1, .99, .98),
           "h6b2qg2": (.3, 1, 1.02, .98), "h6bq22g": (.3, 1, .99, 1.02), "h6bq2g2": (.3, 1, 1.02, 1.02), "h9": (1, 1.03, .2, 1.02),
           "h9q2": (1, 1.03, .2, 1.04)}
HIER = ["h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2"]


def regime_point(rng, h, lo=1000., hi=20000., xt=.3):
    """A point in the mass pattern of hierarchy h."""
    m1, m2, mg, ms = REGIMES[h]
    p = rpoint(rng, lo, hi, spread=(.8, 1.25))
    MS = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    tb = p["vu"] / p["vd"]
    j = lambda: 1 + rng.uniform(-.003, .003)
    a, b = (m1, m2) if rng.random() < .5 else (m2, m1)
    for k in ("md2", "ml2", "me2"):
        p[k] = diag((ms * MS) ** 2, (ms * MS) ** 2, (ms * MS) ** 2)
    p["mq2"] = diag((ms * MS) ** 2, (ms * MS) ** 2, (a * MS * j()) ** 2)
    p["mu2"] = diag((ms * MS) ** 2, (ms * MS) ** 2, (b * MS * j()) ** 2)
    p["mu"] = MS * rng.uniform(.5, 1.5)
    p["MG"] = mg * MS * j()
    p["MA"] = MS * rng.uniform(.5, 1.5)
    p["Au"] = diag(0, 0, p["mu"] / tb + rng.uniform(-xt, xt) * MS)
    p["Ad"] = diag(0, 0, rng.uniform(-.5, .5) * MS)
    p["Ae"] = diag(0, 0, rng.uniform(-.5, .5) * MS)
    p["M1"], p["M2"] = MS * rng.uniform(.5, 1.5), MS * rng.uniform(.5, 1.5)
    p["scale"] = MS * rng.uniform(.8, 1.3)
    return p


def main(prop, level, fn, assumptions):
    """Runs one check: fn(work) raises Rejected for a violation."""
    t0 = time.time()
    try:
        with Work() as w:
            try:
                extra = fn(w)
            except Rejected as r:
                files = r.replay or []
                if isinstance(files, str):
                    files = [files]
                d = keep_replay(prop, files, r.what)
                finish(prop, level, t0, 1, assumptions, {"violation": r.what[:3000]})
                print(r.what[:3000])
                print("VIOLATION property=%s replay=%s" % (prop, d))
                return 1
            for k in known_findings(prop):
                if k["id"] in KNOWN_SEEN:
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            finish(prop, level, t0, 0, assumptions, extra)
            print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
                prop, STATS["states"], STATS["transitions"], STATS["traces"], STATS["events"], time.time() - t0))
            return 0
    except Inconclusive as e:
        finish(prop, level, t0, 0, assumptions, {"inconclusive": str(e)[:2000]})
        print("ERROR (no verdict) property=%s: %s" % (prop, e))
        return 3


KNOWN_SEEN = set()


def check_trace(module, trace, rerun=None, **kw):
    """validate(); a rejection is reported only if it repeats (with a trace recorded
    afresh when rerun is given)."""
    r = validate(module, trace, **kw)
    if r is None:
        return
    if rerun is not None:
        rerun()
    r2 = validate(module, trace, **kw)
    if r2 is None:
        raise Inconclusive("%s: a rejection did not repeat: %s" % (module, json.dumps(r)[:2000]))
    bad = trace + ".rejected.json"
    with open(bad, "w") as fh:
        json.dump(r2, fh, indent=1)
    raise Rejected("%s rejects the recorded behaviour at event %s: failed %s %s\nevent: %s\n%s" % (
        module, r2["event_index"], r2["failed"], r2["invariant"], r2["event"][:1500], r2["tlc"]), [trace, bad])


def split(lines, n):
    k = max(1, (len(lines) + n - 1) // n)
    return [lines[i:i + k] for i in range(0, len(lines), k)]


def conform_sessions(w, module, binary, sessions, **kw):
    """conform() with one recorder run per session (a list of input lines)."""
    return conform(w, module, binary, None, parts=sessions, **kw)


def conform(w, module, binary, lines, args=(), chunks=JOBS, parts=None, stdin=False, env=None, name=None, cfg=None, heap="2g",
            timeout=600, stats=None, tlc_env=None):
    """Splits the input lines over several runs of the recorder `binary IN OUT args`,
    validates each recorded trace against spec/<module>.tla, and raises Rejected
    (with the inputs and the trace as replay) if one is not a behaviour of it."""
    name = name or module
    parts = split(lines, chunks) if parts is None else parts

    def one(i):
        inp, tr = w.path("%s.%d.in" % (name, i)), w.path("%s.%d.ndjson" % (name, i))
        with open(inp, "w") as fh:
            fh.write("\n".join(parts[i]) + "\n")

        def record():
            r = run_harness(binary, [inp, tr] + list(args), env=env, timeout=timeout)
            if r.returncode != 0:
                # retry to exclude trouble of the machine
                r2 = run_harness(binary, [inp, tr] + list(args), env=env, timeout=timeout)
                if r2.returncode == 0:
                    return
                if r2.returncode == 77 or r.returncode != r2.returncode:
                    raise Inconclusive("%s: recorder failed (%d): %s" % (name, r2.returncode, r2.stderr.decode(errors="replace")[-1500:]))
                raise Rejected("%s: the library terminated the process (status %d): %s" % (
                    name, r2.returncode, r2.stderr.decode(errors="replace")[-1500:]), [inp])
        record()
        try:
            check_trace(module, tr, rerun=record, cfg=cfg, heap=heap, env=tlc_env)
        except Rejected as r:
            r.replay = (r.replay or []) + [inp]
            raise
        return tr
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(one, i) for i in range(len(parts))]
        trs, errs = [], []
        for f in futs:
            try:
                trs.append(f.result())
            except (Rejected, Inconclusive) as e:
                errs.append(e)
    for e in errs:
        if isinstance(e, Rejected):
            raise e
    if errs:
        raise errs[0]
    return trs


def sample(trs, n=3, width=600):
    for t in trs[:n]:
        with open(t) as fh:
            STATS["samples"].append(fh.readline()[:width].strip())
