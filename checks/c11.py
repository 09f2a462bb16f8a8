"""C11: concurrent calculations give the results of sequential ones."""
import random
from lib import *

TECH = "TLA+ spec, TLC model checking (all interleavings) + validation of traces recorded from concurrent runs"
NOTE = ("All interleavings of three threads calling locked and lock-free routines are model-checked, including liveness; designs "
        "without a lock, with a lock per routine, a lock per thread, or a lock released early are refuted. Concurrent runs of the real library are "
        "recorded at the entries into the Fortran routines (interposed at link time, with random delays inside the critical "
        "sections) together with every result, and validated against the spec. A monitored build (ThreadSanitizer) reports "
        "conflicting accesses not ordered by the locks, of which the spec allows none. Bounded by the operations and schedules executed.")
ASSUMPTIONS = ["the happens-before monitor of ThreadSanitizer; accesses inside the C++ standard library are not examined"]
ROUT = ["dszhiggs_", "dszodd_", "ddshiggs_", "ddsodd_", "tausqhiggs_", "tausqodd_", "taubot_", "taubotodd_"]
WRAP = ["-Wl,--wrap=" + r for r in ROUT]


def jobs(rng, n):
    r = []
    for i in range(n):
        pts = [rpoint(rng, *rng.choice([(400, 4000), (2000, 20000)]), spread=(.5, 2)), regime_point(rng, rng.choice(list(REGIMES)))]
        p = point_line(rng.choice(pts))
        o = ["calc ; dmh3l t", "calc ; dmh3l b", "calc ; cmp t", "calc ; print", "eft ; 3 1 1 1", "eft ; 2 1 1", "eft ; 1 1 1",
             "thr ; t %d %d 1" % (rng.randrange(45), rng.randrange(4)), "thr ; shift 4 1 0", "thr ; xt %d 4 1" % rng.randrange(6),
             "fo ; mh2", "fo ; mh2 ; diag 1 ; momit 2", "fo ; mh2 ; momit 1", "foat ; mh2", "fo ; d2", "fo ; d1", "fo ; num", "foat ; d2", "eft ; print", "fo ; print", "par ; print",
             "par ; validate", "calc ; hier %d t m 1 1 1" % rng.randrange(14), "calc ; mt42 5 t m 1 1"]
        for x in (o if i == 0 else rng.sample(o, 6)):
            r.append("%s # %s" % (x, p))
    p = rpoint(rng)
    p["mu2"] = diag(-1e5, 1e5, 1e5)                      # a failing calculation among the others
    r += ["calc ; dmh3l t # " + point_line(p), "eft ; 2 1 1 # " + point_line(p)]
    r += ["verbose ; x # " + point_line(rpoint(rng))]
    rng.shuffle(r)
    return r


def monitor(w, rng):
    """Runs the monitored build; returns the reported unordered accesses or None if monitoring is not possible here."""
    probe = w.path("probe.cpp")
    with open(probe, "w") as fh:
        fh.write("#include <thread>\nint main(){int x=0;std::thread t([&]{x=1;});t.join();return x-1;}\n")
    exe = w.path("probe")
    pre = []
    if sh(["g++", "-fsanitize=thread", "-pthread", probe, "-o", exe]).returncode:
        return None
    if sh([exe]).returncode:
        pre = ["setarch", "-R"]
        if shutil.which("setarch") is None or sh(pre + [exe]).returncode:
            return None
    b = build(["threads"], extra_link=WRAP, san=["-fsanitize=thread", "-g1"])["threads"]
    inp = w.path("mon.in")
    with open(inp, "w") as fh:
        fh.write("\n".join(jobs(rng, 12 if THOROUGH else 3)) + "\n")
    log = w.path("tsan")
    env = dict(os.environ, MONITORED="1", TSAN_OPTIONS="exitcode=0 halt_on_error=0 report_signal_unsafe=0 log_path=" + log)
    try:
        r = subprocess.run(pre + [b, inp, w.path("mon.out"), "6", "2", "0", "1"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode:
        raise Inconclusive("monitored run failed (%d)" % r.returncode)
    races = []
    for f in sorted(os.listdir(w.d)):
        if f.startswith("tsan."):
            t = open(w.path(f), errors="replace").read()
            races += re.findall(r"^SUMMARY: ThreadSanitizer: (data race|heap-use-after-free|lock-order[^ ]*) (.*)$", t, re.M)
    return sorted({"%s %s" % x for x in races})


def run(w):
    rng = random.Random(SEED * 7919 + 11)
    b = build(["threads"], extra_link=WRAP)["threads"]
    model_check("Threads", must_cover=["Call", "Acquire", "Store", "Load", "Local"])
    for d in ("NoLock", "TwoLocks", "PerThread", "EarlyRelease"):
        must_fail("Threads", "ThreadsBad_" + d)
    runs = [(2, 3, 200), (8, 2, 50), (16, 1, 100), (5, 2, 0)] * (4 if THOROUGH else 1)
    seen = {}
    for i, (n, rounds, delay) in enumerate(runs):
        inp, tr = w.path("t%d.in" % i), w.path("t%d.ndjson" % i)
        with open(inp, "w") as fh:
            fh.write("\n".join(jobs(rng, 5)) + "\n")

        def record():
            r = run_harness(b, [inp, tr, n, rounds, delay, SEED + i])
            if r.returncode:
                r = run_harness(b, [inp, tr, n, rounds, delay, SEED + i])
                if r.returncode in (77, 3):
                    raise Inconclusive("recorder failed (%d)" % r.returncode)
                if r.returncode:
                    raise Rejected("concurrent calculations terminated the process (status %d)" % r.returncode, [inp])
        record()
        # a forbidden interleaving is a violation even if another run does not repeat it: no second recording
        check_trace("ThreadsTrace", tr)
        for x in open(tr):
            e = json.loads(x)
            if e["event"] == "Enter":
                seen[e["r"]] = seen.get(e["r"], 0) + 1
        sample([tr], 1, 200)
    mon = monitor(w, rng)
    if mon is not None:
        f = w.path("monitor.ndjson")
        with open(f, "w") as fh:
            fh.write(json.dumps({"event": "Monitor", "races": mon}) + "\n")
        check_trace("ThreadsTrace", f)
    return {"entries": seen, "monitored": mon is not None}
