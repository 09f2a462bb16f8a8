"""C12: diagnostics go to the error stream only, verbosity does not change results."""
import random
from lib import *

TECH = "TLA+ spec, TLC model checking + replayed spec behaviours + validation of recorded traces"
NOTE = ("Banner, completion messages and streams are model-checked for concurrent users; four broken designs (banner per object, "
        "non-atomic banner flag, verbose inner completions, debug print) refuted. Sequences of verbose and quiet operations generated "
        "by TLC are replayed with both standard streams recorded at descriptor level; every operation is validated against the "
        "spec, and equal operations must give equal results whatever the verbosity. Bounded by the sessions executed.")
ASSUMPTIONS = ["messages are recognised by the prefix of the logger and the names of the sparticles"]
SEC = {"t": ("MSt", "s2t", "theta_t"), "b": ("MSb", "s2b", "theta_b"), "tau": ("MStau", "s2tau", "theta_tau")}


def make(rng, miss, bad):
    p = rpoint(rng, *rng.choice([(400, 4000), (2000, 20000)]), spread=rng.choice([(.5, 2), (.9, 1.1)]))
    MS = p["mq2"][8] ** .5
    for s, (m, s2, th) in SEC.items():
        a, b = sorted(MS * rng.uniform(.8, 1.2) for _ in range(2))
        if s not in miss:
            p[m] = [a, b] if rng.random() < .7 else [b, a]
            x = rng.uniform(-.7, .7)
            r = rng.random()
            if r < .7:
                p[th] = x
            if r > .4:
                p[s2] = math.sin(2 * x)
        else:
            r = rng.random()
            if r < .3:
                p[m] = [a, b]
            elif r < .5:
                p[th] = .3
            elif r < .6:
                p[m + ".0"], p[s2] = a, .1
    if bad:
        c = rng.randrange(4)
        if c == 0:
            p["vu"] = -1.
        elif c == 1:
            p["mq2"] = diag(-1., 1e6, 1e6)
        elif c == 2:
            p["MG"] = -p["MG"]
        else:
            p["Ae"] = diag(0, 0, 1e9)
    return p


def run(w):
    b = build(["output"])["output"]
    rng = random.Random(SEED * 7919 + 12)
    model_check("Output", must_cover=["Start", "Banner", "Complete", "Calculate"])
    for d in ("PerObject", "CheckThenSet", "InnerVerbose", "DebugPrint"):
        must_fail("Output", "OutputBad_" + d)
    ses = []
    for beh in simulate("Output", "OutputGen", 160 if THOROUGH else 20, 80, SEED * 31 + 12):
        l, n = [], 0
        for s in beh:
            n += 1
            pt = point_line(make(rng, set(s["miss"]), s["bad"]))
            for v in rng.sample([int(s["v"]), 1 - int(s["v"])], 2 if rng.random() < .7 else 1):
                l.append("op %s %d %d # %s" % (s["kind"], v, n, pt))
            if rng.random() < .3:
                q = point_line(rpoint(rng))
                l.append(rng.choice(["scheme %d" % rng.randrange(5), "flag %s %d %d" % (rng.choice(["eft", "fo"]), rng.randrange(12), rng.choice([0, 1, 2, -1]))]) + " # " + q)
            if rng.random() < .5:
                q = point_line(make(rng, {"t", "b", "tau"}, False) if rng.random() < .5 else rpoint(rng))
                # few iterations and high precision: the momentum iteration does not converge
                l.append("fomode %d %d %d %g %d # %s" % (rng.randrange(3), rng.randrange(2), rng.choice([1, 2, 3, 50]), rng.choice([1e-3, 1e-8, 1e-300]), rng.randrange(2), q)
                         if rng.random() < .7 else "limits %d # %s" % (rng.randrange(7), q))
        ses.append(l)
    trs = conform_sessions(w, "OutputTrace", b, ses)
    sample(trs, 2, 500)
    return {"sessions": len(ses)}
