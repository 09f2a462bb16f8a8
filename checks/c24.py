"""C24: without higgsinos, mu and the trilinear couplings enter only through the sfermion mixing."""
import json, math, random
from lib import *
from c18 import noisy, points
from c21 import FAM, pattern

TECH = "TLA+ spec (Higgs potential that depends on mu and A through the mixing only), TLC model checking + validation of recorded traces"
NOTE = ("That the mass along the vacuum depends on the mixing only, for every sum of terms, after any moves of mu and A, and that four kinds of mistakes (lost factor, wrong argument, "
        "sign of the CP-odd term, a higgsino term) break it, is model-checked exhaustively for small integers. Code: all elements of all hierarchies, exact corrections, "
        "effective theory and threshold corrections at random points and points with other mu and A. Bounded by the sampled points.")
ASSUMPTIONS = ["rounding errors are estimated with slots changed by relative 1e-13",
               "h5, and h6 at two loops, keep the relation up to their truncation only; h5 and h6 in the DR' scheme"]
LOOPS = {1: "1 0 0", 2: "0 1 0", 3: "0 0 1"}
THR = list(range(9)) + list(range(11, 15)) + list(range(16, 23)) + [25, 29, 35, 36, 39, 40, 41, 43]
EFT = {1: range(3, 12), 2: (12, 15, 19, 21), 3: (19,)}


def moved(p, f):
    d, t = (f - 1) * p["mu"], p["vu"] / p["vd"]
    q = dict(p, mu=p["mu"] + d)
    for a, x in (("Au", 1 / t), ("Ad", t), ("Ae", t)):
        q[a] = list(p[a])
        q[a][8] += d * x
    return q


def group(rng, kind, name, op, about, p):
    ps = [p] + [noisy(rng, p) for _ in range(3)]
    qs = [moved(p, rng.uniform(-1.5, -.3)), moved(p, rng.choice([rng.uniform(.2, .8), rng.uniform(1.3, 2.5)]))]
    return "|".join([kind, name, json.dumps(dict(about, noisy=len(ps)))] + [op + "@" + point_line(x) for x in ps + qs])


def exact(h, q, mdr, n):
    """Combinations for which a hierarchy keeps the relation."""
    fam = next(f for f in FAM if h in FAM[f])
    if q == "t":
        return mdr == "-" or fam not in ("h5", "h6") or (fam == "h6" and n == 1)
    return fam in ("h3", "h4", "h9") or (fam == "h6b" and mdr == "-" and n > 1)


def groups(rng, n):
    r = []
    for i in range(n):
        for fam in FAM:
            e = math.exp(rng.uniform(math.log(.002), math.log(.09)))
            p = pattern(rng, fam, e, rng.choice([3, 6, 10]), rng.choice([.1, .4, 1., 1.5]))
            for h in FAM[fam]:
                r += [group(rng, "hier", "%s.%d" % (HIER[h], i), "calc!hier %d %s %s %s" % (h, q, m, LOOPS[k]), {"h": h, "q": q, "mdr": m, "n": k}, p)
                      for q in "tb" for m in "-m" for k in LOOPS if exact(h, q, m, k)]
                if fam != "h5":
                    r += [group(rng, "lam", "%s.%d" % (HIER[h], i), "calc!lam %d t %s" % (h, m), {"h": h, "mdr": m}, p) for m in "-m"]
    for i, p in enumerate(points(rng, n)):
        s = "p%d" % i
        r += [group(rng, "exact", s, "calc!mt4%d 0 %s - 0 0" % (k, q), {"q": q, "n": k}, p) for q in "tb" for k in (1, 2)]
        r += [group(rng, "fo", s, o + "!d1g", {"obj": o}, p) for o in ("fo", "foat")]
        r += [group(rng, t, s, "%s!t %d 1 1" % (t, k), {"k": k}, p) for k in THR for t in ("lim",)]
        r += [group(rng, "eft", s, "eft!" + "".join("flag %d %d!" % (f, f == k) for f in range(23)) + ("3 1 1 1" if m == 3 else "%d 1 1" % m), {"k": k, "n": m}, p)
              for m in EFT for k in EFT[m]]
    return r


def run(w):
    b = build(["evals"])["evals"]
    rng = random.Random(SEED * 7919 + 24)
    model_check("Mixing", "Mixing", must_cover=["AddTerm", "Subtract", "Move"])
    for bad in ("factor", "argument", "odd", "higgsino"):
        must_fail("Mixing", "MixingBad_" + bad)
    g = groups(rng, 80 if THOROUGH else 20)
    trs = conform(w, "MixingTrace", b, g)
    sample(trs, 1, 400)
    return {"groups": len(g)}
