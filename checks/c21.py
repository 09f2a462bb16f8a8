"""C21: the expansions of the hierarchies converge to the same corrections."""
import json, math, random
from lib import *
from c18 import unit

TECH = "TLA+ spec (truncated expansions in different variables), TLC model checking + validation of recorded traces"
NOTE = ("That truncated expansions of one function around different masses agree up to the first dropped order, and that a wrong, missing or misplaced "
        "coefficient breaks this, is model-checked exhaustively for small polynomials. Code: all hierarchies of a mass pattern evaluated at the same points, "
        "which approach the expansion point; one- and two-loop corrections are compared with the exact ones, too.")
ASSUMPTIONS = ["corrections of one loop order of the top sector (C08: the bottom sector uses the same formulas)",
               "h4 has no hierarchy for the same mass pattern: compared with the exact one- and two-loop corrections only, up to the stop mixing it neglects",
               "coefficients of terms that all hierarchies of a pattern share at the expansion point are compared at one and two loops only"]
FAM = {"h3": (0, 1, 2), "h4": (3,), "h5": (4, 5), "h6": (6, 11), "h6b": (7, 8, 9, 10), "h9": (12, 13)}


def pattern(rng, fam, e, f, xt):
    u = lambda: 1 + e * rng.choice([-1, 1]) * rng.uniform(.3, 1)
    h = HIER[FAM[fam][0]]
    saved = REGIMES[h]
    REGIMES[h] = {"h3": (1, u(), u(), u()), "h4": (1, u(), u(), f), "h5": (1, f, u(), 2 * f), "h6": (1 / f, 1, u(), f), "h6b": (1 / f, 1, u(), u()), "h9": (1, u(), 1 / f, u())}[fam]
    p = regime_point(rng, h, 20000, 50000, xt)
    REGIMES[h] = saved
    return p


def group(name, fam, p, mdr):
    at = "@" + point_line(p)
    ops = ["calc!hier %d t %s %s" % (h, mdr, n) for n in ("1 0 0", "0 1 0", "0 0 1") for h in FAM[fam]]
    ops += ["calc!lam %d t %s" % (h, mdr) for h in FAM[fam]]
    if mdr == "-":
        ops += ["calc!mt4%d %d t - 0 0" % (n, FAM[fam][0]) for n in (1, 2)]
    return "|".join(["sib", name, json.dumps({"h": FAM[fam], "mdr": mdr})] + [o + at for o in ops])


def groups(rng, n):
    r = []
    for i in range(n):
        for fam in FAM:
            for mdr in "-m":
                if mdr == "m" and fam in ("h4", "h5", "h6"):   # the conversion moves the masses out of the pattern
                    continue
                for xt in (.1, .4, 1.5):
                    e = math.exp(rng.uniform(math.log(.002), math.log(.09)))
                    f = rng.choice([3, 3, 6, 12]) if fam in ("h4", "h9") else 3
                    p = pattern(rng, fam, e, f, xt)
                    if fam == "h6b" and (i + 1) % 3:
                        p = unit(p, .5 / math.sqrt(max(p["mq2"][8], p["mu2"][8])))
                    r.append(group("%s.%d" % (fam, i), fam, p, mdr))
                if mdr == "-" and fam in ("h5", "h6", "h6b"):  # deeper in the pattern
                    r.append(group("%s.deep%d" % (fam, i), fam, pattern(rng, fam, .005, rng.uniform(3, 10), .1), mdr))
    rng.shuffle(r)
    return r


def run(w):
    b = build(["evals"])["evals"]
    rng = random.Random(SEED * 7919 + 21)
    model_check("Expansion", "Expansion", must_cover=["Expand", "Approach"])
    for bad in ("coefficient", "missing", "variable", "loworder"):
        must_fail("Expansion", "ExpansionBad_" + bad)
    g = groups(rng, 400 if THOROUGH else 60)
    trs = conform(w, "ExpansionTrace", b, g)
    sample(trs, 1, 400)
    return {"groups": len(g)}
