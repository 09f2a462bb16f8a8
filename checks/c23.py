"""C23: results do not depend on the labelling of fields."""
import json, math, random
from lib import *
from c18 import HO, MATRIX, LOOSE, OPS, HIERS, noisy, points

TECH = "TLA+ spec (redefinitions of fields, quantities with parity and exchange symmetry), TLC model checking + validation of recorded traces"
NOTE = ("That observables of a calculation of even, symmetric quantities are the same after redefinitions of fields, and that four kinds of mistakes (unsigned odd parameters, "
        "sums of mixed parity, a forgotten field, a wrong multiplicity) break it, is model-checked exhaustively. Code: all calculations at random points and their images "
        "under exchange of two generations, change of sign, exchange of top and bottom. Bounded by the sampled points.")
ASSUMPTIONS = ["rounding errors are estimated with slots changed by relative 1e-13",
               "change of sign: without the strong coupling, as negative gluino mass parameters are rejected, and up to the two threshold corrections listed in KNOWN_FINDINGS.jsonl",
               "exchange of top and bottom: fixed order, threshold corrections of order yb^4 (lambda), yb^2 (bottom Yukawa coupling, vacuum expectation value)"]
MATS = ("mq2", "mu2", "md2", "ml2", "me2", "Yu", "Yd", "Ye", "Au", "Ad", "Ae")


def gen(p):
    return dict(p, **{k: diag(p[k][4], p[k][0], p[k][8]) for k in MATS})


def sign(p):
    q = dict(p, **{k: -p[k] for k in ("mu", "M1", "M2")})
    return dict(q, **{k: [-x for x in p[k]] for k in ("Au", "Ad", "Ae")})


def mirror(p):
    q = dict(p)
    for a, b in (("vu", "vd"), ("Yu", "Yd"), ("Au", "Ad"), ("mu2", "md2")):
        q[a], q[b] = p[b], p[a]
    return q


THR = "thr!t %d 1 1"
PAIRS = {THR % 17: THR % 3, THR % 44: THR % 27, THR % 35: THR % 25}
STRONG = {0, 1, 2, 4, 5, 29, 43}
MIXED = {33, 34}
# the corrections mixing top and bottom Yukawa couplings in the effective theory
BAD = [("eft!flag %d 1!2 1 1" % k, [(2, 0)], "1e-5") for k in (18, 20)] + [(THR % k, [(0, 0)], "1e-6") for k in sorted(MIXED)]
ONE = ([o for o in OPS if o[0].startswith(("fo!", "foat!"))])


def line(kind, name, op, dc, tol, ps, other, image):
    ks = sorted({c for _, c in dc})
    about = {"noisy": len(ps), "dims": [d for d, _ in dc], "class": [[i + 1 for i, (_, c) in enumerate(dc) if c == k] for k in ks],
             "tols": [LOOSE.get(k, tol) if len(dc) > 8 else tol for k in ks]}
    return "|".join([kind, name, json.dumps(about)] + [op + "@" + point_line(x) for x in ps] + [other + "@" + point_line(image)])


def ok(p):
    """No tachyons at tree level."""
    vu, vd = p["vu"], p["vd"]
    return all(abs(p[y][8] * (p[a][8] * v - p["mu"] * w)) / 2 ** .5 < .7 * math.sqrt(p[l][8] * p[r][8])
               for y, a, l, r, v, w in (("Yu", "Au", "mq2", "mu2", vu, vd), ("Yd", "Ad", "mq2", "md2", vd, vu), ("Ye", "Ae", "ml2", "me2", vd, vu)))


def groups(rng, n):
    r = []

    def add(kind, name, p, f, ops):
        ps = [p] + [noisy(rng, p) for _ in range(3)]
        for op, dc, tol in ops:
            r.append(line(kind, name, op, dc, tol, ps, PAIRS.get(op, op) if kind == "mirror" else op, f(p)))

    for i, p in enumerate(points(rng, n)):
        q = dict(p)
        for k in MATS:   # all of the first two generations
            if k[0] in "YA" and rng.random() < .5:
                s = 1. if k[0] == "A" else 0
                q[k] = diag(rng.uniform(-1, 1) * p["mu"] if s else 10 ** rng.uniform(-6, -2), rng.uniform(-1, 1) * p["mu"] if s else 10 ** rng.uniform(-6, -2), p[k][8])
        add("gen", "g%d" % i, q, gen, OPS + rng.sample(HIERS, 6))
        q = dict(p, g3=1e-5)
        add("sign", "s%d" % i, q, sign, ONE + [o for o in OPS if o[0].startswith("eft!flag") and o not in BAD] + [("eft!flag 18 0!flag 20 0!2 1 1", [(2, 0)], "1e-5")] + BAD
            + [("thr!t %d 1 1" % k, [(0, 0)], "1e-6") for k in range(45) if k not in STRONG | MIXED | {37, 38}])
        while True:
            q = dict(rpoint(rng, 500, 6000, same=.2), g1=1e-5, g2=1e-5, Ye=diag(0, 0, 1e-5))
            tb = rng.uniform(.4, 3)
            q["vu"], q["vd"] = 246 * math.sin(math.atan(tb)), 246 * math.cos(math.atan(tb))
            for y, a in (("Yu", "Au"), ("Yd", "Ad")):
                q[y], q[a] = diag(0, 0, rng.uniform(.3, 1)), diag(0, 0, rng.uniform(-2, 2) * math.sqrt(q["mq2"][8]))
            if rng.random() < .3:
                q["g3"] = 1e-5
            m = [q[k][8] for k in ("mq2", "mu2", "md2")] + [q["mu"] ** 2, q["MG"] ** 2]
            if ok(q) and not any(abs(m[a] / m[b] - 1) < .1 for a in range(5) for b in range(a)):   # the general formulas have poles there
                break
        add("mirror", "m%d" % i, q, mirror, [o for o in ONE if o[0].startswith("fo!")] + [(k, [(0, 0)], "1e-6") for k in PAIRS])
    return r


def run(w):
    b = build(["evals"])["evals"]
    rng = random.Random(SEED * 7919 + 23)
    model_check("Labels", "Labels", must_cover=["Multiply", "Add", "Modulus", "Total", "Observe"])
    for bad in ("modulus", "parity", "forgotten", "weight"):
        must_fail("Labels", "LabelsBad_" + bad)
    known = known_findings("C23")
    g = groups(rng, 120 if THOROUGH else 40)
    trs = conform(w, "LabelsTrace", b, g, tlc_env={"KNOWN": "mixed" if known else ""})
    if known:   # is it still there?
        inp, tr = w.path("known.in"), w.path("known.ndjson")
        bad = {o for o, _, _ in BAD}
        with open(inp, "w") as fh:
            fh.write("\n".join(x for x in groups(random.Random(23), 2) if x.startswith("sign|") and x.split("|")[3].split("@")[0] in bad) + "\n")
        if run_harness(b, [inp, tr]).returncode != 0:
            raise Inconclusive("recorder failed")
        if validate("LabelsTrace", tr, env={"KNOWN": ""}) is not None:
            KNOWN_SEEN.add(known[0]["id"])
    sample(trs, 1, 400)
    return {"groups": len(g)}
