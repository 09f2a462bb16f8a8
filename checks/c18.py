"""C18: results scale covariantly with the unit of mass."""
import json, math, random
from lib import *

TECH = "TLA+ spec (quantities with dimensions, compared in two units), TLC model checking + validation of recorded traces"
NOTE = ("That covariance is preserved by every homogeneous operation, choice and relative threshold, and broken by each of five kinds of mistakes (constants, absolute "
        "thresholds, wrong normalisation, logarithms of dimensionful quantities, absolute conditions of validity), is model-checked exhaustively. Code: all calculations at "
        "random points in several units, outputs compared after division by the unit raised to their dimension. Bounded by the sampled points and units.")
ASSUMPTIONS = ["rounding errors are estimated with slots changed by relative 1e-13",
               "differences of nearly equal sbottom (stop) masses below 1e-8 GeV, where the library shifts one of them, do not occur"]
DIMLESS = ("g1", "g2", "g3", "Yu", "Yd", "Ye", "theta_t", "theta_b", "theta_tau", "s2t", "s2b", "s2tau", "massLimit3LThreshold")
SQUARED = ("mq2", "mu2", "md2", "ml2", "me2")


def each(p, f):
    return {n: [f(n, y) for y in x] if isinstance(x, list) else f(n, x) for n, x in p.items()}


def unit(p, k):
    return each(p, lambda n, x: x * (1 if n in DIMLESS else k * k if n in SQUARED else k))


def noisy(rng, p):
    return each(p, lambda n, x: x * (1 + rng.choice([-1, 1]) * 1e-13))


# dimensions and matrices of the HierarchyObject (flat() of the harness)
HO = [(0, 0), (0, 1), (1, 2), (0, 3), (0, 4), (0, 5), (1, 6), (1, 7), (1, 8)]
HO += [(2, 9 + i // 4) for i in range(24)] + [(1, 20), (1, 20), (0, 21), (0, 22), (0, 23)]
for _i in range(4):
    HO += [(0, 30 + _i), (0, 40 + _i), (0, 50 + _i), (2, 60 + _i), (2, 70 + _i), (2, 80 + _i), (2, 80 + _i)]
# three-loop corrections and what is derived from them
DEEP = [9] + list(range(22, 26)) + list(range(26, 34)) + [36, 37, 38] + list(range(60, 67))
LOOSE = {k: "1e-4" for k in (2, 6, 7, 8, 12, 13, 14, 20, 21, 22, 23, 33, 43, 53, 63, 73, 83)}   # three loops, uncertainties
MATRIX = [(2, 0)] * 4
# operation, (dimension, class) of the outputs, tolerance
OPS = [("calc!dmh3l t", HO, "3e-6"), ("calc!dmh3l b", HO, "1e-4"), ("calc!mt41 0 t - 0 0", MATRIX, "1e-9"), ("calc!mt42 0 t - 0 0", MATRIX, "3e-6"), ("calc!mt42 0 b - 0 0", MATRIX, "1e-4"),
       ("eft!0", [(2, 0)], "1e-9"), ("eft!1 1 1", [(2, 0)], "3e-6"), ("eft!2 1 1", [(2, 0)], "1e-5"), ("eft!3 1 1 1", [(2, 0)], "3e-6")]
OPS += [("eft!flag %d 1!%d 1 1" % (o, n), [(2, 0)], "1e-5") for n, os in ((1, (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)), (2, (12, 13, 15, 16, 17, 18, 20, 21))) for o in os]
OPS += [("lim!t %d 1 %d" % (o, om), [(0, 0)], "1e-4") for o in range(45) if o not in (37, 38) for om in (1,)]
OPS += [("fo!mh2", [(2, 0)] * 3, "3e-6"), ("fo!momit 0!mh2", [(2, 0)] * 3, "3e-6"), ("fo!momit 1!diag 0!mh2", [(2, 0)] * 3, "3e-6"), ("fo!momit 2!mh2", [(2, 0)] * 3, "3e-6"),
        ("foat!mh2", [(2, 0)] * 3, "3e-6"), ("fo!d1g", MATRIX + [(0, 1)] * 4, "1e-6"), ("fo!d2", MATRIX, "1e-5"), ("fo!pert", MATRIX, "1e-6"), ("fo!num", MATRIX, "1e-6"),
        ("par!msq2", [(2, 0)], "1e-12")]
HIERS = [("calc!hier %d %s %s %s" % (h, q, m, "1 1 0" if 7 <= h <= 10 else "1 1 1"), MATRIX + [(1, 1)] * 2, "1e-6") for h in range(14) for q in "tb" for m in "-m"]


def line(kind, name, op, dc, tol, points, units):
    about = {"units": [repr(float(u)) if u != 1 else "1" for u in units], "dims": [d for d, _ in dc], "class": [[i + 1 for i, (_, c) in enumerate(dc) if c == k] for k in sorted({c for _, c in dc})], "noisy": sum(u == 1 for u in units), "tols": [LOOSE.get(k, tol) if len(dc) > 8 else tol for k in sorted({c for _, c in dc})],
             "selected": op.startswith("calc!dmh3l"), "deep": DEEP if op.startswith("calc!dmh3l") else []}
    return "|".join([kind, name, json.dumps(about)] + [op + "@" + point_line(x) for x in points])


def points(rng, n):
    for i in range(n):
        if i % 3 == 0:
            p = rpoint(rng, 800, 8000, gaugeless=rng.random() < .3, same=0)
        elif i % 3 == 1:
            p = rpoint(rng, 400, 4000, same=.3)
            p["md2"][8] = p["mq2"][8] * rng.choice([.6, 1.7])
            if rng.random() < .3:
                p["mu2"][8] = p["mq2"][8]
        else:
            p = regime_point(rng, HIER[rng.randrange(14)], 800, 8000, rng.choice([.2, 1., 2.]))
        yield p


def groups(rng, n):
    r = []
    for i, p in enumerate(points(rng, n)):
        ks = [2.0, rng.choice([1e-3, 1e3]), rng.uniform(.05, 30)]
        P, U = [p] + [noisy(rng, p) for _ in range(4)] + [unit(p, k) for k in ks], [1] * 5 + ks
        for op, dc, tol in OPS + rng.sample(HIERS, 12):
            r.append(line("unit", "p%d" % i, op, dc, tol, P, U))
    return r


def h6b(rng, n):
    r = []
    for i in range(n):
        for h in range(7, 11):
            p = regime_point(rng, HIER[h], 800, 4000, rng.choice([.2, 1.]))
            M = math.sqrt(max(p["mq2"][8], p["mu2"][8]))
            ks = [1., .5, .25, .125]
            ks = [k * 8 / M for k in ks]
            r.append(line("poly", HIER[h], "calc!hier %d %s - 1 1 1" % (h, rng.choice("t")), MATRIX + [(1, 1)] * 2, "1e-6", [p] + [unit(p, k) for k in ks], [1] + ks))
    return r


def stops(p):
    """Heavy stop mass at tree level."""
    be = math.atan(p["vu"] / p["vd"])
    v2 = p["vu"] ** 2 + p["vd"] ** 2
    c2 = math.cos(2 * be)
    g12, g22 = .6 * p["g1"] ** 2, p["g2"] ** 2
    mt2 = (p["Yu"][8] * p["vu"]) ** 2 / 2
    L = p["mq2"][8] + mt2 + v2 * c2 * (g22 / 8 - g12 / 24)
    R = p["mu2"][8] + mt2 + v2 * c2 * g12 / 6
    X = math.sqrt(mt2) * (p["Au"][8] - p["mu"] * p["vd"] / p["vu"])
    return math.sqrt((L + R) / 2 + math.sqrt((L - R) ** 2 / 4 + X * X))


def h6b_equal(rng, n):
    """Points at which the squark mass of the expansions is the heavy stop mass."""
    r = []
    for i in range(n):
        for h in range(7, 11):
            p = regime_point(rng, HIER[h], 800, 4000, rng.choice([.2, 1.]))
            for m in "qu":   # the calculation for tops only: the sbottom masses enter the average, too
                p["m%s2" % m][0] = p["m%s2" % m][4]
            p["Yd"] = diag(0, 0, 1e-6)
            p["Ad"] = diag(0, 0, 0)
            M2 = stops(p) ** 2
            p["g1"] = p["g2"] = 1e-5
            M2 = stops(p) ** 2
            # (mq2^4 mu2^2 md2^2 of the light ones) mq2.8 md2.8 = M2^10
            p["md2"][8] = M2 * rng.uniform(.9, 1.1)
            x = (M2 ** 10 / (p["mq2"][8] * p["md2"][8])) ** .125
            for k in ("mq2", "mu2", "md2"):
                p[k][0] = p[k][4] = x
            ks = [2., 1e-3, 1e3, rng.uniform(.05, 30)]
            r.append(line("unit", "equal." + HIER[h], "calc!hier %d t - 1 1 1" % h, MATRIX + [(1, 1)] * 2, "1e-5", [p] + [noisy(rng, p) for _ in range(4)] + [unit(p, k) for k in ks], [1] * 5 + ks))
    return r


def run(w):
    b = build(["evals"])["evals"]
    rng = random.Random(SEED * 7919 + 18)
    model_check("Covariance", "Covariance", must_cover=["Multiply", "Divide", "Add", "Choose", "Reject"])
    for bad in ("constant", "threshold", "normalisation", "logarithm", "rejection"):
        must_fail("Covariance", "CovarianceBad_" + bad)
    known = known_findings("C18")
    env = {"KNOWN": "h6b" if known else ""}
    g = groups(rng, 200 if THOROUGH else 60) + h6b(rng, 20 if THOROUGH else 3) + h6b_equal(rng, 20 if THOROUGH else 4)
    trs = conform(w, "CovarianceTrace", b, g, tlc_env=env)
    if known:   # is it still there?
        inp, tr = w.path("known.in"), w.path("known.ndjson")
        with open(inp, "w") as fh:
            fh.write("\n".join(h6b(random.Random(18), 1)) + "\n")
        if run_harness(b, [inp, tr]).returncode != 0:
            raise Inconclusive("recorder failed")
        r = validate("CovarianceTrace", tr, env={"KNOWN": ""})
        if r is not None and "three-loop corrections of h6b" in str(r["failed"]):
            KNOWN_SEEN.add(known[0]["id"])
    sample(trs, 1, 400)
    return {"groups": len(g)}
