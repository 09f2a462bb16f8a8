"""C20: the predicted Higgs mass does not depend on the renormalisation scale."""
import json, math, random
from lib import *

TECH = "TLA+ spec (renormalisation-group flow, order-by-order cancellation), TLC model checking + validation of recorded traces"
NOTE = ("That order-by-order cancellation of the derivatives along the flow is the same as scale independence, and which mistakes break it, is model-checked "
        "exhaustively for polynomial calculations up to three loops. Code: one-, two- and three-loop results at points displaced along the flow; the beta "
        "functions of the MSSM are part of the specification, which also checks that the points of a group are connected by them.")
ASSUMPTIONS = ["derivatives by central differences", "three loops: at as^n only, all 14 hierarchies within their regime; the light squarks run with their average mass",
               "hierarchies of the h6 family: the missing second-order mass shift listed in KNOWN_FINDINGS.jsonl is added", "bottom and tau corrections of the effective theory: orders of yb and ytau only; those mixing top and bottom, and yb^4 g3^2, are not covered; the logarithms listed in KNOWN_FINDINGS.jsonl are added"]
H1, H2, HQ = 3e-5, 3e-6, 1e-2
SOFT = ("mq2", "mu2", "md2", "ml2", "me2")
Y = ("Yu", "Yd", "Ye", "Au", "Ad", "Ae")
OFF = 1e-4


def third(p):
    """Third generation couplings only, no given masses."""
    p = {k: v for k, v in p.items() if k not in ("MSt", "MSb", "MStau", "Mt", "Mb", "Mtau")}
    for k in Y:
        p[k] = diag(0, 0, p[k][8])
    return p


def beta1(p, strong=False):
    """One-loop beta functions of the MSSM (times 16 pi^2), the specification has them, too."""
    z = 0. if strong else 1.
    g1, g2, g3 = z * p["g1"] ** 2, z * p["g2"] ** 2, p["g3"] ** 2
    t, b, u = (z * p[k][8] ** 2 for k in ("Yu", "Yd", "Ye"))
    At, Ab, Au = (p[k][8] for k in ("Au", "Ad", "Ae"))
    mu, vu, vd, M1, M2, M3 = p["mu"], p["vu"], p["vd"], p["M1"], p["M2"], p["MG"]
    v2, MA2 = vu * vu + vd * vd, p["MA"] ** 2
    sb2, cb2 = vu * vu / v2, vd * vd / v2
    Bmu = MA2 * vu * vd / v2
    D = (.6 * p["g1"] ** 2 + p["g2"] ** 2) / 8 * (vd * vd - vu * vu)
    mHd2, mHu2 = MA2 * sb2 - mu * mu - D, MA2 * cb2 - mu * mu + D
    q, U, d, L, E = ([p[k][0], p[k][4], p[k][8]] for k in SOFT)
    S = mHu2 - mHd2 + sum(q) - 2 * sum(U) + sum(d) - sum(L) + sum(E)
    Xt, Xb, Xu = 2 * t * (mHu2 + q[2] + U[2] + At * At), 2 * b * (mHd2 + q[2] + d[2] + Ab * Ab), 2 * u * (mHd2 + L[2] + E[2] + Au * Au)
    G3, G2, G1 = g3 * M3 ** 2, g2 * M2 ** 2, g1 * M1 ** 2
    gam, gv = 3 * t + 3 * b + u - 3 * g2 - .6 * g1, .3 * g1 + 1.5 * g2
    B = {"g1": 33 / 5 * g1 * p["g1"], "g2": g2 * p["g2"], "g3": -3 * g3 * p["g3"], "M1": 66 / 5 * g1 * M1, "M2": 2 * g2 * M2, "MG": -6 * g3 * M3,
         "Yu": p["Yu"][8] * (6 * t + b - 16 / 3 * g3 - 3 * g2 - 13 / 15 * g1), "Yd": p["Yd"][8] * (6 * b + t + u - 16 / 3 * g3 - 3 * g2 - 7 / 15 * g1),
         "Ye": p["Ye"][8] * (4 * u + 3 * b - 3 * g2 - 9 / 5 * g1),
         "Au": 12 * t * At + 2 * b * Ab + 32 / 3 * g3 * M3 + 6 * g2 * M2 + 26 / 15 * g1 * M1,
         "Ad": 12 * b * Ab + 2 * t * At + 2 * u * Au + 32 / 3 * g3 * M3 + 6 * g2 * M2 + 14 / 15 * g1 * M1,
         "Ae": 8 * u * Au + 6 * b * Ab + 6 * g2 * M2 + 18 / 5 * g1 * M1, "mu": mu * gam, "vu": vu * (gv - 3 * t), "vd": vd * (gv - 3 * b - u)}
    g = {"mq2": (-32 / 3, -6, -2 / 15, .2, Xt + Xb), "mu2": (-32 / 3, 0, -32 / 15, -.8, 2 * Xt), "md2": (-32 / 3, 0, -8 / 15, .4, 2 * Xb),
         "ml2": (0, -6, -6 / 5, -.6, Xu), "me2": (0, 0, -24 / 5, 1.2, 2 * Xu)}
    for k, (c3, c2, c1, s, x) in g.items():
        y = c3 * G3 + c2 * G2 + c1 * G1 + s * g1 * S
        B[k] = (y, y, y + x)
    bB = Bmu * gam + mu * (6 * t * At + 6 * b * Ab + 2 * u * Au + 6 * g2 * M2 + 6 / 5 * g1 * M1)
    bA = bB * v2 / (vu * vd) + Bmu * (2 * (vu * B["vu"] + vd * B["vd"]) / (vu * vd) - v2 / (vu * vd) * (B["vu"] / vu + B["vd"] / vd))
    B["MA"] = bA / (2 * p["MA"])
    return B


def beta2(p):
    """Two-loop beta functions of order as^2."""
    q, u, d = ([p[k][0], p[k][4], p[k][8]] for k in ("mq2", "mu2", "md2"))
    ms2 = math.exp((2 * math.log(q[0] * q[1]) + math.log(q[2] * u[0] * u[1] * d[0] * d[1] * d[2])) / 10)
    g4, M3 = p["g3"] ** 4, p["MG"]
    x = g4 / 3 * (-128 * M3 * M3 + 16 * (10 * ms2 + q[2] + u[2]))
    B = {k: (x, x, x) for k in ("mq2", "mu2", "md2")}
    B["Yu"], B["Au"] = -16 / 9 * g4 * p["Yu"][8], 64 / 9 * g4 * M3
    return B


def moved(p, B, h):
    r = dict(p)
    for k, x in B.items():
        if k in SOFT:
            r[k] = [p[k][i] + (h * x[i // 4] if i % 4 == 0 else 0) for i in range(9)]
        elif k in Y:
            r[k] = p[k][:8] + [p[k][8] + h * x]
        else:
            r[k] = p[k] + h * x
    return r


def rescaled(p, h):
    return dict(p, scale=p["scale"] * math.exp(h))


def group(kind, name, p, ops, about=None):
    """ops: {role: [operations]}"""
    strong = kind in ("qcd", "qeft")
    B1 = beta1(p, strong)
    hq = HQ
    at = {"0": p, "+": moved(p, B1, H1), "-": moved(p, B1, -H1), "s+": rescaled(p, hq), "s-": rescaled(p, -hq)}
    if strong:
        B2 = beta2(p)
        at.update({"2+": moved(p, B2, H2), "2-": moved(p, B2, -H2)})
    roles, calls = [], []
    for r in at:
        for o in ops.get(r, ops.get("*", []) if r == "0" else []):
            roles.append(r)
            calls.append(o + "@" + point_line(at[r]))
    return "|".join([kind, name, json.dumps(dict(about or {}, roles=roles))] + calls)


def tachyonic(p):
    vu, vd = p["vu"], p["vd"]
    return any(abs(p[y][8] * (p[a][8] * v - p["mu"] * w)) / 2 ** .5 > .7 * math.sqrt(p[l][8] * p[r][8])
               for y, a, l, r, v, w in (("Yu", "Au", "mq2", "mu2", vu, vd), ("Yd", "Ad", "mq2", "md2", vd, vu), ("Ye", "Ae", "ml2", "me2", vd, vu)))


def ew(rng, name):
    p = third(rpoint(rng, 500, 20000))
    p["scale"] *= rng.uniform(.5, 2)
    for k in ("Yd", "Ye"):
        if rng.random() < .5:
            p[k] = diag(0, 0, rng.uniform(.1, 1.))
    if tachyonic(p):
        return ew(rng, name)
    o = ["fo!momit 0!mh2"]
    return group("ew", name, p, dict.fromkeys(("0", "+", "-", "s+", "s-"), o))


MODES = ("y", "t", "g", "b", "l", "bl")


def two(rng, name, mode):
    p = third(rpoint(rng, 500, 6000))
    p["scale"] *= rng.uniform(.6, 1.6)
    p["g1"] = p["g2"] = 1e-5
    if mode != "g":
        p["g3"] = 1e-5
    c = {"y": "ubl", "t": "u", "g": "u", "b": "ub", "l": "l", "bl": "bl"}[mode]
    for k, s in (("Yu", "u"), ("Yd", "b"), ("Ye", "l")):
        p[k] = diag(0, 0, OFF) if s not in c else p[k] if s == "u" else diag(0, 0, rng.uniform(.4, 1.))
    r = [group("two", name, p, dict.fromkeys(("0", "+", "-", "s+", "s-"), ["fo!mh2"]), {"mode": mode})]
    if mode in "tg":
        e = ["eft!1 1 1", "eft!2 1 1"]
        r.append(group("eft", name, p, {"*": e[:1], "+": e[:1], "-": e[:1], "s+": e[1:], "s-": e[1:]}, {"mode": mode}))
    return r


def one(rng, name):
    """Effective theory at one loop with all couplings."""
    p = third(rpoint(rng, 500, 6000))
    p["scale"] *= rng.uniform(.5, 2)
    for k in ("Yd", "Ye"):
        if rng.random() < .7:
            p[k] = diag(0, 0, rng.uniform(.1, 1.))
    if tachyonic(p):
        return one(rng, name)
    e = ["eft!" + "".join("flag %d 1!" % k for k in range(12)) + "%d 1 1" % n for n in (0, 1)]
    return group("efto", name, p, {"+": e[:1], "-": e[:1], "s+": e[1:], "s-": e[1:], "0": e[:1]})


# orders of the effective theory with Yukawa couplings of tau, bottom, both
ORDERS = {"l": (8, 17), "b": (5, 13), "bl": (5, 8, 13, 15, 17, 21)}


def massless(rng, name, mode):
    """Bottom and tau in the effective theory."""
    p = third(rpoint(rng, 500, 6000))
    p["scale"] *= rng.uniform(.6, 1.6)
    p["g1"] = p["g2"] = p["g3"] = 1e-5
    tb = rng.choice([1.3, 2, 4])
    p["vu"], p["vd"] = 246 * math.sin(math.atan(tb)), 246 * math.cos(math.atan(tb))
    for k, s, y in (("Yu", "u", "Au"), ("Yd", "b", "Ad"), ("Ye", "l", "Ae")):
        p[k] = diag(0, 0, rng.uniform(.4, 1.) if s in mode else OFF)
        p[y] = diag(0, 0, rng.uniform(-1, 1) * math.sqrt(p["mq2"][8]) + p["mu"] * (1 / tb if y == "Au" else tb))
    p["Mt"] = p["scale"] * rng.uniform(.3, 1.2)
    m2 = [p["mu"] ** 2]   # masses apart from each other: the equal-mass expansions are rounded
    for k in SOFT:
        while any(abs(p[k][8] / m - 1) < .03 for m in m2):
            p[k] = diag(p[k][0], p[k][4], p[k][8] * rng.uniform(.8, 1.25))
        m2.append(p[k][8])
    e = ["eft!" + "".join("flag %d %d!" % (k, k in ORDERS[mode]) for k in range(22)) + "%d 1 1" % n for n in (1, 2)]
    return group("eftm", name, p, {"*": e[:1], "+": e[:1], "-": e[:1], "s+": e[1:], "s-": e[1:]}, {"mode": mode})


def deeper(h, f):
    """Mass pattern of a hierarchy with larger splittings."""
    r = REGIMES[h]
    if f == 1 or h[:2] not in ("h5", "h6"):
        return r
    eps = lambda x: 1 + (.005 if x > 1 else -.005)
    if h[:2] == "h5":
        return (1, f, eps(r[2]), 2 * f)
    return (1. / f, 1, eps(r[2]), 2 * f if r[3] > 2 else eps(r[3]))


def qcd(rng, name, hn, f, xt=.3):
    h = HIER[hn]
    if h[:2] in ("h5", "h6") and f > 1:
        saved, REGIMES[h] = REGIMES[h], deeper(h, f)
        p = regime_point(rng, h, 15000, 25000, xt)
        REGIMES[h] = saved
    else:
        p = regime_point(rng, h, 15000, 25000, xt)
    p = third(p)
    p["g1"] = p["g2"] = 1e-3
    p["Yd"] = p["Ye"] = diag(0, 0, 1e-3)
    m1, m2, m3, m4 = "calc!mt41 %d t - 0 0" % hn, "calc!mt42 %d t - 0 0" % hn, "calc!hier %d t - 0 0 1" % hn, "calc!s3m %d t -" % hn
    ops = {"*": [m1, m2, m3, m4], "+": [m1, m2], "-": [m1, m2], "2+": [m1], "2-": [m1], "s+": [m2, m3, m4], "s-": [m2, m3, m4]}
    r = [group("qcd", name, p, ops, {"h": hn, "f": f})]
    if h[:2] != "h6":   # the thresholds are less precise for a gluino close to, but not at, a widely split stop
        r.append(qeft(name, p))
    return r


def qeft(name, p):
    e1, e2, e3 = ("eft!flag 14 0!%d 1 1%s" % (k, " 1" if k == 3 else "") for k in (1, 2, 3))
    ops = {"*": [e1, e2, e3], "+": [e1, e2], "-": [e1, e2], "2+": [e1], "2-": [e1], "s+": [e2, e3], "s-": [e2, e3]}
    return group("qeft", name, p, ops)


def split_stops(rng, name):
    p = third(rpoint(rng, 10000, 25000))
    ms = p["mq2"][0]
    for k in ("mq2", "mu2", "md2"):
        p[k] = diag(ms, ms, ms if k == "md2" else p[k][8])
    m = [p["MG"], math.sqrt(ms), math.sqrt(p["mq2"][8]), math.sqrt(p["mu2"][8])]
    if any(1e-9 < abs(a / b - 1) < .03 for a in m for b in m):   # between two points of the flow the equal-mass expansions set in
        return split_stops(rng, name)
    p["scale"] *= rng.uniform(.6, 1.6)
    p["g1"] = p["g2"] = 1e-3
    p["Yd"] = p["Ye"] = diag(0, 0, 1e-3)
    return qeft(name, p)


def groups(rng, n):
    r = []
    for i in range(n):
        r += [ew(rng, "ew%d.%d" % (i, k)) for k in range(2)]
        r += [one(rng, "o%d.%d" % (i, k)) for k in range(3)]
        for m in MODES:
            r += two(rng, "%s%d" % (m, i), m)
        r += [massless(rng, "m%s%d.%d" % (m, i, k), m) for m in ORDERS for k in range(3)]
        for h in range(len(HIER)):
            r += qcd(rng, "%s.%d" % (HIER[h], i), h, 4 if i % 2 else 1, .3 if HIER[h] == "h4" else rng.choice([.3, 1.5]))
        r += [split_stops(rng, "s%d.%d" % (i, k)) for k in range(6)]
    rng.shuffle(r)
    return r


def run(w):
    b = build(["evals"])["evals"]
    rng = random.Random(SEED * 7919 + 20)
    model_check("Flow", "Flow", must_cover=["AddLoop", "Run"])
    for bad in ("norunning", "onelooprge", "wrongsign", "doublelog"):
        must_fail("Flow", "FlowBad_" + bad)
    known = {k["id"] for k in known_findings("C20")}
    h6, eb = "h6-second-order-shift", "eft-bottom-logs"
    g = groups(rng, 40 if THOROUGH else 6)
    trs = conform(w, "FlowTrace", b, g, tlc_env={"KNOWN": "h6" if h6 in known else "", "KNOWNB": "yes" if eb in known else "no"})
    # are they still there?
    rng = random.Random(20)
    for k, what, lines in ((h6, "three-loop, element 4", [l for h in range(6, 12) for l in qcd(rng, HIER[h], h, 1, 1.5)[:1]]),
                           (eb, "bottom and tau", [massless(rng, "k", "b")])):
        inp, tr = w.path(k + ".in"), w.path(k + ".ndjson")
        with open(inp, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        if k in known:
            if run_harness(b, [inp, tr]).returncode != 0:
                raise Inconclusive("recorder failed")
            r = validate("FlowTrace", tr, env={"KNOWN": "", "KNOWNB": "no"})
            if r is not None and what in str(r["failed"]):
                KNOWN_SEEN.add(k)
    sample(trs, 1, 400)
    return {"groups": len(g)}
