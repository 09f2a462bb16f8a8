"""C17: the two-loop fixed-order corrections are smooth, symmetric and label-independent."""
import json, math, random
from lib import *

TECH = "TLA+ spec (choice between limit and general formula, regularisation of degenerate sfermions), TLC model checking + validation of recorded traces"
NOTE = ("How a correction with removable singularities may choose between its limit and its general formula, and how it may move to a regular neighbour, is "
        "model-checked for all short distances, mixings and labels. Code: groups of related evaluations of all corrections (relabelled, mirrored, with other "
        "couplings, with and without heavy Higgs part, straight lines of mass matrices through special points); the relations between the arguments are "
        "checked by the specification, too.")
ASSUMPTIONS = ["rounding errors of single entries near special points are not judged, only the light Higgs mass",
               "exact thresholds of the kinematic function (m_gluino = m_stop +- m_top with unequal stops, m_A = 2 m_stop) are excluded"]


def mixing(ll, rr, off):
    """Eigenvalues and mixing of [[ll, off], [off, rr]] (first eigenstate lighter)."""
    d = math.hypot(ll - rr, 2 * off)
    m1, m2 = (ll + rr - d) / 2, (ll + rr + d) / 2
    th = .5 * math.atan2(-2 * off, rr - ll) if d else 0.   # (m1 - m2) sin(2 th) = 2 off
    return m1, m2, math.sin(th), math.cos(th)


BASE = dict(mt=170., mb=2.5, mtau=1.7, MA=1100., mg=1300., mu=900., tb=8., v=245., g3=1.05, Q=1000., snu=1.1e6,
            tLL=1.3e6, tRR=.8e6, tX=1200., bLL=1.35e6, bRR=1.1e6, bX=500., uLL=1.2e6, uRR=.9e6, uX=-400.)
ARGS = {"as": ["tLL", "tRR", "tX", "mg", "mu", "tb", "Q", "mt", "g3"], "abs": ["bLL", "bRR", "bX", "mg", "mu", "tb", "Q", "mb", "g3"],
        "at": ["tLL", "tRR", "tX", "bLL", "bRR", "bX", "mu", "tb", "Q", "MA", "mt", "mb"],
        "tau": ["uLL", "uRR", "uX", "snu", "MA", "mu", "tb", "Q", "mtau"],
        "bt": ["uLL", "uRR", "uX", "bLL", "bRR", "bX", "mu", "tb", "Q", "mtau", "mb"]}


def call(f, p, heavy=1, atat=0, relabel=""):
    def sf(s, m):
        m1, m2, si, co = mixing(p[s + "LL"], p[s + "RR"], p[m] * p[s + "X"])
        if s in relabel:
            m1, m2, si, co = m2, m1, co, -si
        if s + "-" in relabel:
            si, co = -si, -co
        return m1, m2, si, co
    q2, v2 = p["Q"] ** 2, p["v"] ** 2
    t, b, u = sf("t", "mt"), sf("b", "mb"), sf("u", "mtau")
    if f == "as":
        a = [p["mt"] ** 2, p["mg"], *t, q2, p["mu"], p["tb"], v2, p["g3"], heavy]
    elif f == "abs":
        a = [p["mb"] ** 2, p["mg"], *b, q2, p["mu"], 1 / p["tb"], v2, p["g3"], heavy]
    elif f == "at":
        a = [p["mt"] ** 2, p["mb"] ** 2, p["MA"] ** 2, *t[:2], *b[:2], *t[2:], *b[2:], q2, p["mu"], p["tb"], v2, heavy, atat]
    elif f == "tau":
        a = [p["mtau"] ** 2, p["MA"] ** 2, p["snu"], *u, q2, p["mu"], p["tb"], v2, heavy]
    else:
        a = [p["mtau"] ** 2, p["mb"] ** 2, *u[:2], *b[:2], *u[2:], *b[2:], q2, p["mu"], p["tb"], v2, heavy]
    return f + " " + " ".join(fmt(x) for x in a)


LABELS = {"as": ["t", "t-", "tt-"], "abs": ["b", "b-", "bb-"], "at": ["t", "b", "tb", "t-", "b-", "tb-"], "tau": ["u", "u-", "uu-"], "bt": ["u", "b", "ub", "u-", "b-"]}
SPECIAL = {"as": ["tdX", "tX", "tdX", "tg", "tdXg", "td", "tdXk"], "abs": ["bdX", "bX", "bg"], "at": ["tdX", "tX", "bdX", "bX", "mu", "bt", "tX bX", "tdX bdX"],
           "tau": ["udX", "uX", "mu"], "bt": ["udX", "uX", "bX", "bdX", "uX bX", "udX bdX"]}
TS = [-2, -1, 1, 2, 0] + [s * 10. ** -k for k in (9, 8, 7, 6, 5, 4, 3, 2, 1) for s in (1, -1)]
H = .01


def base(rng):
    p = dict(BASE)
    ms = 10 ** rng.uniform(2.8, 4.3)
    for k in p:
        if k in ("tLL", "tRR", "bLL", "bRR", "uLL", "uRR", "snu"):
            p[k] = (ms * rng.uniform(.6, 1.6)) ** 2
        elif k in ("MA", "mg", "Q"):
            p[k] = ms * rng.uniform(.5, 2.)
        elif k in ("mu", "tX", "bX", "uX"):
            p[k] = ms * rng.uniform(.1, 1.5) * rng.choice([-1, 1])
    p["tb"] = rng.choice([1.5, 3, 8, 20, 45])
    p["MS"] = ms
    return p


def put_special(rng, f, p):
    o = rng.choice(SPECIAL[f])
    for k in o.split():
        if "d" in k:
            p[k[0] + "RR"] = p[k[0] + "LL"]
        if "X" in k:
            p[k[0] + "X"] = 0.
        if k == "mu":
            p["mu"] = 0.
            # the formulas lose their precision when the states are nearly, but not exactly, equal
            while f == "tau" and abs(p["uLL"] - p["uRR"]) < .1 * p["MS"] ** 2:
                p["uRR"] = (p["MS"] * rng.uniform(.6, 1.6)) ** 2
        if k == "bt":
            p["bRR"], p["bX"] = mixing(p["tLL"], p["tRR"], p["mt"] * p["tX"])[rng.randrange(2)], 0.
        if k == "tdXk":   # gluino decays to top and stop at rest
            p["mg"] = math.sqrt(p["tLL"]) + p["mt"] * rng.choice([1, -1])
        elif "g" in k:
            m = {"t": "mt", "b": "mb"}[k[0]]
            p["mg"] = math.sqrt(mixing(p[k[0] + "LL"], p[k[0] + "RR"], p[m] * p[k[0] + "X"])[rng.randrange(2)])
    return o.split()


def line(rng, f, p, heavy, atat):
    o = put_special(rng, f, p)
    d = {}
    for k in ARGS[f]:
        if k not in ("g3", "tb", "mt", "mb", "mtau", "Q") and not (k != "mg" and o == ["tdXk"]):
            d[k] = (p["MS"] ** 2 if k[1:] in ("LL", "RR") or k == "snu" else p["MS"]) * rng.uniform(.3, 1) * rng.choice([-1, 1])
    calls = [call(f, {k: v + t * H * d.get(k, 0) if k in d else v for k, v in p.items()}, heavy, atat) for t in TS]
    return {"t": [fmt(t) for t in TS], "special": o}, calls


def group(kind, name, calls, about=None):
    return "|".join([kind, name, json.dumps(about or {})] + calls)


def groups(rng, n):
    r = []
    for i in range(n):
        p, f = base(rng), rng.choice(list(ARGS))
        h, a = rng.choice([0, 1]), rng.choice([0, 1])
        if rng.random() < .4:
            q = dict(p)
            about, calls = line(rng, f, q, h, a)
            r.append(group("line", "l%d" % i, calls, about))
        special = put_special(rng, f, p) if rng.random() < .3 else []
        k = rng.randrange(6)
        q = dict(p)
        if k == 0:
            r.append(group("relabel", "r%d" % i, [call(f, p, h, a, x) for x in [""] + LABELS[f]], {"special": special}))
        elif k == 1:
            r.append(group("heavy", "h%d" % i, [call(f, p, x, a) for x in (0, 1)]))
        elif k == 2:
            z = rng.uniform(.3, 3)
            if f in ("as", "abs"):
                q["g3"] *= z
            else:
                q["v"] *= z
            r.append(group("charge", "c%d" % i, [call(f, x, h, a) for x in (p, q)], {"special": special}))
        elif k == 3:
            f = rng.choice(["as", "abs"])
            q["v"] *= rng.uniform(.3, 3)
            r.append(group("yukawa", "y%d" % i, [call(f, x, h, a) for x in (p, q)]))
        elif k == 4:
            for x in ("LL", "RR", "X"):
                q["t" + x], q["b" + x] = p["b" + x], p["t" + x]
            q["mt"], q["mb"], q["tb"] = p["mb"], p["mt"], 1 / p["tb"]
            r.append(group("mirror", "m%d" % i, [call("at", p, h, 0), call("at", q, h, 0)] if rng.random() < .5 else [call("as", p, h), call("abs", q, h)], {"special": special}))
        else:
            p["mb"] = rng.choice([1e-1, 1e-2, 1e-3])
            q = dict(p)
            if rng.random() < .5:
                z = rng.uniform(2, 9)
                q["mb"], q["bX"] = p["mb"] / z, p["bX"] * z
                r.append(group("noyb", "n%d" % i, [call("at", p, h, 1), call("at", q, h, 1)], {"special": special}))
            else:
                p["mb"] *= 1e-3
                r.append(group("noyb", "n%d" % i, [call("at", p, h, 1), call("at", p, h, 0)], {"special": special}))
    return r


def run(w):
    import c16
    b = build(["twoloop", "momit"])
    rng = random.Random(SEED * 7919 + 17)
    model_check("Dispatch", "Dispatch", must_cover=["UseLimit", "Regularise", "Relabel", "Turn"])
    model_check("Dispatch", "DispatchNoLimit", must_cover=["Regularise", "Relabel", "Turn"])
    for bad in ("OneSided", "SplitOnly", "NoSineGuard"):
        must_fail("Dispatch", "DispatchBad_" + bad)
    g = groups(rng, 12000 if THOROUGH else 1200)
    trs = conform(w, "DispatchTrace", b["twoloop"], g)
    sample(trs, 2, 300)
    # the corrections as they enter the mass matrix
    m = c16.modes(rng, 2000 if THOROUGH else 240)
    conform(w, "MomItTrace", b["momit"], m)
    return {"groups": len(g), "mass matrices": len(m)}
