"""C19: fixed-order and effective-theory results agree when new particles are heavy."""
import json, math, random
from lib import *
from c18 import unit
import c20

TECH = "TLA+ spec (matching and decoupling, order by order), TLC model checking + validation of recorded traces"
NOTE = ("That a calculation in the full theory and one in the effective theory agree order by order, up to terms suppressed by the mass ratio, is model-checked "
        "for all small polynomial theories up to three loops, together with the omissions that break it. Code: one- and two-loop top-Yukawa corrections for arbitrary "
        "heavy spectra at three units of mass each (the difference must be of the order of the squared mass ratio and vanish like it), tree-level masses, and the "
        "three-loop corrections and quartic couplings of all 14 hierarchies within their mass patterns.")
ASSUMPTIONS = ["bottom and tau corrections of the effective theory (off by default) are approximate and not compared", "stop mixing up to 2.5 times the mass of the lighter stop",
               "stop or gluino masses closer than 3 %: agreement only to 6e-3 (interpolated formulas)", "three loops: accuracy of the expansions of each hierarchy"]
MASSES = ("scale", "mu", "MA", "M1", "M2", "MG")


def scaled(p, k):
    p = dict(p)
    for x in MASSES:
        p[x] = p[x] * k
    for x in c20.SOFT:
        p[x] = [y * k * k for y in p[x]]
    for x in ("Au", "Ad", "Ae"):
        p[x] = [y * k for y in p[x]]
    return p


def stop(p, k=1):
    """Squared mass of the lighter stop."""
    mt = p["Yu"][8] * p["vu"] / 2 ** .5
    X = mt * (p["Au"][8] - p["mu"] * p["vd"] / p["vu"])
    a, b = p["mq2"][8] + mt * mt, p["mu2"][8] + mt * mt
    return .5 * (a + b - math.hypot(a - b, 2 * X))


def group(kind, name, points, ops, about=None):
    roles, calls = [], []
    for i, q in enumerate(points):
        for o in ops:
            roles.append(str(i + 1))
            calls.append(o + "@" + point_line(q))
    return "|".join([kind, name, json.dumps(dict(about or {}, roles=roles))] + calls)


def units(rng):
    u = 4 * rng.uniform(1, 1.5)
    return [u * 2.5 ** a for a in range(3)]


def heavy(rng, name):
    p = c20.third(rpoint(rng, 1000, 1000, spread=(.4, 2.5), same=.2))
    ms = min(p["mq2"][8], p["mu2"][8]) ** .5
    if rng.random() < .3:   # close masses
        j = lambda: 1 + rng.choice([1, -1]) * 10 ** rng.uniform(-7, -2)
        if rng.random() < .7:
            p["mu2"] = p["mq2"][:8] + [p["mq2"][8] * j()]
        if rng.random() < .7:
            p["MG"] = p["mq2"][8] ** .5 * j()
        ms = min(p["mq2"][8], p["mu2"][8]) ** .5
    p["Au"] = diag(p["Au"][0], p["Au"][4], rng.uniform(-2.5, 2.5) * ms + p["mu"] * p["vd"] / p["vu"])
    k = units(rng)
    q = scaled(p, k[0])
    if stop(q) < 200 * (p["Yu"][8] * p["vu"]) ** 2 / 2:   # too light
        k = [x * math.sqrt(250 * (p["Yu"][8] * p["vu"]) ** 2 / 2) / ms / k[0] * 1.3 for x in k]
    return group("heavy", name, [scaled(p, x) for x in k], ["foat!mh2", "eft!1 1 1", "eft!2 1 1", "foat!flag 19 0!mh2", "eft!flag 19 0!2 1 1"])


def tree(rng, name):
    p = c20.third(rpoint(rng, 1000, 1000, spread=(.4, 2.5), same=.2))
    return group("tree", name, [scaled(p, x) for x in units(rng)], ["fo!mh2", "eft!0"])


def three(rng, name, hn):
    h = HIER[hn]
    p = c20.third(regime_point(rng, h, 15000, 25000, rng.choice([.01, .3, 1] if h[:2] in ("h3", "h9") else [.01, .3])))
    p["g1"] = p["g2"] = 1e-3
    p["Yd"] = p["Ye"] = diag(0, 0, 1e-3)
    if h[:3] == "h6b":   # known finding h6b-squark-distance of C18
        p = unit(p, .5 / max(p["mq2"][8], p["mu2"][8]) ** .5)
    return group("three", name, [p], ["calc!hier %d t - 0 0 1" % hn, "calc!s3m %d t -" % hn, "calc!l3 %d t -" % hn, "eft!3 1 1 0"], {"h": hn})


def groups(rng, n):
    r = []
    for i in range(n):
        r += [heavy(rng, "a%d.%d" % (i, k)) for k in range(25)]
        r += [tree(rng, "b%d.%d" % (i, k)) for k in range(2)]
        r += [three(rng, "%s.%d.%d" % (HIER[h], i, k), h) for h in range(len(HIER)) for k in range(3)]
    rng.shuffle(r)
    return r


def run(w):
    b = build(["evals"])["evals"]
    rng = random.Random(SEED * 7919 + 19)
    model_check("Decoupling", "Decoupling", must_cover=["FixedOrder", "Effective"])
    for bad in ("noshift", "sign", "twice", "nosquare"):
        must_fail("Decoupling", "DecouplingBad_" + bad)
    known = known_findings("C19")
    g = groups(rng, 80 if THOROUGH else 10)
    trs = conform(w, "DecouplingTrace", b, g, tlc_env={"KNOWN": "left" if known else ""})
    if known:   # is it still there?
        rng = random.Random(19)
        lines = [three(rng, "left%d" % k, 6) for k in range(12)]
        inp, tr = w.path("known.in"), w.path("known.ndjson")
        with open(inp, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        if run_harness(b, [inp, tr]).returncode != 0:
            raise Inconclusive("recorder failed")
        r = validate("DecouplingTrace", tr, env={"KNOWN": ""})
        if r is not None and "quartic coupling" in str(r["failed"]):
            KNOWN_SEEN.add(known[0]["id"])
    sample(trs, 1, 400)
    return {"groups": len(g)}
