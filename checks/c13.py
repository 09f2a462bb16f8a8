"""C13: continuity of the threshold corrections across all degeneracy limits."""
import math, random
from lib import *

TECH = "TLA+ spec, TLC model checking + spec behaviours as masses of recorded lines + validation of recorded traces"
NOTE = ("The classification of nearly equal stop, gluino and squark masses, the translation of limits and the decision to keep the "
        "general formula are model-checked exhaustively on a grid (no query evaluates a formula at or next to one of its poles, no "
        "formula is used outside its window, exchange of the stops, no memory). Code: along lines through coincidences chosen by TLC "
        "(and through sbottom, slepton, higgsino, gaugino and Higgs coincidences) every correction must continue what interpolation "
        "from outside predicts. Bounded by the sampled lines.")
ASSUMPTIONS = [
    "where a limit for equal masses is used (masses within 1 percent), errors of 25 times the relative mass distance are accepted: "
    "the limits are of leading order by design",
    "deviations are measured relative to the largest size of the correction on the line, also for other mixings",
    "VEV_G12 and VEV_G22 are undefined (NaN) by design"]

TS = [-.07, -.05, -.03, -.018, -.0105, -.0095, -3e-3, -1e-3, -1e-4, -1e-5, -1e-7, -1e-9, -1e-12,
      0, 1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 3e-3, .0095, .0105, .018, .03, .05, .07]
SOFT = {"Q": "mq2", "U": "mu2", "D": "md2", "L": "ml2", "E": "me2"}
PLAIN = {"G": "MG", "mu": "mu", "M1": "M1", "M2": "M2", "MA": "MA"}


def get(p, n):
    """The mass n of the point; S is the average mass of the light squarks."""
    return p["S"] if n == "S" else math.sqrt(p[SOFT[n]][8]) if n in SOFT else abs(p[PLAIN[n]])


def light(p):
    """Sets the masses of the light squarks so that their average (with the sbottoms) is S."""
    p = dict(p)
    m = p.pop("S")
    mw, mz, mb = 80.384, 91.1876, 2.83
    p.update(MW=mw, MZ=mz, Mb=mb)
    tb2 = (p["vu"] / p["vd"]) ** 2
    c2b, sw2 = (1 - tb2) / (1 + tb2), 1 - mw * mw / mz / mz
    b = (p["mq2"][8] + mb * mb - (.5 - sw2 / 3) * mz * mz * c2b) * (p["md2"][8] + mb * mb - sw2 / 3 * mz * mz * c2b)
    x = math.exp((20 * math.log(m) - math.log(b)) / 8)
    for f in ("mq2", "mu2", "md2"):
        p[f] = diag(x, x, p[f][8])
    return p


def put(p, n, m):
    p = dict(p)
    if n == "S":
        p["S"] = m
    elif n in SOFT:
        p[SOFT[n]] = list(p[SOFT[n]][:8]) + [m * m]
    else:
        p[PLAIN[n]] = m
    return p


def base(rng):
    ms = 1000 * math.exp(rng.uniform(-.5, 2))
    p = rpoint(rng, ms, ms)
    f = [.6, .75, .9, 1.1, 1.3, 1.5, 1.8, 2.1, 2.4]
    rng.shuffle(f)
    g = [ms * x * rng.uniform(.97, 1.03) for x in f]
    for n, x in zip("QUDLE", g):
        p[SOFT[n]] = diag(1, 1, x * x)
    p["S"] = 2.9 * ms
    p["MG"], p["mu"], p["M1"], p["M2"] = g[5:]
    p["MA"] = ms * rng.choice([.5, .68, .83, 1, 1.2, 1.65, 1.95, 2.7]) * rng.uniform(.99, 1.01)
    return p


def setx(p, xt, xb, xl):
    p = dict(p)
    tb = p["vu"] / p["vd"]
    m = lambda a, b: (p[a][8] * p[b][8]) ** .25
    p["Au"] = diag(0, 0, xt * m("mq2", "mu2") + p["mu"] / tb)
    p["Ad"] = diag(0, 0, xb * m("mq2", "md2") + p["mu"] * tb)
    p["Ae"] = diag(0, 0, xl * m("ml2", "me2") + p["mu"] * tb)
    return p


def line(rng, name, p, mover, m0, zero=1):
    """The mass of mover passes m0."""
    x = [rng.choice([0] * zero + [rng.uniform(-2, 2), rng.uniform(-2, 2)]) for _ in range(3)]
    pts = [setx(put(p, mover, m0 * (1 + t)), *x) for t in TS]
    pts += [setx(put(p, mover, m0 * 1.05), y, rng.choice([-1, 1]) * y, rng.choice([-1, 1]) * y) for y in (0, -2.3, -1.2, -.5, .5, 1.2, 2.3)]
    o = list(range(45))
    rng.shuffle(o)
    return "line|%s|%d|%s|%s|%s" % (name, rng.choice([1, 1, 4]), " ".join(map(str, o)), " ".join(map(repr, TS)), "@".join(point_line(light(q)) for q in pts))


def behaviour_line(rng, s):
    """A line through the masses of a spec behaviour: equal positions are equal masses."""
    p = base(rng)
    m0 = get(p, "Q")
    off = rng.choice([1e-13, 1e-9, 1e-6, 1e-4, 1e-3, 3e-3])
    at = {}
    for n in "QUGS":
        k = s["m"][n]
        at[n] = k
        if k < 9:
            p = put(p, n, m0 * (1 + k * off))
        elif n == "Q":
            p = put(p, n, m0 * rng.choice([.55, 2.7]))
    near = [n for n in at if at[n] < 9]
    if len(near) < 2:
        return None
    mover = rng.choice(near)
    others = [n for n in near if n != mover]
    return line(rng, "".join(near) + "/" + mover + ("*" if any(at[n] for n in near) else ""), p, mover, get(p, rng.choice(others)))


FAMILIES = [("Q", "D"), ("D", "G"), ("L", "E"), ("mu", "Q"), ("mu", "U"), ("mu", "D"), ("mu", "M1"), ("mu", "M2"), ("M1", "M2"), ("MA", "Q"),
            ("MA", "U"), ("MA", "mu"), ("mu", "L"), ("mu", "E"), ("Q", "U", "D"), ("U", "D", "Q"), ("Q", "D", "G"), ("D", "Q", "S"), ("mu", "Q", "U"), ("MA", "Q", "U"),
            ("mu", "Q", "D"), ("mu", "L", "E"), ("Q", "U", "D", "mu"), ("Q", "U", "D", "mu", "MA"), ("L", "E", "mu", "MA"), ("mu", "M1", "M2"),
            ("D", "S"), ("M1", "Q"), ("M2", "U"), ("Q", "L"), ("Q", "D", "L", "E"), ("S", "Q"), ("S", "U")]


BESIDE = [(("Q", "D"), ("L", "E")), (("D", "Q"), ("E", "L")), (("L", "E"), ("Q", "D")), (("E", "L"), ("D", "Q")), (("L", "E"), ("Q", "U")), (("Q", "U"), ("D", "G")), (("U", "D"), ("Q", "G")),
          (("Q", "U"), ("L", "mu")), (("Q", "mu"), ("U", "D")), (("Q", "D"), ("U", "mu"))]


def spectators(rng, p, f, pair=None):
    """Two other masses are close to each other, but not nearly equal."""
    o = [n for n in ("Q", "U", "D", "L", "E", "G", "mu", "M1", "M2", "S") if n not in f]
    a, b = pair or rng.choice([x for x in (("Q", "D"), ("L", "E"), ("Q", "U"), ("Q", "G"), tuple(rng.sample(o, 2))) if not set(x) & set(f)])
    if rng.random() < .5:
        a, b = b, a
    return put(p, a, get(p, b) * (1 + rng.choice([-1, 1]) * rng.uniform(.045, .1)))


def family_line(rng, f, pair=None):
    p = base(rng)
    if pair or rng.random() < .4:
        p = spectators(rng, p, f, pair)
    m0 = get(p, f[1])
    for n in f[2:]:
        p = put(p, n, m0)
    return line(rng, "".join(f[1:]) + "/" + f[0], p, f[0], m0, 0 if pair else 1)


THRESHOLDS = ["QQ", "UU", "DD", "LL", "EE", "QU", "QD", "UD", "LE", "Q-U", "Q-D", "U-D", "L-E", "QU=", "QQ=", "QD=", "LE=", "QUD=", "LL=", "Qmu="]


def threshold_line(rng, n):
    """MA passes the sum (or difference) of two sfermion masses, which may be equal."""
    p = base(rng)
    for x in "QUDLE":
        p = put(p, x, round(get(p, x)))
    if n[-1] == "=":
        for x in "QUDLE":
            p = put(p, x, get(p, "Q") * (1 + rng.choice([0, 0, 1e-5])))
        if "mu" in n:
            p = put(p, "mu", get(p, "Q"))
        m0 = 2 * get(p, n[0])
    elif n[1] == "-":
        m0 = abs(get(p, n[0]) - get(p, n[2]))
    else:
        m0 = get(p, n[0]) + get(p, n[1])
    return line(rng, "MA=" + n, p, "MA", m0)


def swap_line(rng, k):
    p = base(rng)
    if k % 3 == 0:
        p = put(p, "G", get(p, "Q") * (1 + rng.choice([0, 0, 1e-6, .004])))
    if k % 3 == 1:
        p = put(p, "U", get(p, "Q") * (1 + rng.choice([0, 1e-7, .004])))
    if k % 6 == 4:
        p = put(p, "G", get(p, "Q") * (1 + rng.choice([0, 1e-7, .004])))
    q = put(put(p, "Q", get(p, "U")), "U", get(p, "Q"))
    x = rng.uniform(-2.5, 2.5)
    pts = [setx(p, x, 0, 0), setx(q, x, 0, 0)] + [setx(p, y, 0, 0) for y in (0, -2.3, -1.2, 1.2, 2.3)]     # the rest sets the size
    return "swap|s|%d|%s" % (rng.choice([1, 4]), "@".join(point_line(light(y)) for y in pts))


FN1 = ["F1", "F2", "F3", "F4", "F5", "F6", "F7", "f", "g", "f1", "f2", "f3", "f4"]
FN2 = ["F8", "F9", "f5", "f6", "f7", "f8"]


def fn_lines(rng):
    out = []
    def add(n, pts, tol="1e-6"):
        out.append("fn|%s|%s|%s|%s" % (n, tol, " ".join(map(repr, TS)), "@".join(" ".join(map(repr, x)) for x in pts)))
    for n in FN1:
        if n in ("f1", "f2", "f3", "f4"):
            add(n, [(t,) for t in TS], "0.05")
        for s in (1, -1) if n in ("f", "g", "f1", "f2", "f3", "f4") else (1,):
            add(n, [(s * (1 + t),) for t in TS])
    for n in FN2:
        neg = n[0] == "f"
        for s in (1, -1) if neg else (1,):
            a, b = rng.uniform(.3, 3), rng.uniform(.3, 3)
            for c in ([(s * (1 + t), s * (1 + b * t)) for t in TS], [(s * (1 + t), s * (1 - b * t)) for t in TS], [(s * (1 + t), a) for t in TS], [(a, s * (1 + t)) for t in TS],
                      [(a, a * (1 + t)) for t in TS], [(s * (1 + t), s) for t in TS], [(s, s * (1 + t)) for t in TS],
                      [(s * (1 + t), -a) for t in TS], [(-a, s * (1 + t)) for t in TS], [(a, -a * (1 + t)) for t in TS]):
                add(n, c)
        if neg:
            for c in ([(1 + t, -1) for t in TS], [(1, -1 - t) for t in TS], [(1 + t, -1 - b * t) for t in TS], [(1 + t, -1 + b * t) for t in TS]):
                add(n, c)
                add(n, [(y, x) for x, y in c])
            a, b = rng.uniform(.3, 3), rng.uniform(.3, 3)
            for c in ([(t, a) for t in TS], [(t, b * t) for t in TS], [(t, -b * t) for t in TS], [(t, s) for t in TS], [(t, 0) for t in TS]):
                add(n, c, "0.05")
                add(n, [(y, x) for x, y in c], "0.05")
    y, z = rng.uniform(.2, 4), rng.uniform(.2, 4)
    for c in ([(1 + t, 1, 1) for t in TS], [(1 + t, 1 - t, 1 + 2 * t) for t in TS], [(y * (1 + t), y, z) for t in TS], [(y, z * (1 + t), z) for t in TS]):
        add("phi_xyz", c)
    return out


def run(w):
    b = build(["limits"])["limits"]
    rng = random.Random(SEED * 7919 + 13)
    model_check("Limits", must_cover=["TakeLimit", "KeepGeneral", "Query"])
    for bad in ("NoQG", "Translate", "OneCorrection", "QueryTranslates", "GluinoToOneStop"):
        must_fail("Limits", "LimitsBad_" + bad)
    beh = simulate("Limits", "LimitsGen", 3000 if THOROUGH else 420, 6, SEED * 31 + 13)
    lines = [x for x in (behaviour_line(rng, s) for s in beh) if x]
    for k in range(12 if THOROUGH else 2):
        lines += [family_line(rng, f) for f in FAMILIES] + [family_line(rng, *x) for x in BESIDE] + [threshold_line(rng, n) for n in THRESHOLDS] + fn_lines(rng)
    lines += [swap_line(rng, k) for k in range(1200 if THOROUGH else 120)]
    rng.shuffle(lines)
    trs = conform(w, "LimitsTrace", b, lines)
    sample(trs, 2, 300)
    return {"behaviours": len(beh), "lines": len(lines)}
