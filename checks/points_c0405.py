"""Concrete points for the abstract cases of spec/Validation.tla."""
import math
from lib import *

SEC = {"t": ("MSt", "theta_t", "s2t"), "b": ("MSb", "theta_b", "s2b"), "tau": ("MStau", "theta_tau", "s2tau")}


def rot(rng):
    q = [rng.gauss(0, 1) for _ in range(4)]
    n = math.sqrt(sum(x * x for x in q))
    a, b, c, d = [x / n for x in q]
    return [a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c),
            2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b),
            2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]


def mm(a, b):
    return [sum(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)]


def tr(a):
    return [a[3 * j + i] for i in range(3) for j in range(3)]


def concrete(rng, case, yukawa_rotated=True):
    """A point in the abstract case; returns (point, expected outcome or 'any')."""
    p = rpoint(rng, *rng.choice([(300, 3000), (1000, 20000)]), spread=(.5, 2))
    tachs = [s for s in SEC if tach(case["kind"][s])]
    for k in ("mq2", "md2", "mu2", "ml2", "me2"):
        if rng.random() < .3:      # small positive flavour mixing
            m = list(p[k])
            i, j = rng.choice([(0, 1), (0, 2), (1, 2)])
            m[3 * i + j] = m[3 * j + i] = .05 * m[8]
            p[k] = m
    if rng.random() < .15:
        p["mu2"] = p["mq2"]
    if rng.random() < .1:
        p["mq2"] = p["md2"] = p["mu2"] = p["ml2"] = p["me2"] = diag(*[p["mq2"][8]] * 3)
    if rng.random() < .1:      # no mixing at all
        tb = p["vu"] / p["vd"]
        p["Au"] = diag(0, 0, p["mu"] / tb)
        p["Ad"] = diag(0, 0, p["mu"] * tb)
        p["Ae"] = diag(0, 0, p["mu"] * tb)
    if rng.random() < .3:
        p["Au"] = [rng.uniform(-500, 500) if x == 0 else x for x in p["Au"]]
    # tachyonic sectors: large mixing
    v2, MS = p["vu"] ** 2 + p["vd"] ** 2, math.sqrt(p["mq2"][8])
    for s in SEC:
        a, y, v, f = {"t": ("Au", "Yu", "vu", ("mq2", "mu2")), "b": ("Ad", "Yd", "vd", ("mq2", "md2")), "tau": ("Ae", "Ye", "vd", ("ml2", "me2"))}[s]
        lim = math.sqrt((p[f[0]][8] + 9e4) * (p[f[1]][8] + 9e4)) / (p[y][8] * p[v] / math.sqrt(2))
        low = math.sqrt(max(1., p[f[0]][8] - 9e3) * max(1., p[f[1]][8] - 9e3)) / (p[y][8] * p[v] / math.sqrt(2))
        x0 = p["mu"] * (p["vd"] / p["vu"] if s == "t" else p["vu"] / p["vd"])
        A = list(p[a])
        if s in tachs:
            A[8] = x0 + rng.choice([-1, 1]) * lim * rng.uniform(1.3, 3)
        elif abs(A[8] - x0) > .8 * low:
            A[8] = x0 + rng.uniform(-.8, .8) * low
        p[a] = A
    for s, (M, th, s2) in SEC.items():
        k = KIND[case["kind"][s]]
        m = sorted([rng.uniform(300, 3000), rng.uniform(300, 3000)])
        if rng.random() < .1:
            m[0] = m[1]
        t = rng.uniform(-math.pi, math.pi)
        if not k["sorted"]:
            m.reverse()
        if k["m"]:
            p[M] = m
        elif rng.random() < .3:
            p[M] = rng.choice([[m[0], math.nan], [math.nan, m[1]]])
        if k["th"]:
            p[th] = t
        if k["s2"]:
            p[s2] = math.sin(2 * t)
    if case["bosons"]:
        for n, a, b in (("MW", 70, 90), ("MZ", 85, 95)):
            if rng.random() < .7:
                p[n] = rng.uniform(a, b)
        for n, a, b in (("Mt", 130, 180), ("Mb", 1, 5), ("Mtau", 1, 2)):
            if rng.random() < .6 and not tachs:
                p[n] = rng.uniform(a, b)
    if yukawa_rotated and not tachs and case["soft"] == "ok":
        for y in ("Yu", "Yd", "Ye"):
            r = rng.random()
            if r < .4:
                d = list(p[y])
                if rng.random() < .5:
                    d[0], d[4] = d[4], -d[0]
                p[y] = mm(mm(rot(rng), d), rot(rng)) if r < .25 else d
            elif r < .5:
                d = p[y]
                p[y] = diag(d[8], d[0], -d[4])
    if case["soft"] == "neg":
        k = rng.choice(["mq2", "md2", "mu2", "ml2", "me2"])
        m = list(p[k])
        i = rng.randrange(9) if rng.random() < .5 else rng.choice([0, 4, 8])
        m[i] = -abs(m[8]) * rng.choice([1e-6, .1, 1])
        p[k] = m
    p["MG"] = {"ok": p["MG"], "zero": 0., "neg": -p["MG"] * rng.choice([1e-6, 1])}[case["mg"]]
    for v in ("vu", "vd"):
        if case[v] == "bad":
            p[v] = rng.choice([0., -p[v]])
        elif case[v] == "nan":
            p[v] = math.nan
    return p


def wild(rng):
    """Any combination of optional input, any tan(beta), light soft masses: the specification decides what has to happen."""
    p = rpoint(rng, *rng.choice([(300, 3000), (60, 300)]), spread=(.5, 2))
    v = math.hypot(p["vu"], p["vd"])
    if rng.random() < .6:
        tb = math.exp(rng.uniform(math.log(.03), math.log(80)))
        p["vu"], p["vd"] = v * tb / math.hypot(1, tb), v / math.hypot(1, tb)
    tb = p["vu"] / p["vd"]
    for k in ("mq2", "md2", "mu2", "ml2", "me2"):
        if rng.random() < .4:
            m = list(p[k])
            m[8] = rng.choice([0., 1., 1e3, 3e3, 1e4])
            p[k] = m
    for a, x in (("Au", p["mu"] / tb), ("Ad", p["mu"] * tb), ("Ae", p["mu"] * tb)):
        if rng.random() < .6:
            p[a] = diag(0, 0, x + rng.choice([0., 1., -30., 300.]))
    for k, x in (("MW", 80.), ("MZ", 91.), ("Mt", 160.), ("Mb", 3.), ("Mtau", 1.7)):
        if rng.random() < .4:
            p[k] = x * rng.uniform(.9, 1.1)
    for M, th, s2 in SEC.values():
        t = rng.uniform(-math.pi, math.pi)
        if rng.random() < .3:
            p[M] = [rng.uniform(100, 3000), rng.uniform(100, 3000)]
        elif rng.random() < .2:
            p[M] = rng.choice([[500., math.nan], [math.nan, 500.]])
        if rng.random() < .3:
            p[th] = t
        if rng.random() < .3:
            p[s2] = math.sin(2 * t)
    return p


KIND = dict((n, dict(m=m, th=th, s2=s2, sorted=so, tach=ta)) for n, m, th, s2, so, ta in [
    ("none", 0, 0, 0, 1, 0), ("nonet", 0, 0, 0, 1, 1), ("all", 1, 1, 1, 1, 0), ("alld", 1, 1, 1, 0, 0), ("allt", 1, 1, 1, 1, 1),
    ("mth", 1, 1, 0, 1, 0), ("mthd", 1, 1, 0, 0, 1), ("ms2", 1, 0, 1, 1, 0), ("ms2d", 1, 0, 1, 0, 0), ("m", 1, 0, 0, 0, 0),
    ("mt", 1, 0, 0, 1, 1), ("th", 0, 1, 0, 1, 0), ("m1", 0, 1, 1, 1, 0)])


def tach(k):
    return KIND[k]["tach"]


def cases(n, seed, healthy=False):
    return simulate("Validation", "ValidationGenHealthy" if healthy else "ValidationGen", n, 10, seed)


def faithful(trs):
    """Share of the concrete points which behave like the abstract case they were made for."""
    n = k = 0
    for t in trs:
        for l in open(t):
            if '"event":"Validate"' in l:
                e = json.loads(l)
                if e["expect"] != "any":
                    n += 1
                    k += (e["expect"] == "ok") == e["ok"]
    if n == 0 or k < .85 * n:
        raise Inconclusive("points do not realise the abstract cases: %d of %d" % (k, n))
    return "%d of %d" % (k, n)
