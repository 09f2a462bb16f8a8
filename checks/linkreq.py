"""Requests to the Mathematica link (C09, C10)."""
from lib import *

# how this machinery encodes a request; the trace specification checks it against its own layout
ORDER = (["scale", "mu", "g1", "g2", "g3", "vd", "vu", "mq2", "md2", "mu2", "ml2", "me2", "Au", "Ad", "Ae", "Yu", "Yd", "Ye",
          "MA", "M1", "M2", "MG"])
OPTM = ["MW", "MZ", "Mt", "Mb", "Mtau"]
SECT = [("MSt", "s2t"), ("MSb", "s2b"), ("MStau", "s2tau")]


def encode(p, bottom, loops, verbose, opt):
    """p: point with the mandatory parameters; opt: raw values of the optional entries.
    Returns the list sent and the point it stands for."""
    r = [bottom, loops, verbose]
    q = dict(p)
    for k in ORDER:
        r += p[k] if isinstance(p[k], (list, tuple)) else [p[k]]
    for k in OPTM:
        v = opt.get(k, -1)
        r.append(v)
        if v > 0:
            q[k] = v
    for m, _ in SECT:
        r += opt.get(m, [-1, -1])
    for m, s in SECT:
        a, b = opt.get(m, [-1, -1])
        x = opt.get(s, -2)
        r.append(x)
        if a > 0 and b > 0 and abs(x) <= 1:
            q[m], q[s] = [a, b], x
    return r, q


def optional(rng, p, edge=False):
    MS = max(p["mq2"][8], 0) ** .5 or 1000.
    o = {}
    vals = {"MW": 80.4, "MZ": 91.2, "Mt": 150., "Mb": 2.5, "Mtau": 1.7}
    for k in OPTM:
        r = rng.random()
        if r < .4:
            o[k] = vals[k] * rng.uniform(.9, 1.1)
        elif edge and r < .55:
            o[k] = rng.choice([0, -0.0, -5, 1e-3, .4])
    for m, s in SECT:
        r = rng.random()
        if r < .5:
            a, b = sorted(MS * rng.uniform(.7, 1.3) for _ in range(2))
            o[m], o[s] = [a, b], rng.choice([-1, 1, 0, rng.uniform(-1, 1)] if edge else [rng.uniform(-1, 1)])
        elif edge and r < .8:
            a, b = sorted(MS * rng.uniform(.7, 1.3) for _ in range(2))
            c = rng.randrange(4)
            o[m] = [[a, b], [a, 0], [-a, b], [a, b]][c]
            o[s] = [1.0000001, .3, .3, -1.0000001][c]
    return o


def point(rng, kind="ok"):
    p = rpoint(rng, *rng.choice([(400, 4000), (1000, 1000), (2000, 20000)]), spread=rng.choice([(.5, 2), (.8, 1.25)]))
    if kind == "late":       # only the last sector fails, after messages about the others
        p["Ae"] = diag(0, 0, rng.choice([-1, 1]) * 1e3 * p["ml2"][8] * p["me2"][8] ** .5)
    if kind == "tachyon":
        rng.choice([lambda: p.update(mq2=diag(p["mq2"][0], p["mq2"][4], -1e6)), lambda: p.update(MA=-abs(p["MA"])) or p.update(mu2=diag(-1e5, 1e5, 1e5)),
                    lambda: p.update(Au=diag(0, 0, 60 * p["scale"])), lambda: p.update(vd=-3.), lambda: p.update(scale=-1.)])()
    return p


def line(kind, values, named=None, fault=-1):
    return "%s %d %d %s" % (kind, fault, len(values), " ".join(v if isinstance(v, str) else fmt(v) for v in values)) + (
        " # " + point_line(named) if named is not None else "")
