"""C16: the modes of the fixed-order calculation agree to their order and terminate."""
import math, random
from lib import *

TECH = "TLA+ spec (momentum treatments, iteration with cut-off), TLC model checking incl. termination + validation of recorded traces"
NOTE = ("Termination, the cut-off and what the iteration returns are model-checked for all small linear self-energies, also ones that diverge. Code: in all "
        "six modes the masses must be what order-by-order or numerical diagonalisation of the recorded matrices gives, and the iteration must end at the "
        "step at which the recorded orbit of momenta has converged or is cut off; perturbative diagonalisation is checked order by order on given matrices.")
ASSUMPTIONS = ["points at which convergence is a matter of rounding are not decided", "derivative of the self-energy: only without gauge couplings, by differences"]


def modes(rng, n):
    r = []
    for i in range(n):
        kind = rng.choice(["", "", "light", "gaugeless", "weak", "big"])
        if kind == "light":
            p = rpoint(rng, 150, 500)
            p["MA"] = rng.choice([95., 110., 140., 200.])
        else:
            p = rpoint(rng, 500, 3000 if kind == "gaugeless" else 20000, gaugeless=kind == "gaugeless")
        if kind == "gaugeless":
            for k in ("Yu", "Yd", "Ye"):
                p[k] = diag(0, 0, p[k][8] if k == "Yu" else rng.uniform(.4, 1))
            b = rng.uniform(.6, 1.2)   # fermions heavier than the momenta of the differences
            p["vu"], p["vd"] = 246 * math.sin(b), 246 * math.cos(b)
        if kind == "weak":
            for k in ("Yu", "Yd", "Ye"):
                p[k] = diag(0, 0, 0)
        if kind == "big":   # converges slowly or not at all
            y = rng.uniform(1.5, 6)
            p["Yu"] = diag(0, 0, y)
            p["Yd"] = diag(0, 0, rng.choice([.1, y / 2]))
            p["g2"] = rng.uniform(.6, 3)
        prec = rng.choice(["1e-2", "1e-4", "1e-5", "1e-7", "1e-10", "1e-12", "0"])
        mx = rng.choice([0, 1, 2, 3, 4, 6, 10, 8 if kind == "big" else 100])   # no rounding errors of a chaotic orbit
        r.append("P|%s%d|%s|%d|%s" % (kind, i, prec, mx, point_line(p)))
    return r


def matrices(rng, n):
    r = []
    for i in range(n):
        sc = [10 ** rng.uniform(-2, 6) for _ in range(4)]
        if rng.random() < .3:   # nearly massless at lowest order
            t, M = rng.uniform(0, 1.57), sc[0]
            m = [M * math.cos(t) ** 2, -M * math.cos(t) * math.sin(t), M * math.sin(t) ** 2]
        else:
            m = [sc[0] * rng.uniform(-1, 1) for _ in range(3)]
        if rng.random() < .1:
            m[1] = 0.
        ms = [m] + [[0, 0, 0] if rng.random() < .1 else [s * rng.uniform(-1, 1) for _ in range(3)] for s in sc[1:]]
        r.append("D|m%d|%s" % (i, " ".join("%.17g" % x for y in ms for x in y)))
    return r


def run(w):
    b = build(["momit"])["momit"]
    rng = random.Random(SEED * 7919 + 16)
    model_check("MomIt", "MomIt", must_cover=["Neglect", "Expand", "Start", "Iterate", "Finish"])
    for bad in ("start", "nolimit", "damped", "nocheck", "onelooptwice"):
        must_fail("MomIt", "MomItBad_" + bad)
    k = 10 if THOROUGH else 1
    g = modes(rng, 800 * k) + matrices(rng, 800 * k)
    rng.shuffle(g)
    trs = conform(w, "MomItTrace", b, g)
    sample(trs, 1, 400)
    return {"points": 800 * k, "matrices": 800 * k}
