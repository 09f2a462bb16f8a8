"""C15: the tree-level spectrum is an ordered, orthogonal diagonalisation."""
import math, random
from lib import *

TECH = "TLA+ spec (mass matrices from quantum numbers, diagonalisation, cached sectors), TLC model checking + replay of spec behaviours + validation of recorded traces"
NOTE = ("The mass matrices are specified by the quantum numbers of the fields; supertrace, isospin, Goldstone and Higgs sum rules and the "
        "supersymmetric limit are model-checked over a grid of integer parameters, the diagonalisation over integer rotations, and the "
        "recalculation of single sectors over all short histories. Code: recorded spectra (full, gaugeless, third generation only) at random, "
        "degenerate, sign-flipped and extreme points and given matrices must satisfy the same equations up to rounding; histories of "
        "recalculations chosen by TLC are replayed.")
ASSUMPTIONS = ["rounding errors: 1e-11 of the largest entry of the matrix",
               "the Goldstone boson comes first only if the other boson is heavier (masses are sorted)"]


def special(rng, p):
    """Degenerate, sign-flipped and extreme variants."""
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.randrange(14)
        a = p["mq2"][8]
        if r == 0:
            p["mu2"] = p["md2"] = p["mq2"]
        elif r == 1:
            p["Au"][8] = p["mu"] * p["vd"] / p["vu"]
        elif r == 2:
            p["mu"] = -p["mu"]
        elif r == 3:
            p["M1"] = -p["M1"]
        elif r == 4:
            p["M2"] = -p["M2"]
        elif r == 5:
            p["M1"] = p["M2"] = p["mu"] * rng.choice([1, -1])
        elif r == 6:
            p["MA"] = rng.choice([0, 30., 91., 1e-3, 2e5])
        elif r == 7:
            p["g1"] = rng.choice([0, p["g2"], 1e-6])
        elif r == 8:
            p["g2"] = rng.choice([0, 1e-6])
        elif r == 9:
            p["vd"] = p["vu"] * rng.choice([1, 1, 1e-2, 5])
        elif r == 10:
            p["mu"] = rng.choice([0, 1e-3, 1e5])
        elif r == 11:
            p["M1"] = rng.choice([0, p["M2"]])
            p["M2"] = rng.choice([0, p["M2"]])
        elif r == 12:
            p["Au"][8], p["Ad"][8], p["Ae"][8] = -p["Au"][8], -p["Ad"][8], -p["Ae"][8]
        else:
            p["Yu"][8] = rng.choice([0, .3, 2.5])
            p["Yd"][8] = rng.choice([0, .5, 1.5])
            p["Ye"][8] = rng.choice([0, .5])
    return p


def point(rng):
    p = rpoint(rng, 100 if rng.random() < .3 else 500, 20000)
    for k in ("mq2", "md2", "mu2", "ml2", "me2", "Au", "Ad", "Ae", "Yu", "Yd", "Ye"):
        p[k] = list(p[k])
    p["Au"][0], p["Ad"][0], p["Ae"][0] = (rng.uniform(-3000, 3000) for _ in range(3))
    for k in ("mq2", "md2", "mu2", "ml2", "me2"):
        p[k][4] *= rng.uniform(.5, 1.5)
    return special(rng, p)


def matrix(rng, kind, n):
    """A matrix with prescribed, possibly degenerate, structure."""
    def val():
        # the complex symmetric decomposition (unused by the library) takes the root of a matrix, singular for real or ill-conditioned input
        return rng.gauss(0, 1) if kind == "symc" else rng.choice([0, 0, 1, 1, -1, 2, rng.gauss(0, 1), rng.gauss(0, 1e3), 1e-8, 1e6])
    c = kind.endswith("c")

    def one(scale):
        a = [[val() * scale for _ in range(n)] for _ in range(n)]
        if rng.random() < .3 and kind != "symc":
            a = [[a[i][j] if i == j else 0 for j in range(n)] for i in range(n)]
        if not kind.startswith("svd"):
            a = [[a[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        return [x for r in a for x in r]
    return one(1) + (one(1 if kind == "symc" else rng.choice([0, 1, 1])) if c else [])


def turned(rng):
    a, b, r = rng.choice([(3, 4, 5), (-3, 4, 5), (12, -5, 13), (1, 0, 1), (0, 1, 1)])
    x, y = rng.choice([-1, 0, 1, 2, 3, 4]), rng.choice([-1, 0, 1, 2, 3, 4])
    return [a * a * x + b * b * y, a * b * (x - y), a * b * (x - y), b * b * x + a * a * y]


def run(w):
    b = build(["spectrum"])["spectrum"]
    rng = random.Random(SEED * 7919 + 15)
    model_check("Spectrum", "Spectrum", must_cover=["Set", "Calc", "Whole", "Diagonalize"])
    model_check("Spectrum", "SpectrumGrid")
    for bad in ("Hypercharge", "Gauge", "Swapped", "Stale", "Order", "Mixing"):
        must_fail("Spectrum", "SpectrumBad_" + bad)
    beh = simulate("Spectrum", "SpectrumGen", 400 if THOROUGH else 80, 42, SEED * 31 + 15)
    lines = []
    for s in beh:
        ops = ["par:%d" % o["p"] if o["op"] == "par" else o["op"] for o in s]
        lines.append("ops|history|%s|%s" % (" ".join(ops), "@".join(point_line(point(rng)) for _ in range(3))))
    for k in range(4000 if THOROUGH else 400):
        lines.append("spec|p%d|%s" % (k, point_line(point(rng))))
    for k in range(10000 if THOROUGH else 1200):
        kind, n = rng.choice(["herm", "herm", "sym", "svd", "symc", "svdc"]), rng.choice([2, 2, 3, 4])
        m = turned(rng) if n == 2 and kind in ("herm", "sym", "svd") and rng.random() < .5 else matrix(rng, kind, n)
        lines.append("lin|m%d|%s|%d|%s" % (k, kind, n, " ".join(map(repr, m))))
    rng.shuffle(lines)
    trs = conform(w, "SpectrumTrace", b, lines)
    sample(trs, 2, 300)
    return {"behaviours": len(beh), "lines": len(lines)}
