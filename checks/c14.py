"""C14: threshold corrections in different schemes are re-expansions of each other."""
import math, random
from lib import *
from c13 import base, put, get, setx, light

TECH = "TLA+ spec (power series in the strong coupling), TLC model checking + spec behaviours as queries + validation of recorded traces"
NOTE = ("The closed conversion formulas, their involution, the answers for unsupported schemes and the truncation in the stop mixing are "
        "model-checked exhaustively over polynomials with small integer coefficients. Code: at sampled points in all mass limits, answers "
        "to queries chosen by TLC must be the re-expansion computed by the specification; truncations must keep exactly the lower powers.")
ASSUMPTIONS = [
    "near equal masses truncated conversions are exact up to the relative mass distance (leading-order limits)",
    "omitting the logarithms of the scale means evaluating at the scale of the lighter stop"]

XS = [-2, 2, -1, 1.5, -1.5, 1, .5, -.5, 0]
CORR = {"g": 0, "y": 1, "y2": 2, "l0": 3, "l1": 4, "l2": 5}
GROUPS = ["", "", "", "QU", "QG", "UG", "QUG", "QUGS", "QS", "US", "GS", "QUS", "QGS", "UGS"]


def separated(p, g):
    """Masses outside of the cluster differ by more than a few percent (the code looses precision in between)."""
    m = [get(p, n) for n in "QUGS" if n not in g[1:]]
    return all(abs(a / b - 1) > .06 for i, a in enumerate(m) for b in m[:i])


def spectrum(rng, g, offs=(0, 0, 1e-9, 1e-6, 1e-4, 1e-3, 3e-3, 8e-3)):
    p = base(rng)
    if g:
        m0 = get(p, g[0])
        if "Q" not in g:
            p = put(p, "Q", m0 * 1.85)
        off = rng.choice(offs)
        for n in g:
            p = put(p, n, m0 * (1 + rng.choice([0, off, -off])))
    return p


def queries(rng, s):
    """The queries of a spec behaviour; corrections that do not depend on the scheme are mixed in."""
    out = []
    for q in s:
        sch = {"ref": 4, "drbar": 1}.get(q["s"]) or rng.choice([0, 2, 3])
        out.append(45 * sch + CORR[q["c"]])
        if rng.random() < .5:
            out.append(45 * rng.randrange(5) + rng.randrange(6, 45))
    return out


def run(w):
    b = build(["schemes"])["schemes"]
    rng = random.Random(SEED * 7919 + 14)
    model_check("SchemesMC", "Schemes", must_cover=["Query", "Truncate"])
    for bad in ("Four", "NoInverse", "Mixes", "DropsFour"):
        must_fail("SchemesMC", "SchemesBad_" + bad)
    beh = simulate("Schemes", "SchemesGen", 3000 if THOROUGH else 400, 26, SEED * 31 + 14)
    lines = []
    for k, s in enumerate(beh):
        g = GROUPS[k % len(GROUPS)]
        p = setx(spectrum(rng, g), rng.choice([0, rng.uniform(-2.2, 2.2), rng.uniform(-2.2, 2.2)]), rng.uniform(-1, 1), rng.uniform(-1, 1))
        p["scale"] *= math.exp(rng.uniform(-1.5, 1.5))
        lines.append("schemes|%s|-1|%s|%s" % (g or "general", " ".join(map(str, queries(rng, s))), point_line(light(p))))
    for k in range(2400 if THOROUGH else 300):
        g = GROUPS[k % len(GROUPS)]
        p = spectrum(rng, g, (0, 0, 1e-9, 1e-6, 1e-4))
        while not separated(p, g):
            p = spectrum(rng, g, (0, 0, 1e-9, 1e-6, 1e-4))
        p["scale"] *= math.exp(rng.uniform(-1.5, 1.5))
        lines.append("trunc|%s|-1|0|%s|%s" % (g or "general", " ".join(map(str, XS)), "@".join(point_line(light(setx(p, x, 0, 0))) for x in XS)))
    rng.shuffle(lines)
    trs = conform(w, "SchemesTrace", b, lines)
    sample(trs, 2, 300)
    return {"behaviours": len(beh), "lines": len(lines)}
