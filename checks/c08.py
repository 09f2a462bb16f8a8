"""C08: the combined result is consistent with its building blocks."""
import random
from lib import *

TECH = "TLA+ spec, TLC model checking + validation of recorded traces"
NOTE = ("The order of the construction steps is model-checked (all orders compatible with the data dependencies; in-place variants "
        "refuted). Complete results and all 14 hierarchies in both sectors and schemes are recorded at random and degenerate points "
        "and validated against the composition stated in the spec, the eigenvalue expansion being computed by the spec. Bounded by "
        "the points explored.")
ASSUMPTIONS = ["the conversion from the H3m scheme is taken from the library's own private functions where they exist"]


def run(w):
    b = build(["compose"])["compose"]
    rng = random.Random(SEED * 7919 + 8)
    model_check("Compose", must_cover=["Run"])
    for d in ("UncInPlace", "MdrInPlace"):
        must_fail("Compose", "ComposeBad_" + d)
    n = 2400 if THOROUGH else 120
    lines = []
    for i in range(n):
        p = rpoint(rng, *rng.choice([(400, 4000), (1000, 1000), (5000, 50000)]), spread=rng.choice([(.3, 3), (.8, 1.25)]), same=rng.choice([.2, .6]))
        lines.append(("b " if i % 3 == 0 else "t ") + point_line(p))
    # one point per family of mass patterns
    for h in REGIMES:
        for _ in range(4 if THOROUGH else 1):
            p = regime_point(rng, h)
            lines.append("t " + point_line(p))
    # nearly degenerate stops, on both sides of the thresholds between limit and general formulas
    for i in range(60 if THOROUGH else 16):
        p = regime_point(rng, "h3")
        m = p["mq2"][8]
        p["mu2"] = diag(p["mu2"][0], p["mu2"][4], m * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -1.4)))
        p["Au"] = diag(0, 0, p["mu"] / (p["vu"] / p["vd"]) + rng.choice([0, 1e-3, .03, .3]) * m ** .5)
        lines.append(rng.choice("tttb") + " " + point_line(p))
    # optional input which deviates from what the other parameters imply
    for i in range(400 if THOROUGH else 40):
        p = supply(rng, rpoint(rng, *rng.choice([(400, 4000), (5000, 50000)]), spread=rng.choice([(.5, 2), (.8, 1.25)])))
        lines.append(rng.choice("ttb") + " " + point_line(p))
    rng.shuffle(lines)
    trs = conform(w, "ComposeTrace", b, lines)
    sample(trs, 2, 600)
    return {"points": len(lines)}
