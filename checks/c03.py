"""C03: expansion uncertainty."""
import random
from lib import *

ASSUMPTIONS = ["the corrections with single switches lowered are obtained from calculateHierarchy of the code itself; "
               "the spec decides which of them enter, how they combine, and that all switches are put back",
               "rounding tolerance 1e-6 relative + 1e-9 of the Higgs mass"]


TECH = "TLA+ spec, TLC model checking + validation of recorded traces"
NOTE = "The raise/lower/restore protocol of the expansion switches is model-checked exhaustively; each recorded uncertainty must be the spec's quadratic sum over the spec's table of expansion variables. Bounded by the explored points; trusts the truncated matrices returned by the code."


def run(w):
    b = build(["unc"])["unc"]
    rng = random.Random(SEED * 7919 + 3)
    model_check("Uncertainty", must_cover=["EnterSelection", "Start", "EvalFull", "EvalLow", "EvalDone", "Finish",
                                           "LeaveSelection", "Raise", "Unwind", "Unwound"])
    lines = []
    for i in range(8000 if THOROUGH else 640):
        p = rpoint(rng, *rng.choice([(300, 4000), (1000, 1000), (5000, 50000)]), spread=rng.choice([(.3, 3), (.8, 1.25)]))
        if rng.random() < .3:
            supply(rng, p)
        lines.append(rng.choice(["t ", "t ", "b "]) + point_line(p))
    trs = conform(w, "UncertaintyTrace", b, lines)
    sample(trs)
    h = {}
    for t in trs:
        for l in open(t):
            e = json.loads(l)
            k = "%s h%d" % (e["event"], e["h"])
            h[k] = h.get(k, 0) + 1
    if sum(1 for k in h if k.startswith("Unc")) < 14:
        raise Inconclusive("not all hierarchies exercised: %s" % h)
    return {"events": h}
