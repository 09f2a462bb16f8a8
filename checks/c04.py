"""C04: completion of incomplete input."""
import random
from lib import *
from points_c0405 import concrete, wild, cases, faithful

TECH = "TLA+ spec, TLC model checking + replayed spec cases + validation of recorded traces"
NOTE = ("The order of the completion steps is model-checked exhaustively over all abstract inputs; cases generated by TLC from "
        "the spec are made concrete and every recorded completion of the real code is validated numerically against the "
        "spec's definitions (mass matrices, singular values, angle conventions). Bounded by the points explored; relative "
        "tolerance 5e-8 for mixing (the deliberate splitting of degenerate masses).")
ASSUMPTIONS = ["an incompletely supplied sfermion sector counts as unset and is computed as a whole",
               "an angle supplied only through sin(2 theta) means the angle in [-pi/4, pi/4]"]


def run(w):
    b = build(["validate"])["validate"]
    rng = random.Random(SEED * 7919 + 4)
    model_check("Validation", must_cover=["CheckSoft", "CheckGluino", "Yukawas", "CheckVev", "Fill", "Angle", "Compute", "Sort", "Split", "Again"])
    model_check("Validation", "ValidationLive")
    cs = cases(30000 if THOROUGH else 2500, SEED * 13 + 4, True)
    lines, kinds = [], {}
    for c in cs:
        if c["outcome"] != "ok":
            continue
        for _ in range(4 if THOROUGH else 2):
            lines.append("V|ok|" + point_line(concrete(rng, c["case"])))
        lines.append("Q|%d|%s" % (rng.randrange(2 ** 31), point_line(concrete(rng, c["case"]))))
        for s, k in c["case"]["kind"].items():
            kinds[s + " " + k] = kinds.get(s + " " + k, 0) + 1
    for _ in range(600 if THOROUGH else 60):
        lines.append("W||" + point_line(rpoint(rng, 500, 4000, same=0)))
    for _ in range(20000 if THOROUGH else 1500):
        lines.append("V|any|" + point_line(wild(rng)))
    rng.shuffle(lines)
    if len(kinds) < 30:
        raise Inconclusive("too few kinds of input generated: %s" % kinds)
    trs = conform(w, "ValidationTrace", b, lines)
    sample(trs, 3, 400)
    return {"accepted_cases": kinds, "points": len(lines), "as_in_abstract_case": faithful(trs)}
