"""C05: rejection, acceptance, idempotence."""
import random
from lib import *
from points_c0405 import concrete, wild, cases, faithful

TECH = "TLA+ spec, TLC model checking + replayed spec cases + validation of recorded traces"
NOTE = ("Rejection/acceptance/idempotence are model-checked exhaustively over all abstract inputs; cases generated by TLC are "
        "made concrete, and the outcome of the real validation and of every calculator's constructor must be the one the spec "
        "computes for the concrete point (and for the abstract case). Bounded by the points explored; points within 1e-9 "
        "(relative) of the tachyonic boundary may go either way.")
ASSUMPTIONS = ["entry points: Parameters::validate and the constructors of the hierarchy, EFT and threshold calculators "
               "(the Mathematica link is covered by C09)", "a negative off-diagonal soft mass entry counts as a defect, as in the code"]


def run(w):
    b = build(["validate"])["validate"]
    rng = random.Random(SEED * 7919 + 5)
    model_check("Validation", must_cover=["CheckSoft", "CheckGluino", "Yukawas", "CheckVev", "Fill", "Angle", "Compute", "Sort", "Split", "Again"])
    model_check("Validation", "ValidationLive")
    cs = cases(40000 if THOROUGH else 6000, SEED * 13 + 5)
    lines, n = [], {"ok": 0, "rejected": 0}
    for c in cs:
        # several defects at once are rarer in practice: thin them out
        c0 = c["case"]
        defects = (c0["soft"] != "ok") + (c0["mg"] == "neg") + (c0["vu"] != "ok") + (c0["vd"] != "ok")
        if defects > 1 and rng.random() < .8:
            continue
        n[c["outcome"]] += 1
        e = c["outcome"] if c["outcome"] == "ok" else "rejected"
        lines.append("V|%s|%s" % (e, point_line(concrete(rng, c0, c["outcome"] == "ok"))))
        lines.append("E||" + point_line(concrete(rng, c0, c["outcome"] == "ok")))
    for _ in range(10000 if THOROUGH else 800):
        lines.append("V|any|" + point_line(wild(rng)))
        lines.append("E||" + point_line(wild(rng)))
    # one defect at a time, in every entry
    for _ in range(20 if THOROUGH else 3):
        for k in ("mq2", "md2", "mu2", "ml2", "me2"):
            for i in range(9):
                for f in (-1., -1e-3, -1e-12):
                    p = rpoint(rng)
                    m = list(p[k])
                    m[i] = f * m[8]
                    p[k] = m
                    lines.append("E||" + point_line(p))
        for k in ("vu", "vd", "MG"):
            for f in (-1., -1e-9, 0., math.nan):
                p = rpoint(rng)
                p[k] = f * p[k]
                if not (k == "MG" and f != f):
                    lines.append("E||" + point_line(p))
                    lines.append("V|any|" + point_line(p))
    rng.shuffle(lines)
    if min(n.values()) < 100:
        raise Inconclusive("unbalanced cases: %s" % n)
    trs = conform(w, "ValidationTrace", b, lines)
    sample(trs, 3, 400)
    return {"cases": n, "points": len(lines), "as_in_abstract_case": faithful(trs)}
