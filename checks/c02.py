"""C02: selection of the mass hierarchy."""
import random
from lib import *

ASSUMPTIONS = [
    "the errors of the candidates are recomputed from matrices obtained through public calls (exact and expanded "
    "two-loop corrections at the three-loop expansion depth); rounding tolerance 1e-9 on the combined error",
    "the ordering conditions are those of HierarchyCalculator.hpp / H3m; the design model checks the selection loop exhaustively on a mass grid"]

GRID = [620, 900, 1000, 1100, 1204, 1650]


TECH = "TLA+ spec, TLC model checking + validation of recorded traces"
NOTE = "The selection loop is model-checked exhaustively on a mass grid (design); the code is bound by trace validation: every recorded selection must be the spec's argmin over the candidates the spec deems suitable. Bounded by the explored points; trusts the exact and expanded 2-loop matrices returned by the code (decided by C17, C19, C21)."


def grid_points(rng):
    """The initial states of Selection, as parameter points with the masses given directly."""
    out = []
    for m1 in GRID:
        for m2 in GRID:
            if m2 <= m1:
                continue
            for mg in GRID:
                for mq in GRID:
                    p = rpoint(rng, 1000, 1000, spread=(.8, 1.2))
                    for k in ("mq2", "md2", "mu2"):
                        p[k] = diag(mq * mq, mq * mq, mq * mq)
                    ab = rng.random() < .3
                    s, t = ("MSb", "theta_b") if ab else ("MSt", "theta_t")
                    p[s] = [m1, m2]
                    p[t] = rng.uniform(-.7, .7)
                    if rng.random() < .7:
                        p[t] *= .1
                    p["MG"] = mg
                    pre = "b " if ab else "t "
                    if mq == m2 and rng.random() < .8:
                        pre += "eq2 "
                    out.append(pre + point_line(p))
    return out


def run(w):
    b = build(["select"])["select"]
    rng = random.Random(SEED * 7919 + 2)
    model_check("Selection", must_cover=["Skip", "Take", "Finish", "Fail"])
    lines = grid_points(rng)
    n = 12000 if THOROUGH else 900
    for i in range(n):
        p = rpoint(rng, *rng.choice([(300, 4000), (1000, 1000), (5000, 50000)]), spread=(.3, 3))
        if rng.random() < .3:
            supply(rng, p)
        if rng.random() < .1:
            p["g3"] = 0          # all errors vanish: a tie
        lines.append(rng.choice(["t ", "t ", "b ", "t mdr "]) + point_line(p))
    rng.shuffle(lines)
    trs = conform(w, "SelectionTrace", b, lines)
    sample(trs)
    h, fails, none = {}, 0, 0
    for t in trs:
        for l in open(t):
            if '"event":"End"' in l:
                e = json.loads(l)
                h[e["cmp"]] = h.get(e["cmp"], 0) + 1
    if len([x for x in h if x >= 0]) < 10 or -1 not in h:
        raise Inconclusive("too few hierarchies selected: %s" % h)
    return {"selected": {str(k): v for k, v in sorted(h.items())}}
