"""C06: the result object stores every quantity in its own slot."""
import random
from lib import *

TECH = "TLA+ spec, TLC model checking + replayed spec behaviours + validation of recorded traces"
NOTE = ("Store semantics model-checked exhaustively for short histories; write/copy sequences generated by TLC from the spec and "
        "systematic ones are replayed on real objects, whose complete contents after every step must be those of the spec's "
        "store. Bounded by the length and number of the sequences; values are arbitrary doubles.")
ASSUMPTIONS = ["the stop-mixing part of the lambda uncertainty has no getter and is observed through the total"]
WIDTH = {"DMh": 4, "MDRShift": 4, "H3mShift": 4, "MDRMasses": 2}
PL = ["DMh", "DMh2", "ExpUnc", "DLambda", "DLambdaShift", "EFT", "FO", "FOAt"]
SG = ["Hierarchy", "AbsDiff", "RelDiff", "MDRShift", "H3mShift", "MDRMasses", "LambdaH3m", "LambdaEFT", "LambdaNonLog", "XtUnc", "MDRFlag", "Scheme"]


def val(rng, q):
    if q in ("MDRFlag", "Scheme"):
        return str(rng.choice([-2147483648, -2, -1, 0, 1, 2, 3, 4, 5, 6, 2147483647]))
    if q == "Hierarchy":
        return str(rng.randrange(-2, 20))
    def d():
        r = rng.random()
        if r < .03 and q not in ("XtUnc", "LambdaEFT", "LambdaH3m", "MDRMasses"):
            return rng.choice(["nan", "inf", "-inf", "-0.0", "5e-310", "1.7e308"])
        return repr(rng.choice([-1, 1]) * math.exp(rng.uniform(-20, 20)))
    return " ".join(d() for _ in range(WIDTH.get(q, 1)))


def run(w):
    b = build(["store"])["store"]
    rng = random.Random(SEED * 7919 + 6)
    model_check("Store", must_cover=["Write", "Copy"])
    ses = []
    for beh in simulate("Store", "StoreGen", 400 if THOROUGH else 48, 62, SEED * 31 + 6):
        l = ["new %d %s" % (o, rng.choice("tb")) for o in (1, 2, 3)]
        for s in beh:
            if s["op"] == "w":
                l.append("w %d %s %d %s" % (s["o"], s["q"], s["n"], val(rng, s["q"])))
            else:
                l.append("c %d %d %s" % (s["o"], s["n"], rng.choice("ac")))
            if rng.random() < .2:
                l.append("p %d %s %d" % (rng.choice([1, 2, 3]), rng.choice(PL + ["Unc"]), rng.choice([-2147483648, -1, 0, 1, 2, 3, 4, 5, 2147483647])))
        ses.append(l)
    # every pair of slots: write one, then the other, read everything
    slots = [(q, n) for q in PL for n in range(-1, 6)] + [(q, 0) for q in SG]
    for part in split(slots, JOBS):
        l = []
        for q, n in part:
            l.append("new 1 t")
            l.append("w 1 %s %d %s" % (q, n, val(rng, q)))
            for q2, n2 in (slots if THOROUGH else rng.sample(slots, 24)):
                l.append("w 1 %s %d %s" % (q2, n2, val(rng, q2)))
        ses.append(l)
    parts = [[] for _ in range(JOBS)]
    for i, l in enumerate(ses):
        parts[i % JOBS] += l
    trs = conform_sessions(w, "StoreTrace", b, parts)
    sample(trs, 2, 500)
    return {"sessions": len(ses)}
