"""C07: switches of coupling orders act additively and independently."""
import itertools, random
from lib import *

TECH = "TLA+ spec, TLC model checking + replayed spec behaviours + validation of recorded traces"
NOTE = ("Guarded sharing of sub-expressions model-checked over all switch sets of the 2-loop effective-theory terms; switch sequences "
        "generated by TLC, all pairs and complements of switches replayed on the real objects, whose results must be the sum of the "
        "separately measured terms. Bounded by the sampled parameter points.")
ASSUMPTIONS = ["a switch with an invalid value may count as on or off until it is set again"]


def session(rng, steps, kind):
    l = ["new"]
    for s in steps:
        if s["op"] == "s":
            o = s["o"]
            if kind != "eft" and rng.random() < .06:
                l.append("s 22 %d" % rng.randrange(2))
                continue
            l.append("s %d %d" % (o, s["v"] if s["v"] < 2 else rng.choice([-1, 2, 7])))
        elif s["op"] == "a":
            l.append("a %d" % s["v"])
        else:
            l.append("e %d" % s["o"])
    l += ["e %d" % n for n in range(4)]
    return l


def run(w):
    b = build(["flags"])["flags"]
    rng = random.Random(SEED * 7919 + 7)
    model_check("Flags", must_cover=["Switch", "All"])
    must_fail("Flags", "FlagsBad")
    beh = simulate("Flags", "FlagsGen", 400 if THOROUGH else 64, 52, SEED * 31 + 7)
    parts = []
    kinds = ["eft", "fo", "foat", "eft", "fo", "eft", "fo", "foat"] * (4 if THOROUGH else 1)
    npt = len(kinds)
    eft1, eft2, fo2 = list(range(0, 12)), [12, 13, 14, 15, 17, 18, 19, 20, 21], [12, 14, 15, 17, 19, 21]
    for i, kind in enumerate(kinds):
        l = ["point " + point_line(supply(rng, rpoint(rng), .25)), "kind %s %d" % (kind, 1 if rng.random() < .8 else 0)]
        l += ["new"] + ["e %d" % n for n in range(4)]
        for s in beh[i::npt]:
            l += session(rng, s, kind)
        for group, n in ((eft1, 1), (eft2, 2)) if kind == "eft" else ((fo2, 2),):
            for r in (2, 3) if THOROUGH else (2,):
                for c in itertools.combinations(group, r):
                    l += ["a 0"] + ["s %d 1" % o for o in rng.sample(c, r)] + ["e %d" % n]
                    l += ["a 1"] + ["s %d 0" % o for o in c] + ["e %d" % n]
        parts.append(l)
    trs = conform_sessions(w, "FlagsTrace", b, parts)
    sample(trs, 2, 400)
    return {"points": npt, "behaviours": len(beh)}
