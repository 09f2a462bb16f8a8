"""C09: every request of the Mathematica front end is answered completely and in order."""
import random
from lib import *
from linkreq import *

TECH = "TLA+ spec, TLC model checking + replayed spec behaviours + validation of recorded traces"
NOTE = ("The request/reply protocol (argument check, diversion of the streams, reading, completion, calculation, messages, result or "
        "failure, link failures at any point) is model-checked exhaustively for two consecutive requests with liveness; four broken "
        "designs are refuted. Request sequences generated by TLC and random ones, including every position of a link failure in "
        "success and failure replies, are played into the real LibraryLink code through a stand-in link; the recorded token "
        "streams are parsed and validated by the spec.")
ASSUMPTIONS = ["stand-in for the MathLink library (harness/stub): the link delivers or refuses each call; the recovery of a real "
               "link after an error (MLClearError) is not modelled"]


def request(rng, beh):
    k = beh["kind"]
    fault = rng.choice([0, 1, 2, 3, 4, 5, rng.randrange(60)]) if beh["fault"] else -1
    full = rng.random() < .6           # optional input given
    kind = rng.choice(["tachyon", "late"]) if k in ("tachyon", "diverges") else "ok"
    p = point(rng, kind)
    opt = optional(rng, p)
    if full:
        MS = 1.01 * abs(p["mq2"][8]) ** .5
        opt.update(MSt=[MS, MS * 1.2], MSb=[MS * .9, MS], MStau=[MS, MS], s2t=.3, s2b=.1, s2tau=0.)
        if kind == "late":
            opt.pop("MStau"), opt.pop("s2tau")
        if kind != "ok" and rng.random() < .3:
            p = point(rng)
            p["mq2"] = diag(-1, 1e6, 1e6)
    v, q = encode(p, int(beh["bottom"]), beh["loops"], int(beh["verbose"]), opt)
    if k == "noargs":
        c = rng.choice(["nohead", "args0", "args2"])
        return line(c, v if c == "args2" else [], None, fault)
    if k == "short":
        n = rng.choice([0, 1, 2, 3, 126, 128, rng.randrange(127), rng.randrange(128, 200)])
        return line("list", (v + v)[:n], None, fault)
    if k == "symbol":
        c = rng.choice(["sym", "str", "noinner", "nopacket"])
        if c in ("sym", "str"):
            v[rng.choice([0, 1, 2, 3, 126, rng.randrange(127)])] = c
            return line("list", v, None, fault)
        return line(c, v, None, fault)
    return line("list", v, q, fault)


def run(w):
    b = build(["link"])["link"]
    rng = random.Random(SEED * 7919 + 9)
    model_check("Link", must_cover=["Receive", "LinkDies", "CheckArgs", "Divert", "Read", "Fill", "Compute", "Flush", "Open",
                                    "PutRules", "Close", "Unwind", "Report", "Return"])
    for d in ("PutEarly", "FlushLate", "ReportFirst", "NoRestore"):
        must_fail("Link", "LinkBad_" + d)
    ses = [[] for _ in range(JOBS)]
    for i, beh in enumerate(simulate("Link", "LinkGen", 240 if THOROUGH else 32, 200, SEED * 31 + 9)):
        ses[i % JOBS] += [request(rng, r) for r in beh]
    # a link failure after every number of outgoing calls, for a result and for a failure; each followed by a healthy request
    for i, f in enumerate(range(0, 130 if THOROUGH else 70)):
        k = "ok" if i % 3 else "tachyon"
        base = {"kind": k, "verbose": i % 2, "bottom": i % 5 == 0, "loops": 2 if i % 4 else 3}
        l = request(rng, dict(base, fault=True)).split(" ")
        l[1] = str(f)
        ses[i % JOBS] += [" ".join(l), request(rng, dict(base, fault=False, kind=rng.choice(["ok", "tachyon"])))]
    trs = conform_sessions(w, "LinkTrace", b, ses, tlc_env={"FOCUS": "protocol"})
    sample(trs, 2, 500)
    return {"requests": sum(map(len, ses))}
