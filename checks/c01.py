"""C01: results depend only on the inputs, never on the call history."""
import random
from lib import *

TECH = "TLA+ spec, TLC model checking + replayed spec behaviours + validation of recorded traces"
NOTE = ("The hidden-state discipline (switches raised/lowered/restored, shared work area) is model-checked exhaustively, with "
        "broken variants that must fail. Sessions of the real library, generated systematically and by TLC from the spec, are "
        "validated: every result must be bitwise the one of a fresh process for the same operation, point and settings. "
        "Bounded by the sessions explored; non-determinism within one process image only (same binary).")
ASSUMPTIONS = ["a fresh process is a fork of the recorder before its first library call",
               "results are compared through a 128-bit digest of their bit patterns"]

# operations per kind of object
def calc_ops(rng, full=False):
    o = ["dmh3l t", "dmh3l b", "cmp t -", "cmp b -", "cmp t m", "*cmp t -", "*cmp b m", "*dmh3l t"]
    for h in range(14):
        o += ["hier %d t - 0 0 1" % h, "unc %d t - 0 0 1" % h, "mt41 %d t m 1 1" % h]
        if full or rng.random() < .4:
            o += ["hier %d b - 0 0 1" % h, "hier %d t m 0 0 1" % h, "hier %d t - 0 1 0" % h, "hier %d t - 1 1 1" % h, "*hier %d t - 0 1 0" % h,
                  "unc %d t - 0 1 0" % h, "unc %d b - 0 0 1" % h, "sh %d t m 1 1" % h, "sh %d b m 1 0" % h, "d2m %d t m 1 1" % h,
                  "mt42 %d t m 1 1" % h, "mt42 %d b - 0 0" % h, "mt41 %d b - 1 0" % h]
    o += ["mt41 0 t - 0 0", "mt42 0 t - 0 0", "mt42 0 b - 0 0"]
    o += BAD
    return o


BAD = ["hier -1 t - 0 0 1", "hier 14 t - 0 0 1", "hier 99 b - 0 1 1", "unc -1 t - 0 0 1", "unc 14 t - 0 1 0", "unc 99 t - 1 0 0"]
EFT = ["0", "1 1 1", "1 0 0", "2 1 1", "2 0 0", "3 1 1 1", "3 0 0 0", "3 1 1 0", "deg", "print"]
FO = ["mh2", "m", "d1", "d1g", "d2", "pert", "num", "print"]
PAR = ["validate", "msq2", "print"]


def thr_ops(rng, full=False):
    o = ["t %d %d %d" % (c, s, g) for c in range(45) for s in range(5) for g in (0, 1)] + \
        ["shift %d 1 1" % i for i in range(5)] + ["shift 4 0 0"] + ["xt %d %d 1" % (l, x) for l in range(6) for x in (0, 3, 4)]
    return o if full else rng.sample(o, 60)


def kinds(rng, full=False):
    return {"calc": calc_ops(rng, full), "eft": EFT, "fo": FO, "foat": FO, "thr": thr_ops(rng, full), "par": PAR}


def settings(rng, kind):
    if kind == "eft":
        return [(str(rng.randrange(22)), str(rng.randrange(2))) for _ in range(rng.randrange(3))]
    if kind in ("fo", "foat"):
        return [rng.choice([("diag", str(rng.randrange(2))), ("momit", str(rng.randrange(3))), (str(rng.randrange(22)), str(rng.randrange(2)))])
                for _ in range(rng.randrange(3))]
    if kind == "thr":
        return [rng.choice([("limit", str(rng.randrange(6))), ("xtord", str(rng.choice([0, 1, 2, 3, 4])))]) for _ in range(rng.randrange(2))]
    return []


def slots(p):
    for k, v in p.items():
        if isinstance(v, list):
            for i in range(len(v)):
                yield k, i
        else:
            yield k, None


def vary(p, k, i, f):
    q = dict(p)
    v = q[k]
    if i is None:
        q[k] = v * f if v == v and v != 0 else (f - 1) * 1e3
    else:
        w = list(v)
        w[i] = w[i] * f if w[i] != 0 else (f - 1) * abs(w[8] if len(w) == 9 else 1e3)
        q[k] = w
    return q


class Session:
    def __init__(self):
        self.l, self.np, self.pid = [], 0, {}

    def P(self, p):
        s = point_line(p)
        if s not in self.pid:
            self.pid[s] = str(len(self.pid))
            self.l.append("P|%s|%s" % (self.pid[s], s))
        return self.pid[s]

    def N(self, o, kind, p):
        self.l.append("N|%d|%s|%s" % (o, kind, self.P(p)))

    def S(self, o, kv):
        self.l.append("S|%d|%s|%s" % (o, kv[1], kv[0]))

    def O(self, o, op):
        self.l.append("O|%d|%s" % (o, op))

    def C(self, o, f, how):
        self.l.append("C|%d|%d|%s" % (o, f, how))


def base_point(rng):
    """All slots given, so that every one of them can be varied."""
    p = rpoint(rng, 800, 3000, same=.3, spread=(.7, 1.6))
    p.update(MW=80.4, MZ=91.2, Mt=rng.uniform(140, 170), Mb=2.4, Mtau=1.8)
    return p


def special(rng):
    """Points which make the library raise errors or enter rarely used branches."""
    out = []
    p = base_point(rng); p["mu2"] = diag(p["mu2"][0], p["mu2"][4], -p["mu2"][8]); out.append(p)      # rejected
    p = base_point(rng); p["vd"] = 0.; out.append(p)                                               # rejected
    p = base_point(rng); p["MG"] = -p["MG"]; out.append(p)                                         # rejected
    p = base_point(rng); p["Au"] = diag(0, 0, p["Au"][8] + 50 * p["scale"]); out.append(p)           # tachyonic stop
    p = base_point(rng); p["mq2"] = p["md2"] = p["mu2"] = diag(1e4, 1e4, p["mq2"][8]); out.append(p)  # unsuitable: squarks lighter than stops
    p = base_point(rng); p["MG"] = 20 * p["MG"]; out.append(p)                                     # unsuitable: gluino heavy
    p = base_point(rng)
    for k in ("mq2", "md2", "mu2", "ml2", "me2"):
        p[k] = diag(1e6, 1e6, 1e6)
    p["MG"] = p["MA"] = p["M1"] = p["M2"] = p["mu"] = p["scale"] = 1e3; out.append(p)                # degenerate
    p = base_point(rng); p["MA"] = 30.; p["mu"] = 90.; p["M1"] = 50.; out.append(p)                  # light states
    return out


def systematic(rng, n):
    """op; other op on the same object and on other objects; op again."""
    ses = []
    allops = kinds(rng, True)
    for _ in range(n):
        s = Session()
        base = base_point(rng)
        other = rng.choice(special(rng) + [base_point(rng)] * 3)
        ks = kinds(rng)
        seq = [(k, op) for k in ks for op in rng.sample(ks[k], min(len(ks[k]), {"calc": 16, "thr": 12}.get(k, 4)))]
        rng.shuffle(seq)
        for i, k in enumerate(ks):
            s.N(i, k, base)
            s.N(10 + i, k, other)
        num = {k: i for i, k in enumerate(ks)}
        for k, op in seq:
            o = num[k]
            r = rng.random()
            if r < .15:
                s.O(10 + o, op)
            elif r < .25:
                s.O(o, rng.choice(ks[k]))
            elif r < .35 and k == "calc":
                s.O(o, rng.choice(BAD))
            elif r < .4:
                s.C(20 + o, o, rng.choice("ac")); s.C(o, 20 + o, "a"); s.O(20 + o, op)
            elif r < .45:
                s.C(20 + o, 10 + o, "c"); s.C(20 + o, o, "a"); s.O(20 + o, op)
            s.O(o, op)
        # interleaved settings on two objects of a kind
        for k in ("eft", "fo", "thr"):
            s.N(30, k, base)
            s.N(31, k, base)
            for _ in range(4):
                for kv in settings(rng, k):
                    s.S(rng.choice([30, 31]), kv)
                s.O(30, rng.choice(ks[k]))
                s.O(31, rng.choice(ks[k]))
        ses.append(s)
    return ses


def variants(rng):
    """op(base), op(variant differing in one slot), op(base): for every slot."""
    ses = []
    base = base_point(rng)
    todo = list(slots(base))
    probe = [("calc", "dmh3l t"), ("calc", "dmh3l b"), ("calc", "cmp t -"), ("calc", "mt42 0 t - 0 0"), ("calc", "mt42 0 b - 0 0"),
             ("calc", "hier 8 t - 0 0 1"), ("calc", "unc 8 t - 0 0 1"), ("calc", "hier 3 t - 0 0 1"),
             ("eft", "0"), ("eft", "1 0 0"), ("eft", "2 0 0"), ("eft", "3 0 0 0"), ("fo", "mh2"), ("foat", "mh2"), ("fo", "d1"), ("fo", "d2"),
             ("thr", "t 0 1 1"), ("thr", "t 1 1 1"), ("thr", "t 2 1 1"), ("thr", "t 8 1 1"), ("thr", "t 5 1 1"), ("par", "validate")]
    for g in split(todo, JOBS * (4 if THOROUGH else 1)):
        s = Session()
        for k, i in g:
            off = i is not None and len(base[k]) == 9 and i not in (0, 4, 8)
            if off and rng.random() < .7 and not THOROUGH:
                continue
            f = rng.choice([1 + 1e-9, 1 + 1e-6, 1.003, 1.1])
            v = vary(base, k, i, f)
            for kind, op in probe:
                if not THOROUGH and rng.random() < (.5 if kind == "calc" else .3):
                    continue
                s.N(0, kind, base); s.N(1, kind, v)
                a, b = (0, 1) if rng.random() < .5 else (1, 0)
                s.O(a, op); s.O(b, op); s.O(a, op)
        if s.l:
            ses.append(s)
    return ses


def generated(rng, n):
    """Behaviours of the specification, with abstract points and operations mapped to real ones."""
    beh = simulate("History", "HistoryGen", n, 200, SEED * 31 + 1)
    ses = []
    for b in beh[:n]:
        s = Session()
        ks = kinds(rng)
        pts = [base_point(rng), base_point(rng), base_point(rng), rng.choice(special(rng))]
        kind = rng.choice(["calc", "calc", "calc", "eft", "fo", "foat", "thr"])
        pool = [o for o in ks[kind]]
        names = {}
        for st in b:
            o = int(st["o"])
            if st["op"] == "new":
                s.N(o, kind, pts[int(st["p"])])
            elif st["op"] == "copy":
                s.C(int(st["p"]), o, rng.choice("ac"))
            else:
                a = st["p"]
                if a not in names:
                    if a[0] == "t" and kind == "calc":
                        names[a] = rng.choice(BAD)
                    elif a[0] == "u" and kind == "calc":
                        names[a] = rng.choice([x for x in pool if x.startswith("unc") and x not in BAD] + ["cmp t -", "dmh3l t"])
                    else:
                        names[a] = rng.choice(pool)
                s.O(o, names[a])
        ses.append(s)
    return ses


def run(w):
    b = build(["history"])["history"]
    rng = random.Random(SEED * 7919 + 1)
    model_check("History", must_cover=["New", "Copy", "Start", "Lower", "Load", "Finish", "Throw"])
    for m in ("RestoreOnThrow", "RestoreOnReturn", "WriteScratch"):
        must_fail("History", "HistoryBad_" + m)
    ses = systematic(rng, 200 if THOROUGH else 16) + variants(rng) + generated(rng, 400 if THOROUGH else 24)
    kinds_of = {}
    trs = conform_sessions(w, "HistoryTrace", b, [s.l for s in ses])
    sample(trs)
    n, thrown = {}, 0
    for t in trs:
        for l in open(t):
            e = json.loads(l)
            n[e["event"]] = n.get(e["event"], 0) + 1
            thrown += e["event"] == "New" and not e["ok"]
    if n.get("Copy", 0) < 10 or thrown < 3:
        raise Inconclusive("sessions too tame: %s, %d rejected" % (n, thrown))
    return {"sessions": len(ses), "events": n, "rejected_constructions": thrown}
