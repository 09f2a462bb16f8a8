"""C10: Mathematica slots mean the same as in the C++ library."""
import random, re
from lib import *
from linkreq import *

TECH = "TLA+ spec of the positional protocol + validation of recorded traces"
NOTE = ("The spec states the meaning of each of the 127 positions, when an optional entry counts as given, and names, order and "
        "shape of the 13 rules; real requests (random points, every slot moved on its own, boundary values of the optional "
        "entries, all settings) are played into the LibraryLink code and their decoded replies compared with what the library yields for "
        "the point which the spec says the list stands for. The order of the list in the package file is read from its text.")
ASSUMPTIONS = ["there is no Mathematica: the package file is read textually (list of OptionValue[...] and default values)"]


def package():
    """Order of parameters, default values and output names of the package file; None if it cannot be read."""
    f = os.path.join(REPO, "source", "himalaya", "LibraryLink", "Himalaya_LibraryLink.m")
    try:
        t = open(f).read()
    except OSError:
        return None
    t = re.sub(r"\(\*.*?\*\)", "", t, flags=re.S)
    m = re.search(r"LibInterface\[(.*?)\n\s*\];", t, re.S)
    if not m:
        return None
    names = []
    for n, i, k in re.findall(r"OptionValue\[(\w+)\](?:\[\[(\d)(?:,\s*(\d))?\]\])?", m.group(1)):
        names.append(n if not i else "%s.%d" % (n, int(i) - 1) if not k else "%s.%d" % (n, 3 * (int(i) - 1) + int(k) - 1))
    d = {}
    m = re.search(r"himalayaDefaultParameters = \{(.*?)\};", t, re.S)
    if not m:
        return None
    for n, v in re.findall(r"(\w+) -> (\{[^{}]*\}|[-\d.]+)", m.group(1)):
        v = v.strip("{}").split(",")
        if n in ("MW", "MZ", "Mt", "Mb", "Mtau", "MSt", "MSb", "MStau", "s2t", "s2b", "s2tau"):
            d[n] = v[0].strip()
    m = re.search(r"\{ hierarchyID,(.*?)\};", t, re.S)
    if not m or len(names) != 127 or len(d) != 11:
        return None
    return {"event": "Package", "names": names, "defaults": d, "outputs": ["hierarchyID"] + [x.strip() for x in m.group(1).split(",")]}


def run(w):
    b = build(["link"])["link"]
    rng = random.Random(SEED * 7919 + 10)
    model_check("Link", must_cover=["Receive", "PutRules", "Return"])
    lines = []
    # every position moved on its own, from a generic point without symmetric entries
    for pos in range(3, 127):
        p = point(rng)
        for k in ("mq2", "md2", "mu2", "ml2", "me2", "Au", "Ad", "Ae", "Yu", "Yd", "Ye"):
            s = 1e-3 * abs(p[k][8])
            p[k] = [x + s * rng.uniform(.1, 1) if i % 4 else x for i, x in enumerate(p[k])]
        v, q = encode(p, pos % 2, 2 if pos % 3 else 3, 0, optional(rng, p))
        lines.append(line("list", v, q))
    for i in range(2000 if THOROUGH else 240):
        p = point(rng, "tachyon" if i % 17 == 0 else "ok")
        v, q = encode(p, rng.choice([0, 1, 1, 0, 2, -1]), rng.randrange(4), rng.choice([0, 1]), optional(rng, p, True))
        lines.append(line("list", v, q))
    pk = package()
    if pk:
        f = w.path("package.ndjson")
        with open(f, "w") as fh:
            fh.write(json.dumps(pk) + "\n")
        check_trace("LinkTrace", f, env={"FOCUS": "slots"})
    trs = conform(w, "LinkTrace", b, lines, tlc_env={"FOCUS": "slots"})
    sample(trs, 2, 500)
    return {"requests": len(lines), "package_file": "checked" if pk else "not readable"}
