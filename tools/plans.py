"""What each check runs."""
import concurrent.futures as cf
import json
import os
import re
import zlib

from lib import CheckError


def scaled(ck, quick, thorough):
    return quick if ck.tier == "quick" else thorough


def profile_plan(name, quick, rounds=12, chunk=None):
    def run(ck):
        ck.profile(name, quick, chunk=chunk)
        if ck.tier == "thorough":
            for k in range(1, rounds):
                if ck.violations:
                    break
                ck.profile(name, quick, seed=ck.seed + 7919 * k, chunk=chunk)
    return run


READERS = ("C05", "C06", "C07", "C11", "C12", "C13", "C14", "C16", "C17", "C21", "C22", "C23")
WRITERS = {"C01": ["C01"], "C02": ["C02"], "C03": ["C03", "C03b"], "C08": ["C08"], "C13": ["C13"], "C14": ["C14"], "C15": ["C15"], "C21": ["C21"]}


def choose(kinds, most):
    """Some of each kind, as evenly as there are."""
    chosen, left = [], most
    todo = sorted(kinds.values(), key=len)
    for n, l in enumerate(todo):
        k = min(len(l), left // (len(todo) - n))
        chosen += sorted(l)[:k]
        left -= k
    return chosen


def made_up(ck, module, mode, group, form, most):
    """What a model makes up for a group of destinations or types, given to the library."""
    deep = ck.tier == "thorough"
    exe = ck.build()
    d = os.path.join(ck.work, "group-%s-%s" % (mode, group))
    st, err = ck.drive(exe, ["-mode", "group", "-arg", group if mode == "read" else "write-" + group], d)
    if st != "ok":
        raise CheckError("driver: " + err)
    kinds, seen = {}, {}
    with open(os.path.join(d, "group.json")) as f:
        g = json.load(f)
    # the way the specification prints the end of a text, longest tokens first
    ends = sorted({" " + str(t)[1:-1] for k in ("val", "key", "trail") for t in g.get(k, ()) if t}, key=len, reverse=True) if mode == "read" else []

    def ending(t):
        t = " " + t
        return next((e for e in ends if t.endswith(e)), "")

    def sink(line):
        m = re.match(r'"[XV] (\d+) (ok|err) (.*)"$', line)
        if m:
            # a text that is rejected is rejected for what it ends in
            end = ending(m.group(3)[2:-2]) if m.group(2) == "err" else ""
            k = (m.group(2), m.group(1), end)
            seen[k] = seen.get(k, 0) + 1
            h = hash_("%s%d" % (line, ck.seed))
            if h < 1 << 26 or seen[k] < (3000 if end else 100000):    # of millions, some
                kinds.setdefault(k, set()).add((h, k[1], form(m.group(3))))
        return m

    ck.model(module, module + ("Deep" if deep else ""), env={"GROUP": os.path.join(d, "group.json")}, heap="14g" if deep else "6g", timeout=3000, name="%s %s" % (module, group), sink=sink)
    if module == "Reader" and (deep or group == "C07"):
        ck.model(module, "ReaderLive", env={"GROUP": os.path.join(d, "group.json")}, heap="14g", timeout=3000, name="Reader %s, termination" % group)
    chosen = []
    for res in ("ok", "err"):
        chosen += choose({k: v for k, v in kinds.items() if k[0] == res}, most[res])
    path = os.path.join(d, "lines")
    with open(path, "w") as f:
        for _, dest, t in chosen:
            f.write("%s %s %s\n" % (mode, dest, t))
    ck.notes.setdefault("made_up", {})["%s %s" % (mode, group)] = {
        "accepted": sum(n for k, n in seen.items() if k[0] == "ok"), "rejected": sum(n for k, n in seen.items() if k[0] == "err"), "replayed": len(chosen)}
    ck.profile("%s-%s" % (mode, group), (len(chosen) + 9) // 10, chunk=60, mode=("-arg", path))


def texts(ck, group):
    made_up(ck, "Reader", "read", group, lambda t: bytes(int(x) for x in t[2:-2].split(",") if x.strip()).hex(),
            {"ok": 150000, "err": 100000} if ck.tier == "thorough" else {"ok": 2400, "err": 3000 if group == "C06" else 1600})


def values(ck, group):
    made_up(ck, "Writer", "write", group, lambda t: t.replace('\\"', '"'), {"ok": 200000, "err": 50000} if ck.tier == "thorough" else {"ok": 2000, "err": 500})


def with_models(name, plan):
    def run(ck):
        plan(ck)
        for g in WRITERS.get(name, ()):
            if not ck.violations:
                values(ck, g)
        if name in READERS and not ck.violations:
            texts(ck, name)
    return run


PLANS = {
    p: profile_plan(p, n)
    for p, n in {
        "C01": 4000, "C02": 2000, "C03": 3000, "C05": 4000, "C06": 4000, "C07": 4000, "C08": 3000, "C09": 200, "C10": 3000,
        "C11": 3000, "C12": 3000, "C13": 3000, "C14": 3000, "C15": 3000, "C16": 3000, "C17": 3000, "C21": 3000, "C22": 3000, "C23": 3000,
    }.items()
}


def cycles(ck):
    ck.build()
    with cf.ThreadPoolExecutor(6) as ex:
        texts = list(ex.map(lambda l: ck.model("Graph", "Graph" + l, workers=2, heap="3g"), "ABCDEF"))
    # a graph is made of the things the graph before it was made of
    lines = [l for t in texts for l in sorted(ck.behaviours(t, "G"), key=lambda l: hash_(l + str(ck.seed)))]
    ck.replay("graph", lines)
    depths = (3, 50, 999, 1000, 1001, 9999, 10001, 20000, 40000) if ck.tier == "quick" else (1, 2, 3, 10, 50, 500, 998, 999, 1000, 1001, 1002, 1003, 5000, 9999, 10000, 10001, 10002, 20000, 40000, 65536, 100000)
    k = ["K %d %d %s" % (d, l, t) for d in depths for l in range(11) for t in ("leaf", "nil", "shared", "top", "middle")]
    k += ["K %d %d dag" % (d, l) for d in (3, 10, 13) for l in range(11)]
    ck.replay("chain", sorted(k, key=lambda x: hash_(x)))


def depth(ck):
    ck.build()
    lines = ck.behaviours(ck.model("Depth"), "D")
    lines.sort(key=hash_)
    ck.replay("depth", lines)
    if ck.tier == "thorough":
        more = ck.behaviours(ck.model("Depth", "DepthDeep"), "D")
        more.sort(key=lambda l: hash_(l + str(ck.seed)))
        for k in range(0, min(len(more), 60000), 6000):
            if not ck.violations:
                ck.replay("depth", more[k:k + 6000], name="depth deep")


def ownership(ck):
    ck.build()
    ck.replay("own", ck.behaviours(ck.model("Own", "OwnShort"), "O"), name="own 4")
    ck.replay("own", ck.behaviours(ck.model("Own"), "O"), name="own 5")
    profile_plan("C19", 2400)(ck)
    if ck.tier == "thorough" and not ck.violations:
        ck.replay("own", ck.behaviours(ck.model("Own", "OwnDeep", heap="10g"), "O"), name="own 6")


def runtime(ck):
    ck.build()
    ck.build(race=True)
    ck.replay("runtime", ck.behaviours(ck.model("Runtime"), "R"), name="runtime 2 calls", most=1500)
    ck.replay("runtime", ck.behaviours(ck.model("Runtime", "RuntimeThree"), "R"), name="runtime 3 calls", most=1500)
    rounds = 1 if ck.tier == "quick" else 20
    for k in range(rounds):
        if not ck.violations:
            ck.profile("together", 2400, seed=ck.seed + 7919 * k, chunk=300)
            ck.profile("together", 1200, seed=ck.seed + 7919 * k + 1, chunk=300, race=True)
    if ck.tier == "thorough" and not ck.violations:
        more = ck.behaviours(ck.model("Runtime", "RuntimeDeep", heap="12g"), "R")
        more.sort(key=lambda l: hash_(l + str(ck.seed)))
        ck.replay("runtime", more[:600000], name="runtime deep", most=1500, jobs=8)


def hash_(s):
    return zlib.crc32(s.encode())


def graph_source(lines):
    """Go types of the graphs TypeGraph.tla printed, in order of use."""
    out = ["package main", "", 'import "reflect"', "", "type graph struct {", "\tline  string", "\ttypes []reflect.Type", "\tok    []bool", "}", ""]
    reg = []
    for n, line in enumerate(lines):
        h = hash_(line)
        parts = line.split()
        defs, order = parts[1:-1], parts[-1]

        def ref(s):
            name = "G%dT%s" % (n, s[1:])
            return {"d": name, "p": "*" + name, "l": "[]" + name, "i": ("int", "string", "uint8", "float64", "bool")[h % 5], "x": ("chan int", "complex128", "func()")[h % 3],
                    "a": ("any", "interface{ Other() }")[h % 7 == 0], "h": ("chan int", "complex128", "[]func()")[h % 3]}[s[0]]

        for i, d in enumerate(defs):
            form, rs, ok = d[0], d[1:-1].split(","), d[-1]
            name = "G%dT%d" % (n, i + 1)
            if form == "S":
                tag = ("", ' `php:"k%d"`', ' `php:"k%d,omitempty"`')[h // 8 % 3]
                fs = []
                for j, r in enumerate(rs):
                    if r == "h" and h // 64 % 2:
                        fs.append("f%d %s" % (j, ref(r)))
                    elif r == "h":
                        fs.append('F%d %s `php:"-"`' % (j, ref(r)))
                    else:
                        fs.append("F%d %s%s" % (j, ref(r), tag % j if tag else ""))
                src = "struct { %s }" % "; ".join(fs)
            elif form == "I":
                src = "interface{}"
            elif form == "K":
                k = ref(rs[0])
                if rs[0] == "i" and k in ("float64", "bool"):
                    k = "int8"
                if rs[0] == "x":
                    k = "chan int"
                if rs[0] == "a":
                    k = "any"
                src = "map[%s]int" % k
            else:
                src = {"L": "[]", "M": "map[string]", "A": "[2]", "P": "*"}[form] + ref(rs[0])
            out.append("type %s %s" % (name, src))
        reg.append("\t{%s, []reflect.Type{%s}, []bool{%s}}," % (
            '"%s"' % line, ", ".join("reflect.TypeFor[G%dT%s]()" % (n, o) for o in order), ", ".join("true" if defs[int(o) - 1][-1] == "+" else "false" for o in order)))
    return "\n".join(out + ["", "var graphs = []graph{"] + reg + ["}", ""])


def support(ck):
    ck.build()
    two = ck.behaviours(ck.model("TypeGraph"), "T")
    three = ck.behaviours(ck.model("TypeGraph", "TypeGraph3"), "T")
    for l in (two, three):
        l.sort(key=lambda x: hash_(x + str(ck.seed)))
    batches = [two[:600] + three[:300]] if ck.tier == "quick" else [two[k:k + 1200] + three[k:k + 1200] for k in range(0, len(two), 1200)]
    for lines in batches:
        if not ck.violations:
            ck.profile("graphs", len(lines), files={"graphtypes.go": graph_source(lines)})
    profile_plan("C21", 2400)(ck)


PLANS["C21"] = support
for p_ in {*READERS, *WRITERS}:
    PLANS[p_] = with_models(p_, PLANS[p_])
PLANS["C04"] = cycles
PLANS["C18"] = depth
PLANS["C19"] = ownership
PLANS["C20"] = runtime

ENC = "TLA+ (Encode.tla): TLC checks recorded Marshal calls against the machine"
DEC = "TLA+ (Decode.tla): TLC checks recorded Unmarshal calls against the machine"
BOTH = "TLA+ (Encode.tla, Decode.tla): TLC checks recorded Marshal and Unmarshal calls against the machines"
TECHNIQUE = {"C01": ENC, "C02": ENC + " and Wire.tla's grammar", "C03": ENC, "C04": "TLA+ (Graph.tla): TLC enumerates value graphs; each behaviour is replayed on Marshal", "C05": DEC, "C06": DEC, "C07": BOTH, "C08": BOTH, "C09": BOTH, "C10": BOTH, "C11": DEC, "C12": DEC,
             "C13": BOTH, "C14": BOTH, "C15": ENC, "C16": DEC, "C17": DEC, "C18": "TLA+ (Depth.tla, Decode.tla): TLC enumerates nestings at the real limit; each is replayed on Unmarshal", "C19": "TLA+ (Own.tla): TLC enumerates histories of calls and writes; each is replayed on the library", "C20": "TLA+ (Runtime.tla): TLC enumerates interleavings of calls stopped in callbacks, each replayed; concurrent calls judged by Encode.tla and Decode.tla", "C21": BOTH, "C22": DEC, "C23": DEC}
for p_ in READERS:
    TECHNIQUE[p_] += "; Reader.tla makes up texts for a group of destinations, each given to Unmarshal and judged"
for p_ in WRITERS:
    TECHNIQUE[p_] += "; Writer.tla makes up values of a group of types, each given to Marshal and judged"
TECHNIQUE["C21"] += "; TypeGraph.tla enumerates graphs of recursive types, compiled and used"
LIMITS = "Conformance holds for the calls made in the run; sizes and depths of generated values are bounded."
GROUPS = " What Reader and Writer make up is exhaustive for their groups within the token budget; a sample of it is replayed."
NOTE = {p: LIMITS + (GROUPS if p in READERS or p in WRITERS else "") for p in PLANS}
