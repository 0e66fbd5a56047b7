#!/usr/bin/env python3
"""How much of a recorded call the specification looks at: results of real calls
that it accepts are changed in one place and judged again.  Not a check; prints
what was accepted although it was changed.

    selftest.py [cases per profile] [profile ...]"""
import collections
import copy
import json
import os
import random
import sys

import lib

PROFILES = ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C21", "C22", "C23"]


def places(v, at=()):
    """All places of a described value."""
    yield at, v
    c = v["c"]
    if c in ("p", "a"):
        yield from places(v["v"], at + ("v",))
    elif c in ("l", "t"):
        for i, x in enumerate(v[c]):
            yield from places(x, at + (c, i))
    elif c == "m":
        for i, e in enumerate(v["m"]):
            for side in "kv":
                yield from places(e[side], at + ("m", i, side))


def changed(v, rnd):
    """A described value with one thing different, and what."""
    v = copy.deepcopy(v)
    all_ = [(at, x) for at, x in places(v)]
    at, x = rnd.choice(all_)
    c = x["c"]
    how = c
    if c == "i":
        k = rnd.randrange(len(x["d"]))
        if rnd.random() < .2 and x["d"] != [0]:
            x["neg"], how = not x["neg"], "i sign"
        else:
            x["d"][k] = (x["d"][k] + rnd.randrange(1, 10)) % 10
            while len(x["d"]) > 1 and x["d"][0] == 0:
                x["d"].pop(0)
            if x["d"] == [0]:
                x["neg"] = False
    elif c == "b":
        x["b"] = not x["b"]
    elif c == "s":
        if x["s"] and rnd.random() < .6:
            k = rnd.randrange(len(x["s"]))
            x["s"][k] ^= rnd.choice([1, 32, 128])
        elif x["s"] and rnd.random() < .5:
            x["s"].pop(rnd.randrange(len(x["s"])))
            how = "s shorter"
        else:
            x["s"].insert(rnd.randrange(len(x["s"]) + 1), 120)
            how = "s longer"
    elif c in ("l", "m") and x[c]:
        if c == "l" and len(x[c]) > 1 and rnd.random() < .5:
            i, j = rnd.sample(range(len(x[c])), 2)
            if x[c][i] == x[c][j]:
                return None, None
            x[c][i], x[c][j] = x[c][j], x[c][i]
            how = "l swapped"
        else:
            x[c].pop(rnd.randrange(len(x[c])))
            how = c + " shorter"
    elif c == "x":
        x["x"] += 1
    elif c == "u":
        if rnd.random() < .5 and x["raw"]:
            x["raw"].pop()
        else:
            x["raw"].append(59)
    elif c == "f":
        if rnd.random() < .2 and x["sp"] != "nan":
            x["neg"], how = not x["neg"], "f sign"
        elif x["sp"]:
            return None, None
        elif x["d"] == [0]:
            x["d"] = [1]
        elif rnd.random() < .2:
            x["e"] += rnd.choice([-1, 1])
            how = "f exponent"
        else:
            k = rnd.randrange(len(x["d"]))
            x["d"][k], how = x["d"][k] % 9 + 1, "f digit"
    elif c == "p" and x["id"] and rnd.random() < .5:
        x["id"], how = 0, "p other"
    elif c == "p":
        x.clear()
        x["c"], how = "n", "p nil"
    elif c == "a":
        x.clear()
        x["c"], how = "n", "any nil"
    elif c == "n":
        return None, None
    else:
        return None, None
    return v, how


def corrupt(kind, r, rnd):
    r = copy.deepcopy(r)
    dice = rnd.random()
    if kind == "enc":
        if dice < .1:
            r["err"], r["out"] = True, []
            return r, "error"
        if dice < .2:
            r["calls"] += 1
            return r, "calls"
        o = r["out"]
        k = rnd.randrange(len(o))
        if dice < .5:
            o[k] ^= rnd.choice([1, 2, 32])
            return r, "byte"
        if dice < .7:
            o.pop(k)
            return r, "byte lost"
        if dice < .8:
            o.insert(k, rnd.choice(o))
            return (r, "byte more") if o != [] else (None, None)
        v, how = changed(r["v"], rnd)
        if v is None:
            return None, None
        r["v"] = v
        return r, "value " + how
    if dice < .1:
        r["err"] = True
        return r, "error"
    if dice < .15 and r["log"]:
        r["log"] = r["log"][:-1]
        return r, "log shorter"
    if dice < .2:
        r["log"] = r["log"] + [[78, 59]]
        return r, "log longer"
    if dice < .23:
        r["inm"] = True
        return r, "input written"
    v, how = changed(r["new"], rnd)
    if v is None:
        return None, None
    r["new"] = v
    return r, "value " + how


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    ck = lib.Check("C05", "quick")
    total, missed = collections.Counter(), collections.defaultdict(list)
    try:
        exe = ck.build()
        for p in sys.argv[2:] or PROFILES:
            d = os.path.join(ck.work, "self-" + p)
            st, err = ck.drive(exe, ["-profile", p, "-seed", "1", "-from", "0", "-n", str(n)], d)
            if st != "ok":
                raise lib.CheckError(err)
            for kind, module in (("enc", "EncTrace"), ("dec", "DecTrace")):
                path = os.path.join(d, kind + ".ndjson")
                if not os.path.exists(path):
                    continue
                v = ck.judge(path, module)
                out, what = os.path.join(d, kind + "-bad.ndjson"), {}
                with open(path) as f, open(out, "w") as w:
                    for line in f:
                        r = json.loads(line)
                        if v[r["id"]] != ("good", "ok/exact") and v[r["id"]][1].split("/")[0] != "ok" or len(line) > 20000:
                            continue
                        c, how = corrupt(kind, r, rnd)
                        if c is None or c == r or kind == "enc" and c["out"] == r["out"] and c["v"] == r["v"] and not how in ("calls", "error"):
                            continue
                        what[r["id"]] = (how, c)
                        w.write(json.dumps(c, separators=(",", ":")) + "\n")
                for i, x in ck.judge(out, module).items():
                    total[kind + " " + what[i][0]] += 1
                    if x[0] in ("good", "free"):
                        missed[kind + " " + what[i][0]].append((p, i, x[1], what[i][1]))
            print(p, sum(total.values()), sum(map(len, missed.values())), flush=True)
    finally:
        ck.cleanup()
    for k in sorted(total):
        print("%-22s changed %5d, accepted %d" % (k, total[k], len(missed[k])))
        for p, i, x, r in missed[k][:int(os.environ.get("SHOW", "3"))]:
            if "in" in r:
                print("    ", p, i, x, bytes(r["in"])[:100], json.dumps(r["new"])[:300], "old", json.dumps(r["old"])[:150])
            else:
                print("    ", p, i, x, bytes(r["out"])[:100], json.dumps(r["v"])[:300])


main()
