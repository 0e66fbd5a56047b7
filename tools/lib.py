"""Shared machinery of the checks: build the harness against /repo, run it,
judge what it recorded with TLC, confirm and report violations."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOROOTS = ["/opt/veriftools/go1.26.10", "/opt/veriftools/go1.26", "/usr/local/go"]


class CheckError(Exception):
    """The check itself failed: nothing is said about the property."""


def goenv(work):
    env = dict(os.environ)
    for g in GOROOTS:
        if os.path.exists(g + "/bin/go"):
            env["PATH"] = g + "/bin:" + env["PATH"]
            break
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    if not os.access(os.path.expanduser("~"), os.W_OK):
        env["HOME"] = work
    return env


class Violation:
    def __init__(self, what, verdict, record, repro):
        self.what, self.verdict, self.record, self.repro = what, verdict, record, repro


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.budget = float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 4 * 3600))
        self.states = self.transitions = self.calls = 0
        self.hist = {}
        self.samples = []
        self.notes = {}
        self.violations = []
        self.lock = threading.Lock()
        self.drivers = {}
        self.assumptions = []
        self.ntlc = 0

    # ---------------------------------------------------------------- build
    def build(self, race=False, files=None):
        key = (race, tuple(sorted((files or {}).items())))
        if key in self.drivers:
            return self.drivers[key]
        src = os.path.join(self.work, "harness%d" % len(self.drivers))
        shutil.copytree(os.path.join(VERIF, "harness"), src)
        for name, text in (files or {}).items():
            with open(os.path.join(src, name), "w") as f:
                f.write(text)
        exe = os.path.join(self.work, "driver%d" % len(self.drivers))
        cmd = ["go", "build", "-o", exe] + (["-race"] if race else []) + ["."]
        p = subprocess.run(cmd, cwd=src, env=goenv(self.work), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("harness does not build against /repo:\n" + p.stdout + p.stderr)
        self.drivers[key] = exe
        return exe

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=2, heap="3g", args=(), timeout=1500, sink=None):
        with self.lock:
            self.ntlc += 1
            meta = os.path.join(self.work, "tlc%d" % self.ntlc)
        os.makedirs(meta)
        cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        out = os.path.join(meta, "out")
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC ran out of time on %s" % (cfg or module))
        with open(out, errors="replace") as f:
            text = "".join(l for l in f if not sink(l)) if sink else f.read()
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        with self.lock:
            self.states += dist
            self.transitions += gen
        return rc, text, dist, gen

    def model(self, module, cfg=None, heap="6g", workers=8, timeout=1500, env=None, name=None, sink=None):
        """Model checking of a bounded instance: its own correctness."""
        rc, text, dist, gen = self.tlc(module, cfg, heap=heap, workers=workers, timeout=timeout, env=env, sink=sink)
        if rc != 0:
            raise CheckError("the model %s is not correct:\n%s" % (cfg or module, text[-4000:]))
        with self.lock:
            self.notes.setdefault("models", {})[name or cfg or module] = {"distinct_states": dist, "states_generated": gen}
        return text

    # --------------------------------------------------------------- driver
    def drive(self, exe, args, out, timeout=600, env=None):
        os.makedirs(out, exist_ok=True)
        cmd = ["bash", "-c", "ulimit -c 0; exec \"$@\"", "drive", exe, *map(str, args), "-out", out]
        e = goenv(self.work)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            return "timeout", ""
        if p.returncode == 0 and os.path.exists(os.path.join(out, "finished")):
            return "ok", p.stdout + p.stderr
        if p.returncode == 3 or "harness:" in p.stderr:
            raise CheckError("driver: " + p.stderr[:3000])
        return "crash", "exit %s\n%s" % (p.returncode, p.stderr[:3000])

    def judge(self, path, module, piece=8 << 20):
        """Judges a recorded file; returns {call id: verdict} and the records of bad calls."""
        if not os.path.exists(path) or os.path.getsize(path) == 0:
            return {}
        pieces, size, f = [], 0, None
        with open(path, "rb") as src:
            for line in src:
                if f is None or size + len(line) > piece:
                    if f:
                        f.close()
                    name = "%s.%d" % (path, len(pieces))
                    pieces.append([name, 0])
                    f, size = open(name, "wb"), 0
                f.write(line)
                size += len(line)
                pieces[-1][1] += 1
        if f:
            f.close()
        res = {}
        for name, n in pieces:
            rc, text, _, _ = self.tlc(module, env={"CASES": name})
            got = {}
            for m in re.finditer(r'^"J (\d+) (\S+) (\S+)(?: (\S+))?"', text, re.M):
                i, v = int(m.group(1)), m.group(2)
                if i not in got or v in ("good", "free"):
                    got[i] = (v, m.group(3) + ("/" + m.group(4) if m.group(4) else ""))
            if len(got) != n or rc != 0:
                keep = os.path.join("/tmp", "verif-failed-%s.log" % self.prop)
                open(keep, "w").write(text)
                raise CheckError("%s judged %d of %d calls (exit %d):\n%s" % (module, len(got), n, rc, text[-3000:]))
            res.update(got)
            os.unlink(name)
        return res

    def judge_dir(self, d):
        """All calls recorded in a directory: [(id, kind, verdict, result)], bad ones with records."""
        allv, bad = [], []
        for kind, module in (("enc", "EncTrace"), ("dec", "DecTrace")):
            path = os.path.join(d, kind + ".ndjson")
            v = self.judge(path, module)
            allv += [(i, kind, *x) for i, x in v.items()]
        verdicts = {i: v for i, _, v, _ in allv}
        if any(v not in ("good", "free") for v in verdicts.values()):
            for kind in ("enc", "dec"):
                with open(os.path.join(d, kind + ".ndjson")) as f:
                    for line in f:
                        r = json.loads(line)
                        v = verdicts[r["id"]]
                        if v in ("good", "free") or r["quiet"]:
                            continue
                        if r["ctl"] and verdicts.get(r["ctl"]) not in ("good", "free"):
                            continue
                        bad.append((r["id"], v, line))
        return allv, bad

    def sample(self, d, n=1):
        for kind in ("enc", "dec"):
            try:
                with open(os.path.join(d, kind + ".ndjson")) as f:
                    lines = [l for l in (f.readline() for _ in range(40)) if l and len(l) < 6000]
            except OSError:
                continue
            for l in lines[len(lines) // 2:len(lines) // 2 + n]:
                r = json.loads(l)
                s = {"call": "Marshal" if kind == "enc" else "Unmarshal", "id": r["id"], "note": r["note"], "failed": r["err"]}
                if kind == "enc":
                    s["value"] = show(r["v"])
                    s["output"] = text(r["out"])
                else:
                    s["input"] = text(r["in"])
                    s["result"] = show(r["new"])
                with self.lock:
                    if len(self.samples) < 8:
                        self.samples.append(s)

    # ----------------------------------------------------- recorded profiles
    def profile(self, profile, n, seed=None, chunk=None, race=False, mode=(), files=None):
        """n cases of a profile, in chunks that run in parallel."""
        exe = self.build(race, files)
        seed = self.seed if seed is None else seed
        chunk = chunk or max(50, min(1200, n // 8 or n))
        todo = [(a, min(chunk, n - a)) for a in range(0, n, chunk)]
        stop = threading.Event()

        def one(a, k):
            if stop.is_set() or time.time() - self.t0 > self.budget:
                return 0
            d = os.path.join(self.work, "%s-%d-%d%s" % (profile, seed, a, "r" if race else ""))
            base = ["-profile", profile, "-seed", seed, *mode]
            st, err = self.drive(exe, base + ["-from", a, "-n", k], d)
            if st == "crash" and profile.startswith("together") and not err.startswith(("exit -9", "exit 137")):
                self.violate(err.strip().split("\n")[1] if "\n" in err.strip() else err, "crash", err, base + ["-from", a, "-n", k])
                stop.set()
                return 0
            if st != "ok":
                self.crashed(exe, base, a, k, d, st, err)
                stop.set()
                return 0
            allv, bad = self.judge_dir(d)
            self.sample(d)
            with self.lock:
                self.calls += len(allv)
                for _, kind, v, r in allv:
                    key = "%s %s %s" % (kind, r, v)
                    self.hist[key] = self.hist.get(key, 0) + 1
            if bad:
                stop.set()
                for i, v, line in bad[:3]:
                    self.confirm(exe, base, a, k, i, v, line)
            shutil.rmtree(d, ignore_errors=True)
            return k

        with cf.ThreadPoolExecutor(4) as ex:
            done = sum(f.result() for f in [ex.submit(one, a, k) for a, k in todo])
        with self.lock:
            self.notes.setdefault("cases", {})
            key = "%s seed %d%s" % (profile, seed, " race" if race else "")
            self.notes["cases"][key] = self.notes["cases"].get(key, 0) + done

    def confirm(self, exe, base, a, k, call, verdict, line):
        case = call // 1000
        for args, how in ((["-from", case, "-n", 1], "the case alone"), (["-from", case, "-n", 1], "the case alone"), (["-from", a, "-n", case - a + 1], "after the cases before it")):
            d = tempfile.mkdtemp(dir=self.work)
            st, err = self.drive(exe, base + args, d)
            if st != "ok":
                self.violate("driver %s" % st, "crash", err, base + args)
                return
            _, bad = self.judge_dir(d)
            hit = [b for b in bad if b[0] == call] or bad
            shutil.rmtree(d, ignore_errors=True)
            if hit:
                self.violate("%s (%s)" % (hit[0][1], how), hit[0][1], hit[0][2], base + args)
                return
        if verdict == "memory":
            return
        self.violate("%s (seen once)" % verdict, verdict, line, base + ["-from", a, "-n", k])

    def crashed(self, exe, base, a, k, d, st, err):
        """The driver died: find the case and see whether it does it again."""
        try:
            call = int(open(os.path.join(d, "progress")).read().split()[0])
        except (OSError, IndexError, ValueError):
            raise CheckError("driver %s: %s" % (st, err))
        case = call // 1000
        for args in (["-from", case, "-n", 1], ["-from", a, "-n", case - a + 1]):
            d2 = tempfile.mkdtemp(dir=self.work)
            st2, err2 = self.drive(exe, base + args, d2)
            crash = os.path.join(d2, "crash")
            if os.path.exists(crash):
                err2 = open(crash).read() + err2
            if st2 != "ok":
                self.violate("the process ended in call %d: %s" % (call, err2.strip().split("\n")[0]), "crash", err2, base + args)
                return
        raise CheckError("driver %s in call %d, not reproduced: %s" % (st, call, err))

    # ------------------------------------------------- replayed behaviours
    def replay(self, mode, lines, exe=None, jobs=6, name=None, env=None, most=1 << 30):
        """Runs behaviours TLC printed on the real code; a line per behaviour."""
        exe = exe or self.build()
        path = os.path.join(self.work, "%s-%d.txt" % (name or mode, len(os.listdir(self.work))))
        with open(path, "w") as f:
            f.write("".join(l + "\n" for l in lines))
        step = max(1, min(most, (len(lines) + jobs - 1) // jobs))
        base = ["-mode", mode, "-arg", path, "-seed", self.seed]

        def one(a):
            d = tempfile.mkdtemp(dir=self.work)
            st, err = self.drive(exe, base + ["-from", a, "-n", step], d, timeout=800, env=env)
            if st != "ok":
                try:
                    at = int(open(os.path.join(d, "progress")).read().split()[0])
                except (OSError, IndexError, ValueError):
                    raise CheckError("driver %s: %s" % (st, err))
                for args in (["-only", at, "-n", 0], ["-from", a, "-n", at - a + 1]):
                    d2 = tempfile.mkdtemp(dir=self.work)
                    st2, err2 = self.drive(exe, base + args, d2, timeout=800, env=env)
                    if st2 != "ok":
                        crash = os.path.join(d2, "crash")
                        if os.path.exists(crash):
                            err2 = open(crash).read() + err2
                        self.violate("the process ended (%s) in %s" % (err2.strip().split("\n")[0], lines[at][:500]), "crash", lines[at] + "\n" + err2, base + args)
                        return
                raise CheckError("driver %s in %s, not reproduced: %s" % (st, lines[at][:500], err))
            n, calls = map(int, open(os.path.join(d, "finished")).read().split())
            with self.lock:
                self.calls += n
                c = self.notes.setdefault("replayed", {}).setdefault(name or mode, {"behaviours": 0, "calls": 0})
                c["behaviours"] += n
                c["calls"] += calls
            bad = open(os.path.join(d, "bad"), errors="replace").read().splitlines()
            seen = set()
            for b in bad:
                m = re.match(r"BAD (\d+) ", b)
                at = int(m.group(1)) if m else a
                if at in seen or len(seen) >= 3:
                    continue
                seen.add(at)
                d2 = tempfile.mkdtemp(dir=self.work)
                how = "seen once"
                for args, h in ((["-only", at, "-n", 0], "alone"), (["-from", a, "-n", at - a + 1], "after the ones before it")):
                    st2, _ = self.drive(exe, base + args, d2, timeout=800, env=env)
                    again = "crash" if st2 != "ok" else open(os.path.join(d2, "bad"), errors="replace").read()
                    if again:
                        how = h
                        break
                self.violate("%s (%s)" % (b[:1200], how), "mismatch", lines[at] + "\n" + b, base + ["-only", at])

        if lines:
            with cf.ThreadPoolExecutor(jobs) as ex:
                for f in [ex.submit(one, a) for a in range(0, len(lines), step)]:
                    f.result()
            with self.lock:
                self.samples.append({"mode": name or mode, "behaviour": lines[len(lines) // 2][:600]})

    def behaviours(self, text, prefix):
        """The lines a model printed."""
        out = []
        for m in re.finditer(r'^"(%s .*)"$' % prefix, text, re.M):
            out.append(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        return sorted(set(out))

    def violate(self, what, verdict, record, repro):
        with self.lock:
            self.violations.append(Violation(what, verdict, record, repro))

    # --------------------------------------------------------------- report
    def finish(self):
        known = []
        try:
            known = [l.strip() for l in open(os.path.join(VERIF, "known_findings.txt")) if l.startswith("known:")]
        except OSError:
            pass
        shown, rc = [], 0
        for v in self.violations:
            for l in known:    # known: property=<id> match=<text of the record> <description>
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
                if m and m.group(1) == self.prop and m.group(2) in v.record:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, m.group(3)))
                    break
            else:
                shown.append(v)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for n, v in enumerate(shown[:5]):
            path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (self.prop, self.seed, n))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "what": v.what, "verdict": v.verdict, "driver": v.repro, "record": v.record[:200000]}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + v.what)
            print("  " + brief(v.record)[:1500])
            rc = 1
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.calls, "samples": self.samples[:8] or ["none"], "verdicts": self.hist}
        cov.update(self.notes)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
                       "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(shown)}, f, indent=1)
        print("%s: %d calls judged, %d states, %.0f s, %d violations" % (self.prop, self.calls, self.states, time.time() - self.t0, len(shown)))
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def text(codes):
    s = "".join(chr(c) if 32 <= c < 127 else "\\x%02x" % c for c in codes)
    return s if len(s) < 400 else s[:400] + "..."


def show(v):
    c = v.get("c")
    if c == "n":
        return None
    if c == "b":
        return v["b"]
    if c == "i":
        return ("-" if v["neg"] else "") + "".join(map(str, v["d"]))
    if c == "f":
        return {"float": v["sp"] or ("-" if v["neg"] else "") + "0." + "".join(map(str, v["d"])) + "e%d" % v["e"]}
    if c == "s":
        return text(v["s"])
    if c == "l":
        return [show(x) for x in v["l"][:20]]
    if c == "m":
        return [[show(x["k"]), show(x["v"])] for x in v["m"][:20]]
    if c == "p":
        return {"ptr": show(v["v"])}
    if c == "a":
        return {"iface": v["y"], "v": show(v["v"])}
    if c == "t":
        return {"struct": [show(x) for x in v["t"][:20]]}
    if c == "u":
        return {"user": text(v["raw"])}
    return c


def brief(line):
    try:
        r = json.loads(line)
    except ValueError:
        return line
    if "in" in r:
        return "Unmarshal %s: input %s error=%s panic=%s result=%s" % (r.get("note"), text(r["in"]), r["err"], r["pan"], json.dumps(show(r["new"])))
    if "out" in r:
        return "Marshal %s: value %s error=%s panic=%s output=%s" % (r.get("note"), json.dumps(show(r["v"]))[:600], r["err"], r["pan"], text(r["out"]))
    return line
