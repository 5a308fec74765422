#!/usr/bin/env python3
"""check.py <property> : decide one property for the current /repo tree (see DESIGN.md).

exit 0  held on everything explored
exit 1  broken; prints VIOLATION property=<id> replay=<path>
exit 2  the machinery itself failed (build error, tool failure)
"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import models, plans, scripts

TLA = "/opt/veriftools/tla"
TARGET = os.path.join(V, "target")
SPEC = os.path.join(V, "spec")
T0 = time.time()


class ToolFailure(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", timeout=timeout, **kw)


def build(crate):
    """harness crate, compiled against /repo's working tree"""
    tgt = os.path.join(TARGET, crate)
    r = sh(". /opt/vp/env.sh && CARGO_TARGET_DIR=%s cargo build --offline" % tgt, 840, cwd=os.path.join(V, crate))
    if r.returncode != 0:
        raise ToolFailure("building %s failed:\n%s" % (crate, r.stdout[-3000:]))
    return os.path.join(tgt, "debug")


def java_num():
    out = os.path.join(TARGET, "java")
    os.makedirs(out, exist_ok=True)
    r = sh(["javac", "-cp", TLA + "/tla2tools.jar", "-d", out, SPEC + "/big/Num.java"], 120)
    if r.returncode != 0:
        raise ToolFailure("javac: " + r.stdout)


def tlc(module, cfg, lib, scratch, env, timeout, extra=(), workers=1, heap="2g", jit="1"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=" + jit,
           "-DTLA-Library=" + os.path.join(SPEC, lib),
           "-Djava.io.tmpdir=" + meta,
           "-cp", ":".join(([TARGET + "/java"] if lib == "big" else []) + [TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env)
    try:
        r = sh(cmd, timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise ToolFailure("TLC exceeded %d s on %s %s" % (timeout, module, env.get("TRACE", "")))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r


KNOWN = re.compile(r'<<"KNOWN", "(C\d\d)", (\d+), "([\w-]+)">>')
BAD = re.compile(r'<<\s*"BAD",\s*"(C\d\d)",\s*(\d+),\s*(.*?)>>\s*$', re.M | re.S)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="vchk-%s-" % pid)
        self.violations = []          # dicts
        self.states = self.transitions = self.traces = self.lines = 0
        self.kinds, self.samples, self.notes = {}, [], []
        self.cov = {}
        self.lock = threading.Lock()
        # findings on record: "known: property=<id> <key> <what fails>"
        self.listed = {}
        for t in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r"known: property=(C\d\d) (\S+) (.*)", t)
            if m and m.group(1) == pid:
                self.listed[m.group(2)] = m.group(3)
        self.known = {}

    # ---- a recorded history against the specification
    def judge(self, trace, module, cfg, label, how):
        env = {"TRACE": trace, "P_" + self.pid: "1"}
        r = tlc(module, cfg, "big", self.scratch, env, 600)
        out = r.stdout
        n = sum(1 for _ in open(trace))
        m = re.search(r'"CONSUMED", (\d+), (\d+)', out)
        bad = [b for b in BAD.findall(out) if b[0] == self.pid]
        for (p, at, key) in KNOWN.findall(out):
            if p != self.pid:
                continue
            if key in self.listed:
                with self.lock:
                    self.known[key] = self.known.get(key, 0) + 1
            else:
                bad.append((p, at, "finding not listed: " + key))
        broke = None
        if not m or int(m.group(1)) != n:
            if re.search(r"StackOverflow|OutOfMemory|Parsing or semantic|Could not|java\.lang\.\w*Error", out):
                raise ToolFailure("TLC failed on %s:\n%s" % (label, out[-2500:]))
            # the observed data lies outside what the specification can represent (e.g. an order of nobody)
            broke = "history leaves the specification's state space: " + " ".join(out[out.find("Error:"):].split())[:600]
        g = re.search(r"(\d+) states generated", out)
        with self.lock:
            self.traces += 1
            self.lines += n
            self.states += n if not g else int(g.group(1))
            if bad or broke:
                line = int(bad[0][1]) if bad else (int(m.group(1)) if m else 0)
                keep = []
                with open(trace) as f:
                    for i, t in enumerate(f, 1):
                        if i == 1 or line - 3 <= i <= line:
                            keep.append({"line": i, "rec": t.strip()[:4000]})
                self.violations.append({"where": label, "how": how, "line": line,
                                        "why": [" ".join(b[2].split()) for b in bad[:5]] if bad else [broke],
                                        "context": keep})
        if os.path.exists(trace):
            os.remove(trace)

    def record(self, cmd, trace, label):
        """run the code under test; its crash or hang is an observation, not a tool failure"""
        try:
            r = sh(cmd, 240 if "crankharness" in cmd[0] else 120)
        except subprocess.TimeoutExpired:
            r = None
        if r is None or r.returncode != 0:
            mark = trace + ".mark"
            at = open(mark).read() if os.path.exists(mark) else "setup"
            what = "hang" if r is None else ("crash (signal %d)" % -r.returncode if r.returncode < 0 else "unusable state: " + r.stdout[-500:])
            with self.lock:
                self.violations.append({"where": label, "how": " ".join(cmd), "line": 0, "why": [what], "context": [{"line": 0, "rec": at[:4000]}]})
            return None
        try:
            return json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            raise ToolFailure("no statistics from %s: %s" % (label, r.stdout[-500:]))

    def history(self, exe, mode, profile, seed, n):
        label = "%s %s seed %d" % (mode, profile, seed)
        trace = os.path.join(self.scratch, "%s-%s-%d.ndjson" % (mode, profile, seed))
        cmd = [exe, mode, profile, str(seed), str(n), trace]
        st = self.record(cmd, trace, label)
        if st is None:
            return
        self.count(st)
        with self.lock:
            if len(self.samples) < 3:
                with open(trace) as f:
                    ls = [next(f, "") for _ in range(40)]
                self.samples.append({"history": label, "record": ls[min(len(ls) - 1, 20)].strip()[:1500]})
        mod = plans.MODULE[mode]
        self.judge(trace, mod + ".tla", mod + ".cfg", label, " ".join(cmd[:-1]))

    # ---- the bounded model, explored exhaustively; returns its histories
    def model(self, name):
        cfg = os.path.join(self.scratch, name + ".cfg")
        open(cfg, "w").write(models.cfg(name, self.pid, self.tier, True))
        quick = self.tier == "quick"
        r = tlc("MC.tla", cfg, "int", self.scratch, {}, 600 if quick else 5000, workers=1, heap="4g" if quick else "10g", jit="4")
        out = r.stdout
        g = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if not g or "Error:" in out or '"BAD"' in out:
            # depends on the specification only, never on the code under test
            raise ToolFailure("model %s: %s" % (name, "\n".join(l for l in out.splitlines() if "SCRIPT" not in l)[-2500:]))
        sc = sorted(set(scripts.parse(out)))
        with self.lock:
            self.states += int(g.group(2))
            self.transitions += int(g.group(1))
            self.cov.setdefault("models", {})[name] = {"transitions": int(g.group(1)), "distinct_states": int(g.group(2)),
                                                       "histories": len(sc), "exhaustive_to_depth": models.depth(name, self.tier)}
        return name, sc

    def replay(self, exe, model, start, part, sc):
        label = "replay of model %s from %s part %d" % (model, start, part)
        base = os.path.join(self.scratch, "rp-%s-%s-%d" % (model, start, part))
        open(base + ".txt", "w").write("\n".join(sc) + "\n")
        cmd = [exe, "replay", start, str(plans.PERM.get(model, 0)), base + ".txt", base + ".ndjson"]
        st = self.record(cmd, base + ".ndjson", label)
        if st is None:
            self.violations[-1]["scripts"] = sc
            return
        self.count(st)
        n0 = len(self.violations)
        self.judge(base + ".ndjson", "Trace.tla", "Trace.cfg", label, " ".join(cmd[:-1]))
        with self.lock:
            self.cov["replayed_model_histories"] = self.cov.get("replayed_model_histories", 0) + len(sc)
            if len(self.violations) > n0:
                self.violations[-1]["scripts"] = sc

    # ---- a small closed model (wire format, market creation, pools): explore it, feed what it prints to the real code, judge that
    def side_model(self, mc, cfg, lib, pattern, jit="4"):
        r = tlc(mc + ".tla", cfg, lib, self.scratch, {}, 800 if self.tier == "quick" else 4000, heap="4g" if self.tier == "quick" else "10g", jit=jit)
        out = r.stdout
        g = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if not g or "Error:" in out:
            raise ToolFailure(mc + ": " + "\n".join(l for l in out.splitlines() if not re.match(pattern, l))[-2500:])
        seqs = sorted(set(re.findall(pattern, out, re.M)))
        with self.lock:
            self.states += int(g.group(2))
            self.transitions += int(g.group(1))
            self.cov.setdefault("models", {})[mc + " " + cfg] = {"transitions": int(g.group(1)), "distinct_states": int(g.group(2)), "replayed": len(seqs)}
        return seqs

    def side_replay(self, exe, mc, mode, judge, what, i, seqs):
        base = os.path.join(self.scratch, "%s-%d" % (mc, i))
        open(base + ".txt", "w").write("\n".join(seqs) + "\n")
        cmd = [exe, mode, base + ".txt", base + ".ndjson"]
        st = self.record(cmd, base + ".ndjson", what)
        if st is None:
            self.violations[-1]["scripts"] = seqs[:50]
            return
        self.count(st)
        n0 = len(self.violations)
        self.judge(base + ".ndjson", judge + ".tla", judge + ".cfg", what, " ".join(cmd[:-1]))
        with self.lock:
            if len(self.violations) > n0:
                self.violations[-1]["scripts"] = seqs[:50]

    def count(self, st):
        with self.lock:
            for k, v in st.get("kinds", {}).items():
                c = self.kinds.setdefault(k, [0, 0])
                c[0] += v[0]
                c[1] += v[1]

    def run(self):
        plan = plans.plan(self.pid, self.tier, self.seed)
        java_num()
        mex = cf.ThreadPoolExecutor(max_workers=4 if self.tier == "quick" else 3)
        ex = cf.ThreadPoolExecutor(max_workers=8)
        futs = []
        mods = [mex.submit(self.model, n) for n in plan["models"]]
        side = {mex.submit(self.side_model, *a[1:5]): a for a in plan["side"]}
        bins = {}
        for crate in plan["crates"]:
            bins[crate] = build(crate)
        log("built", ", ".join(bins) or "-")
        bins["harness"] = bins.get("harness", "")
        for (crate, mode, profile, seed, n) in plan["histories"]:
            exe = os.path.join(bins[crate], plans.EXE[crate])
            futs.append(ex.submit(self.history, exe, mode, profile, seed, n))
        for f in cf.as_completed(side):
            crate, mc, cfg, lib, pattern, mode, judge, what, chunk = side[f]
            seqs = f.result()
            log("model %s %s: %d histories" % (mc, cfg, len(seqs)))
            exe = os.path.join(bins[crate], plans.EXE[crate])
            for i in range(0, len(seqs), chunk):
                futs.append(ex.submit(self.side_replay, exe, cfg, mode, judge, what, i, seqs[i:i + chunk]))
        rnd = random.Random(self.seed)
        for f in cf.as_completed(mods):
            name, sc = f.result()
            log("model %s: %d histories" % (name, len(sc)))
            exe = os.path.join(bins["harness"], "dexharness")
            for start, k in plans.STARTS.items():
                if self.tier != "quick":
                    k *= 5
                pick = sc if k == 0 or k >= len(sc) else rnd.sample(sc, k)
                step = 400 if start in ("fresh", "rested", "ring", "wrap") else 40
                for i in range(0, len(pick), step):
                    futs.append(ex.submit(self.replay, exe, name, start, i, pick[i:i + step]))
        for f in cf.as_completed(futs):
            f.result()
        log("validated %d histories, %d recorded steps" % (self.traces, self.lines))

    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": plans.LEVEL,
            "coverage": {
                "states": self.states, "transitions": self.transitions + self.lines,
                "traces_validated_against_impl": self.traces,
                "recorded_steps": self.lines, "instructions_ok_err": self.kinds,
                "known_findings_met": self.known, "samples": self.samples or [{"none": "no history completed"}], **self.cov,
            },
            "assumptions": plans.ASSUMPTIONS,
            "wall_s": round(time.time() - T0, 1), "violations": len(self.violations),
        }
        d = os.path.join(V, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1)
        for key, n in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s %s" % (self.pid, key, self.listed[key]))
        if self.violations:
            p = os.path.join(d, self.pid + ".replay.json")
            json.dump(self.violations[:20], open(p, "w"), indent=1)
            for v in self.violations[:5]:
                print("  %s line %s: %s" % (v["where"], v["line"], "; ".join(v["why"])[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print("OK property=%s" % self.pid)
        return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(pid, tier, seed)
    try:
        c.run()
        rc = c.finish()
    except ToolFailure as e:
        if c.violations:
            rc = c.finish()
        else:
            print("TOOL FAILURE:", e)
            rc = 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
