"""Orchestration only: builds the code under test, runs the conformance driver, runs TLC, writes the
evidence.  What is right and wrong is decided by the TLA+ modules in spec/, never here."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "known_findings.txt")


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


def cargo(args, target, cwd):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", *args], cwd=cwd, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("cargo failed:\n" + p.stdout[-3000:] + p.stderr[-6000:])


def build_harness():
    t = os.path.join(BUILD, "harness")
    cargo(["build", "--release", "--offline", "-q"], t, os.path.join(VERIF, "harness"))
    return os.path.join(t, "release", "vh")


def build_bins():
    """fpcalc and compare, built from /repo's working tree with integer overflow checks and assertions."""
    t = os.path.join(BUILD, "bins")
    conf = ["--config", "profile.release.opt-level=1", "--config", "profile.release.debug-assertions=true",
            "--config", "profile.release.overflow-checks=true", "--config", "profile.release.debug=0"]
    # dependencies stay optimised, the workspace members get the checks
    cargo(["build", "--release", "--offline", "-q", "-p", "fpcalc", "-p", "compare", *conf], t, REPO)
    return os.path.join(t, "release", "fpcalc"), os.path.join(t, "release", "compare")


class TlcResult:
    def __init__(self, ok, kind, out, states, distinct, trace, label):
        self.ok, self.kind, self.out = ok, kind, out
        self.states, self.distinct, self.trace, self.label = states, distinct, trace, label

    def final(self, var):
        """Value of an integer variable in the last state of the error trace."""
        m = re.findall(r"^(?:/\\ )?%s = (-?\d+)" % re.escape(var), self.trace, re.M)
        return int(m[-1]) if m else None


class Ctx:
    def __init__(self, prop, level, argv=None):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", prop)
        os.makedirs(self.dir, exist_ok=True)
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            if os.path.isfile(p) and not f.startswith("replay"):
                os.unlink(p)
        self.replays = os.path.join(VERIF, "evidence", "replays")
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.assumptions, self.known = [], {}, [], []
        self.n_harness = 0
        self.n_tlc = 0
        self._vh = None
        self._bins = None
        self.known_entries = load_known(prop)

    # -- building -------------------------------------------------------------------------------------
    @property
    def vh(self):
        if self._vh is None:
            self._vh = build_harness()
        return self._vh

    @property
    def bins(self):
        if self._bins is None:
            self._bins = build_bins()
        return self._bins

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -- conformance driver ---------------------------------------------------------------------------
    def harness(self, script, timeout=240):
        """Run one script; list of records (dicts). A crash or a hang of the code under test is data."""
        self.n_harness += 1
        text = "\n".join(script) + "\n"
        path = os.path.join(self.dir, "script-%d.txt" % self.n_harness)
        with open(path, "w") as f:
            f.write(text)
        try:
            p = subprocess.run([self.vh], input=text, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            done = (e.stdout or b"").decode(errors="replace").count("\n")
            self.violate("the code under test does not return within %d s (after %d records)" % (timeout, done),
                         {"script": script, "records": done})
        if p.returncode < 0 or p.returncode in (134, 137, 139):
            self.violate("the code under test crashed (status %d)" % p.returncode,
                         {"script": script, "stderr": p.stderr[-2000:]})
        if p.returncode != 0:
            raise ToolError("driver failed (%d): %s" % (p.returncode, p.stderr[-3000:]))
        recs = [json.loads(x) for x in p.stdout.splitlines()]
        if recs and recs[-1].get("ev") == "cfgpanic":
            self.violate("building a configuration panics: " + recs[-1]["cmd"], {"record": recs[-1]})
        return recs

    def harness_many(self, scripts, timeout=240):
        self.vh
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda s: self.harness_q(s, timeout), scripts))

    def harness_q(self, script, timeout):
        return self.harness(script, timeout)

    # -- TLC ------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, args=(), timeout=800, heap="3g", reject_undefined=False, count=True):
        """cfg: text of the configuration file. Returns TlcResult; raises ToolError on anything but success
        or a violated invariant / property / deadlock."""
        self.n_tlc += 1
        label = "%s-%d" % (module, self.n_tlc)
        d = os.path.join(self.dir, label)
        os.makedirs(d, exist_ok=True)
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xmx" + heap, "-Xss256m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-config", cfgp, *args, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out after %d s on %s" % (timeout, label))
        out = p.stdout + p.stderr
        with open(os.path.join(d, "out.txt"), "w") as f:
            f.write(out)
        subprocess.run(["rm", "-rf", os.path.join(d, "states")])
        m = re.findall(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found", out)
        st, ds = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        if not m:
            m2 = re.findall(r"(\d[\d,]*) states checked", out)
            st = int(m2[-1].replace(",", "")) if m2 else 0
            ds = st
        if count:
            self.transitions += st
            self.states += ds
        kind = None
        if "Invariant" in out and re.search(r"Invariant (\S+) is violated", out):
            kind = "invariant " + re.search(r"Invariant (\S+) is violated", out).group(1)
        elif re.search(r"Action property (.*?) is violated", out):
            kind = "action property " + re.search(r"Action property (.*?) is violated", out).group(1)
        elif "Deadlock reached" in out:
            kind = "deadlock"
        elif "Temporal properties were violated" in out:
            kind = "temporal"
        elif re.search(r"Assumption .* is false", out) or "POSTCONDITION" in out and "violated" in out:
            kind = "assumption"
        elif reject_undefined and "OutOfMemory" not in out and "StackOverflow" not in out \
                and "The behavior up to this point is" in out \
                and re.search(r"Overflow when computing|Attempted to |is not in the domain|out of (the )?range|"
                              r"The first argument of|The second argument of|tried to (access|apply)|CHOOSE", out):
            # a record whose fields the specification cannot even evaluate (an index outside a sequence, a
            # negative count): on records that it allows every expression is defined
            kind = "undefined"
        good = p.returncode == 0 and ("No error has been found" in out or "Finished in" in out
                                      or "states checked" in out)
        if not good and kind is None:
            raise ToolError("TLC error on %s (status %d):\n%s" % (label, p.returncode, out[-5000:]))
        i = out.find("Error:")
        return TlcResult(good and kind is None, kind, out, st, ds, out[i:] if i >= 0 else "", label)

    def model(self, module, cfg, what, workers=8, **kw):
        """Exhaustive (or simulated) check of the specification itself; a failure here is not about the code."""
        r = self.tlc(module, cfg, workers=workers, **kw)
        if not r.ok:
            raise ToolError("the specification %s violates its own %s:\n%s" % (module, r.kind, r.trace[:4000]))
        self.parts["model: " + what] = {"states_generated": r.states, "distinct_states": r.distinct}
        return r

    def prove(self, module, cinit, faults, what):
        """Apalache: Inv of the module is inductive and implies Laws, for all values of the constants; with
        each of the faults it is not."""
        def one(a):
            name, args = a
            d = os.path.join(self.dir, "%s-%s" % (module, name))
            p = subprocess.run(["apalache-mc", "check", "--out-dir=" + d, "--run-dir=" + os.path.join(d, "run"), *args,
                                os.path.join(SPEC, module + ".tla")],
                               cwd=self.dir, capture_output=True, text=True, timeout=600)
            out = p.stdout + p.stderr
            if "EXITCODE: OK" in out:
                return "holds"
            if "EXITCODE: ERROR (12)" in out:
                return "violated"
            raise ToolError("Apalache on %s (%s):\n%s" % (module, name, out[-3000:]))

        def step(c):
            return ["--cinit=" + c, "--init=Inv", "--inv=Inv", "--length=1"]
        jobs = [("init", ["--cinit=" + cinit, "--init=Init", "--inv=Inv", "--length=0"]), ("step", step(cinit)),
                ("laws", ["--cinit=" + cinit, "--init=Inv", "--inv=Laws", "--length=0"])] + [(f, step(f)) for f in faults]
        with cf.ThreadPoolExecutor(3) as ex:
            got = dict(zip([j[0] for j in jobs], ex.map(one, jobs)))
        for name, _ in jobs:
            if got[name] != ("violated" if name in faults else "holds"):
                raise ToolError("the specification %s: obligation %s %s" % (module, name, got[name]))
        self.parts["proof (Apalache): " + what] = {"obligations": 3, "design faults refuted": len(faults)}

    def trace(self, module, groups, cfg, what, env=None, jobs=8, describe=None, timeout=800, heap="2500m"):
        """Validate records against trace module `module`. groups: list of lists of records; records of a
        group stay together, in order. Each of up to `jobs` TLC processes gets whole groups."""
        self.trace_by(module, [(cfg, groups, jobs)], what, env, describe, timeout, heap)

    def trace_by(self, module, sets, what, env=None, describe=None, timeout=800, heap="2500m"):
        """The same for several sets (configuration text, groups, number of processes), eight at a time."""
        tasks, nrec, ngroups = [], 0, 0
        for cfg, groups, jobs in sets:
            groups = [g for g in groups if g]
            if not groups:
                continue
            nrec += sum(len(g) for g in groups)
            ngroups += len(groups)
            jobs = min(jobs, len(groups))
            order = sorted(range(len(groups)), key=lambda k: -sum(cost(r) for r in groups[k]))
            load, parts = [0] * jobs, [[] for _ in range(jobs)]
            for k in order:
                j = load.index(min(load))
                load[j] += sum(cost(r) for r in groups[k]) + 1
                parts[j].append(k)
            for j, ks in enumerate(parts):
                ks.sort()
                recs = [r for k in ks for r in groups[k]]
                path = os.path.join(self.dir, "trace-%s-%d-%d.ndjson" % (module, self.n_tlc, len(tasks)))
                with open(path, "w") as f:
                    for r in recs:
                        f.write(json.dumps(r, separators=(",", ":")) + "\n")
                tasks.append((load[j], cfg, path, recs))
        if not tasks:
            return
        tasks.sort(key=lambda t: -t[0])
        base = self.n_tlc

        def one(j):
            _, cfg, path, recs = tasks[j]
            return self.tlc_labelled(base + 1 + j, module, cfg, dict(env or {}, TRACE=path), timeout, heap)

        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(tasks))))
        self.n_tlc = base + len(tasks)
        self.traces += ngroups
        p = self.parts.setdefault("trace: " + what, {"records": 0, "groups": 0, "tlc_states": 0})
        p["records"] += nrec
        p["groups"] += ngroups
        p["tlc_states"] += sum(r.states for r in res)
        for (_, cfg, path, recs), r in zip(tasks, res):
            if not r.ok:
                l = r.final("l")
                at_next = r.kind == "deadlock" or r.kind == "undefined" and "Evaluating invariant" not in r.out
                idx = (l if l is not None else 1) - (0 if at_next else 1)
                idx = max(0, min(idx, len(recs) - 1))
                rec = recs[idx]
                start = idx
                while start > 0 and recs[start].get("ev") not in ("reset",) and idx - start < 400 \
                        and any(x.get("ev") == "reset" for x in recs[:start]):
                    start -= 1
                info = {"module": module, "what": what, "kind": r.kind, "record": rec,
                        "context": recs[start:idx + 1] if idx - start < 400 else recs[idx:idx + 1],
                        "tlc": r.trace[-3000:]}
                if describe:
                    info["note"] = describe(rec)
                self.violate("%s: record rejected (%s): %s" % (what, r.kind, short(rec)), info)

    def would_accept(self, module, groups, cfg, env):
        """Does the specification accept all of it (no violation is raised)?"""
        path = os.path.join(self.dir, "probe-%s-%d.ndjson" % (module, self.n_tlc))
        with open(path, "w") as f:
            for g in groups:
                for r in g:
                    f.write(json.dumps(r, separators=(",", ":")) + "\n")
        return self.tlc(module, cfg, dict(env, TRACE=path), count=False).ok

    def tlc_labelled(self, k, module, cfg, env, timeout, heap):
        sub = Ctx.__new__(Ctx)
        sub.__dict__.update(self.__dict__)
        sub.n_tlc = k - 1
        r = sub.tlc(module, cfg, env, 1, (), timeout, heap, reject_undefined=True, count=False)
        self.transitions += r.states
        self.states += r.distinct
        return r

    # -- results --------------------------------------------------------------------------------------
    def sample(self, x):
        if len(self.samples) < 8:
            self.samples.append(x)

    def violate(self, what, info):
        os.makedirs(self.replays, exist_ok=True)
        text = json.dumps({"property": self.prop, "what": what, "tier": self.tier, "seed": self.seed, **info},
                          indent=1)
        h = hashlib.sha256(text.encode()).hexdigest()[:10]
        path = os.path.join(self.replays, "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            f.write(text)
        raise Violation(what, path)

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples or ["(none)"], "parts": self.parts},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": violations}
        if self.known:
            ev["coverage"]["known_findings"] = self.known
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def cost(r):
    return r.get("_cost", 1) if isinstance(r, dict) else 1


def short(rec):
    s = json.dumps(rec)
    return s if len(s) < 300 else s[:300] + "..."


def load_known(prop):
    """Lines `finding: property=<id> key=<key> <text>`; `fixed:` lines suppress nothing."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print("usage: check.py PROPERTY", file=sys.stderr)
        return 2
    prop = sys.argv[1]
    fn, level = table[prop]
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
    except Violation as v:
        ctx.evidence(1)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except ToolError as e:
        print("TOOL ERROR in %s: %s" % (prop, e), file=sys.stderr)
        return 2
    ctx.evidence(0)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("ok property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
        prop, ctx.tier, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0))
    return 0
