"""C01-C06, C11, C23: histories of Fingerprinter calls against spec/Session.tla (and Pipeline.tla)."""
import json
import os
import random
import re
import subprocess

CONST = "CONSTANTS Buf = 32768\nNative = 11025\nMinRate = 1000\nLatency = 8\nSlack = 1\n"
TRACE = "INIT TInit\nNEXT TNext\n" + CONST     # deadlock checking stays on: no successor = rejected

PIPE = """SPECIFICATION Spec
CONSTANTS Buf = %(buf)d
Native = 10
MinRate = 5
Latency = 1
Slack = 0
Cfg <- CfgV
Shape = %(shape)d
SmoothCap = %(scap)d
ImageCap = %(icap)d
Rates = {%(rates)s}
Chans = {0, 1, 2}
Lens = {%(lens)s}
MaxFrames = %(maxn)d
MaxStarts = %(starts)d
Faults = {%(faults)s}
INVARIANTS TypeOK Bounded CountLaw CompleteAfterFinish ItemsAreWindows EmptyAfterStart
PROPERTIES AppendOnly RefusedChangesNothing IdleCalls
CHECK_DEADLOCK FALSE
"""


def pipe_cfg(shape=1, buf=3, scap=4, icap=5, rates="10, 20, 5", lens="0, 1, 2, 4, 7", maxn=16, starts=2, faults=""):
    return PIPE % dict(shape=shape, buf=buf, scap=scap, icap=icap, rates=rates, lens=lens, maxn=maxn,
                       starts=starts, faults=faults) + ("" if faults else "INVARIANT Counted\n")


def pipeline(ctx, shapes, fault=None, **kw):
    """The mechanism model satisfies the laws; with one design fault planted it does not (not vacuous)."""
    for sh in shapes:
        ctx.model("MCPipeline", pipe_cfg(shape=sh, **kw), "Pipeline satisfies Session, shape %d %s" % (sh, kw or ""))
    if fault:
        r = ctx.tlc("MCPipeline", pipe_cfg(shape=1, faults='"%s"' % fault, starts=3), workers=4, count=False)
        if r.ok:
            from core import ToolError
            raise ToolError("Pipeline does not notice the planted design fault " + fault)
        ctx.parts["model: design fault '%s' planted" % fault] = {"rejected by": r.kind}


def counts(ctx):
    ctx.prove("CountsProof", "AnyShape", ["Planted1", "Planted2", "Planted3"],
              "counts of frames, rows and items, every configuration, streams of any length in any calls")


def coefs(nc):
    base = [0.25, 0.75, 1.0, 0.75, 0.25, 0.5, 0.125, 1.0]
    return ",".join(map(str, (base * 9)[:nc]))


def cfg_line(k, c):
    s = "cfg %d %d" % (k, c["preset"])
    if c["fs"]:
        s += " fs=%d" % c["fs"]
    if c["ov"] >= 0:
        s += " ov=%d" % c["ov"]
    if c["nc"]:
        s += " coef=" + coefs(c["nc"])
    return s


def generate(ctx, profile, num, ops, maxn):
    """num behaviours of GenSession, walked by TLC -simulate from the run's seed."""
    seed = ctx.seed * 1000003 % 100000007 + sum(map(ord, profile))
    r = ctx.tlc("GenSession", "SPECIFICATION GSpec\nINVARIANT PrintDone\nCHECK_DEADLOCK FALSE\n" + CONST,
                env={"PROFILE": profile, "OPS": ops, "MAXN": maxn},
                args=["-simulate", "num=%d" % num, "-depth", str(ops * 2 + 12), "-seed", str(seed)], count=False)
    m = re.search(r'<<"CFGS", "(.*)">>', r.out)
    cfgs = json.loads(json.loads('"' + m.group(1) + '"'))
    hs = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'^<<"BEHAVIOUR", "(.*)">>$', r.out, re.M)]
    return cfgs, hs


def sources(ctx, profile, rng):
    """Script lines defining sources 1..6 of 400000 frames."""
    n = 400000
    kinds = {
        "mix": ["silence %d" % n, "square %d %d %d" % (n, 3, 17), "tones %d %d 40" % (n, rng.randrange(10**6)),
                "extreme %d %d" % (n, rng.randrange(10**6)), "silence %d" % n,
                "noise %d %d 9000" % (n, rng.randrange(10**6))],
    }.get(profile, ["tones %d %d 12000" % (n, rng.randrange(10**6)), "noise %d %d 20000" % (n, rng.randrange(10**6)),
                    "edges %d %d 30000" % (n, rng.randrange(10**6)), "tones %d %d 300" % (n, rng.randrange(10**6)),
                    "clicks %d %d 32000 700" % (n, rng.randrange(10**6)),
                    "tones %d %d 30000" % (n, rng.randrange(10**6))])
    return ["src %d %s" % (k + 1, s) for k, s in enumerate(kinds)]


def script_of(hist, cfgs, rng, tag):
    """One behaviour as driver commands. Slots read distinct sources chosen at random."""
    src = rng.sample(range(1, 7), 3)
    lines = ["reset", "echo " + json.dumps({"ev": "reset", "h": tag, "cfgs": cfgs}, separators=(",", ":"))]
    for o in hist:
        op = o["op"]
        if op == "new":
            lines.append("new %d %d" % (o["p"], o["cfg"]))
        elif op == "start":
            lines.append("start %d %d %d" % (o["p"], o["rate"], o["ch"]))
        elif op == "consume":
            lines.append("consume %d %d %d %d" % (o["p"], src[o["p"] - 1], o["off"], o["len"]))
        elif op == "dribble":
            a = o["off"]
            while a < o["off"] + o["len"]:
                k = min(o["step"], o["off"] + o["len"] - a)
                lines.append("consume %d %d %d %d" % (o["p"], src[o["p"] - 1], a, k))
                a += k
        elif op == "pour":
            lines.append("pour %d %d %d %d %s" % (o["p"], src[o["p"] - 1], o["off"], o["len"],
                                                  ",".join(map(str, o["steps"]))))
        elif op == "bad":
            lines.append("bad %d %d %d %d" % (o["p"], src[o["p"] - 1], o["off"], o["extra"]))
        elif op in ("finish", "read"):
            lines.append("%s %d" % (op, o["p"]))
    return lines


def weight(hist):
    t = {}
    for o in hist:
        t[o["op"]] = t.get(o["op"], 0) + 1
    return t


def replay(ctx, profile, num, ops, maxn, jobs=8):
    """Generate, run on the real code, validate. Returns the recorded groups."""
    cfgs, hs = generate(ctx, profile, num, ops, maxn)
    rng = random.Random("%s-%d" % (profile, ctx.seed))
    head = sources(ctx, profile, rng) + [cfg_line(k + 1, c) for k, c in enumerate(cfgs)]
    parts = [[] for _ in range(min(jobs, len(hs)))]
    for k, h in enumerate(hs):
        parts[k % len(parts)].append(script_of(h, cfgs, rng, "%s%d" % (profile, k)))
    recs = ctx.harness_many([head + [x for s in p for x in s] for p in parts])
    groups = []
    for rs in recs:
        for r in rs:
            if r["ev"] == "reset":
                groups.append([])
            groups[-1].append(r)
    ops_seen = {}
    for h in hs:
        for k, v in weight(h).items():
            ops_seen[k] = ops_seen.get(k, 0) + v
    fin = [r for g in groups for r in g if r["ev"] == "finish"]
    ctx.parts["behaviours '%s'" % profile] = {
        "histories": len(hs), "calls": ops_seen, "records": sum(map(len, groups)),
        "finishes with items": sum(1 for r in fin if r["n"] > 0),
        "distinct fingerprints": len({(r["id"], r["n"]) for r in fin}),
        "sessions at other rates": sum(1 for g in groups for r in g if r["ev"] == "start" and r["res"] == "ok"
                                       and r["rate"] != 11025)}
    ctx.trace("TraceSession", groups, TRACE, "histories '%s'" % profile, env={"PROP": ctx.prop})
    if hs:
        ctx.sample(hs[0])
    return groups


def c01(ctx):
    pipeline(ctx, ctx.n([1], [1, 2, 3, 4, 5]), fault="ring", starts=ctx.n(2, 3))
    replay(ctx, "restart", ctx.n(64, 600), 24, 150000)
    replay(ctx, "many", ctx.n(8, 120), 24, 90000)


def c02(ctx):
    pipeline(ctx, ctx.n([2], [1, 2, 3, 4, 5]), starts=1, lens="0, 1, 2, 3, 4, 5, 7, 9", maxn=ctx.n(20, 26))
    replay(ctx, "split", ctx.n(56, 500), 10, 150000)
    replay(ctx, "native", ctx.n(32, 300), 10, 200000)
    edge_finishes(ctx)


def c03(ctx):
    pipeline(ctx, [1], starts=2)
    replay(ctx, "mix", ctx.n(40, 400), 8, 280000)
    tiny_calls(ctx)
    wide(ctx)


def tiny_calls(ctx):
    """Whole recordings given in calls of a few frames: nothing but the ends of calls."""
    n = 320000
    head = ["src 1 silence %d" % n, "src 2 noise %d %d 8" % (n, ctx.seed), "src 3 noise %d %d 2" % (n, ctx.seed + 1)]
    cfgs = [{"preset": 2, "fs": 32768, "ov": 24576, "nc": 1}, {"preset": 1, "fs": 0, "ov": -1, "nc": 0}]
    head += [cfg_line(k + 1, c) for k, c in enumerate(cfgs)]
    rng = random.Random(ctx.seed + 3)
    scripts = [list(head) for _ in range(8)]
    k = 0
    for ch in (2, 3, 4, 5, 6, 7, 8, 16):
        for c, src in ((1, 1), (2, 2), (2, 3)):
            pats = ["7", "1,2,3,4,5,6,7", "1", "3", "15,1", "5,8,31", "2"]
            for pat in (pats if ch == 2 or not ctx.quick else rng.sample(pats, 2)):
                k += 1
                rate = 11025 if k % 4 else 22050
                scripts[k % 8] += ["reset", "echo " + json.dumps({"ev": "reset", "h": "tiny%d" % k, "cfgs": cfgs}),
                                   "new 1 %d" % c, "start 1 %d %d" % (rate, ch), "pour 1 %d 0 %d %s" % (src, n, pat),
                                   "finish 1"]
    groups = []
    for rs in ctx.harness_many(scripts):
        for r in rs:
            if r["ev"] == "reset":
                groups.append([])
            groups[-1].append(r)
    ctx.parts["calls of a few frames"] = {"sessions": k}
    ctx.trace("TraceSession", groups, TRACE, "calls of a few frames", env={"PROP": ctx.prop})


def wide(ctx):
    """Many channels, up to beyond 2^16 (where 32-bit sums would overflow), at the extremes of the range."""
    script = ["src 1 extreme 60000 %d" % ctx.seed, "src 2 silence 60000", "src 3 tones 60000 4 9000",
              "cfg 1 2 fs=64 ov=32 coef=1"]
    groups = []
    k = 0
    for ch in [6, 7, 255, 256, 257, 1000, 65535, 65536, 65537, 70001]:
        for src in (1, 2, 3):
            n = 12000 if ch < 300 else (1500 if ch <= 1000 else 620)
            if ch > 1000 and ctx.quick and src == 3:
                continue
            k += 1
            script += ["reset", "echo " + json.dumps({"ev": "reset", "h": "wide%d" % k, "cfgs": [
                {"preset": 2, "fs": 64, "ov": 32, "nc": 1}]}),
                "new 1 1", "start 1 11025 %d" % ch, "consume 1 %d 0 %d" % (src, n // 2),
                "consume 1 %d %d %d" % (src, n // 2, n - n // 2), "finish 1"]
    for r in ctx.harness(script, timeout=400):
        if r["ev"] == "reset":
            groups.append([])
        groups[-1].append(r)
    ctx.parts["channel counts"] = {"max": 70001, "sessions": k}
    ctx.trace("TraceSession", groups, TRACE, "many channels", env={"PROP": ctx.prop})


def c04(ctx):
    pipeline(ctx, ctx.n([3], [1, 2, 3, 4, 5]), fault="staging", starts=ctx.n(2, 3))
    counts(ctx)
    replay(ctx, "append", ctx.n(56, 500), 20, 250000)
    replay(ctx, "native", ctx.n(24, 200), 14, 250000)
    edge_finishes(ctx)


def cfginfo(ctx):
    rng = random.Random(ctx.seed)
    confs = [{"preset": p, "fs": 0, "ov": -1, "nc": 0, "id": -1} for p in range(1, 6)]
    for _ in range(ctx.n(40, 200)):
        fs = rng.choice([2, 16, 63, 64, 256, 1000, 2048, 4096, 8191, 20000])
        confs.append({"preset": rng.randrange(1, 6), "fs": fs, "ov": rng.randrange(0, fs), "nc": rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 20]),
                      "id": rng.randrange(256)})
    script = ["echo " + json.dumps({"ev": "reset", "h": "cfginfo", "cfgs": []})]
    for k, c in enumerate(confs):
        script.append(cfg_line(k + 1, c) + (" id=%d" % c["id"] if c["id"] >= 0 else ""))
        script.append("cfginfo %d" % (k + 1))
    script += ["cfg 99 default", "cfginfo 99"]
    confs.append({"preset": 2, "fs": 0, "ov": -1, "nc": 0, "id": -1})
    recs = ctx.harness(script)
    it = iter(confs)
    for r in recs:
        if r["ev"] == "cfginfo":
            r["conf"] = next(it)
    ctx.trace("TraceSession", [recs], TRACE, "configuration facts", env={"PROP": ctx.prop})


def edge_finishes(ctx):
    """Calls of every small size and of sizes around the internal buffer, each followed by finishes, with
    empty calls before, between and after, where every sample makes an item (hop 1)."""
    rng = random.Random("edges-%s-%d" % (ctx.prop, ctx.seed))
    cfgs = [{"preset": 1, "fs": 64, "ov": 63, "nc": 1}, {"preset": 2, "fs": 16, "ov": 15, "nc": 2}]
    head = ["src 1 noise 400000 %d 9000" % rng.randrange(10**6), "src 2 tones 400000 %d 12000" % rng.randrange(10**6)]
    head += [cfg_line(k + 1, c) for k, c in enumerate(cfgs)]
    small = list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1023, 1024, 1025]
    big = [32766, 32767, 32768, 32769, 32770, 65535, 65537]
    scripts = [list(head) for _ in range(8)]
    k = 0
    for rep in range(ctx.n(1, 8)):
        for rate in (11025, 11025, 1001, 5512, 8000, 11024, 22050, 44100, 96000, rng.randrange(1002, 50000)):
            for ch in (1, 2):
                k += 1
                out = scripts[k % 8]
                out += ["reset", "echo " + json.dumps({"ev": "reset", "h": "edgefin%d" % k, "cfgs": cfgs}),
                        "new 1 %d" % (1 + k % 2), "start 1 %d %d" % (rate, ch)]
                src, at = 1 + k % 2, 0
                # enough for items first, or finishes from the first sample on
                sizes = rng.sample(small, len(small)) if k % 3 else [700 if rate >= 11025 else 200] + small
                if rate == 11025 and ch == 1 or not ctx.quick:
                    sizes = sizes[:20] + rng.sample(big, 2) + sizes[20:]
                for n in sizes:
                    for what in rng.sample(["e", "n", "f"] + ["ff", "", "e"][rng.randrange(3):][:1], 4):
                        if what == "n":
                            out.append("consume 1 %d %d %d" % (src, at, n))
                            at += n
                        elif what == "e":
                            out.append("consume 1 %d %d 0" % (src, at))
                        out += ["finish 1"] * what.count("f")
                    out.append("finish 1")
    groups = []
    for rs in ctx.harness_many(scripts):
        for r in rs:
            if r["ev"] == "reset":
                groups.append([])
            groups[-1].append(r)
    ctx.parts["finishes after calls of every small size"] = {"sessions": k}
    ctx.trace("TraceSession", groups, TRACE, "finishes after every size", env={"PROP": ctx.prop})


def c05(ctx):
    pipeline(ctx, ctx.n([4], [1, 2, 3, 4, 5]), starts=1, lens="0, 1, 2, 3, 5", maxn=ctx.n(20, 26))
    counts(ctx)
    cfginfo(ctx)
    exact_lengths(ctx)
    replay(ctx, "count", ctx.n(48, 500), 12, 120000)


def exact_lengths(ctx):
    """For every configuration shape: streams one sample short of, exactly at and just past an item."""
    rng = random.Random(ctx.seed + 5)
    confs = [(p, 0, -1, 0) for p in range(1, 6)]
    for _ in range(ctx.n(24, 150)):
        fs = rng.choice([16, 17, 31, 64, 100, 127, 256, 333, 512, 1000])
        confs.append((rng.randrange(1, 6), fs, rng.choice([0, 1, fs // 2, fs - 1, rng.randrange(fs)]), rng.randrange(1, 9)))
    cfgs = [{"preset": a, "fs": b, "ov": c, "nc": d} for a, b, c, d in confs]
    script = ["src 1 noise 400000 %d 12000" % ctx.seed] + [cfg_line(k + 1, c) for k, c in enumerate(cfgs)]
    groups, tags = [], 0
    for k, c in enumerate(cfgs):
        fs = c["fs"] or (2048 if c["preset"] == 5 else 4096)
        ov = c["ov"] if c["ov"] >= 0 else (1024 if c["preset"] == 5 else 4096 - 4096 // 3)
        nc = c["nc"] or 5
        hop = fs - ov
        delay = (nc - 1 + 15) * hop + ov
        # chosen so that the law is tested where it changes; the law itself is judged by TLC
        wants = [fs - 1, fs, delay, delay + hop - 1, delay + hop, delay + 2 * hop - 1, delay + 2 * hop,
                 delay + rng.randrange(1, 300) * hop - 1, delay + rng.randrange(1, 300) * hop]
        for n in wants[:ctx.n(9, 9)]:
            if n > 400000 or n // hop > 40000:
                continue
            tags += 1
            script += ["reset", "echo " + json.dumps({"ev": "reset", "h": "len%d" % tags, "cfgs": cfgs}),
                       "new 1 %d" % (k + 1), "start 1 11025 1", "consume 1 1 0 %d" % n, "finish 1"]
    for r in ctx.harness(script):
        if r["ev"] == "reset":
            groups.append([])
        groups[-1].append(r)
    ctx.trace("TraceSession", groups, TRACE, "exact lengths", env={"PROP": ctx.prop})


def c06(ctx):
    pipeline(ctx, [1], fault="failedstart", starts=ctx.n(2, 3))
    replay(ctx, "reject", ctx.n(64, 600), 24, 120000)
    start_table(ctx)


def start_table(ctx):
    """Outcome of start for rates and channel counts around every limit, before any start, during a
    session and after a finish."""
    script = ["src 1 tones 120000 3 9000", "cfg 1 2"]
    groups = []
    cfgs = [{"preset": 2, "fs": 0, "ov": -1, "nc": 0}]
    rates = [0, 1, 2, 500, 999, 1000, 1001, 1002, 11024, 11025, 11026, 44100, 65535, 65536, 100000, 192000,
             (1 << 31) - 1]
    for phase in ("before", "during", "after"):
        for ch in (0, 1, 2):
            script += ["reset", "echo " + json.dumps({"ev": "reset", "h": "table", "cfgs": cfgs}), "new 1 1"]
            for r in rates:
                if phase != "before":
                    script += ["start 1 11025 2", "consume 1 1 0 40000"]
                if phase == "after":
                    script.append("finish 1")
                script.append("start 1 %d %d" % (r, ch))
                script.append("read 1")
                if phase != "before":
                    script += ["consume 1 1 40000 2000", "finish 1"]
                else:
                    script += ["start 1 11025 1", "consume 1 1 0 31000", "finish 1"]
    for r in ctx.harness(script):
        if r["ev"] == "reset":
            groups.append([])
        groups[-1].append(r)
    ctx.trace("TraceSession", groups, TRACE, "start outcomes", env={"PROP": ctx.prop})


def c23(ctx):
    pipeline(ctx, [5], starts=2, maxn=ctx.n(14, 20))
    replay(ctx, "many", ctx.n(48, 500), 30, 100000)
    script = ["echo " + json.dumps({"ev": "reset", "h": "threads", "cfgs": []})]
    for k in range(1, 7):
        script.append("src %d %s %d %d %d" % (k, ["tones", "noise", "edges"][k % 3], 200000 + 7000 * k, ctx.seed + k, 15000))
    for k, c in enumerate(["2", "5", "1", "3"]):
        script.append("cfg %d %s" % (k + 1, c))
        for rate in (11025, 44100, 48000):
            script.append("threads t%d 8 %d %d 1,2,3,4,5,6" % (rate, k + 1, rate))
    recs = ctx.harness(script)
    procs = []
    one = ["src 1 tones 150000 %d 9000" % ctx.seed, "src 2 edges 150000 %d 30000" % ctx.seed]
    jobs = [(c, r) for c in (1, 2, 3, 4, 5) for r in (11025, 44100, 22050)]
    for c in range(1, 6):
        one.append("cfg %d %d" % (c, c))
    runs = []
    for rep in range(ctx.n(3, 10)):
        order = list(jobs)
        random.Random(rep).shuffle(order)
        s = list(one)
        for c, r in order:
            for src in (1, 2):
                s.append("fp %d-%d-%d %d %d 1 %d %d" % (c, r, src, c, r, src, [0, 1000, 4097][rep % 3]))
        got = ctx.harness(s)
        runs.append({x["name"]: (x["res"], x["hi"], x["lo"]) for x in got if x["ev"] == "fp"})
    recs.append({"ev": "reset", "h": "procs", "cfgs": []})
    for name in sorted(runs[0]):
        vals = []
        codes = []
        for r in runs:
            v = r[name]
            if v not in vals:
                vals.append(v)
            codes.append(vals.index(v))
        recs.append({"ev": "procs", "name": name, "hashes": codes})
    ctx.trace("TraceSession", [recs], TRACE, "threads and processes", env={"PROP": ctx.prop})


def c25(ctx):
    """Memory: generated histories with the bytes in use after every call."""
    rng = random.Random("c25-%d" % ctx.seed)
    pipeline(ctx, [2, 3], starts=2, maxn=ctx.n(14, 20))
    parts, nops = [], 0
    rates = [11025, 44100, 8000, 22050]
    shapes = [(16, 8, 1), (64, 32, 5), (0, -1, 0), (32, 0, 3), (100, 50, 2), (0, -1, 0), (17, 16, 1), (48, 24, 4)]
    for k in range(ctx.n(8, 32)):
        fs, ov, nc = shapes[k % 8]
        c = {"preset": rng.choice([1, 2, 3, 4, 5]), "fs": fs, "ov": ov, "nc": nc}
        hop = fs - ov if fs else 1365
        span = fs * 24 if fs else 90000
        script = [cfg_line(1, c)]
        warm, hist = [(r, ch) for r in rates for ch in (1, 2)], []
        for r, ch in warm:
            # all buffers filled, all rows of the image used; the audio at the internal rate lasts
            n = (span + 600 * hop) * max(1, r // 11025 + 1) + 3 * 32768
            script.append("memory 1 warm s:%d:%d c:%d:%d f" % (r, ch, 4096, n // 4096 + 1))

        def start(native=0.5):
            return "s:%d:%d" % (11025 if rng.random() < native else rng.choice(rates), rng.choice([1, 2]))
        # long sessions: ends just before a list of items has to double, if that is 2^19 or so items
        want = ctx.n(2**19, 2**22) if fs else ctx.n(6000, 60000)
        for r, ch in [(11025, 1), (rng.choice(rates[1:]), 2)]:
            n = int((want - rng.randrange(1000)) * hop * (r / 11025) / (3 if r != 11025 else 1))
            step = rng.choice([1000, 4096, 32768, 32769, 100000])
            hist.append(["s:%d:%d" % (r, ch)] + ["c:%d:%d" % (step, n // step // 4)] * 4 + ["f"])
        # very many short calls, finishes, starts, refused calls
        hist.append([start(), "c:1:%d" % ctx.n(150000, 10**6), "c:0:100000", "f"])
        hist.append([start(1)] + ["c:%d:%d" % (rng.randrange(1, 900), rng.randrange(1, 4)), "f"] * ctx.n(700, 3000))
        hist.append([start(0)] + ["c:%d:1" % rng.randrange(1, 900), "f"] * ctx.n(100, 1000))
        many = []
        for i in range(ctx.n(500, 3000)):
            many += [start(0.8), "c:%d:1" % rng.choice([1, 700, 5000, 32767, 40000])] + ["f"] * rng.randrange(2)
        hist.append(many)
        hist.append([start(1), "g:1:%d" % ctx.n(100000, 10**6), "g:0:100000", "r:11025:%d" % ctx.n(10000, 100000)])
        hist.append([start(0), "g:1:1000", "r:%d:%d" % (rng.choice(rates[1:]), ctx.n(600, 6000))])
        hist.append([start(), "c:3000:1", "b:%d" % ctx.n(50000, 500000), "c:3000:1", "f"])
        hist.append([x for i in range(ctx.n(60, 500)) for x in (start(), "c:%d:1" % rng.choice([1, 5000, 40000]), "d")])
        hist.append([start(1)] + ["z:%d:%d" % (rng.randrange(1, 3000), 300), "m:%d:%d" % (rng.randrange(2, 900), 30)] * ctx.n(4, 40))
        for i, h in enumerate(hist):
            script.append("memory 1 h%d-%d %s" % (k, i, " ".join(h)))
            nops += len(h)
        parts.append(script)
    groups = ctx.harness_many(parts, timeout=800)
    ctx.parts["bytes in use"] = {
        "configurations": len(parts), "operations": nops,
        "most items": max(o["items"] for g in groups for r in g for o in r["ops"]),
        "most bytes": max(o["live"] for g in groups for r in g for o in r["ops"])}
    ctx.trace("TraceMemory", groups, "INIT TInit\nNEXT TNext\nCONSTANT Give = 65536\n", "memory")
