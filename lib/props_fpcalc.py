"""C20-C22: the fpcalc program against spec/Fpcalc.tla."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import time
from decimal import Decimal, InvalidOperation

from core import ToolError

TRACE = ("INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\nCONSTANTS W = 32\nNB = 3\nEB = 5\n"
         "Buf = 32768\nNative = 11025\nMinRate = 1000\nLatency = 8\nSlack = 1\n")


def model(ctx):
    base = ("INIT Init\nNEXT FNext\nINVARIANTS AsLaid OneSession AsFar Prefixed Partition\nCONSTANTS\nMaxPacket = %d\nFaults = {%s}\n"
            "MaxN = %d\nMaxLimit = %d\nMaxChunk = %d\nMaxExtra = %d\n")
    b = ctx.n((4, 9, 7, 4, 3), (6, 14, 9, 5, 4))
    ctx.model("MCFpcalc", base % (b[0], "", *b[1:]) + "INVARIANT Numbered\n", "all files of <= %d frames in packets of <= %d, all options" % (b[1], b[0]))
    ctx.prove("ChunksProof", "AnyInput", ["Planted1", "Planted2"], "the loop over packets, all numbers of any size")
    for f in ("same_part", "restart", "extra_stays", "empty_last", "any_track", "eager"):
        r = ctx.tlc("MCFpcalc", base % (4, '"%s"' % f, 9, 0, 4, 3), workers=4, count=False)
        ctx.parts["model: design fault '%s' planted" % f] = {"rejected by": r.kind or "nothing"}
        if r.ok and f != "eager":       # closing a full chunk at once is no fault: the same results come out
            raise ToolError("the specification does not notice the design fault " + f)


def stamp(text):
    """Decimal text -> [seconds, microseconds], floor."""
    try:
        us = int((Decimal(text) * 1000000).to_integral_value(rounding="ROUND_HALF_EVEN"))
    except (InvalidOperation, ValueError, TypeError):
        return []
    if abs(us) > 2 * 10**15:
        return []
    return [us // 1000000, us % 1000000]


def numbers(vals):
    out = []
    for v in vals:
        v = int(v)
        if not -(2**40) < v < 2**40:
            raise ValueError
        out.append([v // 65536, v % 65536])
    return out


def fingerprint(text, raw):
    if raw:
        return {"form": "raw", "fp": numbers(re.fullmatch(r"-?\d+", x) and x for x in text.split(",")) if text else []}
    return {"form": "base64", "fp": [ord(c) for c in text]}


def parse(out, fmt, raw):
    """Printed text -> (is it of this form, results)."""
    res = []
    try:
        if fmt == "plain":
            lines = out.split("\n")
            if lines[-1] != "":
                return 0, []
            for line in lines[:-1]:
                res.append(dict(fingerprint(line, raw), dur=[], stamp=[]))
        elif fmt == "json":
            for line in out.split("\n"):
                if line.strip() == "":
                    continue
                d = json.loads(line, parse_float=Decimal, parse_int=int)
                if set(d) - {"timestamp", "duration", "fingerprint"}:
                    return 0, res
                f = d["fingerprint"]
                if isinstance(f, list) != bool(raw):
                    return 0, res
                fp = {"form": "raw", "fp": numbers(f)} if raw else fingerprint(f, 0)
                res.append(dict(fp, dur=stamp(str(d["duration"])), stamp=stamp(str(d["timestamp"])) if "timestamp" in d else []))
        else:
            cur = {}
            for line in out.split("\n"):
                if line == "":
                    continue
                k, _, v = line.partition("=")
                if k in cur:
                    return 0, res
                cur[k] = v
                if k == "FINGERPRINT":
                    if set(cur) - {"TIMESTAMP", "DURATION", "FINGERPRINT"} or "DURATION" not in cur:
                        return 0, res
                    res.append(dict(fingerprint(v, raw), dur=stamp(cur["DURATION"]),
                                    stamp=stamp(cur["TIMESTAMP"]) if "TIMESTAMP" in cur else []))
                    cur = {}
            if cur:
                return 0, res
    except (ValueError, TypeError, KeyError):
        return 0, res
    return 1, res


def options(c):
    a = ["--algorithm=" + str(c.get("word", c["alg"]))]
    if c["limit"] >= 0:
        a += ["--length", c.get("limitw") or str(c["limit"])]
    if c["chunk"] or c.get("chunk0"):
        a += ["--chunk", c.get("chunkw") or str(c["chunk"])]
    if c["overlap"]:
        a += ["--overlap"]
    if c["ts"]:
        a += ["-T"]
    if c["raw"]:
        a += ["-R"]
    if c["signed"]:
        a += ["-s"]
    if c["fmt"] != "text" or c.get("say"):
        a += ["-F", c["fmt"]]
    return a


def now():
    t = time.time_ns() // 1000
    return [t // 1000000, t % 1000000]


def execute(ctx, c, path):
    r = {k: c[k] for k in ("rate", "ch", "n", "limit", "chunk", "overlap", "alg", "fmt", "raw", "signed", "ts")}
    r["ev"] = "run"
    r["options"] = options(c)
    r["t0"] = now()
    p = subprocess.run([ctx.bins[0], *options(c), path], capture_output=True, timeout=300)
    r["t1"] = now()
    r["status"] = p.returncode if p.returncode >= 0 else 256 - p.returncode
    r["form"], r["results"] = parse(p.stdout.decode("utf-8", "replace"), c["fmt"], c["raw"])
    if p.returncode != 0:
        r["stderr"] = p.stderr.decode("utf-8", "replace")[:300]
    return r


def laid(ctx, kind, count):
    out = os.path.join(ctx.dir, "cases-%s.ndjson" % kind)
    ctx.tlc("GenFpcalc", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n",
            env={"SEED": 1 + ctx.seed * 4409 % 60000, "COUNT": count, "OUT": out, "KIND": kind}, count=False)
    cases = [json.loads(x) for x in open(out)]
    for k, c in enumerate(cases):
        c["chunk0"], c["say"] = k % 2, k // 2 % 2
    return cases


def source(c, k):
    kind = k % 5
    total = c["n"] * c["ch"]
    if kind == 4:
        return "noise %d %d 9000" % (total, c["seed"])
    return "tones %d %d 12000 %d" % (total, c["seed"], c["rate"] * c["ch"])


def batch(ctx, tag, cases, variants=None, more=None, then=None):
    """One process of the driver writes the files and gives the library's fingerprints, then fpcalc runs."""
    work = os.path.join(ctx.dir, "files-" + tag)
    os.makedirs(work, exist_ok=True)
    script = ["cfg %d %d" % (a, a + 1) for a in range(5)]
    for k, c in enumerate(cases):
        script.append("src 1 " + source(c, k))
        if not c["flac"] and c["file"] == "8":
            script.append("src 1 scale 1 256 256")
        c["path"] = "%s/%d.%s" % (work, k, "mkv" if c["tracks"] else "flac" if c["flac"] else "aiff" if c["file"] == "aiff" else "wav")
        script.append("mkv %s %d %d 1 %s %s %s" % (c["path"], c["rate"], c["ch"], ",".join(map(str, c["sizes"])), c["tracks"],
                                                   ",".join(map(str, c["foreign"]))) if c["tracks"]
                      else "flac %s %d %d 1 %s" % (c["path"], c["rate"], c["ch"], ",".join(map(str, c["sizes"]))) if c["flac"]
                      else "wav %s %d %d 1 %s" % (c["path"], c["rate"], c["ch"], c["file"]))
        if c.get("bad", -1) >= 0:
            script[-1] += " %d" % c["bad"]
        ranges = [(0, c["t"])] if c["overlap"] and c["chunk"] else [(w["from"], w["to"]) for w in c["lay"]]
        for j, (a, b) in enumerate(ranges):
            script.append("src 2 slice 1 %d %d" % (a * c["ch"], (b - a) * c["ch"]))
            script.append("fp %d.%d.%d.%d %d %d %d 2" % (k, j, a, b, c["alg"], c["rate"], c["ch"]))
        if more:
            more(c, k, script)
    libs = {}
    got = ctx.harness(script, timeout=600)
    for r in got:
        if r["ev"] == "fp":
            k, j, a, b = map(int, r["name"].split("."))
            if r["res"] != "ok":
                ctx.violate("the library panics on frames %d to %d of a file" % (a, b), {"case": cases[k]})
            libs.setdefault(k, []).append({"from": a, "to": b, "hi": r["hi"], "lo": r["lo"]})
    recs = []
    for k, c in enumerate(cases):
        if c.get("cut", -1) >= 0:
            os.truncate(c["path"], min(c["cut"], os.path.getsize(c["path"])))
        for v in (variants(c, k) if variants else [{}]):
            r = execute(ctx, dict(c, **v), c["path"])
            r["tag"] = "%s-%d" % (tag, k)
            r["lib"] = libs.get(k, [])
            r["file"] = "flac" if c["flac"] else c["file"]
            r["tracks"] = c["tracks"]
            r["sizes"] = c["sizes"] if c["flac"] else [1152]
            r["_cost"] = 5 + sum(len(x["fp"]) * (1 if x["form"] == "raw" else 12) for x in r["results"])
            r.update({x: c[x] for x in ("cut", "bad") if x in c})
            recs.append(r)
        if then:
            recs += then(c, k, got)
        os.unlink(c["path"])
    os.rmdir(work)
    return recs


def run(ctx, kind, count, variants=None, more=None, then=None):
    cases = laid(ctx, kind, count)
    ctx.vh, ctx.bins
    with cf.ThreadPoolExecutor(8) as ex:
        recs = [r for rs in ex.map(lambda j: batch(ctx, "%s%d" % (kind, j), cases[j::8], variants, more, then), range(8)) for r in rs]
    every, recs = recs, [r for r in recs if r["ev"] == "run"]
    ctx.parts["runs of fpcalc: " + kind] = {
        "files": len(cases), "runs": len(recs), "results": sum(len(r["results"]) for r in recs),
        "packets longer than a chunk": sum(1 for r in recs if r["chunk"] and max(r["sizes"]) > r["chunk"] * r["rate"]),
        "lengths or chunks past any file": sum(1 for c in cases if c["limitw"] or c["chunkw"]),
        "file forms": {f: sum(1 for r in recs if r["file"] == f) for f in sorted({r["file"] for r in recs})},
        "Matroska, by tracks": {f: sum(1 for r in recs if r["tracks"] == f) for f in sorted({r["tracks"] for r in recs} - {""})},
        "streams at other rates": sum(1 for r in recs if r["rate"] != 11025)}
    ctx.trace("TraceFpcalc", [[r] for r in every], TRACE, kind, env={"PROP": ctx.prop})
    for r in recs[:2]:
        ctx.sample({k: v for k, v in r.items() if k not in ("lib", "results")})
    return recs


def c20(ctx):
    model(ctx)
    run(ctx, "chunks", ctx.n(240, 2500))


def c21(ctx):
    model(ctx)
    run(ctx, "overlap", ctx.n(240, 2500))


def c22(ctx):
    def forms(c, k):
        out = []
        for f in ("text", "json", "plain"):
            for raw in (0, 1):
                for s in (0, 1):
                    out.append({"fmt": f, "raw": raw, "signed": s, "ts": (k + len(out)) % 2, "say": k % 2})
        if k % 3 == 0:
            for a in (5, 6, 9, 10, 100, 255, 256, 257, "-1", "x", "", "2x", " 1", "1.0", "99999999999", "0x1"):
                n = a if isinstance(a, int) else 77
                out.append({"alg": n, "word": a})
        return out
    run(ctx, "forms", ctx.n(40, 400), forms)


def foreign(ctx):
    """Things that are not audio, or not audio the library takes, and command lines that make no sense."""
    import struct
    work = os.path.join(ctx.dir, "foreign")
    os.makedirs(work, exist_ok=True)

    def wav(rate, ch=1, tag=1, bits=16, n=30000):
        body = bytes((7 * i * i >> 3) % 251 for i in range(n))
        return (b"RIFF" + struct.pack("<I", 36 + n) + b"WAVEfmt " + struct.pack("<IHHIIHH", 16, tag, ch, rate, rate * ch * bits // 8 % 2**32,
                ch * bits // 8 % 65536, bits) + b"data" + struct.pack("<I", n) + body)
    files = {"empty.wav": b"", "text.wav": b"no audio in here\n" * 4000, "zeros.wav": bytes(70000), "text.flac": b"fLa" * 9000,
             "png.png": b"\x89PNG\r\n\x1a\n" + bytes(5000), "riff.wav": b"RIFF\x10\0\0\0AVI " + bytes(4000), "text": b"words " * 3000,
             "r1000.wav": wav(1000), "r999.wav": wav(999, 2), "r8.wav": wav(8), "r1.wav": wav(1, 3), "codec.wav": wav(11025, 1, 0x50),
             "r600.wav": wav(600, 1)}
    for k, v in files.items():
        open(os.path.join(work, k), "wb").write(v)
    good = os.path.join(work, "good.wav")
    open(good, "wb").write(wav(11025, n=400000))
    os.makedirs(os.path.join(work, "folder.wav"))
    # no audio track, or none of a known coding
    ctx.harness(["cfg 1 1", "src 1 tones 1000 1 1000 11025"] + ["mkv %s/%s.mkv 11025 1 1 100 %s 1" % (work, t, t) for t in ("s", "u", "us")])
    files.update({"s.mkv": b"", "u.mkv": b"", "us.mkv": b""})
    names = [os.path.join(work, x) for x in [*files, "missing.wav", "folder.wav", "good.wav/x"]]
    calls = []
    for f in names:
        calls += [(0, [f]), (0, ["-R", "-F", "plain", "-C", "2", f]), (0, ["-o", "-C", "1", "-T", "-F", "json", f]),
                  (1, [f, good]), (1, [good, f]), (1, [f, f])]
    for a in (["-l", "x"], ["-l", "-1"], ["--length", "1.5"], ["-C", "-1"], ["-C", "2s"], ["-F", "xml"], ["-F", "JSON"], ["-F", ""], ["--no-such"],
              ["-l", "18446744073709551616"], ["-l", ""], ["-a"], [good]):
        calls.append((0, [*a, good]))
    calls.append((0, []))
    recs = []
    for k, a in calls:
        p = subprocess.run([ctx.bins[k], *a], capture_output=True, timeout=120)
        recs.append({"ev": "refused", "program": ["fpcalc", "compare"][k], "args": [x.replace(work, "") for x in a],
                     "status": p.returncode if p.returncode >= 0 else 256 - p.returncode, "printed": len(p.stdout)})
    subprocess.run(["rm", "-rf", work])
    ctx.parts["things to refuse"] = {"runs": len(recs)}
    ctx.trace("TraceFpcalc", [[r] for r in recs], TRACE, "foreign", env={"PROP": ctx.prop}, jobs=2)
    ctx.sample(recs[0])


def c24(ctx):
    import props_times
    model(ctx)
    foreign(ctx)
    rows = []

    def more(c, k, script):
        full = os.path.splitext(c["path"])[0] + "-full.wav"
        script.append("wav %s %d %d 1 16" % (full, c["rate"], c["ch"]))
        script.append("fpq full%d 0 %d %d 1" % (k, c["rate"], c["ch"]))
        if c["bad"] >= 0:
            a, b = c["bad"] * c["ch"], (c["bad"] + c["badlen"]) * c["ch"]
            script += ["src 3 slice 1 0 %d" % a, "src 4 slice 1 %d %d" % (b, c["n"] * c["ch"] - b), "src 2 cat 3,4"]
        else:
            script.append("src 2 slice 1 0 %d" % (max(0, c["there"]) * c["ch"]))
        script.append("fpq part%d 0 %d %d 2" % (k, c["rate"], c["ch"]))
        script.append("matchfp %d 0 full%d part%d" % (k, k, k))

    def then(c, k, got):
        full = os.path.splitext(c["path"])[0] + "-full.wav"
        segs = next(r for r in got if r["ev"] == "match" and r["tag"] == str(k))["segs"]
        st, table = props_times.compare(ctx, full, c["path"])
        os.unlink(full)
        if c["there"] < 0:
            return [{"ev": "refused", "program": "compare", "args": ["cut at %d" % c["cut"]], "status": st, "printed": len(table)}]
        rows.append({"ev": "rows", "tag": "%d" % k, "hop": 1365, "status": st, "rows": table, "segs": segs, "cut": c["cut"], "bad": c["bad"]})
        return []
    run(ctx, "cut", ctx.n(240, 2500), more=more, then=then)
    ctx.parts["compare on damaged files"] = {"pairs": len(rows), "rows": sum(len(r["rows"]) for r in rows)}
    ctx.trace("TraceTimes", [[r] for r in rows], props_times.TRACE, "compare rows", jobs=4)
