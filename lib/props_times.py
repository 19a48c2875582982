"""C19: times of segments, and the rows of the compare program, against spec/Times.tla."""
import os
import random
import re
import subprocess

TRACE = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def model(ctx):
    ctx.model("MCTimes", "INIT Init\nNEXT Next\nINVARIANTS Additive Truth Sharp Rounded ClockInjective\n"
              "CONSTANTS\nHops = {1, 64, 100, 441, 600, 1024, 1365, 4095}\n"
              "Counts = {0, 1, 2, 7, 8, 80, 440, 441, 11025, 29000, 65536, 260000, 524285}\n"
              "Centis = {0, 5, 9, 10, 99, 100, 5999, 6000, 6001, 359999, 360000, 360001, 3599999, 35999999}\n",
              "times, clock and tolerances", workers=2)


def compare(ctx, a, b, timeout=300):
    p = subprocess.run([ctx.bins[1], a, b], capture_output=True, text=True, timeout=timeout)
    rows = []
    for line in p.stdout.splitlines():
        cells = [x.strip() for x in re.split(r"\||--", line)]
        if cells and re.fullmatch(r"\d+", cells[0]):
            rows.append(cells)
    return p.returncode, rows


def c19(ctx):
    model(ctx)
    rng = random.Random("c19-%d" % ctx.seed)
    cfgs = [("1", 1365), ("2", 1365), ("3", 1365), ("4", 1365), ("5", 1024), ("2 fs=64 ov=32", 32),
            ("2 fs=4096 ov=1", 4095), ("1 fs=1000 ov=559", 441), ("2 fs=8192 ov=0", 8192), ("5 ov=2047", 1)]
    script, hop = [], {}
    for k, (c, h) in enumerate(cfgs):
        script.append("cfg %d %s" % (k, c))
        hop[k] = h
    top = 524285
    for k in range(len(cfgs)):
        for j in range(ctx.n(40, 300)):
            pick = lambda: rng.choice([0, 1, 2, 7, 100, 440, 441, 29069, top - 1, rng.randrange(top), rng.randrange(30000)])
            o1, o2, ln = pick(), pick(), max(1, pick())
            m = (2**31 - 1) // hop[k] // 2
            script.append("segtime t %d %d %d %d" % (k, min(o1, m), min(o2, m), min(ln, m)))
    recs = [dict(r, hop=hop[r["cfg"]]) for r in ctx.harness(script) if r["ev"] == "segtime"]
    ctx.trace("TraceTimes", [[r] for r in recs], TRACE, "segment times", jobs=4)
    for r in recs[5:8]:
        ctx.sample(r)
    files(ctx, rng)


def files(ctx, rng):
    """Real files through the compare program."""
    work = os.path.join(ctx.dir, "files")
    os.makedirs(work, exist_ok=True)
    s = rng.randrange(10**6)
    script = ["cfg 1 1"]
    paths = {}

    def rec(k, text, rate=11025, ch=1):
        script.extend(text)
        form = ["16", "flac", "f32", "mkv", "aiff", "16", "mkv", "flac"][k % 8]
        paths[k] = "%s/%d.%s" % (work, k, form if form in ("flac", "mkv", "aiff") else "wav")
        if form in ("flac", "mkv"):
            tracks = " %s 1,0,0,2" % ["m", "smo", "mou"][k % 3] if form == "mkv" else ""
            script.append("%s %s %d %d %d %d,777%s" % (form, paths[k], rate, ch, k, 1152 + 900 * (k % 7), tracks))
        else:
            script.append("wav %s %d %d %d %s" % (paths[k], rate, ch, k, form))
        script.append("fpq f%d 1 %d %d %d" % (k, rate, ch, k))
    sec = 11025
    rec(1, ["src 1 tones %d %d 12000" % (100 * sec, s)])
    rec(2, ["src 2 slice 1 %d %d" % (31 * sec + 77, 40 * sec)])
    rec(3, ["src 30 tones %d %d 12000" % (70 * sec, s + 1), "src 3 cat 30,2,30,1"])
    rec(4, ["src 40 noise 90000 %d 6000" % s, "src 4 overlay 1 300000 40"])
    rec(5, ["src 50 noise %d 4 9000" % (20 * sec), "src 51 slice 1 0 %d" % (45 * sec), "src 52 slice 1 %d %d" % (45 * sec, 45 * sec),
            "src 5 cat 51,50,52,50,51"])
    rec(6, ["src 6 tones %d %d 12000 22050" % (60 * 22050, s)], 22050)
    rec(7, ["src 70 tones %d %d 12000 44100" % (100 * 44100, s), "src 7 cat 70"], 44100, 2)
    rec(8, ["src 8 tones %d %d 100" % (3 * sec, s)])
    rec(9, ["src 9 noise %d %d 100" % (1 * sec, s)])
    for k in range(10, ctx.n(14, 40)):
        a, b, c = (rng.randrange(5, 60) for _ in range(3))
        off = rng.randrange(0, 30)
        rec(k, ["src 100 noise %d %d 9000" % (a * sec + rng.randrange(sec), rng.randrange(10**6)),
                "src 101 slice 1 %d %d" % (off * sec + rng.randrange(sec), b * sec),
                "src 102 tones %d %d 9000" % (c * sec, rng.randrange(10**6)), "src %d cat 100,101,102,101" % k])
    # more than an hour in front of the common part, and a match of more than an hour
    hour = 3600 * sec
    rec(90, ["src 99 noise %d %d 3000" % (hour + 777 * sec, s), "src 90 cat 99,1"])
    rec(91, ["src 98 silence 0", "src 91 slice 90 %d %d" % (5000, 60 * sec + hour)])
    # the same recording with stretches replaced: several segments on one alignment
    rec(50, ["src 50 overlay 4 700000 40", "src 50 overlay 50 60000 40"])
    rec(92, ["src 92 overlay 90 %d 40" % (hour + 800 * sec), "src 92 overlay 92 %d 40" % (hour + 825 * sec), "src 92 overlay 92 900000 40"])
    rec(51, ["src 51 slice 92 %d %d" % (hour + 700 * sec, 170 * sec)])
    ids = [1, 2, 3, 4, 5, 6, 7, 8, 9] + list(range(10, ctx.n(14, 40)))
    pairs = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (4, 5), (5, 1), (1, 6), (6, 7), (7, 1), (1, 8), (8, 9), (9, 9),
             (3, 5), (90, 1), (1, 90), (90, 3), (90, 91), (1, 50), (50, 1), (4, 50),
             (50, 3), (92, 90), (90, 51), (51, 1), (92, 1)]
    for _ in range(ctx.n(6, 150)):
        pairs.append((rng.choice(ids), rng.choice(ids)))
    for a, b in pairs:
        script.append("matchfp %d-%d 1 f%d f%d" % (a, b, a, b))
    got = {r["tag"]: r for r in ctx.harness(script, timeout=700) if r["ev"] == "match"}
    import concurrent.futures as cf
    ctx.bins
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda p: compare(ctx, *(paths[k] for k in p)), pairs))
    recs = [{"ev": "rows", "tag": "%d-%d" % p, "hop": 1365, "status": st, "rows": rows, "segs": got["%d-%d" % p]["segs"]}
            for p, (st, rows) in zip(pairs, outs)]
    subprocess.run(["rm", "-rf", work])
    ctx.parts["compare runs"] = {"pairs": len(recs), "rows": sum(len(r["rows"]) for r in recs),
                                 "rows beyond an hour": sum(1 for r in recs for x in r["rows"] if not x[2].startswith("0:"))}
    ctx.trace("TraceTimes", [[r] for r in recs], TRACE, "compare rows", jobs=1)
    for r in recs[:2]:
        ctx.sample(r)
