"""C14-C18: match_fingerprints against spec/Matcher.tla."""
import json
import os
import random
import re

import core

CONST = ("CONSTANTS TooLong = 524286\nWidths <- RealWidths\nGradNum = 3\nGradDen = 20\nKeepBelow = 10\n"
         "JoinNum = 7\nJoinDen = 10\n")
TRACE = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n" + CONST
INVS = ("INVARIANTS WellFormed InBoth AlignedWhenPossible BestOffset Identity IdentityMatches "
        "NoGoodPieceDropped JoinedWhenClose SameAsOutcomes Gaps\n")


def mc(mode, maxlen=0, blocks=1, blens="1", levels="0"):
    return ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + CONST + "MODE = \"%s\"\nMaxLen = %d\nBlocks = %d\n"
            "BLens = {%s}\nLevels = {%s}\n" % (mode, maxlen, blocks, blens, levels) + INVS)


def models(ctx):
    if ctx.prop in ("C14", "C17"):
        ctx.model("MCMatcher", mc("pairs", ctx.n(3, 4)), "all pairs of fingerprints of <= %d items over 3 items" % ctx.n(3, 4))
    elif ctx.prop in ("C15", "C16"):
        ctx.model("MCMatcher", mc("profiles", 0, ctx.n(2, 3), "2, 13, 41", "0, 9, 10, 16"),
                  "all error profiles of %d blocks of 2/13/41 items at 0/9/10/16 bits" % ctx.n(2, 3))
        if not ctx.quick:
            ctx.model("MCMatcher", mc("profiles", 0, 2, "1, 5, 20, 34, 60", "0, 3, 7, 9, 10, 11, 20"),
                      "all error profiles of 2 blocks")
    else:
        ctx.model("MCMatcher", mc("pairs", 2), "all pairs of fingerprints of <= 2 items over 3 items")


def word(x):
    return (x[0] << 20) | x[1]


def items(seq):
    return ",".join(str(word(x)) for x in seq) or "-"


def cases(ctx, count):
    out = os.path.join(ctx.dir, "cases.ndjson")
    hard = os.path.join(ctx.dir, "hard.ndjson")
    finds = open(os.path.join(core.SPEC, "hard.ndjson")).read().splitlines()
    r = ctx.tlc("GenHard", "INIT Init\nNEXT Next\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n" + CONST,
                env={"SEED": 1 + ctx.seed * 7919 % 60000, "TRIES": ctx.n(6000, 200000)}, workers=8, count=False)
    new = [json.loads('"' + x + '"') for x in re.findall(r'^<<"HARD", "(.*)">>$', r.out, re.M)]
    new.sort(key=lambda x: ("plateau" in x, x))
    finds += new[:ctx.n(100, 2000)]
    goals = {}
    for f in finds:
        for g in json.loads(f)["goals"]:
            goals[g] = goals.get(g, 0) + 1
    ctx.parts["error profiles at corners of the cutting"] = {"profiles": len(finds), **goals}
    with open(hard, "w") as f:
        f.write("\n".join(finds) + "\n")
    ctx.tlc("GenMatcher", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n",
            env={"SEED": 1 + ctx.seed * 4409 % 60000, "COUNT": count, "OUT": out, "HARD": hard,
                                                                              "RUNS": ctx.n(32, 300)}, count=False)
    return [json.loads(x) for x in open(out)]


def audio(ctx, script):
    """Fingerprints of generated audio: with itself, excerpts, an altered copy, another recording."""
    s = ctx.seed
    script += ["src 1 tones 700000 %d 12000" % s, "src 2 slice 1 200003 300000", "src 3 tones 300000 %d 12000" % (s + 9),
               "src 4 cat 3,2,3", "src 5 noise 100000 %d 4000" % s, "src 6 overlay 1 300000 5", "src 7 scale 1 1 2",
               "src 8 cat 2,5,2", "cfg 50 2", "cfg 51 1"]
    pairs = [(1, 2), (2, 1), (1, 4), (4, 1), (1, 6), (6, 1), (1, 7), (3, 1), (8, 1), (1, 8), (8, 8), (6, 8)]
    for c in (50, 51):
        for k in range(1, 9):
            script.append("fpq a%d-%d %d 11025 1 %d" % (c, k, c, k))
        for a, b in pairs:
            script.append("matchfp audio%d-%d-%d %d a%d-%d a%d-%d" % (c, a, b, c, c, a, c, b))


def long(ctx):
    """Long fingerprints meeting along runs of constant bit errors: lengths around powers of two up to the limit."""
    rng = random.Random(ctx.seed * 77 + 5)
    L = 524285
    out = []

    def put(n1, n2, d, runs, period=0):
        out.append("matchlong long%d %d %d %d %d %s %d %d" % (
            len(out), 1 + len(out) % 2, n1, n2, d, ",".join("%d:%d" % x for x in runs), period, 1 + rng.randrange(10**6)))

    def split(n):
        """Runs of more than 120 items whose levels differ by at least four (a difference of three makes no cut)."""
        runs, last = [], None
        while n > 400 and len(runs) < 12:
            k = rng.choice([rng.randrange(121, 200), rng.randrange(121, n - 200) if n > 400 else 150])
            lv = rng.choice([x for x in (0, 1, 3, 4, 6, 7, 9, 10, 11, 13, 16, 20) if last is None or abs(x - last) >= 4])
            runs.append((k, lv))
            last, n = lv, n - k
        lv = rng.choice([x for x in (0, 5, 9, 10, 15, 20) if last is None or abs(x - last) >= 4])
        return runs + [(n, lv)]
    around = [255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131071, 131072, 131073,
              262143, 262144, 262145, L - 1, L]
    for n in around:
        put(n, n, 0, [(n, 0)])
        more = rng.randrange(1, 3000) if n < 500000 else 0
        put(n + more, n, rng.randrange(0, more + 1), [(n, 0)])
        put(n, n + more, -rng.randrange(0, more + 1), [(n, 0)])
        if n > 4000:
            put(n + more, n, rng.randrange(0, more + 1), split(n))
            put(n, n + more, -rng.randrange(0, more + 1), split(n))
        # hashes that come again: many offsets have nearly as many coincidences
        if n > 32000:
            put(n, n, 0, [(n, 0)], rng.choice([3000, 4000, 4096]))
            put(n, n, 0, split(n), 4096)
        # one step at the edge of being cut
        if n > 4000:
            k = rng.randrange(200, n - 200) if rng.random() < .5 else n - rng.randrange(130, 1000)
            a, b = rng.choice([(0, 3), (3, 0), (6, 9), (9, 6), (5, 8), (0, 4), (4, 0), (5, 9), (13, 10), (2, 4), (9, 8)])
            put(n, n, 0, [(k, a), (n - k, b)])
    for _ in range(ctx.n(40, 400)):
        n1, n2 = rng.randrange(2000, L + 1), rng.randrange(2000, L + 1)
        d = rng.randrange(1000 - n2, n1 - 999)
        ov = min(n1 - max(d, 0), n2 - max(-d, 0))
        put(n1, n2, d, rng.choice([[(ov, 0)], split(ov), split(ov)]))
    return out


def check(ctx):
    models(ctx)
    if ctx.prop == "C18":
        return c18(ctx)
    cs = cases(ctx, ctx.n(400, 3000))
    script = ["cfg 1 2", "cfg 2 1"]
    for k, c in enumerate(cs):
        script.append("match %s%d %d %s %s" % (c["kind"], k, 1 + k % 2, items(c["a"]), items(c["b"])))
    audio(ctx, script)
    recs = [r for r in ctx.harness(script) if r["ev"] == "match"]
    lines = long(ctx)
    recs += [r for x in ctx.harness_many([["cfg 1 2", "cfg 2 1"] + lines[j::8] for j in range(8)], timeout=600) for r in x
             if r["ev"] == "matchlong"]
    for r in recs:
        if r["ev"] == "matchlong":
            r["_cost"] = 60
            continue
        r["_cost"] = 20 + (r["n1"] * r["n2"] // 100 if not r["tag"].startswith("runs") else r["n1"] + r["n2"])
    n = {}
    for r in recs:
        k = min(len(r["segs"]), 5)
        n["%d%s segments" % (k, "+" if k == 5 else "")] = n.get("%d%s segments" % (k, "+" if k == 5 else ""), 0) + 1
    ctx.parts["results on the real code"] = n
    ctx.trace("TraceMatcher", [[r] for r in recs], TRACE, "match results", env={"PROP": ctx.prop})
    big = [r for r in recs if len(r["segs"]) > 1]
    for r in big[:2]:
        ctx.sample({k: r[k] for k in ("tag", "n1", "n2", "segs")})
    ctx.assumptions += ["where exact values of the profile tie, both outcomes of the floating point comparison are allowed"]


def c18(ctx):
    L = 524286
    lens = [(L, 5), (5, L), (L, L), (L - 1, 5), (5, L - 1), (L - 1, L - 1), (L + 1, 3), (3, L + 1), (L + 1, L + 1),
            (L - 1, L), (L, L - 1), (L - 2, L - 2), (0, L), (L, 0), (0, 0), (0, L - 1), (1, 1), (2, 524287), (524288, 2),
            (1 << 20, 10), (10, 1 << 20), (65536, 70000), (262144, 262145), (262143, 1000)]
    if ctx.quick:
        lens = [x for x in lens if x[0] * x[1] < 10**11 or x in ((L - 1, L - 1), (L, L), (L - 1, L), (L, L - 1))]
    script = ["cfg 1 2"]
    for k, (a, b) in enumerate(lens):
        for tail in ((0,) if min(a, b) < 200 else (0, 100) if min(a, b) < 300000 or not ctx.quick else (100,)):
            script.append("matchlen l%d 1 %d %d %d" % (k, a, b, tail))
    if not ctx.quick:
        rng = random.Random(ctx.seed)
        for k in range(60):
            a = rng.choice([rng.randrange(0, 2000), L + rng.randrange(-3, 4), rng.randrange(500000, 530000)])
            b = rng.choice([rng.randrange(0, 2000), L + rng.randrange(-3, 4), rng.randrange(500000, 530000)])
            script.append("matchlen r%d 1 %d %d %d" % (k, a, b, 0 if min(a, b) < 200 else 100))
    recs = ctx.harness_many([script[:1] + script[1 + j::8] for j in range(8)], timeout=600)
    recs = [r for x in recs for r in x]
    ctx.trace("TraceMatcher", [[r] for r in recs], TRACE, "length limits", env={"PROP": ctx.prop}, jobs=2)
    for r in recs[:3]:
        ctx.sample(r)
