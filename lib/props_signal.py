"""C07, C10 (and the silence floor of C09): items against the fixed-point chain of spec/Signal.tla."""
import json
import random

import props_config
import props_rel
import props_session as ps

COEF = [0.25, 0.75, 1.0, 0.75, 0.25, 0.5, 0.125, 1.0]
CFG = "INIT SInit\nNEXT SNext\nCONSTANTS\nN = %d\nTolInv = 1500\nFloorInv = 500\n"


def line(c):
    s = "%d fs=%d ov=%d" % (c["preset"], c["frame"], c["overlap"])
    if c.get("plain"):
        s = "%d" % c["preset"]
    else:
        s += " coef=" + ",".join(str(x / 8) for x in c["coefs"])
        if c.get("set_interp", True):
            s += " interp=%d" % c["interp"]
    if "id" in c:
        s += " id=%d" % c["id"]
    return s


def plain(p):
    """Preset p as published."""
    return {"preset": p, "frame": 2048 if p == 5 else 4096, "overlap": 1024 if p == 5 else 2731,
            "coefs": [2, 6, 8, 6, 2], "interp": int(p == 3), "plain": True}


def chain(ctx, cases, what):
    """cases: (configuration, source command). Runs them on the real code and validates frame by frame."""
    parts = [[] for _ in range(8)]
    for k, (c, src) in enumerate(cases):
        frag = {"tag": "%s%d" % (what[:3], k), "preset": c["preset"], "frame": c["frame"], "overlap": c["overlap"],
                "coefs": c["coefs"], "interp": c["interp"]}
        s = src if isinstance(src, list) else ["src 1 " + src]
        parts[k % 8] += ["cfg 1 " + line(c)] + s + ["sig 1 1 " + json.dumps(frag, separators=(",", ":"))[1:-1]]
    judge(ctx, [r for rs in ctx.harness_many([p for p in parts if p]) for r in rs], what)


def judge(ctx, recs, what):
    bad = [r for r in recs if r["res"] != "ok"]
    if bad:
        ctx.violate("fingerprinting panics: %s" % {k: bad[0][k] for k in ("tag", "frame", "overlap", "coefs")},
                    {"record": {k: v for k, v in bad[0].items() if k != "x"}})
    seen = set()
    for r in recs:
        frames = max(0, (r["len"] - r["frame"]) // (r["frame"] - r["overlap"]) + 1)
        per = len(r["x"]) / max(1, r["len"]) * r["frame"] * r["frame"] * 0.32
        r["_cost"] = int(frames * (per + r["frame"] * 0.5 + 3000)) // 100
        for a, b in zip(r["hi"], r["lo"]):
            for q in range(8):
                seen.add((r["preset"] == 1, q, (a >> (14 - 2 * q)) & 3))
                seen.add((r["preset"] == 1, q + 8, (b >> (14 - 2 * q)) & 3))
    by = {}
    for r in recs:
        by.setdefault(r["frame"], []).append(r)
    import concurrent.futures as cf
    total = sum(r["_cost"] for r in recs)
    ctx.parts["signals: " + what] = {
        "streams": len(recs), "items": sum(r["n"] for r in recs), "frame sizes": sorted(by),
        "levels of classifiers seen (of 128)": len(seen)}
    ctx.trace_by("TraceSignal", [(CFG % n, [[r] for r in rs], max(1, round(8 * sum(r["_cost"] for r in rs) / total)))
                                 for n, rs in sorted(by.items())], what)
    for r in recs[:2]:
        ctx.sample({k: r[k] for k in ("preset", "frame", "overlap", "coefs", "interp", "len", "n")})


def small(rng, n, presets=(1, 2, 3, 5), interp=None):
    """n random configurations with small frames, and dense signals."""
    out = []
    for k in range(n):
        fs = rng.choice([16, 31, 32, 48, 64, 64, 96, 100, 127, 128])
        ov = rng.choice([0, 1, fs // 2, fs // 4, fs - fs // 3, fs - 5])
        nc = 1 + k % 8
        coefs = [2, 6, 8, 6, 2] if rng.random() < 0.3 else [rng.randrange(0, 9) for _ in range(nc)]
        if k % 9 == 5:      # more frames than any preset smooths over
            nc = rng.choice([9, 10, 12, 16, 17, 25, 33])
            coefs = [rng.randrange(0, 9 if nc < 13 else 4) for _ in range(nc)]
        if sum(coefs) == 0:
            coefs[0] = 3
        p = presets[k % len(presets)]
        c = {"preset": p, "frame": fs, "overlap": ov, "coefs": coefs,
             "interp": (k // 4) % 2 if interp is None else interp}
        hop = fs - ov
        items = rng.randrange(6, 20)
        length = fs + (len(coefs) - 1 + 15 + items) * hop + rng.randrange(hop)
        kind = rng.random()
        seg = rng.choice([3, 8, 20]) * hop + 8
        if kind < 0.75:
            src = "patch %d %d %d %d" % (length, rng.randrange(10**6), seg, rng.choice([32000, 32000, 3000, 300]))
        elif kind < 0.9:
            src = "noise %d %d %d" % (length, rng.randrange(10**6), rng.choice([32767, 5000, 400, 60]))
        else:
            src = "extreme %d %d" % (length, rng.randrange(10**6))
        out.append((c, src))
    return out


def middle(rng, n, items):
    out = []
    for k in range(n):
        fs = rng.choice([200, 250, 256, 256, 300, 333, 400, 511, 512])
        ov = rng.choice([fs // 2, fs // 4, fs - fs // 3])
        c = {"preset": rng.choice([1, 2, 3]), "frame": fs, "overlap": ov, "coefs": [2, 6, 8, 6, 2], "interp": k % 2}
        hop = fs - ov
        out.append((c, "patch %d %d %d 30000" % (fs + (19 + items) * hop, rng.randrange(10**6), rng.choice([4, 10]) * hop)))
    return out


def presets(rng, items, which=(1, 2, 3, 4, 5), gap=600):
    """The published configurations with clicks, whose spectra the specification can afford."""
    out = []
    for p in which:
        c = plain(p)
        hop = c["frame"] - c["overlap"]
        n = c["frame"] + (19 + items) * hop + rng.randrange(hop)
        out.append((c, "pairs %d %d %d %d" % (n, rng.randrange(10**6), gap, rng.choice([32000, 20000, 9000]))))
    return out


def levels(rng, n):
    """Quiet audio around the silence floor."""
    out = []
    for k in range(n):
        fs = rng.choice([32, 64, 128])
        nc = 1 + k % 4
        coefs = [8] * nc
        # |X|^2 of a tone of amplitude a: (0.27 N a)^2, times nc, against 0.01 * 32767^2
        a = 3276.7 / (0.27 * fs * nc ** 0.5)
        hop = fs // 2
        src = []
        for j in range(1, 13):
            amp = a * rng.choice([0.3, 0.5, 0.8, 0.9, 0.95, 1.05, 1.1, 1.25, 2, 3, 6])
            src.append("src %d tones %d %d %d 11025" % (j, hop * rng.randrange(1, 6) + 3, rng.randrange(10**6), max(1, round(amp * 3))))
        src.append("src 1 cat " + ",".join(map(str, range(1, 13))))
        src.append("src 1 cat 1,1")
        out.append(({"preset": 2, "frame": fs, "overlap": fs - hop, "coefs": coefs, "interp": 0}, src))
    return out


def edges(ctx, rng, presets, reps):
    """Pairs of streams right and left of each threshold, and of the silence floor, as the code draws it: found by
    bisection on the real code, judged by the specification, which knows where it is."""
    parts, n = [[] for _ in range(8)], 0
    for p, q, t in reps * [(p, q, t) for p in presets for q, t in
                           4 * [(0, 0)] + [(q, t) for q in range(1, 17) for t in (1, 2, 3)]]:
        fs = rng.choice([64, 64, 64, 60, 80, 100])
        c = {"preset": p, "frame": fs, "overlap": rng.choice([fs // 2, fs // 4, 0]),
             "coefs": rng.choice([[8], [8], [4, 8], [2, 6]]), "interp": rng.choice([0, 0, 1])}
        hop = fs - c["overlap"]
        frag = json.dumps(dict(c, tag="edge"), separators=(",", ":"))[1:-1]
        parts[n % 8] += ["cfg 1 " + line(c), "edge 1 %d %d %d %d %s" % (
            fs + (len(c["coefs"]) + 14) * hop, rng.randrange(10**6), q, t, frag)]
        n += 1
    recs = [r for rs in ctx.harness_many(parts) for r in rs]
    lost = [r for r in recs if r["ev"] == "noedge"]
    if any(r["res"] != "ok" for r in lost):
        ctx.violate("fingerprinting panics: %s" % lost[0], {"record": lost[0]})
    recs = [r for r in recs if r["ev"] == "sig"]
    ctx.parts["thresholds approached from both sides"] = {"thresholds": n, "found": len(recs) // 2}
    judge(ctx, recs, "edges")


def c07(ctx):
    rng = random.Random("c07-%d" % ctx.seed)
    chain(ctx, small(rng, ctx.n(72, 600)) + middle(rng, ctx.n(6, 60), ctx.n(8, 20)) +
          presets(rng, ctx.n(8, 20)) + levels(rng, ctx.n(12, 100)), "items")
    edges(ctx, rng, (1, 2, 3, 5) if ctx.quick else (1, 2, 3, 4, 5), ctx.n(1, 6))
    if not ctx.quick:
        for rep in range(3):
            chain(ctx, presets(rng, 16, gap=250), "presets, dense clicks %d" % rep)
    ctx.assumptions += ["codes whose compared ratio is within 1/2000 of a threshold, and rows whose length is within "
                        "1/500 of the silence floor, are not judged"]


def c10(ctx):
    rng = random.Random("c10-%d" % ctx.seed)
    cases = []
    base = small(rng, ctx.n(64, 400), presets=(1, 2, 3, 4, 5))
    for k, (c, src) in enumerate(base):
        if k % 4 == 0:      # leave the interpolation as the preset has it
            c = dict(c, set_interp=False, interp=int(c["preset"] == 3))
        if k % 3 == 0:
            c["id"] = rng.choice([rng.randrange(256), rng.randrange(6)])
        cases.append((c, src))
    cases += presets(rng, ctx.n(6, 20)) + middle(rng, ctx.n(5, 30), 6)
    chain(ctx, cases, "options")
    props_config.check(ctx, ctx.n(400, 4000))
    ids(ctx, rng)
    silence(ctx, rng)


def ids(ctx, rng):
    """with_id changes the header of the compressed form and nothing else: same audio, other id, same items."""
    b = props_rel.Book()
    c = props_rel.conf(2)
    b.base(1, "tones 100000 %d 9000" % rng.randrange(10**6))
    a = None
    # every small identifier (those of the presets are among them), the ends of each power of two, some more
    some = sorted(set(range(16)) | {2 ** k - d for k in range(4, 9) for d in (0, 1)} - {256} |
                  set(rng.sample(range(256), ctx.n(12, 200))))
    for i in some:
        for p in (1, 2, 3, 5):
            cc = dict(props_rel.conf(p))
            cc["line"] += " id=%d" % i
            k = b.cfg(cc)
            f = b.fp(k, [props_rel.run(1, 0, 100000)])
            f["key"] = p
            if a and p in a:
                # distinct descriptions of equal audio would not be compared: shift by 0 of another run list
                b.relate("id", props_rel.conf(p), a[p], f, atleast=40)
            a = dict(a or {})
            a.setdefault(p, f)
    props_rel.judge(ctx, [b], "identifier")


def silence(ctx, rng):
    """Removal of leading silence. In preset 4 and with with_removed_silence: the fingerprint of a stream with a
    quiet lead is that of the stream without it."""
    b = props_rel.Book()
    b.base(9, "tones 200000 %d 9000" % rng.randrange(10**6))
    for lead in (0, 1365, 20000, 40007):
        for text in ("4", "2 sil=50", "1 sil=200", "3 sil=50"):
            p = int(text[0])
            c = dict(props_rel.conf(p))
            c["line"] = text
            on = b.cfg(c)
            c2 = dict(props_rel.conf(2 if p == 4 else p))
            off = b.cfg(c2)
            kind = "noise %d 5 20" % (lead + 1)
            b.base(8, kind)
            runs = [props_rel.run(8, 0, lead), props_rel.run(9, 0, 120000)] if lead else [props_rel.run(9, 0, 120000)]
            got = b.fp(on, runs)
            want = b.fp(off, [props_rel.run(9, 0, 120000)])
            keep = b.fp(off, runs)
            # the lead is left out, give or take the samples the detector needs: compared after it
            b.relate("lead", c, got, want, keep=keep, lead=lead, atleast=50)
    props_rel.judge(ctx, [b], "removed silence", known="silence-removal")
