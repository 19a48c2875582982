"""C08, C09, C11: relations between fingerprints, judged by spec/TraceRelations.tla."""
import random

import props_session as ps
import props_signal

TRACE = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def conf(preset, fs=0, ov=-1, nc=0):
    f = fs or (2048 if preset == 5 else 4096)
    o = ov if ov >= 0 else (1024 if preset == 5 else 4096 - 4096 // 3)
    e = ([2, 6, 8, 6, 2, 4, 1, 8] * 9)[:nc] if nc else [2, 6, 8, 6, 2]
    return {"line": "%d%s%s%s" % (preset, " fs=%d" % fs if fs else "", " ov=%d" % ov if ov >= 0 else "",
                                  " coef=" + ps.coefs(nc) if nc else ""),
            "c": {"frame": f, "overlap": o, "nc": len(e), "csum": sum(e)}, "preset": preset,
            "hop": f - o, "span": f + (len(e) - 1 + 15) * (f - o)}


def run(src, off, length, gain=0, neg=0):
    return {"src": src, "off": off, "len": length, "gain": gain, "neg": neg}


class Book:
    """Collects streams and relations, makes one driver script."""

    def __init__(self):
        self.script, self.rel, self.nsrc, self.ncfg, self.nfp = [], [], 100, 0, 0

    def base(self, sid, text):
        self.script.append("src %d %s" % (sid, text))

    def cfg(self, c):
        self.ncfg += 1
        self.script.append("cfg %d %s" % (self.ncfg, c["line"]))
        return self.ncfg

    def fp(self, cfg, runs, phys=None, rate=11025, feed=0):
        """phys: driver source of each run (default: its own number)"""
        ids = []
        for k, r in enumerate(runs):
            self.nsrc += 1
            self.script.append("src %d slice %d %d %d" % (self.nsrc, phys[k] if phys else r["src"], r["off"], r["len"]))
            if r["gain"] or r["neg"]:
                g = r["gain"]
                self.script.append("src %d scale %d %d %d" % (self.nsrc, self.nsrc, (-1 if r["neg"] else 1) * 2 ** max(g, 0),
                                                              2 ** max(-g, 0)))
            ids.append(self.nsrc)
        self.nsrc += 1
        self.script.append("src %d cat %s" % (self.nsrc, ",".join(map(str, ids))))
        self.nfp += 1
        self.script.append("fp f%d %d %d 1 %d %d" % (self.nfp, cfg, rate, self.nsrc, feed))
        for i in ids + [self.nsrc]:
            self.script.append("src %d silence 0" % i)      # free the memory
        return {"name": "f%d" % self.nfp, "runs": runs}

    def endless(self, cfg, src, times, keep, rate=11025):
        self.nfp += 1
        self.script.append("endless f%d %d %d %d %d %d" % (self.nfp, cfg, rate, src, times, keep))
        return {"name": "f%d" % self.nfp, "runs": []}

    def relate(self, kind, c, a, b=None, **kw):
        self.rel.append((kind, c, a, b, kw))

    def records(self, ctx):
        got = {r["name"]: r for r in ctx.harness(self.script, timeout=600) if r["ev"] == "fp"}
        out = []
        for kind, c, a, b, kw in self.rel:
            r = {"ev": "rel", "kind": kind, "c": c["c"], "preset": c["preset"], "q": 1, **kw,
                 "ok": int(all(got[x["name"]]["res"] == "ok" for x in (a, b) if x))}
            for k, x in (("a", a), ("b", b), ("keep", r.pop("keep", None))):
                if x:
                    r[k] = {"runs": x["runs"], "hi": got[x["name"]]["hi"], "lo": got[x["name"]]["lo"],
                            "skip": got[x["name"]].get("skip", 0)}
            r["_cost"] = 10 + sum(len(r[k]["hi"]) for k in ("a", "b") if k in r) * max(1, len(kw.get("shifts", [0])))
            out.append(r)
        return out


def judge(ctx, books, what, known=None):
    import concurrent.futures as cf
    ctx.vh
    with cf.ThreadPoolExecutor(8) as ex:
        recs = [r for rs in ex.map(lambda b: b.records(ctx), books) for r in rs]
    kinds = {}
    for r in recs:
        k = kinds.setdefault(r["kind"], {"relations": 0, "items at least compared": 0, "longest stream": 0})
        k["relations"] += 1
        k["items at least compared"] += r["atleast"]
        k["longest stream"] = max(k["longest stream"], len(r["a"]["hi"]))
    ctx.parts["relations " + what] = kinds
    groups = [[r] for r in recs]
    if known and known in ctx.known_entries:
        # accepted as recorded, and only if it is (still) exactly that
        if not ctx.would_accept("TraceRelations", groups, TRACE, {"KNOWN": ""}):
            ctx.trace("TraceRelations", groups, TRACE, what, env={"KNOWN": known})
            ctx.known.append(ctx.known_entries[known])
            return
    ctx.trace("TraceRelations", groups, TRACE, what, env={"KNOWN": ""})
    for r in recs[:3]:
        ctx.sample({"kind": r["kind"], "config": r["c"], "runs a": r["a"]["runs"],
                    "runs b": r.get("b", {}).get("runs")})


def c08(ctx):
    rng = random.Random("c08-%d" % ctx.seed)
    books = []
    for rep in range(ctx.n(8, 48)):
        b = Book()
        small = rep % 2 == 0
        if small:
            fs = rng.choice([64, 128, 100, 256])
            c = conf(rng.choice([1, 2, 3, 5]), fs, rng.choice([0, fs // 2, fs // 4, fs - fs // 3]), rng.randrange(1, 9))
        else:
            c = conf(rng.choice([1, 2, 3, 5]))
        want = rng.choice([700, 1500, 3000]) if small else rng.choice([300, 420, 600])
        n = c["span"] + want * c["hop"]
        k = b.cfg(c)
        for s in (1, 2, 3):
            kind = rng.choice(["tones %d %d", "noise %d %d", "patch %d %d " + str(30 * c["hop"])])
            b.base(s, kind % (n + 5000, rng.randrange(10**6)) + " 20000")
        whole = b.fp(k, [run(1, 0, n)])
        hop, span = c["hop"], c["span"]
        # the first m hops dropped, also past the rows kept
        for m in (1, rng.randrange(2, 250), rng.choice([255, 256, 257]), rng.randrange(258, want) if want > 260 else 3):
            if m < want:
                d = b.fp(k, [run(1, m * hop, n - m * hop)])
                b.relate("same", c, whole, d, shifts=[m], atleast=want - m)
        # a change from p on, and a patch replaced
        for p in (rng.randrange(n), n - rng.randrange(1, hop + 1), rng.randrange(span)):
            cut = b.fp(k, [run(1, 0, p), run(2, 0, n - p)])
            b.relate("same", c, whole, cut, shifts=[0], atleast=max(0, (p - span) // hop))
            q = min(n, p + rng.choice([1, 7, 3 * hop]))
            pat = b.fp(k, [run(1, 0, p), run(3, 0, q - p), run(1, q, n - q)])
            b.relate("same", c, whole, pat, shifts=[0], atleast=max(0, (p - span) // hop) + max(0, (n - q - span) // hop - 1))
        # other audio in front: a multiple of the hop
        for m in (rng.randrange(1, 40), rng.choice([256, 300, 512])):
            pre = b.fp(k, [run(2, 0, m * hop), run(1, 0, n - m * hop)])
            b.relate("same", c, pre, whole, shifts=[m], atleast=want - m if want > m else 0)
        # the same stretch again and again, compared with itself
        part = (17 + rng.randrange(1, 60)) * hop
        times = max(2, min(40, n // part))
        again = b.fp(k, [run(1, 0, part)] * times)
        if part > span:
            b.relate("same", c, again, again, shifts=[part // hop, (times - 1) * (part // hop)],
                     atleast=(times - 1) * ((part - span) // hop))
        # just a window of the stream
        for i in (rng.randrange(want), 256, want - 1):
            w = b.fp(k, [run(1, i * hop, span)])
            b.relate("same", c, whole, w, shifts=[i], atleast=1)
        books.append(b)
    # a very long stream
    b = Book()
    c = conf(2, 64, 32) if ctx.quick else conf(2)
    n = c["span"] + ctx.n(12000, 20000) * c["hop"]
    k = b.cfg(c)
    b.base(1, "noise %d %d 9000" % (n, ctx.seed))
    whole = b.fp(k, [run(1, 0, n)], feed=10007)
    for m in (ctx.n(11000, 19000), 5000, 11999):
        d = b.fp(k, [run(1, m * c["hop"], n - m * c["hop"])])
        b.relate("same", c, whole, d, shifts=[m], atleast=n // c["hop"] - m - 100)
    books.append(b)
    judge(ctx, books, "locality")
    endless(ctx, rng, [(16, 8, 500 + rng.randrange(1000), 1100, 1), (64, 0, 777, 100, 1), (32, 16, 300 + rng.randrange(99), 900, 1),
                       (16, 8, 1024, 70, 2), (4096, 0, 50, 40, 1)])
    if not ctx.quick:   # past 2^32 samples
        endless(ctx, rng, [(4096, 0, 500, 2100, 1), (2048, 0, 911, 2306, 1), (1024, 0, 1000, 1100, 4)])
    ps.pipeline(ctx, [1, 4])


def endless(ctx, rng, sizes):
    """Audio that goes on for very long: (frame, overlap, period in hops, times, q)."""
    books = []
    for fs, ov, period, times, q in sizes:
        b = Book()
        c = conf(rng.choice([1, 2, 3, 5]), fs, ov, rng.choice([1, 2, 3]))
        k = b.cfg(c)
        n = period * c["hop"] * q
        b.base(1, "noise %d %d 9000" % (n, rng.randrange(10**6)))
        a = b.endless(k, 1, times, 300 + period, 11025 * q)
        x = b.endless(k, 1, 4 + (c["span"] + 600) // (period * c["hop"]), 10**9, 11025 * q)
        b.relate("endless", c, a, x, period=period, times=times, q=q, atleast=300)
        books.append(b)
    judge(ctx, books, "endless audio")


def c09(ctx):
    rng = random.Random("c09-%d" % ctx.seed)
    books = []
    for rep in range(ctx.n(8, 40)):
        b = Book()
        c = conf(1 + rep % 5) if rep % 3 else conf(1 + rep % 5, rng.choice([128, 256, 1000]), -1, 0)
        if c["c"]["overlap"] >= c["c"]["frame"]:
            c = conf(c["preset"], c["c"]["frame"], c["c"]["frame"] // 2)
        k = b.cfg(c)
        n = c["span"] + rng.randrange(60, 200) * c["hop"]
        items = (n - c["span"]) // c["hop"]
        # audio whose every sample is a multiple of 8 and at most 4000: exact in both directions
        b.base(1, "%s %d %d 500" % (rng.choice(["tones", "noise"]), n, rng.randrange(10**6)))
        b.script.append("src 1 scale 1 8 1")
        b.base(2, "%s %d %d 500" % (rng.choice(["noise", "tones"]), n, rng.randrange(10**6)))
        b.script.append("src 2 scale 2 8 1")
        for shape in ([run(1, 0, n)], [run(1, 0, n // 3), run(2, 0, n // 4), run(1, n // 3, n - n // 3 - n // 4)]):
            a = b.fp(k, shape)
            for gain, neg in ((1, 0), (2, 0), (3, 0), (-1, 0), (-2, 0), (-3, 0), (0, 1), (3, 1), (-2, 1)):
                s = b.fp(k, [dict(r, gain=gain, neg=neg) for r in shape])
                b.relate("scaled", c, a, s, shifts=[0], atleast=items)
        books.append(b)
        # silence, digital and not quite
        b = Book()
        k = b.cfg(c)
        N = c["c"]["frame"]
        amp = 1
        while (c["c"]["csum"] * N * N // 40) * (amp + 1) ** 2 < 10736742:
            amp += 1
        if (c["c"]["csum"] * N * N // 40) * amp * amp >= 10736742:
            amp = 0
        hush = ["noise %d %d %d" % (n, rng.randrange(10**6), amp), "square %d %d %d" % (n, amp, rng.randrange(1, 60)),
                "silence %d" % n, "tones %d %d %d" % (n, rng.randrange(10**6), amp)]
        if amp == 0:
            hush = ["silence %d" % n]
        b.base(9, "tones %d %d 20000" % (n, rng.randrange(10**6)))
        for h in hush:
            b.nsrc += 1
            q = b.nsrc
            b.base(q, h)
            alone = b.fp(k, [run(0, 0, n)], phys=[q])
            b.relate("quiet", c, alone, amp=amp, atleast=items)
            m = c["span"] + rng.randrange(5, 30) * c["hop"] + rng.randrange(c["hop"])
            mid = b.fp(k, [run(9, 0, n // 3), run(0, 0, min(m, n)), run(9, n // 3, n // 2)], phys=[9, q, 9])
            b.relate("quiet", c, mid, amp=amp, atleast=(min(m, n) - c["span"]) // c["hop"] - 1)
        books.append(b)
    judge(ctx, books, "loudness and silence")
    props_signal.chain(ctx, props_signal.levels(rng, ctx.n(16, 120)), "silence floor")


def shifted(ctx, rng):
    """Streams at a power of two times the internal rate, without their first frames: the same items, shifted."""
    books = []
    for rep in range(ctx.n(12, 80)):
        b = Book()
        q = [2, 4, 8, 2, 16][rep % 5]
        fs = rng.choice([64, 128, 256, 100])
        c = [conf(rng.choice([1, 2, 3, 5]), fs, rng.choice([0, fs // 2, fs // 4]), rng.randrange(1, 4)),
             conf(rng.choice([1, 2, 3, 5]))][rep % 3 == 2]
        hop, span = c["hop"], c["span"]
        k = b.cfg(c)
        blocks = rng.randrange(3, 9)
        n = max(32768 * blocks, q * (span + 40 * hop)) + rng.randrange(32768)
        b.base(1, rng.choice(["edges %d %d 20000", "edges %d %d 20000", "noise %d %d 32000", "extreme %d %d", "clicks %d %d 30000 400"])
               % (n, rng.randrange(10**6)))
        b.base(2, "noise %d %d 20000" % (n, rng.randrange(10**6)))
        whole = b.fp(k, [run(1, 0, n)], rate=11025 * q, feed=rng.choice([0, 0, 1152, 40000]))
        items = (n // q - span) // hop
        reach = (300 + hop - 1) // hop
        for m in {1, rng.randrange(1, max(2, items // 2)), 32768 // q // hop + rng.randrange(3), rng.randrange(1, 9)}:
            if m * hop * q >= n:
                continue
            d = b.fp(k, [run(1, m * hop * q, n - m * hop * q)], rate=11025 * q, feed=rng.choice([0, 0, 4608]))
            b.relate("same", c, whole, d, shifts=[m], q=q, rate=11025 * q, atleast=max(0, items - m - 3 * reach - 3))
            # other audio in front and behind
            x, y = rng.randrange(1, 60) * hop * q, rng.randrange(32768)
            e = b.fp(k, [run(2, 0, x), run(1, m * hop * q, n - m * hop * q), run(2, 0, y)], rate=11025 * q)
            b.relate("same", c, whole, e, shifts=[m - x // q // hop], q=q, rate=11025 * q,
                     atleast=max(0, items - m - 3 * reach - 3 - x // q // hop))
        p = rng.randrange(n)
        cut = b.fp(k, [run(1, 0, p), run(2, 0, n - p)], rate=11025 * q)
        b.relate("same", c, whole, cut, shifts=[0], q=q, rate=11025 * q, atleast=max(0, (p // q - span) // hop - reach - 2))
        pat = b.fp(k, [run(1, 0, p), run(2, 0, min(9, n - p)), run(1, min(n, p + 9), max(0, n - p - 9))], rate=11025 * q)
        b.relate("same", c, whole, pat, shifts=[0], q=q, rate=11025 * q, atleast=max(0, (n // q - 2 * span) // hop - 3 * reach - 6))
        books.append(b)
    judge(ctx, books, "shifted conversion")


def c11(ctx):
    ps.replay(ctx, "rates", ctx.n(40, 400), 10, 350000)
    extremes(ctx)
    drift(ctx)
    rng = random.Random("c11-%d" % ctx.seed)
    rates = [8000, 11000, 11024, 11026, 11050, 12000, 16000, 22050, 22051, 24000, 32000, 44100, 48000, 88200, 96000]
    books = []
    for rep in range(ctx.n(8, 40)):
        b = Book()
        c = conf([1, 2, 3, 5, 2][rep % 5])
        k = b.cfg(c)
        seed = rng.randrange(10**6)
        secs = rng.randrange(12, 30)
        b.base(1, "tones %d %d 12000 11025" % (secs * 11025, seed))
        a = b.fp(k, [run(1, 0, secs * 11025)])
        for r in [rates[(rep * 4 + j) % len(rates)] for j in range(4)] + [rng.randrange(8000, 100000)]:
            b.base(2, "tones %d %d 12000 %d" % (secs * r, seed, r))
            x = b.fp(k, [run(2, 0, secs * r)], rate=r, feed=rng.choice([0, 0, 1152, 40000]))
            b.relate("close", c, x, a, rate=r, atleast=(secs * 11025 - c["span"]) // c["hop"] - 1)
        books.append(b)
    judge(ctx, books, "conversion")
    shifted(ctx, rng)
    ps.pipeline(ctx, [2], fault="tail")


def extremes(ctx):
    """Rates at the ends of the range."""
    import json
    cfgs = [{"preset": 2, "fs": 64, "ov": 32, "nc": 2}]
    script = ["src 1 tones 300000 3 9000", ps.cfg_line(1, cfgs[0])]
    for r in [1001, 1002, 1500, 5512, 11024, 11026, 10**6, 10**7, 10**8, 536870911, 536870912, 2**31 - 1, 2**31, 2**32 - 1]:
        for n in (0, 1, 9, 10, 11, 32767, 32768, 32769, 100000, 300000):
            if r < 2000 and n > 100000:
                continue
            script += ["reset", "echo " + json.dumps({"ev": "reset", "h": "extreme rate", "cfgs": cfgs}), "new 1 1",
                       "start 1 %d 1" % r, "consume 1 1 0 %d" % n, "finish 1"]
    groups = []
    for r in ctx.harness(script, timeout=400):
        if r["ev"] == "reset":
            groups.append([])
        groups[-1].append(r)
    ctx.trace("TraceSession", groups, ps.TRACE, "extreme rates", env={"PROP": ctx.prop})


def drift(ctx):
    """Streams that become 10^8 samples, of a length where two samples more or less are one item more or less: a
    ratio that is off by a few parts in 10^8 shows."""
    import json
    import struct
    rng = random.Random("drift-%d" % ctx.seed)
    c = {"preset": 2, "fs": 0, "ov": -1, "nc": 0}
    hop, delay = 1365, 19 * 1365 + 2731
    off = lambda r: 11025 / r - struct.unpack("f", struct.pack("f", 11025 / r))[0]
    pool = list(range(1001, 1400)) + list(range(5000, 5600))
    pool.sort(key=lambda r: abs(off(r)) * r / 11025)
    # ratios that single precision misses by a lot, one way and the other, and any others
    worst = [[r for r in pool[-150:] if (off(r) > 0) == up] for up in (True, False)]
    rates = [rng.choice(w) for w in worst for _ in range(ctx.n(2, 6))] + [rng.choice(pool) for _ in range(ctx.n(4, 20))]
    rates += [rng.choice([48000, 32000, 96000, 88200, 22051, 47952, 64000])] + [rng.randrange(12000, 100000) for _ in range(ctx.n(1, 6))]
    scripts = []
    for k, r in enumerate(rates):
        goal = 10**8 if r < 2000 else 3 * 10**7 if r < 11025 else min(3 * 10**7, 8 * 10**7 * 11025 // r)
        for short in (0, 1):
            # samples beyond a whole number of items
            n = goal * r // 11025
            while ((n - 8) * 11025 // r - delay) % hop not in ((hop - 3, hop - 2) if short else (2, 3)):
                n += 1
            m = min(n, 4 * 10**6)
            scripts.append(["src 1 noise %d %d 9000" % (m, k), ps.cfg_line(1, c), "reset",
                            "echo " + json.dumps({"ev": "reset", "h": "drift", "cfgs": [c]}), "new 1 1",
                            "start 1 %d 1" % r] + ["consume 1 1 0 %d" % min(m, n - a) for a in range(0, n, m)] + ["finish 1"])
    groups = [rs for rs in ctx.harness_many(scripts, timeout=600)]
    ctx.trace("TraceSession", groups, ps.TRACE, "long streams at other rates", env={"PROP": ctx.prop})
