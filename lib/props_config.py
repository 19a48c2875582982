"""Builder calls (C05, C10): real configurations against spec/Config.tla."""
import json
import os
import random

TRACE = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
MODEL = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT MaxCalls = %d\n"
         "INVARIANTS LastWins BuildAgrees Swapped KeepsTables DelayIsWindow WindowIsDelay\n")
OP = {"id": "id", "frame": "fs", "overlap": "ov", "coefs": "coef", "interp": "interp", "silence": "sil"}


def words(calls):
    out = []
    for c in calls:
        v = ",".join(str(x / 8) for x in c["v"]) if c["op"] == "coefs" else str(c["v"])
        out.append("%s=%s" % (OP[c["op"]], v))
    return " ".join(out)


def check(ctx, count):
    ctx.model("MCConfig", MODEL % ctx.n(3, 5), "builder calls: all sequences of <= %d calls" % ctx.n(3, 5))
    out = os.path.join(ctx.dir, "configs.ndjson")
    ctx.tlc("GenConfig", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n",
            env={"SEED": 1 + ctx.seed * 4801 % 60000, "COUNT": count, "OUT": out}, count=False)
    cases = [json.loads(x) for x in open(out)]
    rng = random.Random("cfg-%d" % ctx.seed)
    scripts = [[] for _ in range(8)]
    order = [[] for _ in range(8)]
    for k, c in enumerate(cases):
        s = scripts[k % 8]
        s += ["cfg 1 %d %s" % (c["preset"], words(c["calls"])), "cfg 2 %d %s" % (c["base"], words(c["canon"])),
              "cfginfo 1"]
        hop, delay = c["hop"], c["delay"]
        most = min(40 if k % 4 else 300, 260000 // hop)
        lens = sorted({max(0, delay - 1), delay + hop * rng.randrange(1, most + 2) - rng.randrange(2), delay + most * hop})
        for j, n in enumerate(lens):
            kind = ["tones %d %d 9000", "noise %d %d 12000", "noise %d %d 200"][(k + j) % 3] % (n, rng.randrange(10**6))
            s += ["src 1 " + kind, "fp %d-%d-a 1 11025 1 1" % (k, j), "fp %d-%d-b 2 11025 1 1" % (k, j)]
        order[k % 8].append((k, lens))
    recs = []
    for got, ks in zip(ctx.harness_many(scripts), order):
        it = iter(got)
        for k, lens in ks:
            info = next(it)
            runs, res = [], "ok" if info["delay"] >= 0 and info["durnano"] >= 0 else "panic"
            for n in lens:
                a, b = next(it), next(it)
                if a["res"] != "ok" or b["res"] != "ok":
                    res = "panic"
                runs.append({"n": n, "items": a["n"], "id": a["id"], "twin": b["id"]})
            recs.append({"ev": "config", "preset": cases[k]["preset"], "calls": cases[k]["calls"], "res": res,
                         "id": info["id"], "delay": info["delay"], "durnano": info["durnano"], "rate": info["rate"],
                         "runs": runs})
    ctx.parts["configurations"] = {"built": len(recs), "calls": sum(len(r["calls"]) for r in recs),
                                   "fingerprints": sum(len(r["runs"]) for r in recs),
                                   "items": sum(x["items"] for r in recs for x in r["runs"])}
    ctx.trace("TraceConfig", [[r] for r in recs], TRACE, "builder calls")
