"""C12, C13: the compressor against the wire format (spec/Codec.tla)."""
import json
import os

REAL = "CONSTANTS W = 32\nNB = 3\nEB = 5\n"
INVS = "INVARIANTS CodesInRange Progress Lossless ClosedForm LengthLaw BytesOK\n"


def mc(w, nb, eb, n):
    return "INIT Init\nNEXT Next\nCONSTANTS W = %d\nNB = %d\nEB = %d\nMaxLen = %d\nCHECK_DEADLOCK FALSE\n" % (
        w, nb, eb, n) + INVS


def gen(ctx, count, maxitems):
    out = os.path.join(ctx.dir, "cases.ndjson")
    ctx.tlc("GenCodec", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n" + REAL,
            env={"SEED": 1 + ctx.seed * 7919 % 60000, "COUNT": count, "MAXITEMS": maxitems, "OUT": out},
            count=False)
    return [json.loads(x) for x in open(out)]


def word(bits):
    return sum(1 << (b - 1) for b in bits)


def check(ctx):
    sizes = [(6, 2, 2, 2), (4, 2, 1, 3)] + ([] if ctx.quick else [(7, 2, 3, 2), (5, 2, 2, 3), (3, 1, 2, 5)])
    for w, nb, eb, n in sizes:
        ctx.model("MCCodec", mc(w, nb, eb, n), "every fingerprint of <= %d items of %d bits, codes %d/%d bits"
                  % (n, w, nb, eb))
    cases = gen(ctx, ctx.n(250, 1500), ctx.n(60, 120))
    script, ids = [], {}
    for k, c in enumerate(cases):
        if c["id"] not in ids:
            ids[c["id"]] = len(ids) + 1
            script.append("cfg %d %d id=%d" % (ids[c["id"]], 1 + len(ids) % 5, c["id"]))
        items = ",".join(str(word(b)) for b in c["items"]) or "-"
        script.append("compress c%d %d %s" % (k, ids[c["id"]], items))
    big = [255, 256, 257, 4095, 65535, 65536, 70000, 131072]
    if not ctx.quick:
        big += [1 << 20, (1 << 24) - 1, 16711680, 8388608]
    else:
        big += [(1 << 24) - 1]
    script.append("cfg 9001 2 id=%d" % (ctx.seed % 256))
    for n in big:
        at = sorted({0, 8, n // 16 * 8, (n - 1) // 8 * 8, max(0, (n - 9) // 8 * 8), min(n, 65536) // 16 * 8,
                     max(0, (65535 - 8) // 8 * 8) % max(8, n - 7) // 8 * 8})
        script.append("compressbig b%d 9001 %d %d %s" % (n, n, ctx.seed + n, ",".join(map(str, at))))
    recs = ctx.harness(script)
    for r in recs:
        r["_cost"] = 3 + len(r.get("items", []))
    ctx.trace("TraceCodec", [[r] for r in recs],
              "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n" + REAL,
              "compressor output", env={"PROP": ctx.prop})
    ctx.sample({k: v for k, v in recs[40].items() if k[0] != "_"})
    ctx.parts["inputs"] = {"fingerprints": len(cases), "long": len(big),
                           "gap transitions (last bit, next bit)": 528,
                           "distinct ids": len({c["id"] for c in cases})}
    ctx.assumptions += ["the small models differ from the real format only in the widths W, NB, EB",
                        "fingerprints between the sampled ones behave like them (encoder state is one gap)"]
