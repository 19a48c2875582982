"""Selects a corpus from the output of GenHard (tlc, see DESIGN.md): spec/hard.ndjson."""
import collections
import json
import random
import re
import sys

finds = []
for line in open(sys.argv[1]):
    m = re.match(r'<<"HARD", "(.*)">>$', line.strip())
    if m:
        finds.append(json.loads(json.loads('"' + m.group(1) + '"')))
rng = random.Random(1)
rng.shuffle(finds)
finds.sort(key=lambda f: -len(f["goals"]))
n, out, seen = collections.Counter(), [], set()
for f in finds:
    key = tuple(f["b"])
    if key in seen or all(n[g] >= 40 for g in f["goals"]):
        continue
    seen.add(key)
    out.append(f)
    n.update(f["goals"])
with open(sys.argv[2], "w") as o:
    for f in out:
        o.write(json.dumps(f, separators=(",", ":")) + "\n")
print(len(out), dict(n))
