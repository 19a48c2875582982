#!/usr/bin/env python3
"""Mutation campaign (development aid, no check uses it). Makes small changes to the sources in scratch copies, drops
those that do not compile or fail the stable tests, and runs the checks that concern the file on the rest, in a mount
namespace where the copies stand in for /repo and /verif. `touch /tmp/mut/stop` ends it.
usage: mutate.py list | run OUT [WORKERS] [FILE-PATTERN] [SEED]"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

W = "/tmp/mut"
SRC = "chromaprint/src"
FILES = [SRC + "/" + f for f in sorted(os.listdir("/repo/" + SRC)) if f.endswith(".rs") and f not in ("lib.rs",)] + [
    "fpcalc/src/main.rs", "compare/src/main.rs", "compare/src/utils.rs"]
PATS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]),
        (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
        (r" % ", [" / "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
        (r"\.round\(\)", [".floor()"]), (r"\.floor\(\)", [".ceil()"]), (r"\.ceil\(\)", [".floor()"]), (r" << ", [" >> "]), (r" >> ", [" << "]),
        (r"\.\.=", [".."]), (r"(?<![=.])\.\.(?![=.])", ["..="]), (r" \^ ", [" | "]), (r" & ", [" | "]), (r" \| ", [" & "]),
        (r"\.is_empty\(\)", [".is_empty() == false"]), (r"\.rev\(\)", [""]), (r"chunks_exact\(", ["chunks("])]


ORIG = {f: open("/repo/" + f).read() for f in FILES}


def body(lines):
    for i, l in enumerate(lines):
        if l.startswith("#[cfg(test)]"):
            return i
    return len(lines)


def mutants():
    out = []
    for f in FILES:
        lines = ORIG[f].split("\n")
        for i in range(body(lines)):
            l = lines[i]
            if re.match(r"\s*(//|#\[|use |///|pub use)", l) or not l.strip():
                continue
            code = l.split(" //")[0]
            def add(new, what):
                if new != l:
                    out.append({"file": f, "line": i, "old": l, "new": new, "what": what})
            for pat, reps in PATS:
                if pat in (r" < ", r" > ") and ("fn " in l or "impl" in l):
                    continue
                for m in re.finditer(pat, code):
                    for r in reps:
                        add(l[:m.start()] + r + l[m.end():], pat)
            for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?![\w.]|\.\d)", code):
                v = int(m.group(1).replace("_", ""))
                if f.endswith("classifier.rs"):
                    continue
                for d in (1, -1):
                    if v + d >= 0:
                        add(l[:m.start()] + str(v + d) + l[m.end():], "int%+d" % d)
            for m in re.finditer(r"(?<![\w.])(\d[\d_]*\.\d+)(?![\w])", code):
                v = float(m.group(1).replace("_", ""))
                add(l[:m.start()] + repr(v * 1.05 + (0.01 if v == 0 else 0)) + l[m.end():], "float")
            if re.match(r"\s*(self\.|\w+\.|\w+(\[.*\])? [-+*/]?= |\w+\(|\*\w+ )", code) and code.rstrip().endswith(";") and "let " not in code:
                add(re.match(r"\s*", l).group(0) + "();", "delete")
            m = re.match(r"(\s*(?:\} else )?if )(?!let )(.*)( \{)\s*$", code)
            if m:
                add(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "if false")
                add(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "if true")
    return out


# checks that look at what a file does, the likeliest first
CHECKS = {"audio_processor": "C11 C02 C03 C04 C01 C06", "fingerprint_matcher": "C16 C14 C15 C17 C18 C19", "gaussian": "C16 C15 C14",
          "gradient": "C16 C15", "compression": "C13 C12", "fingerprinter": "C05 C10 C01 C04 C07 C09",
          "fft": "C02 C07 C01 C05", "": "C07 C10 C08 C09 C01 C05 C16"}


def setup(k):
    d = "%s/w%d" % (W, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["cp", "-a", "/verif", d + "/verif"], check=True)
    return d


def run(d, cmd, t):
    """With the copies in the place of the originals."""
    try:
        return subprocess.run(["timeout", "-k", "5", str(t), "unshare", "-m", "sh", "-c",
                               "mount --bind %s/repo /repo && mount --bind %s/verif /verif && %s" % (d, d, cmd)],
                              capture_output=True, cwd="/")
    except subprocess.TimeoutExpired:
        return None


def one(d, m):
    p = "%s/repo/%s" % (d, m["file"])
    orig = ORIG[m["file"]]
    lines = orig.split("\n")
    assert lines[m["line"]] == m["old"]
    lines[m["line"]] = m["new"]
    open(p, "w").write("\n".join(lines))
    try:
        if m["file"].startswith(SRC):
            r = run(d, "cd /repo && cargo test --offline -q -p rusty-chromaprint --lib --target-dir %s/t" % d, 150)
        else:
            r = run(d, "cd /repo && cargo build --offline -q --target-dir %s/t" % d, 150)
        if r.returncode == 124:
            return "test timeout"
        if r.returncode:
            return "no compile" if b"could not compile" in r.stderr else "killed by tests"
        stem = os.path.basename(m["file"])[:-3]
        todo = CHECKS.get(stem, CHECKS[""]) if m["file"].startswith(SRC) else "C20 C21 C22" if "fpcalc" in m["file"] else "C19"
        m["checks"] = {}
        for c in todo.split():
            r = run(d, "cd /verif && python3 check.py " + c, 600)
            m["checks"][c] = r.returncode
            if r.returncode not in (0,):
                if r.returncode != 1:
                    m["out"] = (r.stdout[-300:] + r.stderr[-500:]).decode("utf-8", "replace")
                return "caught"
        return "NOT CAUGHT"
    finally:
        open(p, "w").write(orig)


def main():
    ms = mutants()
    if sys.argv[1] == "list":
        for f in FILES:
            print(f, sum(m["file"] == f for m in ms))
        print(len(ms))
        return
    nw = int(sys.argv[3]) if len(sys.argv) > 3 else 2
    if len(sys.argv) > 4:
        ms = [m for m in ms if re.search(sys.argv[4], m["file"])]
    seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(sys.argv[2]):
        for l in open(sys.argv[2]):
            x = json.loads(l)
            done.add((x["file"], x["old"], x["new"]))
    ms = [m for m in ms if (m["file"], m["old"], m["new"]) not in done]
    dirs = [setup(k) for k in range(nw)]
    free, lock = list(dirs), threading.Lock()
    out = open(sys.argv[2], "a")

    def job(m):
        if os.path.exists(W + "/stop"):
            return
        with lock:
            d = free.pop()
        try:
            m["res"] = one(d, m)
        finally:
            with lock:
                free.append(d)
                out.write(json.dumps(m) + "\n")
                out.flush()

    with cf.ThreadPoolExecutor(nw) as ex:
        list(ex.map(job, ms))


main()
