#!/usr/bin/env python3
"""Makes the planted bugs under seeded/ from tools/bugs.py and confirms each one: it applies to /repo's HEAD, builds,
passes the stable tests, and its demonstration passes without it and fails with it.
usage: plant.py make ID... | confirm ID... | catch ID [CHECK...]   (ID may be `all`)"""
import json, os, subprocess, sys, difflib, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
R = "/repo"
sys.path.insert(0, os.path.join(V, "tools"))

LIB_SH = '''#!/bin/bash
# Builds demo.rs against the library in the current directory, in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rusty-chromaprint = { path = "$repo/chromaprint" }
[workspace]
[profile.dev]
opt-level = 1
debug = false
X
cd "$work" || exit 2
timeout 280 cargo run --offline -q --target-dir "$work/target"
'''
BIN_SH = '''#!/bin/bash
# Builds the programs in the current directory and runs demo.py on them, in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cargo build --offline -q -p fpcalc -p compare || exit 2
timeout 200 python3 "$here/demo.py" "$repo/target/debug" "$work"
'''
PRELUDE = '''#![allow(dead_code)]
use rusty_chromaprint::*;

fn noise(seed: u64, n: usize, amp: i64) -> Vec<i16> {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (((x >> 20) % (2 * amp as u64 + 1)) as i64 - amp) as i16
        })
        .collect()
}
fn tone(rate: f64, freq: f64, n: usize, amp: f64) -> Vec<i16> {
    (0..n).map(|i| (amp * (2.0 * std::f64::consts::PI * freq * i as f64 / rate).sin()) as i16).collect()
}
fn fp(c: &Configuration, rate: u32, ch: u32, s: &[i16]) -> Vec<u32> {
    let mut f = Fingerprinter::new(c);
    f.start(rate, ch).unwrap();
    f.consume(s);
    f.finish();
    f.fingerprint().to_vec()
}
fn diff(a: &[u32], b: &[u32]) -> u32 {
    a.iter().zip(b).map(|(x, y)| (x ^ y).count_ones()).sum()
}
'''
PYPRE = '''import json, os, struct, subprocess, sys, wave, math
BIN, WORK = sys.argv[1:3]
def wav(name, rate, ch, samples):
    p = os.path.join(WORK, name)
    with wave.open(p, "wb") as w:
        w.setnchannels(ch); w.setsampwidth(2); w.setframerate(rate)
        w.writeframes(struct.pack("<%dh" % len(samples), *samples))
    return p
def noise(seed, n, amp):
    x, r = seed * 2654435761 % 2**32 | 1, []
    for _ in range(n):
        x ^= x << 13 & 0xFFFFFFFF; x ^= x >> 17; x ^= x << 5 & 0xFFFFFFFF
        r.append((x >> 8) % (2 * amp + 1) - amp)
    return r
def run(prog, *args):
    p = subprocess.run([os.path.join(BIN, prog), *map(str, args)], capture_output=True, text=True)
    if p.returncode:
        print(p.stderr); sys.exit("%s failed" % prog)
    return p.stdout
def raw(*args):
    return [[int(x) for x in l.split(",") if x] for l in run("fpcalc", "-R", "-F", "plain", *args).splitlines()]
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def make(b):
    d = os.path.join(S, b["id"])
    os.makedirs(d, exist_ok=True)
    texts = {}
    for f, old, new in b["edits"]:
        t = texts.setdefault(f, [open(os.path.join(R, f)).read()] * 2)
        assert t[1].count(old) == 1, (b["id"], f, t[1].count(old), old)
        texts[f] = [t[0], t[1].replace(old, new)]
    with open(os.path.join(d, "patch.diff"), "w") as o:
        for f, (a, c) in texts.items():
            o.write("diff --git a/%s b/%s\n" % (f, f))
            o.writelines(difflib.unified_diff(a.splitlines(True), c.splitlines(True), "a/" + f, "b/" + f))
    if "rs" in b:
        open(os.path.join(d, "demo.rs"), "w").write(PRELUDE + "\nfn main() {\n" + b["rs"].strip("\n") + "\n}\n")
        open(os.path.join(d, "demo.sh"), "w").write(LIB_SH)
    else:
        open(os.path.join(d, "demo.py"), "w").write(PYPRE + b["py"])
        open(os.path.join(d, "demo.sh"), "w").write(BIN_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def clean():
    assert sh("git -C /repo checkout -- .").returncode == 0


def stable():
    out = "/tmp/vp-out.json"
    p = sh("bash /opt/vp/test.sh " + out)
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base
    got = json.load(open(out))
    return p.returncode, got, want, p


def demo(i):
    p = sh(["bash", os.path.join(S, i, "demo.sh")], cwd=R)
    return p.returncode, (p.stdout + p.stderr)[-700:]


def confirm(i):
    clean()
    r0, o0 = demo(i)
    p = sh(["git", "-C", R, "apply", os.path.join(S, i, "patch.diff")])
    if p.returncode:
        print(i, "PATCH DOES NOT APPLY", p.stderr); return False
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(i, "DOES NOT BUILD", b.stderr[-1500:]); return False
        t = sh("bash /opt/vp/test.sh /tmp/vp-out.json")
        r1, o1 = demo(i)
    finally:
        clean()
    ok = r0 == 0 and r1 != 0 and t.returncode == 0
    print(i, "ok" if ok else "BAD", "clean", r0, "patched", r1, "tests", t.returncode, flush=True)
    if not ok:
        print(o0[-600:], "\n---\n", o1[-600:], "\n---\n", t.stdout[-600:] if t.returncode else "")
    else:
        print("    ", o1.strip().splitlines()[-3:] if o1.strip() else "")
    return ok


def catch(i, checks):
    if not checks:
        checks = [json.load(open(os.path.join(S, i, "meta.json")))["property"]]
    clean()
    assert sh(["git", "-C", R, "apply", os.path.join(S, i, "patch.diff")]).returncode == 0
    try:
        for c in checks:
            t = time.time()
            p = sh([sys.executable, os.path.join(V, "check.py"), c], cwd=V)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, c, "exit", p.returncode, "%.0fs" % (time.time() - t), v[:1] or p.stderr[-300:], flush=True)
    finally:
        clean()


def main():
    from bugs import BUGS
    cmd, ids = sys.argv[1], sys.argv[2:]
    by = {b["id"]: b for b in BUGS}
    rest = []
    if cmd == "catch":
        ids, rest = ids[:1], ids[1:]
    if ids == ["all"]:
        ids = list(by)
    for i in ids:
        if cmd == "make":
            make(by[i])
        elif cmd == "confirm":
            make(by[i]); confirm(i)
        elif cmd == "catch":
            catch(i, rest)


main()
