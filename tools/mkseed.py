#!/usr/bin/env python3
"""mkseed.py SPEC.py...: plant one bug in /repo, confirm it (builds, stable tests pass, demo 0 -> nonzero), run its check, undo, store under seeded/.
A spec defines id, prop, needs, breaks, edits=[(file, old, new)...], demo (C++ source or None), sh (optional full demo.sh), flags."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = """#!/bin/bash
# exit 0: behaviour intact; nonzero: broken. Runs in /repo.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
g++-10 -std=c++17 -DLIBICONV_PLUG -w -I"$PWD/include" -msse2 -mcx16 %s "$D/demo.cpp" -o "$W/demo" %s || exit 98
cd "$W" && timeout -k 5 100 ./demo
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def edit(p, pairs):
    s = open(p, "rb").read()
    for a, b in pairs:
        a, b = a.encode("latin-1"), b.encode("latin-1")
        if b"\r\n" in s:
            a, b = a.replace(b"\n", b"\r\n"), b.replace(b"\n", b"\r\n")
        assert s.count(a) == 1, (p, s.count(a), a)
        s = s.replace(a, b)
    open(p, "wb").write(s)


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seed.o.json", timeout=900)
    return json.load(open("/tmp/seed.o.json")), r.stdout


def one(spec, keep=True):
    g = {}
    exec(open(spec, encoding="latin-1").read(), g)
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    d = "%s/seeded/%s" % (V, g["id"])
    os.makedirs(d, exist_ok=True)
    if g.get("demo"):
        open(d + "/demo.cpp", "w").write(g["demo"])
    open(d + "/demo.sh", "w").write(g.get("sh") or SH % (g.get("flags", "-O0 -g -pthread"), g.get("link", "")))
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = set(base.get("passed") or base.get("stable") or base) if isinstance(base, dict) else set(base)
    ok = True
    r0 = sh("bash %s/demo.sh" % d, cwd=R)
    by = {}
    for f, a, b in g["edits"]:
        by.setdefault(f, []).append((a, b))
    try:
        for f, prs in by.items():
            edit(R + "/" + f, prs)
        open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", R, "diff", "--binary"], stdout=subprocess.PIPE).stdout)
        t, out = tests()
        miss = base - set(t["passed"])
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        c = sh("python3 %s/check.py %s quick" % (V, g["prop"]))
    finally:
        sh("git -C /repo checkout -- .")
    ok = r0.returncode == 0 and r1.returncode not in (0, 98, 99) and not miss
    print("%s %s: demo clean=%d bug=%d tests-missing=%s check=%d %s" % ("OK " if ok else "BAD", g["id"], r0.returncode, r1.returncode, sorted(miss)[:4], c.returncode,
          "CAUGHT" if "VIOLATION property=%s " % g["prop"] in c.stdout else "MISSED"))
    if r0.returncode or not ok:
        print(r0.stdout[-600:], "\n--bug:", r1.stdout[-600:])
        if miss:
            print("   ", [l for l in out.splitlines() if "FAIL" in l])
    print("\n".join("   " + l[:200] for l in c.stdout.splitlines()[1:4]))


for s in sys.argv[1:]:
    one(s)
sh("bash /opt/vp/build.sh")
