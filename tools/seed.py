#!/usr/bin/env python3
"""Development helper for planted changes (not part of any check).
new(id, prop, needs, what, subs, demo): creates /verif/seeded/<id> from substitutions in /repo.
CLI: seed.py test ID... : applies each, builds, runs the suite, the demo and the property's check, reverts."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
DEMO_SH = """#!/bin/bash
# exits 0 when the behaviour is right; compiled against the library that build.sh made
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
%s -I/repo/include -w -O1 -o "$t/demo" "$here/%s" /repo/lib/libvirg-nexus.a $(pkg-config --libs cairo) -llapack -lcblas -lpng -ljpeg -lGL -lstdc++ -lm -lpthread || exit 99
cd "$t" && timeout 100 ./demo
"""
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def new(id, prop, needs, what, subs, demo, demo_sh=None, cpp=False):
    assert sh("git -C /repo status --porcelain -uno").stdout == ""
    try:
        for f, a, b in subs:
            p = os.path.join(R, f); s = open(p).read(); assert s.count(a) == 1, (id, f, s.count(a), a); open(p, "w").write(s.replace(a, b))
        d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
    finally: sh("git -C /repo checkout -- .")
    if demo_sh is None:
        src = "demo.cpp" if cpp else "demo.c"
        open(os.path.join(d, src), "w").write(demo); demo_sh = DEMO_SH % ("g++ -std=c++11" if cpp else "gcc -std=gnu11", src)
    elif demo: open(os.path.join(d, "demo.c"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def demo(id): r = sh("bash %s/seeded/%s/demo.sh" % (V, id), cwd=R); return r.returncode, (r.stdout + r.stderr)[-300:]
def test(ids, checks=None):
    b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0
    base = {i: demo(i) for i in ids}
    for i in ids:
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i))); a = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i))
        if a.returncode: print(i, "PATCH FAILS", a.stderr); continue
        try:
            b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed_t.json") if b.returncode == 0 else None
            dm = demo(i); c = sh("VERIF_TIER=quick VERIF_SEED=1 python3 check.py %s" % m["property"], cwd=V)
            first = [l for l in c.stdout.split("\n") if "group=" in l][:1]
            print("%-28s %s build=%d tests=[%s] demo clean=%d(%s) patched=%d check=%d %s" % (i, m["property"], b.returncode, (t.stdout.strip().split("\n") or [""])[-1] if t else "-", base[i][0], base[i][1].strip()[-80:] if base[i][0] else "", dm[0], c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED " + (c.stdout + c.stderr)[-300:]), first, flush=True)
        finally: sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
if __name__ == "__main__":
    if sys.argv[1] == "test": test(sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))))
