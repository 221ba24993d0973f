#!/usr/bin/env python3
"""tools/mkseed.py FILE.py [ID...]: (re)build seeded changes from a definition file; confirm each in a scratch copy made by hand.

The definition file holds SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo, files={name: text})].
For each: the edits are applied to /repo, built, the stable tests run, the demo run with and without."""
import json, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests():
    sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base.get("passed") or base.get("stable") or base.get("tests")
    got = set(json.load(open("/tmp/seed_out.json"))["passed"])
    return [t for t in base if t not in got]
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
want = sys.argv[2:]
for s in seeds:
    if want and s["id"] not in want:
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == "", "repo dirty"
    for f, old, new in s["edits"]:
        p = os.path.join("/repo", f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
    open(os.path.join(d, "demo.sh"), "w").write(s["demo"])
    for n, t in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(s["id"], "BUILD FAILED", b.stderr[-1500:]); continue
        m = tests()
        r = sh("timeout 280 bash %s/demo.sh" % d, cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    r0 = sh("timeout 280 bash %s/demo.sh" % d, cwd="/repo")
    print(s["id"], "tests lost:", m or "none", "| with:", r.returncode, (r.stdout + r.stderr)[-200:].replace("\n", " / "), "| without:", r0.returncode, (r0.stdout + r0.stderr)[-300:].replace("\n", " / "))
sh("git -C /repo checkout -- .")
