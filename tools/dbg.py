"""Build one unit and print the cbmc command line (development aid)."""
import os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
import engine, checks
prop, name = sys.argv[1:3]
u = next(u for u in checks.CHECKS[prop]["units"] if u.name == name)
w = tempfile.mkdtemp(prefix="dbg")
b = engine.Builder(w)
print(" ".join(c for c in engine.cbmc_cmd(u, b.goto(u, False), u.unwind, False) if c not in ("--json-ui",)))
