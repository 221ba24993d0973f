"""python3 tools/symx.py PROP UNIT: build the unit's bitcode and print the command that explores it."""
import os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vp"))
import engine, checks
u = next(u for u in checks.CHECKS[sys.argv[1]]["units"] if u.name == sys.argv[2])
b = engine.Builder(tempfile.mkdtemp(prefix="symx"))
print(b.symx(), b.bitcode(u))
