#!/usr/bin/env python3
"""vp/replay.py FILE: rebuild the harness natively from /repo's current tree and run it on a recorded counterexample."""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import Builder, replay_native
from checks import CHECKS
text = open(sys.argv[1]).read()
prop, unit = re.search(r"# property (\S+) unit (\S+)", text).groups()
u = next(x for x in CHECKS[prop]["units"] if x.name == unit)
vals = [int(l) for l in text.splitlines() if l and not l.startswith("#")]
work = tempfile.mkdtemp(prefix="vp-replay-")
try:
    ok, what = replay_native(Builder(work).native(u), vals, work, 60)
finally:
    shutil.rmtree(work, ignore_errors=True)
print("%s %s: reproduced=%s %s" % (prop, unit, ok, what))
sys.exit(1 if ok in ("yes", "hang") else 0)
