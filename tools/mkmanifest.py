#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif:")]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "FTWIN_VERIF", "enable": "the checks compile /repo/src with goto-cc (and gcc for replays) with -DFTWIN_VERIF and the FTWIN_VERIF_* sizes named in vp/checks.py", "source_commits": hooks},
     "checks": [], "not_applicable": [],
     "notes": "Every check runs CBMC (SAT back end) or symx (LLVM bitcode, Z3) over the repository's current sources linked with a harness in harness/ and stand-ins in lib/. See DESIGN.md."}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 vp/run.py %s --tier quick" % p, "thorough_cmd": "python3 vp/run.py %s --tier thorough" % p,
                            "technique": " and ".join(t for t, on in (("symbolic execution of the C sources with CBMC (SAT)", any(not u.symx for u in c["units"])), ("symbolic execution of their LLVM bitcode with Z3 (symx)", any(u.symx for u in c["units"]))) if on) + ", bounded, with native replay of counterexamples",
                            "level": "other",
                            "level_note": c.get("note", "Holds for every value within the stated bounds; trusts CBMC or symx/clang/Z3, the stand-ins in lib/ and the harness.")})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
