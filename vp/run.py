#!/usr/bin/env python3
"""vp/run.py PROPERTY [--tier quick|thorough] [--unit NAME]: decide one property on /repo's current tree."""
import argparse, json, os, re, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import Builder, decide
from checks import CHECKS


def repo_functions(functions, srcs):
    """Names among `functions` that are defined in the given repository sources."""
    text = ""
    for s in srcs:
        try:
            text += open(os.path.join(engine.SRC, s), errors="replace").read()
        except OSError:
            pass
    return sorted(f for f in functions if re.search(r"\b%s\s*\(" % re.escape(f), text) and not f.startswith(("vp_", "apr_", "__")))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    chk = CHECKS[a.prop]
    units = [u for u in chk["units"] if a.tier == "thorough" or u.tier == "quick"]
    if a.tier == "thorough":
        deeper = {u.name[:-len("_deep")] for u in units if u.name.endswith("_deep")}
        units = [u for u in units if u.name not in deeper]
    if a.unit:
        units = [u for u in chk["units"] if u.name == a.unit]
    t0 = time.time()
    deadline = t0 + (840 if a.tier == "quick" else 6 * 3600)
    work = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
    def log(s):
        print("  " + s, flush=True)
    try:
        b = Builder(work)
        units.sort(key=lambda u: -u.cost)
        with ThreadPoolExecutor(a.jobs) as ex:
            outs = list(ex.map(lambda u: decide(b, u, log, deadline), units))
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    rc = 0
    viol, findings = [], []
    rdir = os.path.join(engine.VERIF, "evidence", "replay")
    known = json.load(open(os.path.join(engine.VERIF, "known_findings.json")))
    for o in outs:
        u = o.unit
        print(("%-34s %-10s paths=%d instructions=%d assertions=%d queries=%d solver=%.1fs wall=%.1fs %s" % (u.name, o.status, o.paths, o.instructions, o.nprops, o.queries, o.solver_s, o.wall, o.detail)) if u.symx else
              "%-34s %-10s unwind=%d props=%d vccs=%d symex=%.1fs solver=%.1fs wall=%.1fs %s" %
              (u.name, o.status, o.unwind, o.nprops, o.queries, o.symex_s, o.solver_s, o.wall, o.detail), flush=True)
        for n in o.notes:
            print("  note: not confirmed by a native run: %s" % n)
        if o.status == "violation":
            entry = next((k for k in known.get("findings", []) if k.get("status") == "open" and k["property"] == a.prop and k["unit"] == u.name), None) if u.finding else None
            if entry:
                findings.append("%s %s" % (entry["id"], entry["what"]))
                continue
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%s.txt" % (a.prop, u.name))
            with open(rp, "w") as fh:
                fh.write("# property %s unit %s\n# %s\n# replay: python3 %s/vp/replay.py %s\n" % (a.prop, u.name, o.detail.replace("\n", " "), engine.VERIF, rp))
                fh.write("\n".join(str(v) for v in o.replay) + "\n")
            viol.append((u.name, o.detail, rp))
    undecided = [o for o in outs if o.status == "undecided"]
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f))
    for n, d, rp in viol:
        print("  violated in %s: %s" % (n, d))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
    if viol:
        rc = 1
    elif undecided:
        print("UNDECIDED %s: %s" % (a.prop, "; ".join("%s: %s" % (o.unit.name, o.detail) for o in undecided)))
        # a unit that could not be explored is said so here and in the evidence; what was explored held.  A counterexample
        # that does not reproduce, a vacuous unit, or nothing explored at all is no answer.
        if not any(o.status == "pass" for o in outs) or any(o.hard for o in undecided):
            rc = 2
    srcs = sorted({s for u in units for s in u.srcs})
    funcs = sorted({f for o in outs for f in o.functions})
    ev = {
        "property": a.prop, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real functions by CBMC; each harness is decided by the SAT back end for every value of its symbolic inputs within the stated bounds, with unwinding assertions on, and has a reachability twin. " + chk.get("explain", ""),
            "functions_encoded": repo_functions(funcs, srcs),
            "sources": srcs,
            "harnesses": [{"name": o.unit.name, "verdict": o.status, "bounds": o.unit.bounds, "unwind": o.unwind, "assertions": o.nprops,
                           "vccs": o.queries, "cbmc_runs": o.runs, "symex_s": round(o.symex_s, 2), "solver_s": round(o.solver_s, 2),
                           "wall_s": round(o.wall, 2), "reached": o.covers, **({"paths": o.paths, "instructions": o.instructions, "executor": "symx/z3"} if o.unit.symx else {"executor": "cbmc"}), "unconfirmed_language_checks": o.notes} for o in outs],
            "queries_discharged": sum(o.queries for o in outs),
            "solver_s": round(sum(o.solver_s for o in outs), 2),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": list(chk.get("assumptions", [])) + sorted({x for u in units for x in u.assumptions}),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(engine.VERIF, "evidence"), exist_ok=True)
    if not a.unit:
        with open(os.path.join(engine.VERIF, "evidence", a.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
    sys.exit(rc)


main()
