#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl; builds engine/bin/fsym-<hash>."""
import json, os, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks, run
NA = getattr(checks, "NOT_APPLICABLE", {})
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
exe = run.engine(); os.makedirs(V + "/engine/bin", exist_ok=True); dst = V + "/engine/bin/" + os.path.basename(exe)
if exe != dst:
    for f in glob.glob(V + "/engine/bin/fsym-*"): os.remove(f)
    shutil.copy(exe, dst); os.system("strip " + dst)
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS and checks.CHECKS[i]["jobs"]:
        c = checks.CHECKS[i]
        cs.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i, level=c["level"],
            technique="symbolic execution of the LLVM IR of /repo/src with SMT (z3) discharge of every assertion; counterexamples replayed natively",
            level_note="Bounded: %s. Outside: %s." % (c.get("bounds", ""), c.get("outside", ""))))
    else: na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 -c 'import run; print(run.engine())'", checks=cs, not_applicable=na, hooks=dict(define="", note="no hooks are needed") if False else None)
m = {k: v for k, v in m.items() if v is not None}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(cs), "claimed", len(na), "not")
