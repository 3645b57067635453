#!/usr/bin/env python3
"""Regenerates vir/baseline.json: the proof fns of the Splinter sources that the evaluator decides. Usage: mkvirbase.py [PROP...]"""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [D + "/lib", D + "/vir"]
import vircheck, vprops, vireval, shutil, tempfile
LIM = int(os.environ.get("LIM", "60"))
props = sys.argv[1:] or [p for p in vprops.PROPS]
bl = vircheck.baseline()
for root in ("lib.rs", "sequential_main.rs"):
    ps = [p for p in props if vprops.PROPS[p].get("root", "lib.rs") == root]
    if not ps: continue
    t = tempfile.mkdtemp()
    cr, _, _ = vircheck.crate(root, t + "/s", t + "/l")
    vircheck.W["w"] = vireval.World(cr)
    jobs, owner = [], {}
    for p in ps:
        for g, (pat, cfg) in enumerate(vprops.PROPS[p]["groups"]):
            for n in vircheck.proofs(cr, pat):
                if n in owner or "vstd" in n.split("::")[0]: continue
                owner[n] = (p, g); jobs.append((n, "contract", cfg, LIM))
    new = {p: {} for p in ps}
    for r in vircheck.run_jobs(jobs):
        p, g = owner[r["name"]]
        k = vircheck.key(r["name"])
        if r["status"] == "proved":
            if new[p].get(k, 0) is not None: new[p][k] = dict(name=k, g=g, secs=max(r["secs"], (new[p].get(k) or dict(secs=0))["secs"]))
        elif r["status"] not in ("none",):
            print(p, r["status"], vircheck.short(r["name"])[-90:], r["detail"][:120], ("CONFIRMED " + r["inputs"][:200]) if r.get("confirmed") else "", r["secs"], flush=True)
            if k in new[p] and r["status"] == "refuted" or r["status"] == "refuted": new[p][k] = None
    for p in ps:
        bl[p] = sorted((q for q in new[p].values() if q), key=lambda q: q["name"])
        print(p, len(bl[p]), "proved", round(sum(q["secs"] for q in bl[p])), "s CPU")
    shutil.rmtree(t)
json.dump(bl, open(D + "/vir/baseline.json", "w"), indent=0, sort_keys=True)
