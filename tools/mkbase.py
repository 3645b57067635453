#!/usr/bin/env python3
"""Regenerates dfy/baseline.json: the routines of the real files whose own contracts are decided (proved within the bounds) on the
current tree. Usage: mkbase.py [PROP...]"""
import json, os, sys
sys.path[:0] = ["/verif/lib", "/verif/dfy"]
import dfycheck, props
out = dfycheck.baseline()
for id in sys.argv[1:] or list(props.PROPS):
    sp, jobs = props.PROPS[id], []
    for f in sp["contracts"]:
        f, base = f if isinstance(f, tuple) else (f, sp["base"])
        for m, d, cls in dfycheck.routines(f"/repo/{f}"):
            if not d["ensures"] and d["k"] == "function": continue
            if d["k"] == "method" and not d["ensures"] and "lemma" in str(d.get("kind")): continue
            jobs.append((f"/repo/{f}", m.name, (cls["name"] + "." if cls else "") + d["name"], "contract", base, 40))
    res = dfycheck.run_jobs(jobs)
    o = {}
    for r in sorted(res, key=lambda r: r["name"]):
        if r["status"] == "proved":
            o.setdefault(r["file"][6:], []).append(r["name"].replace(".", "::", 1))
        elif r["status"] != "none": print(id, r["name"], r["status"], r["detail"][:120], str(r.get("inputs", ""))[:150])
    out[id] = o
    print(id, {k: len(v) for k, v in o.items()})
json.dump(out, open("/verif/dfy/baseline.json", "w"), indent=1, sort_keys=True)
