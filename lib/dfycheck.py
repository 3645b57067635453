"""Checks decided by symbolic execution of the Dafny sources (dfy.py) and z3.

Two kinds of obligations, both over the files as they are in the repository now:
  harness   lemmas and methods in /verif/dfy/<file>.dfy that include the real files and state the property against an independent
            oracle; requires => ensures (and every assert of a method) over all bounded inputs
  contract  routines of the real files themselves (listed in dfy/baseline.json): requires => ensures of the body as it is now
"""
import json, os, signal, sys, time, traceback
from report import Check, REPO, VERIF
import jobs as jobspool
import sv, dfy
from sv import *

DIR = VERIF + "/dfy"
_worlds = {}


class TO(Exception):
    pass


def _alarm(*a): raise TO()


def world(path):
    w = _worlds.get(path)
    if w is None:
        w = _worlds[path] = dfy.World([path])
    return w


def bigs(lo, hi):
    """Type value: integers of the range lo..hi."""
    return lambda nm, ev: fresh_int(nm, lo, hi)


def seqs(n, lo, hi):
    return lambda nm, ev: fresh_seq(nm, n, lambda k: fresh_int(k, lo, hi))


def listing(*vs): return list(vs)


HELP = dict(bigs=bigs, seqs=seqs, mkSeq=mkSeq, mkSet=mkSet, T=T, F=F, range=range, dict=dict, list=list, mkD=mkD)


def cfg_of(d, base=None):
    k = dict(base or {})
    for a in d.get("attrs") or []:
        if a.startswith("cfg "):
            k.update(eval("dict(" + a[4:].strip()[1:-1] + ")", dict(HELP)))
    return dfy.Cfg(**k)


def routines(path, own=True):
    """(module, class name or None, decl, class decl) of every routine declared in the file itself."""
    w = world(path)
    out = []
    for mn, m in list(w.mods.items()) + [(s.name, s) for k in list(w.mods.values()) for s in k.sub.values()]:
        if mn != "_" and getattr(m, "path", None) != os.path.normpath(path): continue
        try: ms = m.mems()
        except Exception: continue
        for d in list(ms.values()):
            if mn == "_" and d.get("path") != os.path.normpath(path): continue
            if d["k"] in ("datatype", "class"):
                for x in d["members"]:
                    if x["k"] in ("function", "method"): out.append((m, x, d))
            elif d["k"] in ("function", "method"): out.append((m, d, None))
    return out


def find(path, mn, name):
    w = world(path)
    m = w.wmod(mn) if hasattr(w, "wmod") else None
    if m is None:
        for p in mn.split("."):
            m = w.mods.get(p) if m is None else m.all_sub().get(p)
            if m is None: return None
    ms = m.mems()
    if "." in name:
        c, n = name.split(".", 1)
        cd = ms.get(c)
        if cd is None or "members" not in cd: return None
        for x in cd["members"]:
            if x["name"] == n: return m, x, cd
        return None
    d = ms.get(name)
    return None if d is None else (m, d, None)


def work(job):
    """One obligation in a forked worker."""
    path, mn, name, kind, base, lim = JOBS[job]
    sys.setrecursionlimit(60000)
    t0 = time.time()
    r = dict(name=f"{mn}.{name}", kind=kind, file=path)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(lim))
    sv.reset_stats() if hasattr(sv, "reset_stats") else None
    for k in sv.STATS: sv.STATS[k] = 0
    try:
        f = find(path, mn, name)
        if f is None:
            r.update(status="undecided", detail="no such routine")
        else:
            m, d, cls = f
            cfg = cfg_of(d, base)
            if kind == "harness": d["harness"] = True
            res = dfy.check_routine(world(path), cfg, m, d, cls, timeout=lim, track=getattr(cfg, "track", kind == "harness"))
            r.update(status=res.status, detail=res.detail[:400])
            if res.status == "refuted":
                r["inputs"] = res.inputs
                r["confirmed"] = getattr(res, "confirmed", None)
            if res.status == "proved":
                r["fns"] = sorted(res.fns)
                r["approx"] = sorted(res.approx)
    except TO:
        r.update(status="timeout", detail=f"{lim} s")
    except RecursionError:
        r.update(status="unsupported", detail="recursion")
    except MemoryError:
        r.update(status="unsupported", detail="memory")
    except Exception as e:
        tb = traceback.format_exc().splitlines()
        r.update(status="unsupported", detail=f"{type(e).__name__}: {e} {tb[-3:]}"[:400])
    finally:
        signal.alarm(0)
    r["secs"] = round(time.time() - t0, 2)
    r["stats"] = dict(sv.STATS)
    return r


JOBS = []


def run_jobs(jobs, procs=8):
    # configurations hold interned values: they reach the workers through fork, not through a pipe
    JOBS[:] = jobs
    out = []
    for i, r in jobspool.run(work, len(jobs), procs, limit=lambda i: JOBS[i][5]):
        path, mn, name, kind, base, lim = jobs[i]
        out.append(r or dict(name=f"{mn}.{name}", kind=kind, file=path, status="unsupported", detail="the process of this obligation ended (memory)", secs=0, stats=dict.fromkeys(sv.STATS, 0)))
    return out


def baseline():
    p = DIR + "/baseline.json"
    return json.load(open(p)) if os.path.exists(p) else {}


def check(prop, spec, thorough):
    """spec: dict(harness=[files], contracts=[repo files], base={cfg}, bounds=[...], ...)"""
    c = Check(prop, "Symbolic execution of the Dafny sources over bounded symbolic inputs; z3 decides each obligation")
    c.bounds = spec.get("bounds", [])
    c.assumptions = spec.get("assumptions", [])
    c.excluded = spec.get("excluded", [])
    lim = 400 if thorough else 120
    jobs, und = [], []
    for h in spec.get("harness", []):
        path = os.path.join(DIR, h)
        for m, d, cls in routines(path):
            if d["k"] == "method" and d["name"] not in spec.get("skip", ()) and not any(a.split()[0] in ("helper", "axiom", "extern") for a in d.get("attrs") or []):
                if thorough is False and any(a.strip() == "thorough" for a in d.get("attrs") or []): continue
                jobs.append((path, m.name, (cls["name"] + "." if cls else "") + d["name"], "harness", spec.get("base"), lim))
    bl = baseline()
    for f in spec.get("contracts", []):
        f, base = f if isinstance(f, tuple) else (f, spec.get("base"))
        for q in bl.get(prop, {}).get(f, []):
            mn, name = q.split("::")
            jobs.append((f"{REPO}/{f}", mn, name, "contract", base, lim))
    c.extra["include_files"] = []
    res = run_jobs(jobs)
    known_bad = 0
    files = set()
    for r in sorted(res, key=lambda r: r["name"]):
        c.functions |= set(r.get("fns", []))
        if r["kind"] == "contract": c.functions.add(r["name"])
        kw = dict(kind=r["kind"], solver_queries=r["stats"]["queries"], detail=r["detail"])
        if r["status"] == "proved":
            c.add(r["name"], "holds", r["secs"], approx=r.get("approx"), **kw)
        elif r["status"] == "refuted":
            if r.get("confirmed"):
                c.add(r["name"], "violated", r["secs"], **kw)
                c.violation(r["name"], f"{r['detail']} fails", f"file {r['file']}\ninputs {json.dumps(r['inputs'], indent=1)}\n"
                            f"concrete re-evaluation of the routine on these inputs: {r['confirmed']}")
            else:
                c.add(r["name"], "undecided", r["secs"], **kw)
                und.append(f"{r['name']}: counterexample not confirmed {r['inputs']}")
        else:
            c.add(r["name"], "undecided", r["secs"], status2=r["status"], **kw)
            und.append(f"{r['name']}: {r['status']} {r['detail']}")
    c.extra["solver"] = {k: round(sum(r["stats"][k] for r in res), 1) for k in ("queries", "solver_s", "sat", "unsat")}
    for f in spec.get("contracts", []): files.add(f if isinstance(f, str) else f[0])
    c.extra["source_files"] = sorted(files)
    for u in und: print("UNDECIDED " + u[:300])
    if len(und) * 2 > len(jobs) and not c.violations: c.error(f"{len(und)} of {len(jobs)} obligations undecided")
    return c.finish()
