"""Checks decided by symbolic execution of the Splinter specifications (Verus sources -> VIR -> vireval.py -> z3).

Verus itself compiles the sources (a scratch copy of /repo/Splinter/src as it is now, see vshim.py) to its intermediate
representation; no proof is run.  Two kinds of obligations over the spec functions and state machines found there:
  harness   proof fns of /verif/vir/<file>.rs, which state the property against an independent oracle
  contract  requires => ensures of proof fns of the sources themselves (listed in vir/baseline.json), decided by z3
            from the definitions alone: the hand-written proof bodies are not used
"""
import json, os, re, shutil, signal, sys, time, traceback
from report import Check, REPO, VERIF
import jobs as jobspool
import sv, dfy, vir, vireval, vshim

DIR = VERIF + "/vir"
BASE = dict(native=(0, 1), nat=(0, 2), int=(0, 2), qint=(0, 3), seq=2, maxuniv=400)
JOBS, W = [], {}


class TO(Exception):
    pass


def _alarm(*a): raise TO()


def key(n): return re.sub(r"::impl&%\d+", "", n)


def crate(root, dest, logdir, harness=()):
    """(Crate, names of the harness modules in it)"""
    vshim.make(REPO + "/Splinter/src", dest)
    if root != "lib.rs":  # another root of the same sources: under the same crate name
        os.replace(f"{dest}/{root}", f"{dest}/lib.rs")
        root = "lib.rs"
    mods = []
    for h in harness:
        m = "vharness_" + h[:-3]
        with open(f"{dest}/{m}.rs", "w") as f: f.write(vshim.rename_sets(open(f"{DIR}/{h}").read(), "OMultiset" in open(f"{DIR}/{h}").read()))
        mods.append(m)
    if mods:
        src = open(f"{dest}/{root}").read()
        open(f"{dest}/{root}", "w").write(src + "".join(f"\npub mod {m};" for m in mods) + "\n")
        try:
            vshim.emit_vir(dest, root, logdir)
            return vir.Crate(logdir + "/crate.vir"), mods, None
        except vshim.ShimError as e:
            why = str(e)
            # one harness module at a time: a definition that one of them names may be gone
            good = []
            for m in mods:
                open(f"{dest}/{root}", "w").write(src + f"\npub mod {m};\n")
                try: vshim.emit_vir(dest, root, logdir); good.append(m)
                except vshim.ShimError: pass
            open(f"{dest}/{root}", "w").write(src + "".join(f"\npub mod {m};" for m in good) + "\n")
            vshim.emit_vir(dest, root, logdir)
            return vir.Crate(logdir + "/crate.vir"), good, why
    vshim.emit_vir(dest, root, logdir)
    return vir.Crate(logdir + "/crate.vir"), [], None


def proofs(c, pat):
    out = []
    for n in list(c.fn_off):
        if not re.search(pat, n): continue
        m = c.fn(n).mode
        if (m if isinstance(m, str) else m[-1]) == "Proof": out.append(n)
    return out


def hcfg(dest, m):
    """name -> cfg overrides of a harness module: a comment `//cfg depth=2` right before the proof fn."""
    out, cur, cls = {}, {}, {}
    for l in open(f"{dest}/{m}.rs"):
        l = l.strip()
        if l.startswith("//cfgall "): cls.update(eval(f"dict({l[9:]})"))
        elif l.startswith("//cfg "): cur.update(eval(f"dict({l[6:]})"))
        elif l.startswith("//thorough"): cur["_thorough"] = True
        elif l.startswith("//reach"): cur["_reach"] = True
        elif re.search(r"\bproof fn (\w+)", l):
            out[re.search(r"\bproof fn (\w+)", l).group(1)] = {**cls, **cur}; cur = {}
    return out


def work(i):
    n, kind, cfg, lim = JOBS[i]
    sys.setrecursionlimit(60000)
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    for k in sv.STATS: sv.STATS[k] = 0
    r = dict(name=n, kind=kind)
    signal.alarm(int(lim))
    try:
        cfg = dict(cfg)
        r["reach"] = cfg.pop("_reach", False)
        res = vireval.check_fn(W["w"], dfy.Cfg(**{**BASE, **cfg}), n, lim)
        r.update(status=res.status, detail=res.detail[:400])
        r["partial"] = getattr(res, "part", 1)
        if res.status == "refuted": r.update(inputs=str(res.inputs)[:6000], confirmed=res.confirmed)
        if res.status == "proved": r.update(fns=sorted(res.fns), approx=sorted(res.approx))
    except TO: r.update(status="timeout", detail=f"{lim} s")
    except RecursionError: r.update(status="unsupported", detail="recursion")
    except MemoryError: r.update(status="unsupported", detail="memory")
    except Exception as e:
        r.update(status="unsupported", detail=f"{type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3:]}"[:400])
    finally: signal.alarm(0)
    r["secs"] = round(time.time() - t0, 2)
    r["stats"] = dict(sv.STATS)
    return r


def run_jobs(jobs, procs=8):
    JOBS[:] = jobs
    for i, r in jobspool.run(work, len(jobs), procs, limit=lambda i: JOBS[i][3]):
        yield r or dict(name=jobs[i][0], kind=jobs[i][1], status="unsupported", detail="the process of this obligation ended (memory)", secs=0, stats=dict.fromkeys(sv.STATS, 0), reach=False)


def baseline():
    p = DIR + "/baseline.json"
    return json.load(open(p)) if os.path.exists(p) else {}


def short(n): return n.split("::", 1)[1] if "::" in n else n


def check(prop, spec, thorough):
    """spec: dict(harness=[files], groups=[(regex, cfg)], root="lib.rs", ...)"""
    c = Check(prop, "Symbolic execution of the Verus specifications (VIR) over bounded symbolic inputs; z3 decides each obligation")
    c.bounds, c.assumptions, c.excluded = spec.get("bounds", []), spec.get("assumptions", []), spec.get("excluded", [])
    t0 = time.time()
    dest, logdir = c.scratch + "/src", c.scratch + "/log"
    try: cr, mods, why = crate(spec.get("root", "lib.rs"), dest, logdir, spec.get("harness", ()))
    except vshim.ShimError as e:
        c.error(f"Verus rejects the scratch copy: {e}"[:1500])
        return c.finish()
    if why: print("UNDECIDED harness: " + why[:400])
    c.extra["compile_s"] = round(time.time() - t0, 1)
    W["w"] = vireval.World(cr)
    lim = 600 if thorough else 150
    jobs, und = [], []
    for m in mods:
        hc = hcfg(dest, m)
        for n in proofs(cr, rf"::{m}::"):
            k = dict(spec.get("base", {}))
            k.update(hc.get(n.rsplit("::", 1)[1], {}))
            if k.pop("_thorough", False) and not thorough: continue
            if k.pop("helper", False): continue
            jobs.append((n, "harness", k, lim))
    bl = {}
    for q in baseline().get(prop, []): bl.setdefault(q["name"], q)
    names = {}
    for n in cr.fn_off: names.setdefault(key(n), []).append(n)
    for q in bl.values():
        if q["secs"] > 40 and not thorough: continue
        for n in names.get(q["name"], []):
            m = cr.fn(n).mode
            if (m if isinstance(m, str) else m[-1]) != "Proof": continue
            jobs.append((n, "contract", spec["groups"][q["g"]][1] if q["g"] < len(spec["groups"]) else {}, lim))
    # the long ones first
    est = {q["name"]: q["secs"] for q in bl.values()}
    jobs.sort(key=lambda j: -(est.get(key(j[0]), 30)))
    res = list(run_jobs(jobs))
    for r in sorted(res, key=lambda r: r["name"]):
        c.functions |= {short(f) for f in r.get("fns", []) if not f.startswith("vstd")}
        nm = short(r["name"])
        kw = dict(kind=r["kind"], solver_queries=r["stats"]["queries"], detail=r["detail"])
        if r.get("reach"):
            # some state meets the requires (the ensures is `false`): the solver must find one
            if r["status"] == "refuted" and r.get("confirmed"): c.add(nm, "holds", r["secs"], witness=r["inputs"][:1500], **kw)
            elif r["status"] == "vacuous" and not r["partial"]:
                c.add(nm, "violated", r["secs"], **kw)
                c.violation(nm, "no state within the bounds can take this step", "the solver finds the requirements of this obligation unsatisfiable within the bounds:\n" + json.dumps(c.bounds))
            else:
                c.add(nm, "undecided", r["secs"], status2=r["status"], **kw); und.append(f"{nm}: {r['status']} {r['detail']}")
        elif r["status"] == "proved": c.add(nm, "holds", r["secs"], approx=r.get("approx"), **kw)
        elif r["status"] == "refuted" and r.get("confirmed"):
            c.add(nm, "violated", r["secs"], **kw)
            c.violation(nm, f"{r['detail']} fails", f"inputs {r['inputs']}\nconcrete re-evaluation on these inputs: {r['confirmed']}")
        else:
            c.add(nm, "undecided", r["secs"], status2=r["status"], **kw)
            und.append(f"{nm}: {r['status']} {r['detail']}" + (f" counterexample not confirmed {r['inputs']}" if r["status"] == "refuted" else ""))
    c.extra["solver"] = {k: round(sum(r["stats"][k] for r in res), 1) for k in ("queries", "solver_s", "sat", "unsat")}
    c.extra["source_files"] = spec.get("files", [])
    for u in und: print("UNDECIDED " + u[:300])
    if len(und) * 2 > len(jobs) and not c.violations: c.error(f"{len(und)} of {len(jobs)} obligations undecided")
    return c.finish()
