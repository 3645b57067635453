"""Checks on the C++ sources: clang turns harness + real source into LLVM IR, lib/llir.py executes it symbolically."""
import json, os, re, subprocess, sys, time
from report import Check, REPO, VERIF
import jobs as jobspool
CXX = VERIF + "/cxx"
INC = ["-I" + CXX + "/shim", "-I" + REPO, "-I" + REPO + "/framework"]
BASE = ["clang++", "-std=c++17", "-O1", "-march=x86-64-v3", "-mpclmul", "-w", "-fno-exceptions", "-fno-rtti"]
IR = BASE + ["-fno-vectorize", "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-S", "-emit-llvm"]

def compile_ir(src, out, defs=()):
    r = subprocess.run(IR + INC + list(defs) + [src, "-o", out], capture_output=True, text=True, timeout=300)
    return r.returncode == 0, r.stderr

def _job(a):
    ll, entry, opts = a
    import llir, z3
    sys.setrecursionlimit(20000)
    t = time.time()
    try:
        mod = _job.cache.get(ll)
        if mod is None:
            mod = _job.cache[ll] = llir.Module(open(ll).read())
        e = llir.Engine(mod, entry, deadline=time.time() + opts.get("limit", 300), **opts.get("engine", {})).run()
        return dict(entry=entry, paths=e.paths, ended=e.ended, queries=e.queries, stime=e.stime, steps=e.steps, asserts=e.asserts,
                    violations=e.violations, undec=e.undec, called=sorted(e.called), secs=time.time() - t)
    except Exception as x:
        import traceback
        return dict(entry=entry, error=f"{type(x).__name__}: {x} {traceback.format_exc().splitlines()[-3:]}"[:700], secs=time.time() - t)
_job.cache = {}

def demangle(names):
    names = sorted(names)
    r = subprocess.run(["llvm-cxxfilt-18"] if os.path.exists("/usr/bin/llvm-cxxfilt-18") else ["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return r.stdout.split("\n") if r.returncode == 0 else names

def native(src, entry, values, scratch, defs=()):
    """compile the same harness and run it on the counterexample's values; returns what failed or None"""
    vf = f"{scratch}/{entry}.values"
    with open(vf, "w") as f:
        for n, v in values: f.write(f"{n} {v}\n")
    exe = f"{scratch}/{entry}.exe"
    r = subprocess.run(BASE + ["-DNATIVE", "-DENTRY=" + entry, "-g", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"] + INC + list(defs) +
                       [src, CXX + "/native/replay.cpp", "-o", exe, "-pthread"], capture_output=True, text=True, timeout=300)
    if r.returncode: return None, "native build failed: " + r.stderr[:500]
    env = dict(os.environ, SYM_VALUES=vf, ASAN_OPTIONS="detect_leaks=0:max_allocation_size_mb=4096")
    try: r = subprocess.run([exe], capture_output=True, text=True, timeout=60, env=env, cwd=scratch)
    except subprocess.TimeoutExpired: return "does not return within 60 s", ""
    m = re.search(r"ASSERT-FAILED (.*)", r.stdout)
    if r.returncode == 42 and m: return m.group(1), r.stderr[-500:]
    m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)|runtime error: ([^\n]*)", r.stderr)
    if m: return "memory error: " + (m.group(1) or m.group(2))[:200], r.stderr[:1500]
    return None, f"exit {r.returncode} {r.stderr[-300:]}"

def check(prop, spec, thorough):
    c = Check(prop, "Symbolic execution of the LLVM IR that clang emits for the real C++ sources; z3 decides every branch, address and assertion")
    c.bounds, c.assumptions, c.excluded = spec["bounds"], spec["assumptions"], spec["excluded"]
    jobs, src_of = [], {}
    try:
        for key, entries in spec["harness"].items():
            src = key.split("#")[0]
            defs = [d.replace("@SCRATCH@", c.scratch) for d in spec.get("defs", {}).get(key, [])]
            prep = spec.get("prepare", {}).get(key)
            if prep: prep(REPO, c.scratch)
            ll = f"{c.scratch}/{key.replace('#', '_')}.ll"
            ok, err = compile_ir(f"{CXX}/{src}", ll, defs)
            if not ok:
                c.error(f"{src} does not compile against the current sources: {err[:1500]}"); continue
            for e in entries:
                o = {}
                if isinstance(e, tuple): e, o = e
                if o.get("thorough") and not thorough: continue
                src_of[e] = (f"{CXX}/{src}", defs)
                jobs.append((ll, e, dict(limit=o.get("limit", 700 if thorough else 400), engine=dict(o.get("engine", {})))))
        res = [r or dict(entry=jobs[i][1], error="the process of this entry ended (memory)", secs=0)
               for i, r in jobspool.run(lambda i: _job(jobs[i]), len(jobs), mem_mb=8000, limit=lambda i: jobs[i][2]["limit"])]
    except Exception as e:
        c.error(repr(e)[:2000]); res = []
    fns = set(); paths = steps = q = 0; und = 0; mangled = set()
    for r in sorted(res, key=lambda r: r["entry"]):
        e = r["entry"]
        if "error" in r:
            c.add(e, "undecided", r["secs"], detail=r["error"]); und += 1; print("UNDECIDED", e, r["error"][:300]); continue
        paths += r["paths"]; steps += r["steps"]; q += r["queries"]; mangled |= set(r["called"])
        kw = dict(paths=r["paths"], ended=r["ended"], solver_queries=r["queries"], solver_s=round(r["stime"], 2), assertions=r["asserts"])
        if r["violations"]:
            what, vals = r["violations"][0]
            src, defs = src_of[e]
            got, extra = native(src, e, vals or [], c.scratch, defs)
            if got:
                c.add(e, "violated", r["secs"], **kw)
                c.violation(e, what, "symbolic inputs, in order:\n" + "\n".join(f"  {n} = {v}" for n, v in vals or []) + f"\nnative run of the harness on them: {got}\n{extra}")
            else:
                c.add(e, "undecided", r["secs"], **kw); und += 1
                print("UNDECIDED", e, f"counterexample to '{what}' did not reproduce natively: {extra[:300]}")
        elif r["undec"]:
            c.add(e, "undecided", r["secs"], detail=r["undec"][:3], **kw); und += 1; print("UNDECIDED", e, r["undec"][:3])
        elif not r["ended"].get("complete") and not r["ended"].get("stopped"):
            c.error(f"{e}: no path completes")
        else: c.add(e, "holds", r["secs"], **kw)
    repo_fns = [f for f in demangle(mangled) if f and not f.startswith(("std::", "__gnu", "h_", "sym_", "void std::", "operator", "os::")) and "std::" not in f.split("(")[0]]
    c.functions = set(repo_fns)
    c.extra.update(paths=paths, instructions=steps, solver_queries=q)
    if und * 2 > max(1, len(jobs)) and not c.violations: c.error(f"{und} of {len(jobs)} obligations undecided")
    return c.finish()
