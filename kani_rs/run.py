"""Run the Kani harnesses of one group and report: runs 'cargo kani' once (compile once, harnesses in parallel)."""
import os, re, subprocess, sys, time

ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTC_BOOTSTRAP", None)


def run(crate, prefixes, timeout, jobs=8):
    """-> {harness: dict(status, time, cover, fails)}"""
    cmd = ["cargo", "kani", "-j", str(jobs), "--output-format", "terse", "-Z", "unstable-options",
           "--harness-timeout", f"{timeout}s"]
    for p in prefixes:
        cmd += ["--harness", p]
    p = subprocess.run(cmd, cwd=crate, env=ENV, capture_output=True, text=True)
    out = p.stdout + p.stderr
    if "Checking harness" not in out:
        raise RuntimeError("kani did not run: " + out[-3000:])
    res, cur, th = {}, {}, None
    buf = {}
    for l in out.splitlines():
        m = re.match(r"Thread (\d+): Checking harness (\S+?)\.\.\.", l)
        if m:
            cur[m[1]] = m[2]
            res[m[2]] = dict(status="none", time=0.0, cover=None, fails=[])
            th = None
            continue
        m = re.match(r"Checking harness (\S+?)\.\.\.", l)
        if m:
            cur["x"] = m[1]
            res[m[1]] = dict(status="none", time=0.0, cover=None, fails=[])
            th = "x"
            continue
        m = re.match(r"Thread (\d+): *$", l)
        if m:
            th = m[1]
            continue
        if th is None or th not in cur:
            continue
        r = res[cur[th]]
        if l.startswith("VERIFICATION:-"):
            r["status"] = "ok" if "SUCCESSFUL" in l else "fail"
        elif l.startswith("Verification Time:"):
            r["time"] = float(l.split(":")[1].strip().rstrip("s"))
        elif "cover properties satisfied" in l:
            m = re.search(r"(\d+) of (\d+) cover", l)
            r["cover"] = (int(m[1]), int(m[2]))
        elif l.startswith("Failed Checks:"):
            r["fails"].append(l[14:].strip())
        elif "out of memory" in l:
            r["status"] = "memory"
        elif "timed out" in l.lower():
            r["status"] = "timeout"
        else:
            m = re.search(r"\*\* (\d+) of (\d+) failed", l)
            if m:
                r["nchecks"] = int(m[2])
    if not re.search(r"Complete - ", out):
        raise RuntimeError("kani ended early: " + out[-2000:])
    return res, out


def playback(crate, harness):
    """Concrete values for a failing harness, and whether running them natively fails."""
    p = subprocess.run(["cargo", "kani", "--harness", harness, "--exact", "-Z", "concrete-playback",
                        "--concrete-playback=print"], cwd=crate, env=ENV, capture_output=True, text=True)
    out = p.stdout
    tests = re.findall(r"```\n(.*?)```", out, re.S)
    tests = [t for t in tests if "kani_concrete_playback" in t]
    if not tests:
        return None, None, out[-2000:]
    src = crate + "/src/harness.rs"
    orig = open(src).read()
    fails = []
    try:
        names = []
        body = orig
        seen = set()
        for t in tests:
            n = re.search(r"fn (kani_concrete_playback_\w+)", t)[1]
            if n in seen:
                continue
            seen.add(n)
            names.append((n, t))
            body += "\n" + t
        open(src, "w").write(body)
        for n, t in names:
            q = subprocess.run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--", n],
                               cwd=crate, env=ENV, capture_output=True, text=True)
            o = q.stdout + q.stderr
            if re.search(r"test result: FAILED", o):
                m = re.findall(r"panicked at ([^\n]*)\n([^\n]*)", o)
                fails.append((t, m))
    finally:
        open(src, "w").write(orig)
    return fails, tests, out[-2000:]


if __name__ == "__main__":
    t0 = time.time()
    res, out = run(sys.argv[1], sys.argv[3:], int(sys.argv[2]))
    for h, r in sorted(res.items(), key=lambda x: -x[1]["time"]):
        print(h, r)
    print(time.time() - t0)
