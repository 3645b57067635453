"""Outcome of one check: obligations with the solver's verdicts, evidence file, known findings, exit code."""
import json, os, shutil, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Check:
    def __init__(self, prop, technique):
        self.prop, self.technique = prop, technique
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.obl = []          # dict(name, status, time, ...)
        self.functions = set()
        self.bounds, self.assumptions, self.excluded = [], [], []
        self.errors, self.violations = [], []
        self.extra = {}
        base = "/tmp" if os.access("/tmp", os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
        self.rdir = f"{VERIF}/replays"
        self.known = [k for k in load_known() if k.get("property") == prop and k.get("kind") == "known"]

    def add(self, name, status, secs=0.0, **kw):
        self.obl.append(dict(name=name, status=status, time=round(secs, 2), **kw))

    def error(self, msg):
        self.errors.append(msg)

    def violation(self, name, what, replay_text):
        for k in self.known:
            if k["obligation"] == name and k.get("match", "") in what:
                self.add(name, "known-finding")
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
                return
        os.makedirs(self.rdir, exist_ok=True)
        path = f"{self.rdir}/{self.prop}-{len(self.violations)}.txt"
        with open(path, "w") as f:
            f.write(f"property {self.prop}\nobligation {name}\n{what}\n\n{replay_text}\n")
        self.violations.append((name, what, path))

    def finish(self):
        n = len(self.obl)
        ok = sum(o["status"] in ("holds", "known-finding") for o in self.obl)
        cov = dict(
            explanation=f"{self.technique}. {ok} of {n} bounded obligations discharged by the solver over all values within "
                        f"the bounds listed; {len(self.violations)} violated; {len(self.errors)} errors.",
            obligations=n, discharged=ok, functions_encoded=sorted(self.functions),
            bounds=self.bounds, outside_the_claim=self.excluded,
            solver_time_s=round(sum(o["time"] for o in self.obl), 1), results=self.obl[:400], **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="other", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for name, what, path in self.violations:
            print(f"{name}: {what}")
            print(f"VIOLATION property={self.prop} replay={path}")
        for e in self.errors[:20]:
            print(f"ERROR: {e}")
        print(f"{self.prop}: {ok}/{n} obligations hold, {len(self.violations)} violated, {len(self.errors)} errors, "
              f"{time.time() - self.t0:.0f} s")
        sys.stdout.flush()
        if self.violations:
            return 1
        if self.errors or n == 0:
            return 2
        return 0


def load_known():
    p = f"{VERIF}/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []
