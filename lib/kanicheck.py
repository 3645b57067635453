"""Checks decided by Kani/CBMC on the erased Verus executable code."""
import os, re, sys
from report import Check, REPO, VERIF
sys.path.insert(0, VERIF + "/kani_rs")
import gen, run


def marshal(prop, thorough):
    c = Check(prop, "Kani/CBMC bounded model checking of the executable Rust that the Verus sources expand to")
    c.bounds = ["pages of 3..18 symbolic bytes, all offsets or fixed offsets as named per harness, sequences of <=4 elements, "
                "element widths 1/2/4/8, unwinding assertions on"]
    c.assumptions = ["vstd's byte/slice helpers are replaced by the stand-ins of kani_rs/stub.rs (little-endian conversions, "
                     "sub-slicing)", "allocation itself does not fail (capacity overflow does)", "64-bit usize"]
    c.excluded = ["longer pages and sequences", "element formats other than integers, byte strings and key/value pairs"]
    try:
        gen.marshalling(REPO, c.scratch, "h_marshal.rs")
        decide(c, [prop.lower() + "_"], 800 if thorough else 500)
    except Exception as e:
        c.error(repr(e)[:3000])
    return c.finish()


def store(prop, thorough):
    c = Check(prop, "Kani/CBMC bounded model checking of the executable Rust that the Verus sources expand to")
    c.bounds = ["the orders of <= 6 events named in kani_rs/h_impl.rs (put, query, sync, no-op, disk answers), all keys, values and request ids, unwinding assertions on"]
    c.assumptions = ["the clients, the disk and the ghost tokens are the stand-ins of kani_rs/world.rs and impl_root.rs", "the page format, which the sources leave open (marshall is declared unreachable), is a stand-in that keeps the journal",
                     "allocation does not fail", "64-bit usize"]
    c.excluded = ["other orders of events and longer runs", "queries and the contents taken over at recovery (not implemented at this commit)"]
    try:
        gen.implementation(REPO, c.scratch, "h_impl.rs")
        decide(c, [prop.lower() + "_"], 800 if thorough else 500)
    except Exception as e:
        c.error(repr(e)[:3000])
    return c.finish()


def decide(c, prefixes, timeout):
    res, out = run.run(c.scratch, prefixes, timeout)
    src = open(c.scratch + "/src/lib.rs").read()
    c.functions |= set(re.findall(r"fn ((?:exec_|try_|resize|initialize|install|handle_|maybe_|send_|deliver_|recover|kvstore_|new_empty|insert)\w*)", src))
    c.extra["properties_checked_by_cbmc"] = sum(r.get("nchecks", 0) for r in res.values())
    confirmed = 0
    for h, r in sorted(res.items(), key=lambda x: x[1]["time"]):
        name = h.split("::")[-1]
        if r["status"] == "ok":
            if r["cover"] and r["cover"][0] < r["cover"][1]:
                c.error(f"{name}: a reachability witness is unreachable ({r['cover'][0]}/{r['cover'][1]})")
            c.add(name, "holds", r["time"], cover=r["cover"], checks=r.get("nchecks"))
        elif r["status"] == "fail":
            real = [f for f in r["fails"] if "unwinding assertion" not in f and "unsupported" not in f.lower()]
            c.add(name, "violated", r["time"], fails=r["fails"])
            if not real:
                c.error(f"{name}: inconclusive: {r['fails']}")
                continue
            if confirmed:
                continue        # one natively replayed counterexample is enough; the others are in the evidence
            fails, tests, tail = run.playback(c.scratch, h)
            if fails:
                confirmed += 1
                t, m = fails[0]
                c.violation(name, f"{real[0]} [native replay: {m[-1] if m else 'failed'}]", t)
            elif tests is None:
                confirmed += 1
                # no nondeterministic input: the harness itself is the concrete run
                c.violation(name, real[0], f"harness {name} in kani_rs; no symbolic input\n{tail}")
            else:
                c.error(f"{name}: counterexample did not replay natively: {real}")
        else:
            c.add(name, r["status"], r["time"])
            c.error(f"{name}: {r['status']}")
