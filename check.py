#!/usr/bin/env python3
"""Usage: check.py PROPERTY. Tier from VERIF_TIER (quick by default)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
prop = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
thorough = os.environ.get("VERIF_TIER") == "thorough"
if prop in ("M01", "M02", "M03", "M04"):
    import kanicheck
    sys.exit((kanicheck.store if prop == "M04" else kanicheck.marshal)(prop, thorough))
if prop[0] == "C":
    try:
        import z3
    except ImportError:
        os.execvp("python3-vt", ["python3-vt"] + sys.argv)
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "cxx"))
    import cxxcheck, props
    sys.exit(cxxcheck.check(prop, props.PROPS[prop], thorough))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "dfy"))
import props
if prop in props.PROPS:
    import dfycheck
    sys.exit(dfycheck.check(prop, props.PROPS[prop], thorough))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vir"))
import vprops
if prop in vprops.PROPS:
    import vircheck
    sys.exit(vircheck.check(prop, vprops.PROPS[prop], thorough))
print("unknown property", prop)
sys.exit(2)
