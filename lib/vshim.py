"""Prepares a scratch copy of Splinter/src that the installed Verus type-checks.

The repository was written for an old vstd in which Set/Map are the possibly infinite
types; the installed vstd calls those ISet/IMap.  The shim renames them, and drops the
bodies of `proof fn`s (ghost lemmas: nothing that is executed or that defines a value).
Everything else is left byte for byte as it is in /repo.
"""
import json, os, re, shutil, subprocess

TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*(?!'))
 |(?P<chr>b?'(?:\\.[^']*|[^'\\])')
 |(?P<id>[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][0-9A-Za-z_]*)
 |(?P<p>.)
""", re.X | re.S)


def tokens(src):
    i, n = 0, len(src)
    out = []
    while i < n:
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            out.append(("bc", src[i:j], i)); i = j; continue
        m = TOK.match(src, i)
        out.append((m.lastgroup, m.group(), i)); i = m.end()
    return out


ITEM = {"pub", "fn", "spec", "proof", "exec", "open", "closed", "uninterp", "impl", "struct", "enum", "trait", "type",
        "use", "mod", "broadcast", "const", "axiom", "state_machine", "tracked", "ghost", "macro_rules", "unsafe",
        "verus", "#", "}", "transition", "init", "invariant", "property", "fields", "static", "assume_specification", "global", "extern", "readonly", "inv"}


def drop_proof_bodies(src):
    toks = [t for t in tokens(src) if t[0] not in ("ws", "lc", "bc")]
    cuts = []
    sm = any(t[1] == "state_machine" for t in toks)
    i = 0
    n = len(toks)
    while i < n:
        if toks[i][1] == "fn" and i and toks[i][0] == "id":
            # the words before fn, back to a delimiter
            j = i - 1
            words = []
            while j >= 0 and (toks[j][0] == "id" or toks[j][1] in "()"):
                words.append(toks[j][1]); j -= 1
                if len(words) > 8: break
            mode = next((w for w in words if w in ("proof", "spec", "exec", "axiom")), None)
            a = j
            while a >= 0 and toks[a][1] == "]" and mode is None:
                while a >= 0 and toks[a][1] != "[": a -= 1
                if toks[a + 1][1] == "inductive": mode = "inductive"
                a -= 2
            if mode in ("proof", "inductive"):
                # find body: first depth-0 {...} block followed by an item start
                k = i + 1; depth = 0; body = None
                while k < n:
                    t = toks[k][1]
                    if t in "([": depth += 1
                    elif t in ")]": depth -= 1
                    elif t == ";" and depth == 0: break
                    elif t == "{":
                        d = 1; e = k + 1
                        while e < n and d:
                            if toks[e][1] == "{": d += 1
                            elif toks[e][1] == "}": d -= 1
                            e += 1
                        if depth == 0:
                            nxt = toks[e][1] if e < n else "}"
                            if nxt in ITEM and not (nxt == "#" and toks[e + 1][1] != "[") or nxt.endswith("!"):
                                body = (toks[k][2], toks[e - 1][2] + 1, e); break
                            # `name! {` macros or other items following
                            if e + 1 < n and toks[e][0] == "id" and toks[e + 1][1] == "!":
                                body = (toks[k][2], toks[e - 1][2] + 1, e); break
                        k = e; continue
                    elif t == "}": break
                    k += 1
                if body and mode == "proof" and sm and any(toks[q][1] == "-" and toks[q + 1][1] == ">" and toks[q + 2][1] == "("
                                                   for q in range(i, body[2] - 3) if toks[q][2] < body[0]):
                    # the installed state-machine macro mangles these; ghost, so they go
                    cuts.append((toks[j + 1][2], body[1], "delete")); i = body[2]; continue
                if body:
                    cuts.append(body[:2] + (mode,)); i = body[2]; continue
                elif k < n and toks[k][1] == ";":
                    cuts.append((toks[k][2], toks[k][2] + 1, mode))
        i += 1
    out, pos = [], 0
    for a, b, mode in cuts:
        out.append(src[pos:a])
        nl = src[a:b].count("\n")
        out.append("\n" * nl if mode == "delete" else ("{ }" if mode == "inductive" else "{ assume(false); vstd::pervasive::proof_from_false() }") + "\n" * nl)
        pos = b
    out.append(src[pos:])
    return "".join(out)


def rename_sets(src, ms):
    """Set/Map -> ISet/IMap everywhere but in comments and strings."""
    out = []
    for k, t, _ in tokens(src):
        if k == "id" and t in ("Set", "Map"): t = "I" + t
        elif k == "id" and ms and t == "Multiset": t = "OMultiset"
        out.append(t)
    s = "".join(out)
    s = re.sub(r"(?<![\w.])map!\s*([\[{(])", r"vstd::imap::imap!\1", s)
    s = re.sub(r"(?<![\w.])set!\s*([\[{(])", r"vstd::iset::iset!\1", s)
    s = s.replace(".to_set()", ".to_iset()")
    if ms: s = s.replace(".to_multiset()", ".to_omultiset()")
    if ms: s = re.sub(r"\bvstd::(multiset|set_lib|map_lib)::\*", r"crate::oldvstd::*", s)
    if ms: s = re.sub(r"\bvstd::multiset::", "crate::oldvstd::", s)
    s = re.sub(r"\bvstd::set::", "vstd::iset::", s)
    s = re.sub(r"\bvstd::map::", "vstd::imap::", s)
    return s


USES = "#[allow(unused_imports)] use vstd::imap::*; #[allow(unused_imports)] use vstd::iset::*; #[allow(unused_imports)] use crate::oldvstd::*; "


def shim_file(path, rel):
    src = open(path, encoding="utf-8").read()
    if not rel.startswith("marshalling"):
        src = rename_sets(src, rel.startswith('allocation_layer'))
        if "verus!" in src or "state_machine!" in src:
            # right before the first `use` line, so that line numbers stay what they are
            m = re.search(r"^(pub )?use ", src, re.M)
            if m: src = src[:m.start()] + USES + src[m.start():]
    src = drop_proof_bodies(src)
    open(path, "w", encoding="utf-8").write(src)


def make(repo_src, dest):
    if os.path.exists(dest): shutil.rmtree(dest)
    shutil.copytree(repo_src, dest, symlinks=True, ignore=shutil.ignore_patterns("resource-experiment", "model-exp"))
    for d, _, fs in os.walk(dest):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".rs") and not os.path.islink(p):
                shim_file(p, os.path.relpath(p, dest))
    attrs = ("#![verifier::deprecated_postcondition_mut_ref_style(true)] #![verifier::exec_allows_no_decreases_clause] "
             "#![verifier::loop_isolation(false)] #![allow(unused)] ")
    shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "oldvstd.rs"), dest)
    for root in ("lib.rs", "sequential_main.rs"):
        p = os.path.join(dest, root)
        s = re.sub(r"#!\[verifier::loop_isolation\(false\)\]", "", open(p).read())
        open(p, "w").write(attrs + s + "\npub mod oldvstd;\n")


V = "/opt/veriftools/verus"
VERUS = ["verus", "--crate-type=lib", "--extern", f"builtin={V}/libverus_builtin.rlib",
         "--extern", f"builtin_macros={V}/libverus_builtin_macros.so",
         "--extern", f"state_machines_macros={V}/libverus_state_machines_macros.so", "--no-verify"]
FIX = [(re.compile(r"expected `&?ISet<.*>`, found `&?Set<"), ".to_iset()"), (re.compile(r"expected `&?IMap<.*>`, found `&?Map<"), ".to_imap()")]


# a statement without effect that the installed Verus cannot type or refuses in ghost code
DEAD = re.compile(rb"^\s*(let\s+_\w*(\s*:[^=;{}]*)?\s*=\s*[^;{}()!?]*|(debug_)?assert!\(true\))\s*;\s*(//.*)?$")


def dead_line(dest, d):
    for sp in d.get("spans", []):
        while sp.get("expansion") and not os.path.exists(os.path.join(dest, sp["file_name"])): sp = sp["expansion"]["span"]
        p = os.path.join(dest, sp["file_name"])
        if not sp["is_primary"] or os.path.isabs(sp["file_name"]) or not os.path.exists(p): continue
        ls = open(p, "rb").read().split(b"\n")
        n = sp["line_start"] - 1
        if n < len(ls) and DEAD.match(ls[n]): return p, n
    return None


class ShimError(Exception):
    pass


def emit_vir(dest, root, logdir, rounds=8):
    """Type-checks `root` and writes its VIR to logdir/crate.vir; repairs Set-for-ISet mismatches the compiler reports."""
    for _ in range(rounds):
        r = subprocess.run(VERUS + [root, "--log-dir", logdir, "--log", "vir", "--error-format=json"], cwd=dest, capture_output=True, text=True)
        errs = []
        for l in (r.stderr + r.stdout).splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if isinstance(d, dict) and d.get("level") == "error": errs.append(d)
        if r.returncode == 0: return
        fixes, dead = {}, set()
        for d in errs:
            x = dead_line(dest, d)
            if x: dead.add(x)
            for sp in d.get("spans", []):
                for pat, suf in FIX:
                    if sp["is_primary"] and sp.get("label") and pat.search(sp["label"]):
                        fixes.setdefault(sp["file_name"], {})[(sp["byte_start"], sp["byte_end"])] = suf
        if dead:
            for p, n in dead:
                ls = open(p, "rb").read().split(b"\n")
                ls[n] = b""
                open(p, "wb").write(b"\n".join(ls))
            continue
        if not fixes:
            raise ShimError(f"{root} does not type-check: " + "; ".join(
                d["message"] + "".join(f" ({s['file_name']}:{s['line_start']})" for s in d["spans"][:1]) for d in errs[:5]) + ("" if errs else r.stderr[-800:]))
        for f, fx in fixes.items():
            p = os.path.join(dest, f)
            b = open(p, "rb").read()
            for (a, z), suf in sorted(fx.items(), reverse=True):
                b = b[:a] + b"(" + b[a:z] + b")" + suf.encode() + b[z:]
            open(p, "wb").write(b)
    raise ShimError(f"{root}: repairs did not converge")
