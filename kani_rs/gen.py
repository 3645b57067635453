"""Regenerate, from /repo's Splinter sources, plain Rust for Kani: the installed Verus macros in their erasing mode
expand the real files to the executable code that ships; stub.rs stands in for the few vstd items it mentions."""
import os, re, shutil, subprocess, sys

V = "/opt/veriftools/verus"


def expand(root):
    cmd = ["rustc", "+1.98.1-x86_64-unknown-linux-gnu", "-Zunpretty=expanded", "--edition", "2021", "--crate-type", "lib",
           "--extern", f"vstd={V}/libvstd.rlib", "--extern", f"builtin={V}/libverus_builtin.rlib",
           "--extern", f"builtin_macros={V}/libverus_builtin_macros.so",
           "--extern", f"verus_builtin={V}/libverus_builtin.rlib",
           "--extern", f"verus_builtin_macros={V}/libverus_builtin_macros.so",
           "--extern", f"state_machines_macros={V}/libverus_state_machines_macros.so", "-L", f"{V}/deps", "-L", V]
    for a in ["feature(register_tool)", "register_tool(verifier)", "register_tool(verus)",
              "feature(stmt_expr_attributes)", "feature(custom_inner_attributes)"]:
        cmd.append(f"-Zcrate-attr={a}")
    env = dict(os.environ, RUSTC_BOOTSTRAP="1")
    p = subprocess.run(cmd + [root], capture_output=True, text=True, env=env)
    if p.returncode:
        raise RuntimeError("macro expansion failed: " + p.stderr[:2000])
    return p.stdout


def marshalling(repo, out, harness):
    """Write out/src/lib.rs: erased marshalling modules plus the harness file."""
    os.makedirs(out + "/in", exist_ok=True)
    src = repo + "/Splinter/src"
    for d in ["marshalling"]:
        p = f"{out}/in/{d}"
        if os.path.islink(p):
            os.unlink(p)
        os.symlink(f"{src}/{d}", p)
    shutil.copyfile(src + "/marshalling.rs", out + "/in/marshalling.rs")
    with open(out + "/in/root.rs", "w") as f:
        f.write("#![allow(unused)]\npub mod marshalling;\n")
    t = expand(out + "/in/root.rs")
    t = clean(t)
    os.makedirs(out + "/src", exist_ok=True)
    here = os.path.dirname(os.path.abspath(__file__))
    with open(out + "/src/lib.rs", "w") as f:
        f.write("#![allow(warnings)]\n" + t + "\n" + open(here + "/stub.rs").read() +
                "\n#[cfg(kani)]\nmod harness;\n")
    shutil.copyfile(f"{here}/{harness}", out + "/src/harness.rs")
    with open(out + "/Cargo.toml", "w") as f:
        f.write('[package]\nname = "vk"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                '[lints.rust]\nunexpected_cfgs = { level = "allow", check-cfg = ["cfg(kani)"] }\n')


IMPL = ["implementation/Implementation_v", "implementation/DiskLayout_v", "spec/KeyType_t", "spec/Messages_t", "spec/ImplDisk_t", "trusted/ReqReply_t"]
PAGE = """
        pub fn marshall(sb: &ISuperblock) -> RawPage {
            let mut m = Vec::new();
            let mut i = 0;
            while i < sb.journal.msg_history.len() {
                let k = &sb.journal.msg_history[i];
                m.push((k.key.0, match &k.message { Message::Define { value } => value.0, _ => ::std::panic!("an update in the superblock") }));
                i += 1;
            }
            RawPage { start: sb.journal.seq_start, msgs: m }
        }
        pub fn unmarshall(p: &RawPage) -> ISuperblock {
            let mut h = Vec::new();
            let mut i = 0;
            while i < p.msgs.len() { h.push(KeyedMessage { key: Key(p.msgs[i].0), message: Message::Define { value: Value(p.msgs[i].1) } }); i += 1; }
            ISuperblock { journal: Journal { msg_history: h, seq_start: p.start } }
        }
"""


def keep(a, b):
    # derives expand to code only the compiler may write: kept as they are across the expansion
    s = open(a).read()
    with open(b, "w") as f: f.write(re.sub(r"#\[derive\(([^)]*)\)\]", r'#[doc = "DERIVE \1"]', s))


def implementation(repo, out, harness):
    """Write out/src/lib.rs: the erased store (Implementation_v and the types it works on) in the world of impl_root.rs."""
    here = os.path.dirname(os.path.abspath(__file__))
    for f in IMPL:
        p = f"{out}/in/{f}.rs"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        keep(f"{repo}/Splinter/src/{f}.rs", p)
    keep(here + "/impl_root.rs", out + "/in/root.rs")
    t = re.sub(r'#\[doc = "DERIVE ([^"]*)"\]', r"#[derive(\1)]", clean(expand(out + "/in/root.rs")))
    t = re.sub(r"pub struct PollResult;\s*pub struct ClientAPI<M>\(M\);\s*pub struct World;", lambda m: open(here + "/world.rs").read(), t)
    t = t.replace("::core::panicking::panic(", "::std::panic!(").replace("::core::panicking::panic_fmt(", "crate::vstd::pervasive::panic_fmt(")
    # the page format is open in the sources (marshall and unmarshall are declared unreachable): a stand-in
    i = t.index("pub mod DiskLayout_v {") + len("pub mod DiskLayout_v {")
    t = t[:i] + PAGE + re.sub(r"\bpub fn (marshall|unmarshall)\b", r"pub fn \1_open", t[i:])
    os.makedirs(out + "/src", exist_ok=True)
    with open(out + "/src/lib.rs", "w") as f:
        f.write("#![allow(warnings)]\n" + t + "\n" + open(here + "/stub.rs").read() + "\n#[cfg(kani)]\nmod harness;\n")
    shutil.copyfile(f"{here}/{harness}", out + "/src/harness.rs")
    with open(out + "/Cargo.toml", "w") as f:
        f.write('[package]\nname = "vk"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                '[lints.rust]\nunexpected_cfgs = { level = "allow", check-cfg = ["cfg(kani)"] }\n')


def clean(t):
    t = re.sub(r"(?m)^#!\[.*?\]\s*$", "", t)
    t = re.sub(r"(?m)^\s*#!\[allow\(.*?\)\]\s*$", "", t)
    t = re.sub(r"extern crate std;|#\[prelude_import\]\s*use std::prelude::rust_2021::\*;", "", t)
    t = re.sub(r"use (?:builtin_macros::\*|state_machines_macros::state_machine);", "", t)
    t = re.sub(r"\b(?<!:)(builtin|vstd)::", r"crate::\1::", t)
    t = re.sub(r"use crate::(builtin|vstd)::", r"use crate::\1::", t)
    t = vecs(t)
    t = t.replace("::alloc::vec::", "std::vec::")
    return t


def vecs(t):
    """Undo the expansion of vec![..], which names compiler internals."""
    pat = re.compile(r"::alloc::boxed::box_assume_init_into_vec_unsafe\(\s*::alloc::intrinsics::write_box_via_move\(\s*"
                     r"::alloc::boxed::Box::new_uninit\(\),\s*")
    while True:
        m = pat.search(t)
        if not m:
            return t
        i = m.end()
        d = 0
        j = i
        while True:
            if t[j] == "[":
                d += 1
            elif t[j] == "]":
                d -= 1
                if d == 0:
                    break
            j += 1
        k = re.compile(r"\s*\)\s*\)").match(t, j + 1).end()
        t = t[:m.start()] + "vec!" + t[i:j + 1] + t[k:]


if __name__ == "__main__":
    marshalling(sys.argv[1], sys.argv[2], sys.argv[3])
