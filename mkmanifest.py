import json
T_K = "Kani/CBMC bounded model checking of the executable Rust (SAT over all inputs)"
L_K = ("Bounded: for every value within the listed buffer, sequence and offset bounds the SAT solver shows the assertions, "
       "panics and overflow checks hold on the code the Verus macros ship; nothing beyond those bounds. Trusts Kani/CBMC, the "
       "Verus erasure macros, and the vstd stand-ins.")
T_D = "Symbolic execution of the Dafny source (own evaluator, regenerated from the file on every run) with z3 deciding each obligation"
L_D = ("Bounded: z3 shows each obligation (independent oracle lemmas and the routine's own contract) for every input within the listed bounds on the current source text; "
       "nothing beyond. Trusts the evaluator's Dafny semantics and z3; counterexamples are re-evaluated concretely before they are reported.")
C = [("M01", T_K, L_K), ("M02", T_K, L_K), ("M03", T_K, L_K), ("M04", T_K, L_K)]
C += [(f"D{i:02}", T_D, L_D) for i in range(1, 13)]
T_C = "Symbolic execution of the LLVM IR of the real C++ (own interpreter, compiled from the source on every run) with z3 deciding each branch and assertion"
L_C = ("Bounded: along every path within the listed sizes, histories and completion schedules z3 shows the assertions and memory accesses safe, for all values; nothing beyond. "
       "Trusts clang, the interpreter, and the models of the kernel's AIO, the runtime header and two libstdc++ internals; counterexamples are replayed natively.")
C += [(f"C{i:02}", T_C, L_C) for i in range(1, 4)]
T_S = "Symbolic evaluation of the Verus sources' VIR (type-checked and dumped by the installed Verus from a scratch copy on every run) with z3 deciding each obligation"
L_S = ("Bounded: z3 shows each obligation (independent oracle lemmas over the real state machines, and the code's own contracts and inductive invariants) for every value within the listed bounds on the current source; "
       "nothing beyond. Proof bodies are not trusted and not executed. Trusts Verus' front end, the evaluator's semantics and z3; counterexamples are re-evaluated concretely before they are reported.")
C += [(f"S{i:02}", T_S, L_S) for i in range(1, 14)]
m = dict(version=1, setup_cmd="true", checks=[
    dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} thorough", technique=t, level="other",
         level_note=l) for p, t, l in C], not_applicable=[])
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
