#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "property-based testing: structured generators against a reference model, exhaustive small-lane sweeps, coverage-guided libFuzzer stage, shrinking to a replay file"
MN = "Randomised and partly exhaustive exploration of the real library built from /repo; a pass means no counterexample in the cases the evidence counts. Trusts the reference model (src/model.h) and the host compiler. "
T = {
 "C03": ("property-based testing: metamorphic two-background runs of every load/store against guard pages and read-only mappings, and tracing of every access of an instrumented build", "Every load/store, at page boundaries and all element alignments, in three builds; in a fourth, instrumented build each single access is compared with the addressed elements. Inline assembly would be invisible to the tracing."),
 "C18": ("property-based testing: generated immediates in and out of range, abort intercepted, in nine builds", "All immediates near both bounds plus extreme ints for every checked intrinsic; judges accept/reject only, values are judged elsewhere."),
 "C19": ("property-based testing: generated call histories and thread schedules, each call compared with the same call in a fresh process, with extra histories over intrinsics observed to keep state; ThreadSanitizer", "Explores histories and OS schedules; a data race is found by ThreadSanitizer whenever the two accesses execute unordered."),
 "C20": ("fuzzing with generated valid calls under UBSan, ASan, MSan and valgrind memcheck", "Finds the classes of undefined behaviour these tools detect, on the cases explored."),
 "C21": ("differential property-based testing across 41 compiler, optimisation, standard, NDEBUG, char and initial-content configurations (covering array)", "gcc and clang, -O0..-O3/-Os, NDEBUG, C++ standards, char signedness, pattern-initialised automatics, SSE4; x86-64 only."),
 "C22": ("generated C and C++ programs (calls, ACLE function pointer bindings, brace initialisers, layout) and cross-language differential calls", "Prototype table transcribed from ACLE in spec/spec.py; compiles with gcc and clang as C99, C11, C++11."),
 "C23": ("stateful model-based testing: random intrinsic programs with a register file and memory against the model, and user-style kernels against scalar references", "Explores programs of 6-39 calls and 39 kernels in two builds."),
 "C24": ("metamorphic property-based testing: several hundred algebraic laws between intrinsics, no model", "Laws only relate intrinsics to each other; a change that preserves every law is left to the model checks."),
}
T["C02"] = ("property-based testing: stores against a reference model plus store/load and load/store round trips", MN)
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    t, n = T.get(p, (M, MN))
    checks.append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough", "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": n.strip()})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. Replay a failure with: python3 run.py replay <file>. Known and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
