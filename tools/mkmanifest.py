#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness directory is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = {
 "C22": "Thread interleavings are outside the symbolic executor (it encodes sequential Go), and the race the property is about is a memory-model fact of sync.RWMutex use, not something the encoded SSA can decide; no claim is made rather than switching to the race detector.",
 "C23": "The Dart SDK, the Flutter/hbuf_dart runtime, the Java runtime library and the npm packages the generated code imports are not installed here, and a foreign compiler is not code of this repository that can be encoded; C14 decides the lexical part (brackets, literals, comments).",
}
PENDING = "check under construction: not claimed in this commit."
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in NA and os.path.exists(f"{here}/harness/{i.lower()}/main.go"):
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "technique": "symbolic execution of the real Go code (SSA built from /repo on every run) with an SMT solver (z3) deciding every assertion over all inputs in the stated bounds; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Bounded: exhaustive for the inputs described by each harness's bounds line (reported in the evidence); nothing is claimed outside them. Trusts the executor's Go semantics (every explored path's outputs are compared with a native run of the same code on sampled models, and every violation is confirmed natively before it is reported), the modelled os/filepath/regexp/time/format functions listed in DESIGN.md, and z3.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "./run.sh --setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the executor interprets the unmodified source", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(here + "/MANIFEST.json", "a").write("\n")
print("claimed", [c["property"] for c in checks])
