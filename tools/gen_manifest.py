#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = [n for n in range(1, 43) if n != 34]
NA = {
    34: "Stack exhaustion by nesting depth is unbounded by nature: a bounded symbolic execution covers only small depths and has no real call stack, so it cannot decide this property.",
}
NOTE = ("Exhaustive over all values of the symbolic holes in the listed input templates/shapes (bounds in the evidence file), by symbolic execution of the "
        "compiled real code with z3 deciding every branch; counterexamples are replayed natively. Trusts rustc's IR, the executor (validated by native "
        "replay of sampled paths) and z3; inputs longer than or of another shape than the templates are outside the bounds.")
NOTES = {}
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))}
pending = [p for p in props if int(p[1:]) not in CLAIMED and int(p[1:]) not in NA]
m = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh build",
    "checks": [{
        "property": "P%02d" % n,
        "quick_cmd": "python3 check.py P%02d --tier quick" % n,
        "thorough_cmd": "python3 check.py P%02d --tier thorough" % n,
        "technique": "symbolic execution of the compiled code (LLVM IR) with z3",
        "level": "model_checking",
        "level_note": NOTE + NOTES.get(n, ""),
    } for n in CLAIMED],
    "not_applicable": [{"property": "P%02d" % n, "reason": r} for n, r in NA.items()]
    + [{"property": p, "reason": "not built yet"} for p in pending],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
