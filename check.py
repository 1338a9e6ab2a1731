#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property by symbolic execution of /repo's current code (see DESIGN.md).
Exit 0: holds within the bounds; 1: violated (VIOLATION line); 2: no answer.
"""
import collections, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
# cover points every run of a property has to reach (guards against vacuous harnesses)
COVERS = {
    1: [1, 2], 2: [41, 42, 43, 44], 3: [1, 2], 4: [1, 2], 5: [1, 2], 6: [1, 2, 31, 32], 7: [1, 2, 3, 31, 32], 8: [1, 2, 31, 32],
    9: [1, 2], 10: [1, 2], 11: [1, 2], 12: [1, 2], 13: [1, 2], 14: [1, 2], 15: [1], 16: [1], 17: [1, 2], 18: [1, 2, 3], 19: [1], 20: [1],
    21: [1, 2], 22: [1, 2], 23: [1, 2], 24: [1, 2, 3], 25: [1, 2, 3], 26: [1, 2, 3], 27: [1, 2], 28: [1, 2], 29: [1, 2, 3], 30: [1, 2, 3],
    31: [1, 2], 32: [1, 2], 33: [1, 2, 3], 35: [1, 2, 3], 36: [1, 2], 37: [1, 2], 38: [1, 2], 39: [1, 2], 40: [1, 2], 41: [1, 2, 3, 4, 5], 42: [1, 2, 3],
}
LIMIT = {"quick": 780, "thorough": 6 * 3600}
ASSUMPTIONS = [
    "rustc lowers the checked code to the executed LLVM IR and to machine code consistently (sampled paths are replayed natively and compared)",
    "z3 4.8.12 decides quantifier-free bit-vector formulas correctly",
    "undefined bits and padding read as 0; the allocator never fails; memchr's CPU dispatch takes the SSE2 implementation",
    "inputs are the templates listed under bounds: holes are symbolic over 7-bit characters, {unicode} over all characters; other non-ASCII text is drawn from a menu of 13 characters (1 per class)",
]


def build():
    t = time.time()
    r = subprocess.run(["bash", os.path.join(HERE, "tools", "build.sh"), BUILD])
    if r.returncode != 0:
        print("check.py: build failed", file=sys.stderr)
        sys.exit(2)
    return time.time() - t


def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    for line in open(p):
        line = line.strip()
        if line.startswith("{"):
            k = json.loads(line)
            if k["property"] == prop:
                out.append(k)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n = int(prop[1:])
    t0 = time.time()
    build_s = build()
    sxe = os.path.join(BUILD, "engine/release/sxe")
    deps = os.path.join(BUILD, "harness/release/deps")
    so, ir = os.path.join(deps, "libharness.so"), os.path.join(deps, "harness.ll")
    tmp = tempfile.mkdtemp(prefix="sx-%s-" % prop)
    try:
        jobs = subprocess.run([sxe, "jobs", "--so", so, "--prop", str(n)] + (["--thorough"] if tier == "thorough" else []),
                              capture_output=True, text=True)
        if jobs.returncode != 0 or not jobs.stdout.strip():
            print("check.py: no jobs for %s\n%s" % (prop, jobs.stderr), file=sys.stderr)
            return 2
        jf, of = os.path.join(tmp, "jobs"), os.path.join(tmp, "out.json")
        open(jf, "w").write(jobs.stdout)
        kn = known(prop)
        limit = LIMIT[tier] - (time.time() - t0)
        cmd = [sxe, "run", "--ir", ir, "--so", so, "--jobs", jf, "--tmp", tmp, "--out", of, "--workers", str(os.cpu_count() or 8),
               "--time", str(int(limit)), "--seed", str(seed), "--samples", "60"]
        if kn:
            cmd.append("--keep-going")
        rc = subprocess.run(cmd).returncode
        if not os.path.exists(of):
            print("check.py: the executor ended with %d" % rc, file=sys.stderr)
            return 2
        d = json.load(open(of))
        seen, new = [], []
        for v in d["violations"]:
            m = [k for k in kn if k["job"] == v["label"] and k["code"] == v["code"] and k["inputs"] == v["inputs"]]
            (seen if m else new).append((v, m[0] if m else None))
        for k in kn:
            if any(x is k for _, x in seen):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        st = collections.defaultdict(int, d["stats"])
        missing = [c for c in COVERS.get(n, []) if str(c) not in d["covers"]]
        jl = [l.split(" ", 5) for l in jobs.stdout.splitlines()]
        problems = []
        if not new:
            if d["unknown"]:
                problems.append("unsupported or undecided: %s" % d["unknown"])
            if d["unconfirmed"]:
                problems.append("counterexamples that do not reproduce natively: %s" % json.dumps(d["unconfirmed"][:3]))
            if d["budget_exhausted"]:
                problems.append("budget exhausted")
            if d["lost_workers"]:
                problems.append("lost workers: %s" % d["lost_workers"])
            if d["jobs_started"] < len(jl):
                problems.append("only %d of %d jobs explored" % (d["jobs_started"], len(jl)))
            if d["samples_disagree"]:
                problems.append("symbolic and native runs disagree: %s" % json.dumps(d["samples_disagree"][:3]))
            if missing:
                problems.append("vacuous: cover points %s not reached" % missing)
        samples = []
        for x in d["sample_inputs"]:
            j = [j for j in jl if (j[5] if len(j) > 5 else "") == x["job"]][0]
            r = subprocess.run([sxe, "native", "--so", so, "--entry", j[0], "--params", ",".join(j[1:5]), "--inputs", ",".join(map(str, x["inputs"])), "--tmp", tmp],
                               capture_output=True, text=True)
            samples.append({"job": x["job"], "path_model": x["inputs"], "case": r.stdout.strip()})
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": st["paths"],
                "transitions": st["forks"],
                "traces_validated_against_impl": d["samples_agree"],
                "samples": samples,
                "states_meaning": "feasible execution paths explored to their end; transitions: symbolic branches with both sides feasible",
                "functions_encoded": d["functions"],
                "source_lines_executed": {f: len(l) for f, l in d["lines"].items()},
                "bounds": {
                    "jobs": [{"entry": j[0], "params": j[1:5], "input": j[5] if len(j) > 5 else "", "paths": p[1]} for j, p in zip(jl, d["job_paths"])],
                    "max_symbolic_inputs_on_a_path": st["max_symbolic_inputs"],
                    "legend": "{any}: any 7-bit character; {any+}: any 7-bit character or one of 13 non-ASCII ones; {any?}: one or none; {unicode}: any character at all (any Unicode scalar value); {ws}, {letter}, {namechar}, {digit}, {not<}: any of that class; {case:X}: either case; {quote}: ' or \"; {0-3:X}, {40:X}, {34-46:X}, {0-90:X}: repetitions; other labels name the arrangement of events or operations that is enumerated, its texts and names being symbolic",
                },
                "queries": st["queries"], "queries_answered_from_cache": st["query_cache_hits"],
                "solver_calls": st["solver_calls"], "solver_sat": st["solver_sat"], "solver_unsat": st["solver_unsat"], "solver_unknown": st["solver_unknown"],
                "solver_seconds_all_workers": round(st["solver_ns"] / 1e9, 2),
                "instructions": st["instructions"],
                "covers": d["covers"],
                "exhaustive": not problems and not new,
                "build_s": round(build_s, 1),
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 1),
            "violations": len(new),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if new:
            v = new[0][0]
            rd = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, prop + ".txt")
            with open(rp, "w") as f:
                f.write("property %s violated (%s %s): %s\njob: %s\n\n%s\n\nnative outcome: %s\nstack:\n  %s\n\nreplay (after tools/build.sh build):\n  %s native --so %s --entry %s --params %s --inputs %s\n\nall violations found: %s\n" % (
                    prop, v["kind"], v["code"], v["msg"], v["label"], v["notes"], v["native"], "\n  ".join(v["stack"]),
                    os.path.relpath(sxe, HERE), os.path.relpath(so, HERE), v["entry"], ",".join(map(str, v["params"])), ",".join(map(str, v["inputs"])),
                    json.dumps([x for x, _ in new], indent=1)))
            print("%s (%s %s) in %s\n%s" % (v["msg"], v["kind"], v["code"], v["label"], v["notes"]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if problems:
            for p in problems:
                print("no answer: " + p)
            return 2
        print("%s holds: %d jobs, %d paths, %d queries (%d to the solver), %d/%d sampled paths agree natively, %.0f s" % (
            prop, len(jl), st["paths"], st["queries"], st["solver_calls"], d["samples_agree"], d["samples_total"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
