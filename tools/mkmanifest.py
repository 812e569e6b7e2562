#!/usr/bin/env python3
"""writes MANIFEST.json from the properties and what is claimed"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "tasks": "random task forests and pool life cycles on the real pool and deque; every atomic, futex, thread and clock operation scheduled by the simulator, stale relaxed loads, stalls, spurious wake-ups, thread start failures; happens-before race detection",
 "deque": "one owner and several thieves on the real deque; histories checked for linearizability against a sequential deque; stale loads and reordering by the C++ memory model",
 "parallel": "real parallel_for/par_each on the real pool; per element counters, plain results and happens-before races",
 "schedule": "random sets of systems of every kind of access, several executors and pools; overlap and order monitored, happens-before races on component data",
 "commands": "recording threads and pool tasks interleaved by the simulator, flushes from any thread, failing commands and allocations; compared to a model of the recorded commands",
 "registry": "random operation histories over 16 component types with failing allocations, constructors and copies at seeded points; compared to a map model after every step",
 "containers": "random operation histories with adversarial hashes and failing allocations and copies; compared to a reference map after every step",
 "submit": "submissions, parallel_for, schedule set-up and runs and pool creation met by failing allocations, copies, thread starts and throwing systems, under simulated scheduling; execution counts, activity after the exception, leaks",
 "scratch": "random allocation histories on small and almost full buffers, and threads using temporary memory under simulated scheduling with failing allocations; every block's place, alignment and content checked after every step",
 "concurrent": "threads reading one registry or using registries of their own, interleaved by the simulator; happens-before races and a model per registry",
}
import re
src = open(os.path.join(HERE, "run.py")).read()
plan = eval(re.search(r"PLAN = (\{.*?\n\})", src, re.S).group(1))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {"C18": "the identity of a type is decided by the compiler, the linker and static initialisation; no schedule, clock, I/O or fault takes part in it, so there is nothing a simulated run could vary"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan:
        checks.append({
            "property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, workloads and faults of the real code",
            "level": "exploration",
            "level_note": NOTE[plan[i][0]] + ". Sampled, not exhaustive; trusts the simulator's scheduler, heap and C++ memory model (/verif/sim) and the compiler's instrumentation.",
        })
    else:
        na.append({"property": i, "reason": NA[i]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "no hooks in /repo: the seam is the compiler's thread-sanitizer instrumentation and symbol interposition, see DESIGN.md; repaired defects: known_findings.txt"},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
