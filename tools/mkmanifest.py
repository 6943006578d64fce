#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan in ../check."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = set(re.findall(r'^\s+"(C\d\d)": \("', open(os.path.join(V, "check")).read(), re.M))
PURE = ("Input/output relation of a pure, single-threaded, deterministic computation: no schedule, clock, I/O, message, crash or fault takes part in it, so a simulator "
        "has nothing to vary; deciding it needs an independent numerical oracle over inputs (property-based testing or proof), which is not this technique.")
NA = {
    "C37": PURE + " It also needs the ENDFtk parser, which is not available here.",
}
NOT_BUILT = "The classes need dimwits, elementary and interpolation, which are missing here; stand-ins for them are not part of the harness yet, so no simulated run of these classes exists."
TECH = "deterministic simulation with fault injection: seeded schedules, histories and faults over the real library code in one process"
NOTE = {
    "C01": "Exploration: seeded interleavings at every memory access of the real code, outcomes compared with isolated references, plus a happens-before race check that also finds races not hit by the chosen order.",
    "C02": "Exploration: seeded histories of up to 70 000 calls with rejections and failed allocations; fresh heap and stack contents varied; outcomes compared with isolated references.",
    "C03": "Exploration: every allocation of sampled calls made to fail, once or for good, alone and under concurrency; retried afterwards.",
    "C04": "Exploration: simulated heap counts what each call keeps over repeated calls, failures at any allocation, and threads that end; double, invalid and overrun frees are caught at once.",
    "C05": "Exploration: rejected requests, caller exceptions and normal calls mixed over seeded histories and interleavings; which requests must be rejected comes from a small reference model.",
    "C06": "Exploration: threads stopped for good or paused at seeded events inside calls; the others must finish within a bound on their own events.",
    "C07": "Exploration: ambient state perturbed before and compared after every call, on every exit path and under interleaving.",
    "C08": "Exploration: results, copies and objects retained, modified and destroyed in seeded order over threads and compared with what their owner left in them.",
}
for k in ("C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"):
    NOTE[k] = {
        "C09": "Exploration: seeded sequences of evaluations, failing ones included, on compound systems of every formalism; every result compared bit by bit with a fresh object's.",
        "C10": "Exploration: seeded interleavings of evaluations of separate, copied and moved systems, compared with isolated references, plus a happens-before race check.",
        "C11": "Exploration: allocation failures at every point of an evaluation and out-of-range energies, then normal requests; outcome, parameters and memory held are checked.",
        "C12": "Exploration: constructors with accepted and rejected inputs and failing allocations; no memory may remain, a second attempt must succeed.",
        "C13": "Exploration: seeded interleavings of const requests on shared objects, compared with isolated references, plus a happens-before race check.",
        "C14": "Exploration: threads stopped for good or paused at seeded events while building, copying, evaluating or reading; the others must finish within a bound on their own events.",
        "C15": "Exploration: ambient state perturbed before and compared after every request, on every exit path and under interleaving.",
        "C16": "Exploration: maps, grids and copies retained, modified and dropped, and the objects they came from evaluated and destroyed, in seeded order over threads; compared with what their owner left in them.",
    }[k] + " The missing libraries (dimwits, elementary, interpolation, Log) are stubs."
ASSUME = " Assumes the instrumented -O1 clang build behaves as the shipped one; a bounded number of seeds, not exhaustive."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH, "level": "exploration", "level_note": NOTE[i] + ASSUME})
    else:
        na.append({"property": i, "reason": NA.get(i, PURE if i >= "C31" else NOT_BUILT)})
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is the compiler's instrumentation of the library (own TSan runtime), operator new, the pthread and clock symbols and the caller's number type. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
