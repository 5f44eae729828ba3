#!/usr/bin/env python3
# Writes MANIFEST.json from the property list, so that both stay in step.
import json
T = {
 "C01": "deterministic simulation of the thread pool: seeded schedules, steals and splits, compared with the sequential read",
 "C02": "deterministic simulation of the thread pool: seeded schedules, message decoded by an independent reader",
 "C03": "deterministic simulation: seeded operation histories with injected panics against a double-ended queue model",
 "C04": "deterministic simulation of a fleet of nodes: seeded network faults, restarts and bridges, delivered compared with published",
 "C05": "deterministic simulation with fault injection: damaged messages in a checked heap, compared with an independent reading",
 "C06": "deterministic simulation with fault injection: every read path on the same damaged message, under seeded schedules",
 "C07": "deterministic simulation of a mixed fleet: seeded schemas and rolling upgrades against an independent decoder",
 "C08": "deterministic simulation with fault injection: panics, allocation failures and drops at seeded instants, resource accounting",
 "C09": "deterministic simulation with fault injection: seeded stream behaviours and producers, message against what was yielded",
 "C10": "deterministic simulation of concurrent callers: seeded preemption at memory accesses, answers compared with running alone",
 "C11": "deterministic simulation of a disk: seeded crashes, torn and lost writes, recovered state against a store model",
 "C12": "deterministic simulation: seeded writes judged by a message definition model and an independent reader",
 "C13": "deterministic simulation of the thread pool: seeded schedules of short-cut pipelines, answers a sequential read justifies",
 "C14": "deterministic simulation with instrumented steps and heap: seeded schedules and forged messages, bounded effort",
}
NOTE = {
 "C01": "Sampled schedules, sizes and pipelines on a simulated rayon-core; rayon itself is real. Trusts the simulated pool to offer only schedules rayon's contract allows; sequentially consistent memory.",
 "C02": "As C01, for parallel sources; the decoder used as oracle is written from the message definition.",
 "C03": "Sampled histories on all point types, debug, release and no_std builds.",
 "C04": "Sampled network histories; r2r and rosrust message structs are stand-ins with the generated fields, ros2-interfaces and CDR are real.",
 "C05": "Sampled damage in a heap that catches accesses outside blocks, use after free and reads of uninitialised data by comparing different fills.",
 "C06": "Sampled messages; paths are compared with each other, so an error common to all is left to C05 and C07.",
 "C07": "Sampled schemas, rows and byte orders; only same-datatype fields are judged.",
 "C08": "Sampled interruption points in 25 kinds of use; leaks while running out of memory are not judged (std leaks there itself).",
 "C09": "Sampled streams, also fed by other simulated threads.",
 "C10": "Sampled interleavings at memory-access granularity of instrumented code (the library, its generic instances); sequentially consistent.",
 "C11": "Sampled crash points on a simulated disk; the serialisation code is real, the store around it belongs to the harness.",
 "C12": "Sampled points and types; the definition of well formed is the model's.",
 "C13": "Sampled schedules; several answers are accepted where rayon leaves the choice open.",
 "C14": "Effort is compared between a cloud and one eight times as large and bounded with generous constants; slower code within those is not reported.",
}
NA = {
 "C15": "A pure function of a type definition, computed at compile time: no schedule, fault, clock or history changes it. Its consequences for messages are exercised through the derived types of C04, C07 and C12.",
 "C16": "A pure function of four bytes without any nondeterminism or fault; RGB points are still part of every simulated workload (C04, C07, C12).",
 "C17": "A pure view of coordinates; nothing to schedule or to inject.",
 "C18": "A pure validation of its arguments; there is no nondeterminism to simulate.",
 "C19": "A pure function of bytes and a byte order; exercised by C07 with big-endian publishers, but not a simulation target of its own.",
 "C20": "A property of the build, not of executions. Every lite flavour of the checks builds without std features, which is no proof for targets without an operating system.",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "python3 check.py setup",
 "checks": [{
   "property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
   "evidence_file": f"evidence/{p['id']}.json", "technique": T[p["id"]], "level": "exploration", "level_note": NOTE[p["id"]],
 } for p in props if p["id"] in T],
 "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] in NA],
 "notes": "No hooks in /repo: instrumentation is added by a rustc wrapper (sim/wrap.sh), rayon-core, the allocator, threads, randomness, network and disk are replaced or simulated outside /repo. 'python3 check.py replay FILE' replays a violation, 'python3 check.py selftest' proves determinism. known-findings.txt lists the defects repaired in /repo.",
}
assert {p["id"] for p in props} == set(T) | set(NA)
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
