#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HISTNOTE = ("Held on the executions explored (counts in the evidence file): random histories through the public interface, "
            "every answer compared with an executable model. Trusts the model, the generator's reach and the monitored stand-in "
            "for the lock crate; says nothing about histories not generated.")
T = {
 "C01": "reference-model monitor over random histories",
 "C02": "id-allocation monitor over random histories",
 "C03": "reference-model monitor with trace-of-removal audit",
 "C04": "reference-model monitor over generated query shapes",
 "C05": "intersection oracle over group queries under random histories",
 "C06": "differential monitor: world with groups against world without",
 "C07": "storage-layout invariant audited after every operation",
 "C08": "acceptance rule monitor with full-state audit",
 "C09": "fault injection by misuse with full-state comparison after caught panics",
 "C10": "drop census over tracked values",
 "C11": "slot-model monitor over resource histories",
 "C12": "lock-conflict monitor and occupancy table on scheduled programs, on guard sequences and on real threads",
 "C13": "sequential-explanation search and ownership book over histories from a controlled scheduler and real threads",
 "C14": "handle-lifetime monitor and sequential-explanation search over scheduled programs and real threads",
 "C15": "deadlock detector over scheduled programs",
 "C16": "undefined-behaviour interpreter, address sanitizer and heap census over random histories",
 "C17": "thread sanitizer and interpreter race detector over shared-world programs",
 "C18": "reference-model monitor over writes through every mutable path",
 "C19": "one-by-one model against batch operations",
 "C20": "iteration-protocol monitor with scripted random interleavings",
}
CONCNOTE = ("Held on the schedules explored (counts in the evidence file): random small thread programs on the real library under a "
            "seeded scheduler (uniform and priority-based) which switches at lock operations, and on real threads with the real lock "
            "crate. Trusts the stand-in lock crate and the sequential model; says nothing about schedules not generated.")
AFTERNOTE = HISTNOTE.replace("says nothing about histories", "a smaller share of the executions are concurrent programs, looked at as they run and "
                             "after their end. Says nothing about histories").replace("lock crate; a smaller", "lock crate. A smaller")
NOTES = {p: AFTERNOTE for p in ("C01", "C02", "C03", "C04", "C05", "C07", "C10")}
NOTES.update({p: CONCNOTE for p in ("C12", "C13", "C14", "C15")})
NOTES["C16"] = ("Held on the executions explored (counts in the evidence file): random single-threaded histories, natively, under the "
                "address sanitizer and under the interpreter with both aliasing models; every generated query shape runs once under each "
                "model. Three listed findings of the interface itself are excluded (known-findings.txt).")
NOTES["C17"] = ("Held on the executions explored (counts in the evidence file): random programs of 2 to 4 threads on the real lock crate "
                "under the thread sanitizer (kernel schedules) and on the stand-in under the interpreter (random preemption, weak memory). "
                "One listed finding of the interface itself is excluded (known-findings.txt).")
checks = [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
           "technique": t, "level": "exploration", "level_note": NOTES.get(p, HISTNOTE)} for p, t in T.items()]
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {"T01": "the refuting event is the compiler accepting a program; nothing executes, so no monitor or sanitizer can observe it"}
na = [{"property": p, "reason": NA.get(p, "not built yet")} for p in props if p not in T]
json.dump({"version": 1, "setup_cmd": "cargo build --release --offline --bin mon --manifest-path mon/Cargo.toml",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the monitors use the public interface and replace the lock crate in their own build."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
