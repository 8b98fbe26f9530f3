#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "real rowan driven by a seeded scheduler of clients in one process; what is found is a violation, a quiet run is evidence over the seeds run, not proof. Trusts the reference model in sim/src and the auditing allocator. "
SIM = "deterministic simulation, seeded search over client histories and faults"
C = {
 "C01": (SIM + ", reference model of ordered trees", "exploration", F),
 "C02": (SIM + ", reference model of handles", "exploration", F),
 "C03": (SIM + ", recorded structural values", "exploration", F),
 "C04": (SIM + ", document order of the model", "exploration", F),
 "C05": (SIM + ", traversals suspended between edits", "exploration", F),
 "C06": (SIM + ", auditing allocator with quarantine, AddressSanitizer workers", "exploration", F + "Only bad accesses of the explored histories are seen."),
 "C07": ("deterministic simulation of threads: seeded search over schedules and stale reads by a run-time in place of ThreadSanitizer's (Weave), with race, lifetime and leak detection; the same scripts under Miri's seeded scheduler", "exploration", "real green layer, std and atomics in machine code; scheduler, futexes, memory visibility and allocator are ours, all decided by a seed. Load buffering is not explored. Its own test of known programs runs with each check."),
 "C08": ("deterministic simulation of threads: seeded search over schedules and stale reads (Weave, and Miri), each thread's results compared with those it gets alone", "exploration", "as C07; the oracle is the same script executed by one thread."),
 "C09": (SIM + ", panics injected at the n-th callback, refused requests", "exploration", F),
 "C10": (SIM + ", re-entrant edits injected into callbacks", "exploration", F),
 "C11": (SIM + ", sinks that fail at the n-th write or byte", "exploration", F),
 "C12": (SIM + ", strings of the model, visitors that stop or fail at chunk n", "exploration", F),
 "C13": (SIM + ", refusal of the n-th allocation of an operation, one forked child per fault point", "fault_enumeration", F + "Per operation the first refusals are enumerated, up to a bound."),
 "C14": (SIM + ", builder sessions over shared caches with abandonment, refused calls and hash collisions", "exploration", F),
 "C15": (SIM + ", pointer identity per distinct content and live bytes of the cache", "exploration", F),
 "C16": (SIM + ", pairwise equality and hashing against the model", "exploration", F),
 "C17": (SIM + ", teardown and rebuild, search by kind and range in the model", "exploration", F),
 "C18": ("deterministic simulation of the release task against scripted cargo and git that fail, die or are missing; oracle over the recorded command history", "fault_enumeration", "the real xtask binary; cargo, git and the environment are stand-ins that record and fail by script. Trusts that it starts its commands through PATH."),
 "C19": (SIM + ", requests that make a text exactly as long as possible or longer, at random points of histories of edits; what is refused must have changed nothing", "exploration", F + "The builder and a single token are brought beyond the limit in one fixed history, in the release build."),
}
NA = {
 "C20": "the result of the example parsers is a pure function of the input text; no schedule, history, time or fault is involved",
}
import sys
claimed = [p for p in C if not (p in ("C07", "C08") and not os.path.exists(HERE + "/threads_check.py")) and not (p == "C18" and not os.path.exists(HERE + "/release_check.py"))]
for p in C:
    if p not in claimed:
        NA[p] = "check under construction"
m = {
 "version": 1,
 "setup_cmd": "python3 check.py setup",
 "checks": [
  {"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough", "technique": C[p][0], "level": C[p][1], "level_note": C[p][2].strip()}
  for p in claimed],
 "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
 "notes": "No hooks in /repo: every seam used is one that rowan already has. See DESIGN.md.",
}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
