#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = ("Runs the tool's real code (main included) as forked processes whose system calls are caught with syscall user dispatch and "
        "answered by a simulated kernel; a seeded PRNG decides job, faults and schedule; oracle: an independent reference model. ")
LIB = ("Runs the library's real code under a simulated thread scheduler, allocator and error handlers; a seeded PRNG decides the "
       "histories, faults and schedule; oracle: an independent reference model. ")
LIM = "Samples, does not enumerate; trusts the simulated kernel/allocator and the reference model. Every reported violation has been replayed exactly in a fresh process."
CLAIMED = {
    "C01": ("deterministic simulation of the tool under injected I/O and allocation faults", TOOL),
    "C02": ("deterministic simulation of the tool under injected I/O faults and malformed jobs", TOOL),
    "C03": ("deterministic simulation: differential runs under seeded I/O splitting", TOOL),
    "C04": ("deterministic simulation of kill, torn writes, power loss and rerun", TOOL),
    "C05": ("deterministic simulation with a file-system confinement oracle", TOOL),
    "C06": ("deterministic simulation of concurrent tool processes under a seeded scheduler", TOOL),
    "C07": ("deterministic simulation of corrupted and changing inputs, AddressSanitizer build", TOOL),
    "C08": ("deterministic simulation of API call histories with rejected calls and throwing error handlers", LIB),
    "C09": ("deterministic simulation with failing allocations and throwing error handlers", LIB),
    "C10": ("deterministic simulation of index-buffer splitting under failing allocations and retries", LIB),
    "C11": ("deterministic simulation of threads with separate converters, happens-before race detection", LIB),
    "C12": ("deterministic simulation of threads sharing objects, happens-before race detection", LIB),
    "C13": ("deterministic simulation: differential runs under perturbed heap, stack, environment and history", TOOL),
}
LATER = {}
NA = {
    "C14": "A pure function of its input (VertexValue::fromData/toData): no schedule, clock, I/O, fault or second party for a simulation to control; encoding is only checked as part of C01, C07 and C08.",
    "C15": "A pure function of a string over constant tables: nothing for a simulator to decide; concurrent use of the look-ups is covered by C12.",
    "C16": "A pure function of its input; only its use by the tool (C01, C07) meets faults.",
    "C17": "A pure function of its input; only its use by the tool (C01, C05) meets a file system.",
}
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo are needed: the seams are system calls, operator new/delete, the error callback and pthread/TSan entry points, all interposed at link time or by the kernel's syscall user dispatch.",
}
for p, (tech, how) in sorted(CLAIMED.items()):
    m["checks"].append({
        "property": p,
        "quick_cmd": f"python3 check {p} --tier quick",
        "thorough_cmd": f"python3 check {p} --tier thorough",
        "technique": tech, "level": "exploration", "level_note": how + LIM,
    })
for p, r in sorted({**{k: v for k, v in LATER.items() if k not in CLAIMED}, **NA}.items()):
    m["not_applicable"].append({"property": p, "reason": r})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
