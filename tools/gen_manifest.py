#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = ["C%02d" % i for i in range(1, 24)]
NA = "Pure function of its input on one thread: no schedule, time, I/O, failure or history on which it depends, so a simulator has nothing to decide; "
na = {
 "C30": NA + "the numeric text of addF is a matter of input enumeration or proof. Its behaviour when memory runs out is claimed as C17.",
 "C31": NA + "placeholder substitution is decided by the format string alone. Concurrency, memory exhaustion and stream failure around it are claimed as C15-C17 and C19.",
 "C32": NA + "padding and grouping are decided by the value and the field parameters alone.",
 "C33": NA + "the role of a token depends on the token list alone. Leftover state from earlier parses is claimed as C18.",
 "C34": NA + "acceptance of a value depends on its text alone. What a refused value leaves behind is claimed as C18.",
 "C35": NA + "the two notations are compared input by input.",
 "C36": NA + "splitting depends on the string alone. Use from several threads is claimed as C15.",
 "C37": NA + "conversion depends on the stored text alone. Reading from several threads and from faulty disks is claimed as C16 and C20.",
 "C38": "A compile-time and configure-time fact (version text, deleted copy operations): nothing executes that a simulator could schedule or fail.",
}
note = {
 "conc": "Seeded random search over thread schedules (random, PCT-style priorities, few-switch, lock-points-only), virtual time, spurious wake-ups, stalls, wall-clock jumps and allocation failures, around the real compiled Barrier and MailBox in one process; no exhaustiveness. Trusts the simulated pthread layer, -fsanitize=thread instrumentation as the source of yield points, and sequential consistency (weak-memory effects only through the happens-before detector where it is on: C06, C09).",
 "util": "Seeded random search over programs of calls, schedules and injected faults (allocation failure, open/read/write/close errors, short and interrupted I/O, failing stream sinks) around the real compiled library; no exhaustiveness. Trusts the simulated pthread, file and allocator layers; yaml-cpp and the compiled parts of libstdc++ are real but not instrumented.",
}
checks = []
for p in claimed:
    m = "conc" if int(p[1:]) <= 14 else "util"
    n = note[m]
    if p == "C22":
        n = "Known finding: PropertyTreeYAML::writeFile is an empty stub, which the check reports on every run; any other way of breaking the property (file created but wrong, refused write taken for success) is still searched for and reported. " + n
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": n})
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "none", "enable": "No hooks were needed in /repo: the seams are the pthread, clock, allocator and file symbols, interposed at link time, and compiler instrumentation.", "source_commits": []},
       "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
       "notes": "check.py --replay FILE re-executes a replay file; --determinism PROPERTY compares run hashes across worker counts."}
assert {p["id"] for p in props} == set(claimed) | set(na)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
