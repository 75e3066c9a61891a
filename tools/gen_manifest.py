#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitor: derivation oracle over executed parses",
 "C02": "runtime monitor: event-trace comparison of reported definitions and members with the derivation",
 "C03": "runtime monitor: event-trace comparison of reported types with the derivation",
 "C04": "runtime monitor: literal events against token patterns, exhaustive small texts",
 "C05": "runtime monitor: event-trace comparison of attribute lists with the derivation",
 "C06": "runtime monitor: event-trace comparison of argument lists with the derivation",
 "C07": "runtime monitor: token conservation (write-back) on every accepted text",
 "C08": "runtime monitor: permissive reference recogniser over near-grammar texts",
 "C09": "AddressSanitizer, Miri, coverage-guided runs and panic/outcome monitors on every public parser",
 "C10": "runtime monitor: metamorphic comparison under exchanged whitespace and comments",
 "C11": "runtime monitor: maximal-munch token oracle on every terminal and name parser",
 "C12": "runtime monitor: element/rest oracle with followers on every public parser",
 "C13": "runtime monitor: metamorphic composition (join, split, reorder, rename)",
 "C14": "runtime monitor: fresh-process reference outcomes vs histories, addresses, threads with injected delays; ThreadSanitizer",
 "C15": "runtime monitor: edge, allocation and stack counters at doubling sizes; step budgets; callgrind on suspects",
 "C16": "runtime monitor: pointer provenance of every reported slice",
 "C17": "runtime monitor: algebraic laws observed on values of every node type",
}
N = {
 "C09": "Bounded by the executions of the run. Deep nesting that exhausts the stack is a recorded finding; nesting up to 300 levels on 2 MiB is enforced.",
 "C15": "Growth is judged on measured families and pumped texts; nested extended-attribute argument lists (recorded finding) are measured separately.",
}
checks = []
for p in sorted(T):
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p, technique=T[p], level="exploration",
        level_note=N.get(p, "Bounded by the executions of the run: holds on every text observed, no claim beyond them."), evidence_file="evidence/%s.json" % p))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
