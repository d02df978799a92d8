#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of analyses."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import jobs

TECH = {
    "tasks": "abstract interpretation of the macro instances (relational domain, typestate of slot and split point)",
    "lib": "abstract interpretation of the runtime's functions (event-order and typestate rules on all paths, loop fixpoints)",
}
SPECIAL = getattr(jobs, "TECHNIQUE", {})
NOTE = getattr(jobs, "NOTE", {})
NA = {
    "C29": "a statement about the values of whole programs under all schedules: no static argument in reach bounds the state of arbitrary "
           "user programs on arbitrarily many workers; the local properties it rests on are C01-C03, C06, C08, C12-C15, C28",
    "C30": "liveness under fairness: needs a global argument about the progress of all threads (termination of user tasks, spinning "
           "workers, scheduler), which per-function dataflow cannot give; the local parts (wait-freedom, polling, waking) are C09, C11, C16, C18, C24",
    "C31": "a statement about time on a machine; nothing in the source bounds it statically",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i not in jobs.PROPS:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
            continue
        groups = jobs.PROPS[i][0]
        tech = SPECIAL.get(i) or "; ".join([TECH["tasks"]] * any(g in jobs.DQ for g in groups) + [TECH["lib"]] * any(g not in jobs.DQ for g in groups))
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique="static analysis: " + tech, level="other",
            level_note=NOTE.get(i, "Every rule is decided on every abstract path of the analysed functions, unbounded in loop iterations, queue "
                                   "contents and number of workers; assumes the environment model described in DESIGN.md (TSO deque, well-behaved "
                                   "task bodies) and trusts clang's front end and this analyser.")))
    m = dict(version=1, setup_cmd="python3 -V && clang-18 --version && opt-18 --version && cmake --version", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
