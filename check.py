#!/usr/bin/env python3
"""Decides one property of /repo's current sources by static analysis:  check.py <id> [quick|thorough]

exit 0: the property holds on everything analysed; exit 1 with a VIOLATION line: it is broken;
exit 2: no verdict (the sources could not be compiled or understood)."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from engine import build, jobs                     # noqa: E402
from engine.report import TaskError                # noqa: E402

ASSUMPTIONS = [
    "x86-64, clang's front end translates the C sources faithfully; the analysed IR is unoptimised (mem2reg only)",
    "store buffering (TSO) for the deque; interleaving of the other shared accesses, as the C11 orderings in the code ask for",
    "task bodies respect the queue discipline: they sync what they spawn and do not touch Lace's memory",
    "fewer than 2^31 tasks per queue and at most 65535 workers",
]


def known():
    """(property, rule, entry part, where part) of recorded, unrepaired findings"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = [x.strip() for x in l[len("finding:"):].split("|")]
                d = dict(x.split("=", 1) for x in f if "=" in x)
                out.append(d)
    return out


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in jobs.PROPS:
        print("usage: check.py <property> [quick|thorough]; properties: " + " ".join(sorted(jobs.PROPS)))
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    B = build.Build()
    errs, units, R = [], [], None
    try:
        R, errs, units = jobs.analyse(prop, tier, B)
    except (build.BuildError, TaskError) as e:
        errs = [str(e)]
    except Exception:
        import traceback
        errs = [traceback.format_exc()]
    viol = R.viol if R else []
    finds = [d for d in known() if d.get("property") == prop]
    new, old = [], {}
    for v in viol:
        for i, d in enumerate(finds):
            if d.get("rule") == v["rule"] and d.get("entry", "") in v["entry"] and d.get("what", "") in v["what"]:
                old.setdefault(i, v)
                break
        else:
            new.append(v)
    # one line per place and reason
    seen, uniq = set(), []
    for v in new:
        k = (v["rule"], v["where"], v["what"])
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    evd = os.environ.get("LACE_SA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, prop + ".report.txt")
    obl = sum(a for a, b in R.obl.values()) if R else 0
    dis = sum(b for a, b in R.obl.values()) if R else 0
    if not errs and not new:
        empty = [p for p in jobs.PROPS[prop][1] if "*" not in p and p not in R.obl]
        if obl == 0:
            errs.append("no obligation was generated")
    else:
        empty = []
    with open(rep, "w") as f:
        for v in uniq:
            f.write("%s  [%s]\n  rule   %s\n  entry  %s\n" % (v["where"], v["what"], v["rule"], v["entry"]))
            for l in v["path"]:
                f.write("    %s\n" % l)
            f.write("\n")
        for e in errs:
            f.write("NO VERDICT: %s\n" % e)
    traces = sum(e["traces"] for e in R.entries.values()) if R else 0
    ins = sum(e["instrs"] for e in R.entries.values()) if R else 0
    loops = sum(e["loops"] for e in R.entries.values()) if R else 0
    cov = dict(
        explanation="Abstract interpretation of the LLVM IR of the current sources (%s): every path of the listed entry points, "
                    "loops by fixpoints, with a model of what other threads may do; each obligation is an instance of a rule on "
                    "one path. %d of %d obligations discharged on %d abstract paths (%d abstract instruction steps, %d loop "
                    "fixpoints) through %d functions from %d entry points." %
                    (", ".join(units), dis, obl, traces, ins, loops, len(R.funcs) if R else 0, len(R.entries) if R else 0),
        obligations=obl, discharged=dis, abstract_paths=traces, abstract_steps=ins, loop_fixpoints=loops,
        rules={k: dict(instances=a, discharged=b) for k, (a, b) in sorted(R.obl.items())} if R else {},
        functions=sorted(R.funcs) if R else [], entry_points=sorted(R.entries) if R else [],
        configurations=units, rules_with_nothing_to_check=empty, no_verdict=len(errs), known_findings=len(old),
        samples=[dict(rule=v["rule"], where=v["where"], what=v["what"]) for v in uniq[:5]])
    if R and R.notes:
        cov["notes"] = R.notes
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, assumptions=ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(uniq))
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for i in sorted(old):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, old[i]["what"], old[i]["where"]))
    for v in uniq[:20]:
        print("%s: %s [%s] in %s" % (v["where"], v["what"], v["rule"], v["entry"]))
    if uniq:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rep, HERE)))
        return 1
    if errs:
        for e in errs[:3]:
            print("NO VERDICT for %s: %s" % (prop, e.strip()[-1500:]))
        return 2
    print("%s holds: %d obligations on %d paths, %.1f s" % (prop, obl, traces, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
