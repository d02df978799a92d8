"""Results of an analysis: what was analysed, which obligations were decided, what is violated."""
import multiprocessing as mp
import os
import traceback


WIDTHS = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}


def narrow_counters(f):
    """instructions that add to or subtract from a shared counter, with the size of the counter"""
    if hasattr(f, "_counters"):
        return f._counters
    defs = {i.dst: i for b in f.blocks.values() for i in b.instrs if i.dst}

    def counts(v):
        """is the value some other value plus or minus one"""
        while v[0] == "reg" and v[1] in defs and defs[v[1]].op == "cast":
            v = defs[v[1]].ops[0]
        d = defs.get(v[1]) if v[0] == "reg" else None
        if d is None or d.op != "bin" or d.x["o"] not in ("add", "sub"):
            return False
        one = [k for k, o in enumerate(d.ops) if o in (("int", 1), ("int", -1))]
        return 1 in one or d.x["o"] == "add" and bool(one)
    out = []
    for b in f.blocks.values():
        for i in b.instrs:
            size = WIDTHS.get(str(i.ty))
            if i.op == "rmw" and i.x["o"] in ("add", "sub"):
                out.append((i, size or 8))
            elif i.op == "store" and i.ops[1][0] in ("glob", "gep") and size and counts(i.ops[0]):
                out.append((i, size))
            elif i.op == "cmpxchg" and size and counts(i.ops[2]):
                out.append((i, size))
    f._counters = out
    return out


class Report:
    def __init__(self):
        self.viol = []              # dicts: rule, entry, where, what, path
        self.obl = {}               # rule -> [instances, discharged]
        self.entries = {}           # entry -> dict(traces, instrs, loops)
        self.funcs = set()
        self.notes = []

    def check(self, rule, ok, entry, where, what, path=None):
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
        else:
            self.viol.append(dict(rule=rule, entry=entry, where=where, what=what, path=path or []))
        return bool(ok)

    def count(self, rule, n=1):
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += n
        o[1] += n

    def entry(self, name, I, ntraces):
        e = self.entries.setdefault(name, dict(traces=0, instrs=0, loops=0))
        e["traces"] += ntraces
        for fn in sorted(I.stats["functions"]):
            f = I.mod.functions.get(fn)
            for i, size in narrow_counters(f) if f is not None else ():
                self.check("width.counter", size >= 4, "%s in %s" % (name, fn), I.where(i),
                           "a counter of %d bits cannot count all workers and callers" % (8 * size))
        e["instrs"] += I.stats["instrs"]
        e["loops"] += I.stats["loops"]
        self.funcs |= I.stats["functions"]

    def merge(self, o):
        self.viol += o.viol
        for k, (a, b) in o.obl.items():
            x = self.obl.setdefault(k, [0, 0])
            x[0] += a
            x[1] += b
        for k, e in o.entries.items():
            x = self.entries.setdefault(k, dict(traces=0, instrs=0, loops=0))
            for f in e:
                x[f] += e[f]
        self.funcs |= o.funcs
        self.notes += o.notes


def path_of(I, trace, upto=None, limit=60):
    """readable event list of a trace"""
    out = []
    for e in trace:
        d = e.d
        t = None
        if e.k in ("load", "store"):
            t = "%s %s+[%s] %s %r%s" % (e.k, I.role(d["region"]) or "?", d["off"], "=" if e.k == "load" else ":=",
                                      d["val"], " (%s)" % d["order"] if d.get("order") else "")
        elif e.k in ("exec", "call", "end"):
            t = "%s %s" % (e.k, d.get("name") or d.get("why") or repr(d.get("target")))
        elif e.k == "cas":
            t = "cas %s+[%s] %r -> %r %s" % (I.role(d["region"]) or "?", d["off"], d["exp"], d["new"],
                                             "succeeds" if d["ok"] else "fails")
        elif e.k == "rmw":
            t = "rmw %s %s+[%s] %r" % (d["op"], I.role(d["region"]) or "?", d["off"], d["arg"])
        elif e.k in ("fence", "loop", "back"):
            t = "%s %s" % (e.k, d.get("order") or d.get("header") or "")
        if t:
            out.append("%s: %s" % (I.where(e.ins), t))
        if e is upto:
            break
    if len(out) > limit:
        out = out[:limit // 2] + ["..."] + out[-limit // 2:]
    return out


_TASKS = None


def _one(i):
    fn, args = _TASKS[i]
    try:
        return i, fn(*args), None
    except Exception:
        return i, None, traceback.format_exc()


class TaskError(Exception):
    pass


def pmap(tasks, errors=False):
    """run [(function, args)] in forked workers; results in order.  The first error is raised,
    or, with errors=True, returned: [(result, error)]"""
    global _TASKS
    _TASKS = tasks
    n = min(os.cpu_count() or 1, 8, len(tasks))
    if n <= 1 or os.environ.get("LACE_SERIAL"):
        res = [_one(i) for i in range(len(tasks))]
    else:
        with mp.get_context("fork").Pool(n, maxtasksperchild=None) as p:
            res = list(p.imap_unordered(_one, range(len(tasks)), chunksize=1))
    out = [None] * len(tasks)
    for i, r, err in res:
        if errors:
            out[i] = (r, err)
            continue
        if err:
            raise TaskError("analysis of %r failed:\n%s" % (getattr(tasks[i][0], "__name__", "?"), err))
        out[i] = r
    return out
