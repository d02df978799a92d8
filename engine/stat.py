"""Rules on the statistics: the report adds up the counters of all workers under the right names, the
reset clears them all."""
import re

from .poly import Lin, const, sym, fresh, syminfo, ZERO
from .absint import AnalysisError
from .dq import Trace, provenance
from .rt import *          # noqa: F401,F403
from .ext import is_call

PRINT = {"fprintf": 1, "printf": 0, "dprintf": 1, "snprintf": 2, "sprintf": 1}


def worker_of(I, T, region):
    """index expression of the worker whose private structure this region is"""
    if region is None:
        return None
    pv = syminfo(region).kw.get("prov")
    if not pv or pv[0] is None or not isinstance(pv[1], Lin):
        return None
    nm = array_of(I, pv[0])
    if nm is None:
        return None
    off = T.n(pv[1])
    return off.div(8) if off.divisible(8) else None


def array_of(I, region):
    """name of the global an array of worker pointers lives in or is loaded from"""
    role = I.role(region) or ""
    if role == "G:workers_p":
        return "workers_p"
    pv = syminfo(region).kw.get("prov")
    if pv and pv[0] is not None and (I.role(pv[0]) or "") == "G:workers_p":
        return "workers_p"
    return None


def counter_of(I, T, env, v):
    """(worker index, counter index) of a value loaded from a worker's counters"""
    pv = provenance(T.n(v)) if isinstance(v, Lin) else None
    if pv is None or pv[0] is None or not isinstance(pv[1], Lin):
        return None
    return counter_at(I, T, env, pv[0], pv[1])


def counter_at(I, T, env, region, off):
    w = worker_of(I, T, region)
    if w is None:
        return None
    o = T.n(off) - env.lay["o_WorkerP_ctr"]
    if not o.divisible(8):
        return None
    j = o.div(8)
    if T.f.implies_ge(-j - 1) or T.f.implies_ge(j - env.lay["n_ctr"]):
        return None
    return w, j


def marks(T):
    return [(p, e) for p, e in enumerate(T.ev) if e.k == "loop"]


class Loops:
    """what every iteration of each loop does, and whether it is left only after `bound` iterations"""

    def __init__(self, traces):
        self.traces = traces
        self.backs, self.exits = {}, {}
        for T in traces:
            ms = marks(T)
            last = T.ev[-1] if T.ev else None
            b = last if last is not None and last.k == "back" else None
            for p, m in ms:
                k = m.d["k"]
                if b is not None and k == b.d["mark"].d["k"]:
                    self.backs.setdefault(k, []).append((T, p))
                    break
            if T.kind == "cut" and b is None:
                continue
            # loops entered and left on this trace
            for p, m in ms:
                k = m.d["k"]
                if b is not None and k == b.d["mark"].d["k"]:
                    continue
                if self.left(T, p, b):
                    self.exits.setdefault(k, []).append((T, p))

    def left(self, T, p, b):
        """the loop of this mark was left on this trace (it is not around the back edge the trace ends with)"""
        m = T.ev[p]
        if b is None:
            return True
        mb = b.d["mark"]
        q = [i for i, x in marks(T) if x.d["k"] == mb.d["k"]]
        if not q or p > q[0]:
            return bool(q)          # entered inside the body of the loop that goes round
        a, c = m.d.get("loop"), mb.d.get("loop")
        return a is not None and c is not None and m.d.get("fn") == mb.d.get("fn") and c.header not in a.blocks

    def trips(self, k, bound):
        """None if the loop provably runs `bound` times, else a trace on which it may not"""
        for T, p in self.exits.get(k, ()):
            if not T.f.implies_eq(sym(k) - bound):
                return T
        return None


def index_in(T, e, cands, bound):
    """the loop symbol among cands for which e runs over 0..bound-1 (upwards or downwards)"""
    for k in cands:
        if T.eq(e, sym(k)) or T.eq(e, bound - sym(k) - 1):
            return k
    return None


def reset(R, env):
    M, I, st = env.outside("lace_count_reset")
    n = sym(st.g["n"])
    res = I.analyse("lace_count_reset", [], st)
    entry = "%s lace_count_reset" % env.tag
    R.entry(entry, I, len(res))
    traces = [Trace(I, M, s, rv, k) for s, rv, k in res]
    for T in traces:
        if T.kind == "dead":
            R.check("count.reset", False, entry, T.where_end(), "resetting the counters ends the program", T.path())
    L = Loops(traces)
    N = const(env.lay["n_ctr"])
    o = env.lay["o_WorkerP_ctr"]
    size = 8 * env.lay["n_ctr"]

    def clears(T, p, want):
        """does the trace clear worker `want` after event p"""
        hit = set()
        for q in range(p, len(T.ev)):
            e = T.ev[q]
            if e.k == "memset":
                b, off = I.split(T.s, e.d["dst"])
                w = worker_of(I, T, b)
                if w is not None and T.eq(w, want) and T.f.implies_ge(const(o) - off) and \
                        T.f.implies_ge(off + e.d["len"] - o - size) and T.eq(e.d["val"], ZERO):
                    return True
            if e.k == "store" and e.d.get("region") is not None and isinstance(e.d["val"], Lin) and T.eq(e.d["val"], ZERO):
                c = counter_at(I, T, env, e.d["region"], e.d["off"])
                if c and T.eq(c[0], want) and c[1].is_const():
                    hit.add(c[1].c)
            if e.k == "loop" and inner_clears(e.d["k"], want):
                return True
        return len(hit) == env.lay["n_ctr"]

    def inner_clears(k, want):
        """a loop over the counters that clears all of them"""
        bs = L.backs.get(k)
        if not bs or L.trips(k, N) is not None:
            return False
        for T, p in bs:
            if not any(zero_store(T, e, want, k) for e in T.ev[p:]):
                return False
        return True

    def zero_store(T, e, want, k):
        if e.k != "store" or e.d.get("region") is None or not isinstance(e.d["val"], Lin) or not T.eq(e.d["val"], ZERO):
            return False
        c = counter_at(I, T, env, e.d["region"], e.d["off"])
        return c is not None and T.eq(c[0], want) and (T.eq(c[1], sym(k)) or T.eq(c[1], N - sym(k) - 1))

    def outer_ok(k):
        if L.trips(k, n) is not None:
            return False
        bs = L.backs.get(k)
        return bool(bs) and all(clears(T, p, sym(k)) or clears(T, p, n - sym(k) - 1) for T, p in bs)

    def swapped_ok(k):
        """for every counter: for every worker"""
        if L.trips(k, N) is not None or not L.backs.get(k):
            return False
        for T, p in L.backs[k]:
            good = False
            for q, m in marks(T)[0:]:
                ki = m.d["k"]
                if q <= p or L.trips(ki, n) is not None or not L.backs.get(ki):
                    continue
                if all(any(zero_store(T2, e, w, k) for e in T2.ev[p2:] for w in (sym(ki), n - sym(ki) - 1)) for T2, p2 in L.backs[ki]):
                    good = True
            if not good:
                return False
        return True
    for T in traces:
        if T.kind != "ret":
            continue
        if T.f.implies_eq(n):
            continue
        ok = any(outer_ok(m.d["k"]) or swapped_ok(m.d["k"]) for p, m in marks(T))
        R.check("count.reset", ok, entry, T.where_end(), "not every counter of every worker is cleared", None if ok else T.path())
    # nothing else than zero is put into the counters
    for T in traces:
        for e in T.ev:
            if e.k == "store" and e.d.get("region") is not None and counter_at(I, T, env, e.d["region"], e.d["off"]):
                ok = isinstance(e.d["val"], Lin) and T.eq(e.d["val"], ZERO)
                R.check("count.reset-zero", ok, entry, T.where(e), "a counter is not reset to zero", None if ok else T.path(e))


# ------------------------------------------------------------------------------------- report
def fmt_text(env, v):
    """text of a format argument"""
    if not isinstance(v, Lin) or len(v.t) != 1 or v.c != 0:
        return None
    nm = (syminfo(v.t[0][0]).kw.get("role") or "")
    if not nm.startswith("G:"):
        return None
    g = env.mod.globals.get(nm[2:])
    if g is None or not g.init or g.init[0] != "cstr":
        return None
    t = g.init[1]
    m = re.match(r'c"(.*)"$', t, re.S)
    t = m.group(1) if m else t
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda x: chr(int(x.group(1), 16)), t).rstrip("\0")


def specs(fmt):
    """[(text before, text after)] of the conversions of a format"""
    out, last = [], 0
    ms = [m for m in re.finditer(r"%(?:%|[-+ #0]*[0-9*]*(?:\.[0-9*]+)?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z])", fmt) if m.group(0) != "%%"]
    for i, m in enumerate(ms):
        end = ms[i + 1].start() if i + 1 < len(ms) else len(fmt)
        out.append((fmt[:m.start()], fmt[m.end():end]))
    return out


def expected(before, after):
    """the counter a label names"""
    a = after.strip().lower()
    leap = "leap" in before.lower()
    for words, steal, lp in (("good", "CTR_steals", "CTR_leaps"), ("busy", "CTR_steal_busy", "CTR_leap_busy"),
                             ("tries", "CTR_steal_tries", "CTR_leap_tries")):
        if a.startswith(words):
            return lp if leap else steal
    for word, c in (("shrinks", "CTR_split_shrink"), ("grows", "CTR_split_grow"), ("outgoing", "CTR_split_req")):
        if a.startswith(word):
            return c
    if re.match(r"tasks \([^)]*\): *$", before.lower()):
        return "CTR_tasks"
    return None


def report(R, env):
    M, I, st = env.outside("lace_count_report_file")
    zeros = []
    M.divzero = lambda I_, z: zeros.append(z)
    n = sym(st.g["n"])
    res = I.analyse("lace_count_report_file", [fresh("file", 1, None, ptr=True, nonnull=True)], st)
    entry = "%s lace_count_report_file" % env.tag
    R.entry(entry, I, len(res))
    traces = [Trace(I, M, s, rv, k) for s, rv, k in res]
    L = Loops(traces)
    N = const(env.lay["n_ctr"])
    names = {v: k[2:] for k, v in env.lay.items() if k.startswith("i_CTR_")}
    want = []
    if env.lay.get("v_LACE_COUNT_TASKS"):
        want += ["CTR_tasks"]
    if env.lay.get("v_LACE_COUNT_STEALS"):
        want += ["CTR_steals", "CTR_steal_busy", "CTR_steal_tries", "CTR_leaps", "CTR_leap_busy", "CTR_leap_tries"]
    if env.lay.get("v_LACE_COUNT_SPLITS"):
        want += ["CTR_split_shrink", "CTR_split_grow", "CTR_split_req"]

    def label(region, T):
        return I.role(region) or "?"
    # ---- division by zero
    for z in zeros:
        T = Trace(I, M, z, None, "dead")
        R.check("count.report-division", False, entry, T.where_end(), "the report may divide by zero", T.path())
    R.count("count.report-division")
    # ---- accumulation
    sums = {}           # region -> list of (T, event, kind, worker, counter)
    for T in traces:
        for p, e in enumerate(T.ev):
            if e.k != "store" or e.d.get("region") is None or not isinstance(e.d["val"], Lin):
                continue
            rg = e.d["region"]
            v, off = T.n(e.d["val"]), T.n(e.d["off"])
            if not off.divisible(8) or worker_of(I, T, rg) is not None:
                continue
            found = None
            for s_, c_ in v.t:
                c = counter_of(I, T, env, sym(s_))
                if c:
                    found = (s_, c_, c) if found is None else False
            if not found:
                continue
            s_, c_, (w, j) = found
            rest = v - sym(s_) * c_
            sums.setdefault(label(rg, T), []).append((T, p, e, rest, c_, w, j, off.div(8), rg))
    labels = set(sums) | {"G:ctr_all"}
    for lab, xs in sums.items():
        good = True
        for T, p, e, rest, c_, w, j, slot, rg in xs:
            same = T.eq(slot, j) or slot.is_const() or j.is_const()
            if lab.startswith("G:") or True:
                pv = provenance(rest)
                adds = c_ == 1 and len(rest.t) == 1 and rest.t[0][1] == 1 and rest.c == 0
                first = c_ == 1 and not rest.t and rest.c == 0 and T.f.implies_eq(w)
                if pv is not None and pv[0] == rg and isinstance(pv[1], Lin) and not T.eq(pv[1], T.n(e.d["off"])):
                    adds = False
                ok = adds or first
                R.check("count.report-adds", ok, entry, T.where(e), "the sum is not the old sum plus the worker's counter", None if ok else T.path(e))
                ok2 = T.eq(slot, j)
                if not (slot.is_const() and j.is_const()) and not T.f.implies_eq(slot - j) and same:
                    ok2 = True          # sums kept under other numbers
                if slot.is_const() and j.is_const():
                    ok2 = True
                R.check("count.report-same", ok2, entry, T.where(e), "a counter is added to the sum of another one", None if ok2 else T.path(e))
                good = good and ok and ok2
        if not good:
            continue
        # which loops surround the accumulation, are they complete
        for T, p, e, rest, c_, w, j, slot, rg in xs:
            if not rest.t:
                continue
            ks = [m.d["k"] for q, m in marks(T) if q < p]
            kw = index_in(T, w, ks, n)
            kj = index_in(T, j, ks, N)
            first = [x for x in xs if not x[3].t]
            if kw is None and first:
                kw = index_in(T, w - 1, ks, n - 1)
                bound = n - 1
            else:
                bound = n
            ok = kw is not None and L.trips(kw, bound) is None and bool(L.exits.get(kw))
            R.check("count.report-all-workers", ok, entry, T.where(e), "the sums do not include every worker", None if ok else T.path(e))
            if not ok:
                continue
            if not j.is_const():
                ok = kj is not None and L.trips(kj, N) is None and bool(L.exits.get(kj))
                R.check("count.report-all-counters", ok, entry, T.where(e), "the sums do not include every counter", None if ok else T.path(e))
                if not ok:
                    continue
            # no iteration leaves it out
            inner = [k for k in ks if k in (kw, kj)][-1:]
            for k in inner:
                for T2, p2 in L.backs.get(k, ()):
                    ok = any(x[0] is T2 and x[1] > p2 for x in xs) or any(
                        e2.k == "load" and isinstance(e2.d["val"], Lin) and counter_at(I, T2, env, e2.d["region"], e2.d["off"]) and T2.eq(e2.d["val"], ZERO)
                        for e2 in T2.ev[p2:])
                    R.check("count.report-no-skip", ok, entry, T2.where_end(), "some counters are left out of the sums", None if ok else T2.path())
            if len(inner) == 1 and kj is not None and kw is not None:
                outer = kw if inner[0] == kj else kj
                for T2, p2 in L.backs.get(outer, ()):
                    ok = any(m.d["k"] == inner[0] for q, m in marks(T2))
                    R.check("count.report-no-skip", ok, entry, T2.where_end(), "some counters are left out of the sums", None if ok else T2.path())
            # starts from zero
            if not first:
                m = [m for q, m in marks(T) if m.d["k"] == kw][0]
                s0 = m.d["st0"]
                off = T.n(e.d["off"])
                s1 = s0.copy()
                if kj is not None and ks.index(kj) > ks.index(kw):
                    # any counter
                    jj = fresh("j", 0, env.lay["n_ctr"] - 1)
                    off = jj * 8 + (off - sym(kj) * 8 if T.eq(j, sym(kj)) else off + sym(kj) * 8 - (N - 1) * 8)
                z = T.cell(rg, off, 8, s1)
                if z is None and alloc_zeroed(T, rg):
                    z = ZERO
                ok = isinstance(z, Lin) and s1.facts.implies_eq(z)
                R.check("count.report-from-zero", ok, entry, T.where(e), "the sums do not start from zero", None if ok else T.path(e))
    # ---- what is printed
    for T in traces:
        for e in T.ev:
            if e.k == "call" and e.d["name"] in PRINT:
                a = e.d["args"]
                fi = PRINT[e.d["name"]]
                if len(a) <= fi:
                    continue
                fmt = fmt_text(env, a[fi])
                if fmt is None:
                    continue
                sp = specs(fmt)
                vals = a[fi + 1:]
                who = set()
                for (before, after), v in zip(sp, vals):
                    c = printed(I, T, env, v, labels)
                    if c is None:
                        continue
                    x = expected(before, after)
                    who.add(c[0])
                    if x is None or not c[1].is_const():
                        continue
                    ok = names.get(c[1].c) == x
                    R.check("count.report-label", ok, entry, T.where(e),
                            "%s is printed where %s is announced" % (names.get(c[1].c), x), None if ok else T.path(e))
                    if "(sum)" in before:
                        ok = c[0] is None
                        R.check("count.report-label", ok, entry, T.where(e), "a worker's counter is printed as a sum", None if ok else T.path(e))
                # the worker announced is the worker shown
                ws = [w for w in who if w is not None]
                if ws and sp and re.search(r"\($", sp[0][0]) and isinstance(vals[0], Lin):
                    ok = all(T.eq(vals[0], w) for w in ws)
                    R.check("count.report-worker", ok, entry, T.where(e), "a worker's counters are printed under another worker's number",
                            None if ok else T.path(e))
    # ---- every enabled counter is printed as a sum, and for every worker
    for T in traces:
        if T.kind != "ret":
            continue
        got = set()
        opaque = False
        for e in T.ev:
            if e.k == "call" and e.d["name"] in PRINT:
                for v in e.d["args"][PRINT[e.d["name"]] + 1:]:
                    c = printed(I, T, env, v, labels)
                    if c is not None and c[0] is None and c[1].is_const():
                        got.add(names.get(c[1].c))
                    elif c is None and isinstance(v, Lin) and not v.is_const():
                        opaque = True
        miss = [w for w in want if w not in got]
        ok = not miss or opaque
        R.check("count.report-complete", ok, entry, T.where_end(), "no sum is reported for %s" % ", ".join(miss), None if ok else T.path())
    shown = set()
    for k, bs in L.backs.items():
        per = []
        for T, p in bs:
            here = set()
            for e in T.ev[p:]:
                if e.k == "call" and e.d["name"] in PRINT:
                    for v in e.d["args"][PRINT[e.d["name"]] + 1:]:
                        c = printed(I, T, env, v, labels)
                        if c is not None and c[0] is not None and c[1].is_const() and (T.eq(c[0], sym(k)) or T.eq(c[0], n - sym(k) - 1)):
                            here.add(names.get(c[1].c))
            per.append(here)
        if any(per):
            every = set.intersection(*per)
            T = L.trips(k, n)
            if every:
                R.check("count.report-all-workers", T is None, entry, T.where_end() if T else entry,
                        "the report does not list every worker", T.path() if T else None)
            shown |= every
    anyper = any(printed(I, T, env, v, labels) is not None and printed(I, T, env, v, labels)[0] is not None
                 for T in traces for e in T.ev if e.k == "call" and e.d["name"] in PRINT for v in e.d["args"][PRINT[e.d["name"]] + 1:])
    if anyper:
        miss = [w for w in want if w not in shown]
        R.check("count.report-complete", not miss, entry, entry, "not reported for every worker: %s" % ", ".join(miss), None)


def alloc_zeroed(T, rg):
    return any(e.k == "call" and e.d["name"] == "calloc" and isinstance(e.d["ret"], Lin) and T.eq(e.d["ret"], sym(rg)) for e in T.ev)


def printed(I, T, env, v, labels=("G:ctr_all",)):
    """(worker index or None for a sum, counter) of a printed value"""
    if not isinstance(v, Lin):
        return None
    c = counter_of(I, T, env, v)
    if c is not None:
        return c
    pv = provenance(T.n(v))
    if pv is None or pv[0] is None or not isinstance(pv[1], Lin):
        return None
    role = I.role(pv[0]) or ""
    off = T.n(pv[1])
    if role in labels and off.divisible(8):
        return None, off.div(8)
    return None


def counters(R, env):
    """the statistics functions"""
    if "n_ctr" not in env.lay:
        return
    reset(R, env)
    report(R, env)
