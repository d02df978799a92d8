"""Rules on the runtime library (lace.c): interrupts, barrier, external tasks, suspension, start/stop."""
from .poly import Lin, const, sym, fresh, newsym, syminfo, ZERO
from .absint import Interp, AnalysisError, State
from .model import WorkerModel
from .report import Report
from .dq import Trace, Env, provenance, func_name, RELEASE, ACQUIRE, fence_between, steal_rules

PUB = ("lace_barrier", "lace_get_head", "lace_yield", "lace_steal_random_CALL")


class RtEnv(Env):
    def __init__(self, mod, lay, tag):
        Env.__init__(self, mod, lay, tag)
        self.tls = self.global_of("lace_get_worker")
        self.nw = self.global_of("lace_workers")
        self.discover()

    def global_of(self, fn):
        """the variable a public getter reads"""
        I = Interp(self.mod, WorkerModel(self.lay))
        for s, rv, k in I.analyse(fn, [], State()):
            pv = provenance(s.norm(rv)) if isinstance(rv, Lin) else None
            if pv is not None and (I.role(pv[0]) or "").startswith("G:"):
                return I.role(pv[0])[2:]
        raise AnalysisError("%s does not return a variable" % fn)

    def closure(self, fn):
        """functions of the library reachable by direct calls"""
        seen, work = [], [fn]
        while work:
            f = work.pop()
            if f in seen or f not in self.mod.functions or not self.mod.functions[f].defined:
                continue
            seen.append(f)
            for i in self.instrs(f):
                if i.op == "call" and i.x["callee"][0] == "glob":
                    work.append(i.x["callee"][1])
        return seen

    def instrs(self, f):
        for b in self.mod.functions[f].blocks.values():
            for i in b.instrs:
                yield i

    def touched(self, fn, ops, ptr):
        """globals on which instructions of that kind operate directly, in fn and what it calls"""
        out = set()
        for f in self.closure(fn):
            for i in self.instrs(f):
                if i.op in ops:
                    a = i.ops[1] if i.op == "store" else i.ops[0]
                    if a[0] == "glob" and (ptr is None or
                                           (self.mod.layout.resolve(self.mod.globals[a[1]].ty).k == "ptr") == ptr):
                        out.add(a[1])
        return out

    def discover(self):
        """names of the runtime's own variables, by what is done with them"""
        e = self.cmpxchg_globals("lace_run_task", True) - {"lace_newframe"}
        if len(e) != 1:
            raise AnalysisError("hand-over variable of RUN: %s" % sorted(e))
        self.ext = e.pop()
        a = self.cmpxchg_globals("lace_resume", False)
        if len(a) != 1:
            raise AnalysisError("variable of lace_resume: %s" % sorted(a))
        self.awaken = a.pop()
        w = self.touched("lace_steal_random_CALL", ("load",), True) - {self.ext, "lace_newframe", self.tls, "stderr", "stdout"}
        self.warr = w.pop() if len(w) == 1 else "workers"
        if self.warr not in self.mod.globals:
            raise AnalysisError("array of workers not found")

    def cmpxchg_globals(self, fn, ptr):
        out = set()
        for f in self.closure(fn):
            for i in self.instrs(f):
                if i.op == "cmpxchg" and i.ops[0][0] == "glob":
                    t = self.mod.layout.resolve(self.mod.globals[i.ops[0][1]].ty)
                    if (t.k == "ptr") == ptr:
                        out.add(i.ops[0][1])
        return out

    def interp(self, fn, extra=(), inline=()):
        M = WorkerModel(self.lay, [b for b in PUB if b != fn and b not in inline] + list(extra))
        if hasattr(self, "warr"):
            M.tls, M.extname, M.warrname = self.tls, self.ext, self.warr
            M.stable = M.stable + (self.nw, self.tls, self.warr)
        M.tls = self.tls if hasattr(self, 'tls') else M.tls
        return M, Interp(self.mod, M)

    def worker(self, fn, as0, popped=0, extra=(), inline=()):
        M, I = self.interp(fn, extra, inline)
        st = M.worker_state(as0 or 0, popped)
        if as0 is None:
            M.light = True
            st = M.queue_unknown(st)[0]
        M.global_cell(I, st, self.nw, 0, 4, sym(st.g["n"]))
        M.global_cell(I, st, self.tls, 0, 8, sym(st.g["P"]))
        return M, I, st

    def outside(self, fn, extra=(), inline=()):
        """a thread that is not a worker"""
        M, I = self.interp(fn, extra, inline)
        M.light = True
        st = State()
        n = newsym("n", 1, M.max_workers)
        st.g["n"] = n
        M.global_cell(I, st, self.nw, 0, 4, sym(n))
        M.global_cell(I, st, self.tls, 0, 8, ZERO)
        return M, I, st

    def task_param(self, st, name="t"):
        t = fresh(name, 1, None, ptr=True, role="T", nonnull=True)
        st.facts.add_ge(t - 4096)
        return t


# ------------------------------------------------------------------------------------- helpers
def value_at(T, st, region, off, size=8):
    """what a read of that place would yield in state st"""
    s = st.copy()
    r = T.I.default_load(s, region, off if isinstance(off, Lin) else const(off), size, T.I_ptr(), None)
    if len(r) != 1:
        return None
    return r[0][1]


def _I_ptr(self):
    from . import ir
    return ir.PTR


Trace.I_ptr = _I_ptr


def calls(T, name, lo=0, hi=None):
    return [p for p, e in enumerate(T.ev[:hi]) if p >= lo and e.k == "call" and e.d.get("name") == name]


def execs(T):
    return [(p, e) for p, e in enumerate(T.ev) if e.k == "exec"]


def is_newframe(T, e):
    return "region" in e.d and T.role(e) == "G:lace_newframe"


def zero(T, v):
    return isinstance(v, Lin) and T.f.implies_eq(T.n(v))


def nonzero(T, v):
    v = T.n(v) if isinstance(v, Lin) else v
    return isinstance(v, Lin) and (T.f.implies_ne(v) or T.f.implies_ge(v - 1) or T.f.implies_ge(-v - 1))


def local_of(T, st, v):
    if not isinstance(v, Lin):
        return None
    b, o = T.I.split(st, v)
    if b is not None and (T.I.role(b) or "").startswith("L:"):
        return b, o
    return None


ALLOWED_ON_WORKER = {"lace_barrier", "lace_get_head", "lace_yield", "lace_steal_random_CALL"}


# ------------------------------------------------------------------------------------- interrupts
def frame(R, env, fn, as0, who, info, via=None):
    """who: 'yield' (a worker that joins an interrupt), 'newframe' / 'together' (the initiator).
    via: None = public entry with the task as parameter; else (function, offset): the same through the
    descriptor handed to RUN, the task being found at that offset"""
    M, I, st = env.worker(fn, as0)
    g = dict(st.g)
    h = sym(g["h"])
    H = g["H"]
    if who == "yield":
        args = [sym(g["P"]), H]
        task = None
    elif via is None:
        task = env.task_param(st)
        args = [task]
    else:
        td = env.task_param(st, "td")
        task = None
        args = [sym(g["P"]), H, td]
    res = I.analyse(fn, args, st)
    entry = "%s %s (all stolen: %s)" % (env.tag, fn, "yes" if as0 else "no")
    R.entry("%s %s" % (env.tag, fn), I, len(res))
    pre = who
    rets = 0
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        pubs = [p for p, e in enumerate(T.ev) if e.k == "cas" and is_newframe(T, e) and e.d["ok"]]
        pub = pubs[0] if pubs else None
        s0, as1, tail0, w0 = sym(g["s"]), const(as0), g["tail"], g["wsplit"]
        if pub is not None:
            # the queue as the initiator's earlier interrupts left it
            ps, pa, _ = M.queue_cells(T.ev[pub].d["st"])
            b = T.ev[pub].d["st"]
            tail0, w0 = b.g["tail"], b.g["wsplit"]
            if ps is not None:
                s0 = ps
            if isinstance(pa, Lin):
                as1 = pa
        for e in T.ev:
            if e.k == "call" and e.d["name"] not in ALLOWED_ON_WORKER and e.d["name"] not in I.modular and via is None:
                R.check("self." + pre, False, entry, T.where(e),
                        "%s on a worker thread calls %s instead of working in place" % (who.upper(), e.d["name"]), T.path(e))
        R.count("self." + pre)
        for p, e in enumerate(T.ev):
            if e.k in ("store", "rmw") and is_newframe(T, e):
                ok = pub is not None and p > pub and zero(T, e.d["val"] if e.k == "store" else e.d["new"])
                R.check("frame.publish", ok, entry, T.where(e),
                        "the interrupt variable is overwritten without owning it", None if ok else T.path(e))
            if e.k == "cas" and is_newframe(T, e):
                ok = zero(T, e.d["exp"])
                R.check("frame.publish", ok, entry, T.where(e),
                        "an interrupt may replace another one that is still pending", None if ok else T.path(e))
        if k == "cut":
            m = T.ev.index(T.ev[-1].d["mark"])
            it = T.ev[m + 1:]
            if pub is None or pub > m:
                # trying to start the own interrupt
                polled = any(e.k == "call" and e.d["name"] == "lace_yield" for e in it) or \
                    any(e.k == "load" and is_newframe(T, e) and zero(T, e.d["val"]) for e in it)
                R.check("frame.participate", polled, entry, T.where(T.ev[-1]),
                        "a worker retries to start its interrupt without taking part in the pending one", None if polled else T.path())
            else:
                waiting_round(R, env, T, it, entry)
            continue
        if k == "dead":
            R.check("frame.returns", False, entry, T.where_end(), "the program is terminated", T.path())
            continue
        rets += 1
        X = execs(T)
        if who != "yield":
            R.check("frame.publish", len(pubs) == 1, entry, T.where_end(),
                    "%d interrupts are started" % len(pubs), None if len(pubs) == 1 else T.path())
            if len(pubs) != 1:
                continue
        once = len(X) == 1
        R.check(pre + ".once", once, entry, T.where_end(), "the task of the interrupt is executed %d times by this worker" % len(X),
                None if once else T.path())
        if not once:
            continue
        px, x = X[0]
        B = calls(T, "lace_barrier", (pub + 1) if pub is not None else 0)
        bs = [p for p in B if p < px]
        ba = [p for p in B if p > px]
        okb = len(bs) >= 2 and len(ba) >= 1
        R.check("frame.barriers", okb, entry, T.where(x), "%d barriers before and %d after the task: workers are not synchronised "
                "for copying it, for starting it and for leaving it" % (len(bs), len(ba)), None if okb else T.path())
        info.setdefault("barriers", {}).setdefault(who, set()).add((len(bs), len(ba)))
        if not okb:
            continue
        a = x.d["args"]
        okc = len(a) == 3 and T.eq(a[0], sym(g["P"])) and T.eq(a[1], H)
        R.check("frame.head", okc, entry, T.where(x),
                "the task does not run on this worker at its queue position", None if okc else T.path(x))
        xs = x.d["st"]
        if who == "yield":
            lo = local_of(T, xs, a[2]) if len(a) == 3 else None
            pv = provenance(T.n(x.d["target"]))
            src = pv[0] if pv is not None and (I.role(pv[0]) or "") == "T" and \
                (I.role((syminfo(pv[0]).kw.get("prov") or (None,))[0]) or "") == "G:lace_newframe" else None
            okd = lo is not None and src is not None and T.n(pv[1]) == const(env.lay["o_Task_f"])
            R.check("frame.copy", okd, entry, T.where(x), "the task executed is not a private copy of the interrupt's task", None if okd else T.path(x))
            if okd:
                for o in range(env.lay["o_Task_d"], M.S, 8):
                    v = value_at(T, xs, lo[0], lo[1] + o)
                    pv2 = provenance(T.n(v)) if isinstance(v, Lin) else None
                    ok = pv2 is not None and pv2[0] == src and T.n(pv2[1]) == const(o)
                    R.check("frame.copy", ok, entry, T.where(x), "the private copy of the task is incomplete at byte %d" % o,
                            None if ok else T.path(x))
            for p, e in enumerate(T.ev):
                reg = None
                if e.k in ("load", "rmw", "cas", "store") and T.role(e) == "T":
                    reg = e
                elif e.k in ("memcpy",):
                    b, _ = I.split(s, e.d["src"])
                    if b is not None and I.role(b) == "T":
                        reg = e
                elif e.k == "load" and is_newframe(T, e):
                    reg = e
                if reg is not None:
                    ok = p < bs[0]
                    R.check("frame.copy-before", ok, entry, T.where(e),
                            "the interrupt's task is read after the initiator may have withdrawn it", None if ok else T.path(e))
        else:
            if via is None:
                okt = T.eq(a[2], task) if len(a) == 3 else False
                pv = provenance(T.n(x.d["target"]))
                okt = okt and pv is not None and T.eq(sym(pv[0]), task) and T.n(pv[1]) == const(env.lay["o_Task_f"])
            else:
                pv = provenance(T.n(a[2])) if len(a) == 3 else None
                okt = pv is not None and T.eq(sym(pv[0]), td) and T.n(pv[1]) == const(via)
            R.check(pre + ".task", okt, entry, T.where(x), "another task than the given one is executed", None if okt else T.path(x))
            resets = [p for p, e in enumerate(T.ev) if e.k in ("store", "rmw") and is_newframe(T, e) and p > pub]
            okr = len(resets) >= 1 and all(bs[0] < p < bs[-1] for p in resets)
            R.check("frame.reset", okr, entry, T.where_end(),
                    "the interrupt variable is not reset between all workers having copied the task and starting it",
                    None if okr else T.path())
            # what the others get
            pe = T.ev[pub]
            lp = local_of(T, s, pe.d["new"])
            bst = T.ev[bs[0]].d["st"]
            R.check("frame.descriptor", lp is not None, entry, T.where(pe), "no task of this call is published", None if lp else T.path(pe))
            if lp is not None:
                f = func_name(I, value_at(T, bst, lp[0], lp[1] + env.lay["o_Task_f"]))
                R.check("frame.descriptor", f is not None, entry, T.where(pe), "the published task has no function", None if f else T.path(pe))
                late = [p for p, e in enumerate(T.ev) if e.k in ("store", "rmw") and e.d["region"] == lp[0] and pub < p < px]
                R.check("frame.descriptor", not late, entry, T.where(T.ev[late[0]]) if late else entry,
                        "the published task is changed after it was published", T.path() if late else None)
                room = syminfo(lp[0]).kw.get("size")
                R.check("frame.descriptor", room is not None and room - lp[1].c >= M.S, entry, T.where(pe),
                        "workers copy more than the published descriptor's size")
                if f is not None:
                    desc = {}
                    for o in range(env.lay["o_Task_d"], M.S, 8):
                        s2 = bst.copy()
                        rr = I.read_cell(s2, lp[0], lp[1] + o, 8, None, None)
                        if rr and len(rr) == 1 and isinstance(rr[0][1], Lin):
                            desc[o] = rr[0][1]
                    info.setdefault("roots", {})[who] = f
                    check_sync_var(R, env, T, entry, who, f, desc, task if via is None else ("prov", td, via), bst, px, ba, bs, x)
        # ---- freeze
        fz = T.ev[bs[-1]].d["st"]
        q = M.queue_ok(fz, h)
        lo, hi = fz.g["tail"]
        closed = fz.facts.implies_ge(lo - fz.g["wsplit"]) and fz.g["pend"] == 0
        pa = M.queue_cells(fz)[1]
        ok = q == "" and closed and isinstance(pa, Lin) and fz.facts.implies_ge(pa - 1)
        R.check("frame.freeze", ok, entry, T.where(T.ev[bs[-1]]),
                "tasks of the interrupted computation can be stolen during the interrupt" + (": " + q if q else ""), None if ok else T.path(T.ev[bs[-1]]))
        inter = [p for p, e in enumerate(T.ev) if px < p < ba[-1] and
                 (e.k in ("ownsplit", "owntail") or e.k == "store" and e.d["region"] == g["P"] and
                  T.n(e.d["off"]) in (const(M.PSPLIT), const(M.PAS)))]
        R.check("frame.restore-after", not inter, entry, T.where(T.ev[inter[0]]) if inter else entry,
                "the old queue is restored before all workers have left the interrupt", T.path(T.ev[inter[0]]) if inter else None)
        # ---- the tail that is kept must be final
        ot = [e for e in T.ev[:bs[-1]] if e.k == "owntail"]
        saved = tail0
        if ot:
            saved = ot[0].d["old"]
            e = ot[0]
            exact = saved[0] == saved[1] and e.d["pend"] == 0 or zero(T, as1 - 1)
            R.check("frame.tail-final", exact, entry, T.where(e),
                    "a steal that succeeds while the queue is being frozen is forgotten", None if exact else T.path(e))
        for e in T.ev:
            if e.k == "owntail":
                quiet = e.facts.implies_ge(e.d["old"][0] - e.d["wsplit"]) and e.d["pend"] == 0
                R.check("frame.tail-final", quiet, entry, T.where(e), "the tail is overwritten while thieves may still move it", None if quiet else T.path(e))
        # ---- restore
        ps, pa, wa = M.queue_cells(s)
        what = ""
        if ps is None or not T.f.implies_eq(ps - s0):
            what = "private split"
        elif not (isinstance(pa, Lin) and T.f.implies_eq(pa - as1)):
            what = "private allstolen flag"
        elif not (isinstance(wa, Lin) and T.f.implies_eq(wa - as1)):
            what = "public allstolen flag"
        elif not T.f.implies_eq(s.g["wsplit"] - w0):
            what = "public split"
        elif not T.eq(s.g["tail"][0], saved[0]):
            what = "tail"
        R.check("frame.restore", what == "", entry, T.where_end(),
                "the %s of the interrupted queue is not restored" % what, T.path() if what else None)
        q = M.queue_ok(s, h)
        R.check("frame.restore", q == "", entry, T.where_end(), "after the interrupt: " + q, T.path() if q else None)
    if rets == 0:
        raise AnalysisError("%s never returns" % fn)


def check_sync_var(R, env, T, entry, who, f, desc, task, bst, px, ba, bs, x):
    """the variable on the initiator's stack that ends the interrupt, and what the other workers run"""
    I = T.I
    root = env.root(f)
    rw = T.where(x)
    if who == "newframe":
        q = root.get("quit")
        R.check("newframe.helpers", q is not None, entry, rw, "the other workers' task does not end when the new frame's task is complete",
                None if q is not None else T.path())
        if q is None:
            return
        R.check("newframe.helpers", bool(root.get("steals")), entry, rw, "the other workers do not steal inside the new frame")
        ptr = desc.get(q)
        lo = local_of(T, bst, ptr) if ptr is not None else None
        R.check("newframe.flag", lo is not None, entry, rw, "the other workers are not given the completion flag", None if lo else T.path())
        if lo is None:
            return
        v0 = value_at(T, bst, lo[0], lo[1], root["qsize"])
        R.check("newframe.flag", zero(T, v0), entry, rw, "the completion flag is already set when the interrupt starts",
                None if zero(T, v0) else T.path())
        sets = []
        for p, e in enumerate(T.ev):
            if e.k in ("store", "rmw") and e.d["region"] == lo[0] and T.eq(e.d["off"], lo[1]):
                v = e.d["val"] if e.k == "store" else e.d["new"]
                if p > bs[0] and not zero(T, v):
                    sets.append((p, e, v))
        early = [p for p, _, _ in sets if p < px]
        R.check("newframe.flag", not early, entry, rw, "the completion flag is set before the task is complete", T.path() if early else None)
        good = [p for p, _, v in sets if px < p < ba[0] and nonzero(T, v)]
        R.check("newframe.flag", bool(good), entry, rw, "the completion flag is not set after the task is complete", None if good else T.path())
    else:
        ok = root.get("task") is not None and root.get("ctr") is not None
        R.check("together.root", ok, entry, rw, "the other workers do not run the task and count themselves out", None if ok else T.path())
        if not ok:
            return
        v = desc.get(root["task"])
        if isinstance(task, tuple):
            pv = provenance(T.n(v)) if v is not None else None
            okt = pv is not None and T.eq(sym(pv[0]), task[1]) and T.n(pv[1]) == const(task[2])
        else:
            okt = v is not None and T.eq(v, task)
        R.check("together.root", okt, entry, rw, "the other workers run another task", None if okt else T.path())
        ptr = desc.get(root["ctr"])
        lo = local_of(T, bst, ptr) if ptr is not None else None
        R.check("together.counter", lo is not None, entry, rw, "workers do not share a counter of running copies", None if lo else T.path())
        if lo is None:
            return
        v0 = value_at(T, bst, lo[0], lo[1], 4)
        okn = isinstance(v0, Lin) and T.eq(v0, sym(T.g["n"]))
        R.check("together.counter", okn, entry, rw, "the counter does not start at the number of workers", None if okn else T.path())
        count_out(R, T, entry, lo[0], px)


def count_out(R, T, entry, region, px):
    """after its copy the worker decrements the shared counter once and leaves only when it reached 0"""
    dec = []
    last0 = False
    for p, e in enumerate(T.ev):
        if e.k == "rmw" and e.d["region"] == region:
            d = T.n(e.d["new"] - e.d["old"])
            dec.append((p, d.c if d.is_const() else None))
            last0 = zero(T, e.d["new"]) or T.f.implies_ge(-T.n(e.d["new"]))
        elif e.k == "store" and e.d["region"] == region and p > px:
            dec.append((p, None))
        elif e.k == "load" and e.d["region"] == region and p > px:
            # the counter never falls below zero: it starts at the number of workers, and each counts itself out once
            last0 = zero(T, e.d["val"]) or T.f.implies_ge(-T.n(e.d["val"]))
        elif e.k == "loop":
            for x in e.d.get("gens", ()):       # a reading carried around the loop
                pv = syminfo(x).kw.get("prov")
                if pv is not None and pv[0] == region:
                    last0 = T.f.implies_ge(-T.n(sym(x)))
    ok = len(dec) == 1 and dec[0][1] == -1 and dec[0][0] > px
    R.check("together.counter", ok, entry, T.where_end(), "a worker does not count itself out exactly once after its copy", None if ok else T.path())
    R.check("together.wait", last0, entry, T.where_end(), "a worker leaves before all copies are complete", None if last0 else T.path())


def waiting_round(R, env, T, it, entry):
    """one round of a loop in which a worker waits for the others inside an interrupt: it looks for an interrupt
    and picks a worker to steal from (or takes an external task, or takes part in an interrupt)"""
    from . import ext
    I = T.I
    polls = any(e.k == "load" and is_newframe(T, e) for e in it)
    works = any(e.k == "exec" or e.k == "call" and e.d["name"] == "lace_yield" or
                "region" in e.d and T.role(e) in ("WARR", "V") for e in it)
    n = T.g.get("n")
    if n is not None and not works:
        f = T.f.copy()
        works = not (f.add_ge(f.norm(sym(n) - 2)) and ext.feasible(f))       # nobody to steal from
    for e in it:
        if e.k != "call" or not (e.d["name"] in I.modular or e.d["name"] == ext.STEALS) or polls and works:
            continue
        L = getattr(env, "waitloops", None)
        if L is None:
            L = env.waitloops = ext.Loops(Report(), env)
        L.traces(e.d["name"], (T, e.d["args"]))
        seen, todo = set(), [e.d["name"]]
        while todo:
            fn = todo.pop()
            if fn in seen or fn not in L.done:
                continue
            seen.add(fn)
            for X in L.done[fn][3]:
                works = works or any(x.k == "load" and X.role(x) == "WARR" or x.k == "cas" and X.role(x) == "V" for x in X.ev)
                todo += [x.d["name"] for x in X.ev if x.k == "call"]
        polls = polls or any(r == "G:lace_newframe" for r in L.must(e.d["name"]))
    R.check("together.poll", works, entry, T.where(T.ev[-1]), "a worker waits inside an interrupt without helping the others",
            None if works else T.path())
    R.check("together.poll", polls, entry, T.where(T.ev[-1]), "a worker waits inside an interrupt without looking for interrupts",
            None if polls else T.path())


def root_info(R, env, f):
    """analyse a function that workers run in an interrupt: on a descriptor it does not own"""
    M, I, st = env.worker(f, None)
    g = st.g
    td = env.task_param(st, "td")
    tr = td.t[0][0]
    res = I.analyse(f, [sym(g["P"]), g["H"], td], st)
    entry = "%s %s" % (env.tag, f)
    R.entry(entry, I, len(res))
    out = {"steals": False, "modular": set(I.modular), "traces": len(res)}
    traces = [Trace(I, M, s, rv, k) for s, rv, k in res]
    for T in traces:
        for p, e in execs(T):
            pv = provenance(T.n(e.d["target"]))
            if pv is not None:
                pv2 = syminfo(pv[0]).kw.get("prov")
                if pv2 is not None and pv2[0] == tr:
                    out["task"] = T.n(pv2[1]).c
        for e in T.ev:
            if e.k == "rmw" and "region" in e.d and e.d["region"] is not None:
                pv = syminfo(e.d["region"]).kw.get("prov")
                if pv is not None and pv[0] == tr:
                    out["ctr"] = T.n(pv[1]).c
            if e.k == "load" and e.d["region"] is not None:
                pv = syminfo(e.d["region"]).kw.get("prov")
                if pv is not None and pv[0] == tr and "task" not in out:
                    out["quit"] = T.n(pv[1]).c
                    out["qsize"] = e.d["size"]
            if e.k == "cas" and T.role(e) == "V":
                out["steals"] = True
            if e.k == "call" and e.d["name"] in I.modular:
                out["steals"] = True
    if "task" in out:
        out.pop("quit", None)
        # the copy on another worker
        rets = 0
        for T in traces:
            if T.kind == "cut":
                it = T.ev[T.ev.index(T.ev[-1].d["mark"]) + 1:]
                waiting_round(R, env, T, it, entry)
                continue
            if T.kind == "dead":
                R.check("frame.returns", False, entry, T.where_end(), "the program is terminated", T.path())
                continue
            rets += 1
            X = execs(T)
            once = len(X) == 1
            R.check("together.once", once, entry, T.where_end(), "a copy is executed %d times" % len(X), None if once else T.path())
            if not once or "ctr" not in out:
                continue
            a = X[0][1].d["args"]
            ok = len(a) == 3 and T.eq(a[0], sym(g["P"])) and T.eq(a[1], g["H"])
            R.check("frame.head", ok, entry, T.where(X[0][1]), "the task does not run on this worker at its queue position", None if ok else T.path())
            reg = None
            for e in T.ev:
                if e.k == "rmw" and e.d["region"] is not None:
                    pv = syminfo(e.d["region"]).kw.get("prov")
                    if pv is not None and pv[0] == tr and T.n(pv[1]).c == out["ctr"]:
                        reg = e.d["region"]
            count_out(R, T, entry, reg, X[0][0])
        if rets == 0:
            raise AnalysisError("%s never returns" % f)
    elif "quit" in out:
        # a steal loop: ends exactly when the flag is set
        for T in traces:
            if T.kind != "ret":
                continue
            ok = False
            for e in T.ev:
                if e.k == "load" and e.d["region"] is not None:
                    pv = syminfo(e.d["region"]).kw.get("prov")
                    if pv is not None and pv[0] == tr and T.n(pv[1]).c == out["quit"]:
                        ok = nonzero(T, e.d["val"])
            R.check("newframe.helpers", ok, entry, T.where_end(), "a worker leaves the new frame before its task is complete", None if ok else T.path())
    return out


def root(self, f):
    if not hasattr(self, "roots"):
        self.roots = {}
    if f not in self.roots:
        self.roots[f] = root_info(self.R, self, f)
    return self.roots[f]


RtEnv.root = root


def frames(R, env):
    env.R = R
    info = {}
    for a in (0, 1):
        frame(R, env, "lace_yield", a, "yield", info)
        for who in ("newframe", "together"):
            frame(R, env, "lace_run_" + who, a, who, info)
    # from outside: handed to RUN
    for who in ("newframe", "together"):
        fn = "lace_run_" + who
        M, I, st = env.outside(fn, extra=("lace_run_task",))
        t = env.task_param(st)
        res = I.analyse(fn, [t], st)
        entry = "%s %s (outside)" % (env.tag, fn)
        R.entry(entry, I, len(res))
        for s, rv, k in res:
            T = Trace(I, M, s, rv, k)
            cl = [e for e in T.ev if e.k in ("call", "exec")]
            one = len(cl) == 1 and cl[0].d["name"] == "lace_run_task" and k == "ret"
            R.check(who + ".outside", one, entry, T.where_end(), "not handed to a worker with RUN exactly once", None if one else T.path())
            if not one:
                continue
            x = cl[0].d["st"]
            lo = local_of(T, x, cl[0].d["args"][0])
            R.check(who + ".outside", lo is not None, entry, T.where(cl[0]), "no descriptor is handed to RUN")
            if lo is None:
                continue
            f = func_name(I, value_at(T, x, lo[0], lo[1] + env.lay["o_Task_f"]))
            at = None
            for o in range(env.lay["o_Task_d"], M.S, 8):
                r = I.read_cell(x.copy(), lo[0], lo[1] + o, 8, None, None)
                if r and len(r) == 1 and T.eq(r[0][1], t):
                    at = o
            ok = f is not None and at is not None
            R.check(who + ".outside", ok, entry, T.where(cl[0]), "the descriptor handed to RUN lacks the task", None if ok else T.path())
            if ok:
                for a in (0, 1):
                    frame(R, env, f, a, who, info, via=at)
    b = info.get("barriers", {})
    allb = set().union(*b.values()) if b else set()
    ok = len(allb) <= 1
    R.check("frame.same-barriers", ok, env.tag + " interrupts", "src/lace.c",
            "initiator and other workers pass different numbers of barriers (before, after the task): %s" %
            ", ".join("%s %s" % (w, sorted(x)) for w, x in sorted(b.items())))
    return info
