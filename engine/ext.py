"""Rules on the runtime's synchronisation: barrier, external tasks (RUN/RUNEX), suspend and resume."""
from .poly import Lin, const, sym, fresh, newsym, syminfo, ZERO
from .absint import AnalysisError, State
from .dq import Trace, provenance, func_name, steal_rules, RELEASE, ACQUIRE, fence_between, ctr_events, total, expect, enabled
from .rt import zero, nonzero, execs, local_of, value_at, is_newframe, RtEnv


# ------------------------------------------------------------------------------------- counting events
def loc(T, e):
    """a place in memory, comparable"""
    if e.d.get("region") is None:
        return None
    return (e.d["region"], T.n(e.d["off"]))


def name_of(T, l):
    r = T.I.role(l[0]) or "?"
    return "%s+%s" % (r[2:] if r[:2] in ("G:", "L:") else r, l[1]) if l[1] != ZERO else r.split(":")[-1]


def count_events(T, cuts, pred, lo=0, hi=None):
    """how often events matching pred happen on a returning trace, loops included (a term), or None"""
    ev = T.ev[lo:hi]
    out = ZERO
    for e in ev:
        if e.k == "loop":
            per = None
            for C in cuts:
                if C.ev[-1].k == "back" and C.ev[-1].d.get("mark") is e:
                    m = C.ev.index(e)
                    c = count_events(C, cuts, pred, m + 1)
                    if c is None or per is not None and C.n(c - per) != ZERO:
                        return None
                    per = c
            if per is None or per == ZERO:
                continue
            if not per.is_const():
                return None
            out = out + sym(e.d["k"]) * per.c
        elif pred(e):
            out = out + 1
    return out


def traces_of(R, env, fn, M, I, args, st, entry):
    res = I.analyse(fn, args, st)
    R.entry(entry, I, len(res))
    return [Trace(I, M, s, rv, k) for s, rv, k in res]


# ------------------------------------------------------------------------------------- barrier
def barrier(R, env):
    fn = "lace_barrier"
    M, I, st = env.outside(fn)
    n = sym(st.g["n"])
    entry = "%s %s" % (env.tag, fn)
    TS = traces_of(R, env, fn, M, I, [], st, entry)
    rets = [T for T in TS if T.kind == "ret"]
    cuts = [T for T in TS if T.kind == "cut"]
    # the arrival counter is what every path increments by one
    arr = None
    for T in rets:
        a = {loc(T, e) for e in T.ev if e.k == "rmw" and T.n(e.d["new"] - e.d["old"]) == const(1)}
        arr = a if arr is None else arr & a
    R.check("barrier.arrive", bool(arr), entry, "src/lace.c", "not every worker that enters the barrier counts itself in")
    if not arr:
        return
    # the flag is what waiting workers look at
    flags = set()
    for C in cuts:
        m = C.ev.index(C.ev[-1].d["mark"])
        for e in C.ev[m + 1:]:
            if e.k == "load" and (T.I.role(e.d["region"]) or "").startswith("G:") and e.d["atomic"]:
                flags.add(loc(C, e))
    flags -= {l for l in flags if any(loc(T, e) == l and e.k == "load" for T in rets for e in T.ev) is False}
    R.check("barrier.wait", len(flags) == 1, entry, "src/lace.c", "workers do not wait for one flag in the barrier")
    if len(flags) != 1:
        return
    F = flags.pop()
    arr -= {F}
    A = arr.pop() if len(arr) == 1 else None
    if A is None:
        raise AnalysisError("arrival counter of the barrier")
    lasts = 0
    info = dict(count=A, flag=F, leaving=None)
    for T in rets:
        ev = T.ev
        ar = [p for p, e in enumerate(ev) if e.k in ("rmw", "cas") and loc(T, e) == A and
              (e.k == "rmw" or e.d["ok"])]
        incs = [p for p in ar if ev[p].k == "rmw" and T.n(ev[p].d["new"] - ev[p].d["old"]) == const(1)]
        R.check("barrier.arrive", len(incs) == 1, entry, T.where_end(), "a worker counts itself in %d times" % len(incs),
                None if len(incs) == 1 else T.path())
        if len(incs) != 1:
            continue
        pa = incs[0]
        before = [e for e in ev[:pa] if e.k == "load" and loc(T, e) == F]
        R.check("barrier.flag-before", bool(before), entry, T.where(ev[pa]),
                "the flag is not read before arriving: its change can be missed", None if before else T.path(ev[pa]))
        if not before:
            continue
        w = before[-1].d["val"]
        old = ev[pa].d["old"]
        sets = [p for p, e in enumerate(ev) if e.k in ("store", "rmw") and loc(T, e) == F]
        last = T.f.implies_eq(T.n(n - old - 1))
        if last:
            lasts += 1
            R.check("barrier.release", len(sets) == 1, entry, T.where_end(), "the last worker to arrive does not release the others",
                    None if len(sets) == 1 else T.path())
            if len(sets) != 1:
                continue
            e = ev[sets[0]]
            v = e.d["val"] if e.k == "store" else e.d["new"]
            f = T.f.copy()
            f.add_ge(T.n(w))
            f.add_ge(const(1) - T.n(w))
            d = f.norm(v - w) if isinstance(v, Lin) else None
            flips = d is not None and (f.implies_ne(d) or differs01(f, v, w))
            R.check("barrier.release", flips and sets[0] > pa, entry, T.where(e), "the flag does not change", None if flips else T.path())
            z = [p for p, x in enumerate(ev) if x.k in ("store", "rmw") and loc(T, x) == A and p > pa and
                 zero(T, x.d["val"] if x.k == "store" else x.d["new"])]
            ok = len(z) >= 1 and z[-1] < sets[0] and \
                not any(x.k in ("store", "rmw") and loc(T, x) == A for x in ev[z[-1] + 1:])
            R.check("barrier.reset", ok, entry, T.where(e), "the counter is not reset before the others are released",
                    None if ok else T.path())
        else:
            notlast = T.f.implies_ne(T.n(n - old - 1))
            R.check("barrier.last", notlast, entry, T.where(ev[pa]),
                    "a path does not depend on whether all workers have arrived", None if notlast else T.path())
            after = [e for e in ev[pa:] if e.k == "load" and loc(T, e) == F]
            seen = bool(after) and (T.f.implies_ne(T.n(after[-1].d["val"] - w)))
            R.check("barrier.wait", seen, entry, T.where_end(),
                    "a worker passes the barrier without having seen that all have arrived", None if seen else T.path())
            R.check("barrier.release", not sets, entry, T.where_end(), "a waiting worker changes the flag", T.path() if sets else None)
            z = [x for x in ev[pa + 1:] if x.k in ("store", "rmw") and loc(T, x) == A]
            R.check("barrier.reset", not z, entry, T.where_end(), "a waiting worker changes the arrival counter", T.path() if z else None)
        # leaving
        outs = [p for p, e in enumerate(ev) if e.k == "rmw" and T.n(e.d["new"] - e.d["old"]) == const(-1)]
        for p in outs:
            info["leaving"] = loc(T, ev[p])
        info.setdefault("outs", []).append((T, last, sets, outs))
    R.check("barrier.release", lasts >= 1, entry, "src/lace.c", "no worker releases the others")
    for C in cuts:
        m = C.ev.index(C.ev[-1].d["mark"])
        ok = any(e.k == "load" and loc(C, e) == F for e in C.ev[m + 1:])
        R.check("barrier.wait", ok, entry, C.where(C.ev[-1]), "a worker waits without looking at the flag", None if ok else C.path())
    L = info["leaving"]
    if L is not None:
        for T, last, sets, outs in info["outs"]:
            ok = len(outs) == 1 and loc(T, T.ev[outs[0]]) == L
            R.check("barrier.leave", ok, entry, T.where_end(), "a worker does not count itself out exactly once", None if ok else T.path())
            if not ok:
                continue
            late = [e for e in T.ev[outs[0] + 1:] if e.k in ("load", "store", "rmw", "cas") and e.d.get("region") == L[0]]
            R.check("barrier.leave", not late, entry, T.where_end(), "the barrier is used after counting out", T.path() if late else None)
            if last and len(sets) == 1:
                st_ = [p for p, e in enumerate(T.ev) if e.k == "store" and loc(T, e) == L]
                ok = len(st_) == 1 and st_[0] < sets[0] and T.f.implies_eq(T.n(T.ev[st_[0]].d["val"] - n))
                R.check("barrier.leave", ok, entry, T.where_end(), "the number of workers inside is not set before they are released",
                        None if ok else T.path())
    env.barrier = info
    # nobody else changes the barrier
    for f in env.mod.functions.values():
        if not f.defined or f.name in env.closure(fn):
            continue
        for i in env.instrs(f.name):
            if i.op in ("store", "rmw", "cmpxchg"):
                a = i.ops[1] if i.op == "store" else i.ops[0]
                g = glob_of(a)
                bad = g is not None and g == (I.role(F[0]) or "")[2:] and g == (I.role(A[0]) or "")[2:] and len(env.mod.globals) > 1
                if bad and same_place(env, a, (A, F), I):
                    R.check("barrier.alone", f.name in env.closure("lace_start"), entry, I.where(i),
                            "%s changes the barrier" % f.name)
    R.count("barrier.alone")


def differs01(f, v, w):
    """v differs from w for both values of w"""
    for c in (0, 1):
        g = f.copy()
        if g.add_eq(g.norm(w - c)) and not g.implies_ne(g.norm(v - c)):
            return False
    return True


def glob_of(a):
    if a[0] == "glob":
        return a[1]
    if a[0] == "gep" and a[2][0][1][0] == "glob":
        return a[2][0][1][1]
    return None


def same_place(env, a, places, I):
    if a[0] == "glob":
        off = ZERO
    else:
        st = State()
        v = I.val(st, a, None)
        off = I.split(st, v)[1]
    return any((I.role(r) or "")[2:] == glob_of(a) and st_off(off, o) for r, o in places)


def st_off(a, b):
    return a == b


# ------------------------------------------------------------------------------------- suspend / resume
def changes(T, env, lo=0):
    """effective changes of the nesting counter: (position, event, expected or None, new)"""
    out = []
    for p, e in enumerate(T.ev):
        if p < lo or "region" not in e.d or T.role(e) != "G:" + env.awaken:
            continue
        if e.k == "cas" and e.d["ok"]:
            out.append((p, e, e.d["exp"], e.d["new"]))
        elif e.k == "store":
            out.append((p, e, None, e.d["val"]))
        elif e.k == "rmw":
            out.append((p, e, e.d["old"], e.d["new"]))
    return out


def deeper(T, x):
    """the facts if the nesting depth was at least -1 before the change, None if it cannot have been"""
    f = T.f.copy()
    if not f.add_ge(T.n(x[2] + 1)):
        return None
    more = True
    while more:      # with what it is known not to be
        more = False
        for d in list(f.ne):
            for e in (d, -d):
                if f.implies_ge(e) and not f.implies_ge(e - 1):
                    more = True
                    if not f.add_ge(e - 1):
                        return None
    return f


def possible(R, env, T):
    """-1 is the least nesting depth there is, if no change of one that is at least -1 makes it less:
    what is done at lesser ones never happens"""
    if not hasattr(env, "least"):
        env.least = True
        for fn in ("lace_resume", "lace_suspend"):
            M, I, st = env.outside(fn)
            for T2 in traces_of(R, env, fn, M, I, [], st, "%s %s" % (env.tag, fn)):
                for x in changes(T2, env):
                    f = deeper(T2, x) if x[2] is not None else T2.f
                    if f is not None and not f.implies_ge(T2.n(x[3] + 1)):
                        env.least = False
    if env.least:
        for x in changes(T, env):
            f = deeper(T, x) if x[2] is not None else T.f
            if f is None:
                return False
            T.f = f
    return True


def is_call(e, *names):
    return e.k == "call" and e.d.get("name") in names


def sem_of(T, e):
    a = e.d["args"][0]
    b, o = T.I.split(e.d["st"], a) if isinstance(a, Lin) else (None, None)
    return (b, T.n(o)) if b is not None else None


def suspend(R, env):
    """the nesting counter, the waking up and the stopping of all workers"""
    info = env.susp = {}
    env.find_start_globals()
    # ---- resume
    fn = "lace_resume"
    M, I, st = env.outside(fn)
    n = sym(st.g["n"])
    entry = "%s %s" % (env.tag, fn)
    TS = traces_of(R, env, fn, M, I, [], st, entry)
    cuts = [T for T in TS if T.kind == "cut"]
    rets = [T for T in TS if T.kind == "ret"]
    if not rets:
        raise AnalysisError("lace_resume never returns")
    TS = [T for T in TS if possible(R, env, T)]
    cuts = [T for T in TS if T.kind == "cut"]
    rets = [T for T in TS if T.kind == "ret"]
    wake = plain = 0
    for T in rets:
        ch = changes(T, env)
        posts = count_events(T, cuts, lambda e: is_call(e, "sem_post"))
        first = ch[0] if ch else None
        ok = first is not None and first[2] is not None
        R.check("resume.once", ok, entry, T.where_end(), "a resume has no effect on the nesting depth, or one that is not atomic",
                None if ok else T.path())
        if not ok:
            continue
        p, e, old, new = first
        if len(ch) == 1:
            plain += 1
            ok = T.f.implies_eq(T.n(new - old - 1)) and T.f.implies_ge(T.n(old - 1))
            R.check("resume.nest", ok, entry, T.where(e),
                    "a resume of awake workers does not increase the nesting depth by one (or happens while workers are being stopped)",
                    None if ok else T.path())
            R.check("resume.nest", posts == ZERO, entry, T.where_end(), "workers that are awake are woken again", None if posts == ZERO else T.path())
        else:
            wake += 1
            ok = zero(T, old) and T.f.implies_ge(T.n(const(-1) - new))
            R.check("resume.exclusive", ok, entry, T.where(e),
                    "waking the workers does not exclude other calls meanwhile", None if ok else T.path())
            ok = len(ch) == 2 and T.f.implies_eq(T.n(ch[1][3] - 1))
            R.check("resume.done", ok, entry, T.where(ch[-1][1]), "the nesting depth is not 1 after waking the workers", None if ok else T.path())
            okn = posts is not None and T.f.implies_eq(T.n(posts - n))
            R.check("resume.wake-all", okn, entry, T.where_end(), "not every worker is woken exactly once", None if okn else T.path())
            inside = count_events(T, cuts, lambda e: is_call(e, "sem_post"), ch[0][0], ch[-1][0])
            ok = inside is not None and posts is not None and T.f.implies_eq(T.n(inside - posts))
            R.check("resume.exclusive", ok, entry, T.where_end(), "workers are woken outside the transition", None if ok else T.path())
            for X in [T] + cuts:
                for e2 in X.ev:
                    if is_call(e2, "sem_post"):
                        s_ = sem_of(X, e2)
                        ok = s_ is not None and X.I.role(s_[0]) == "G:" + (env.sem or "?")
                        R.check("resume.semaphore", ok, entry, X.where(e2), "another semaphore is posted than the one workers sleep on",
                                None if ok else X.path(e2))
    R.check("resume.nest", plain >= 1, entry, "src/lace.c", "resuming awake workers is not supported")
    R.check("resume.wake-all", wake >= 1, entry, "src/lace.c", "resuming never wakes workers")
    # ---- suspend
    fn = "lace_suspend"
    M, I, st = env.outside(fn)
    n = sym(st.g["n"])
    entry = "%s %s" % (env.tag, fn)
    TS = [T for T in traces_of(R, env, fn, M, I, [], st, entry) if possible(R, env, T)]
    rets = [T for T in TS if T.kind == "ret"]
    if not rets:
        raise AnalysisError("lace_suspend never returns")
    stop = plain = 0
    for T in rets:
        ch = changes(T, env)
        first = ch[0] if ch else None
        ok = first is not None and first[2] is not None
        R.check("suspend.once", ok, entry, T.where_end(), "a suspend has no effect on the nesting depth, or one that is not atomic",
                None if ok else T.path())
        if not ok:
            continue
        p, e, old, new = first
        req = [(q, x) for q, x in enumerate(T.ev) if x.k in ("store", "rmw", "cas") and x.d.get("region") is not None and
               T.role(x).startswith("G:") and T.role(x) not in ("G:" + env.awaken,)]
        if len(ch) == 1:
            plain += 1
            ok = T.f.implies_eq(T.n(new - old + 1)) and T.f.implies_ge(T.n(old - 2))
            R.check("suspend.nest", ok, entry, T.where(e),
                    "a nested suspend does not just decrease the nesting depth by one", None if ok else T.path())
            R.check("suspend.nest", not req, entry, T.where_end(), "a nested suspend stops workers", T.path() if req else None)
            continue
        stop += 1
        ok = T.f.implies_eq(T.n(old - 1)) and T.f.implies_ge(T.n(const(-1) - new))
        R.check("suspend.exclusive", ok, entry, T.where(e), "stopping the workers does not exclude other calls meanwhile "
                "(or happens while resumes are outstanding)", None if ok else T.path())
        ok = len(ch) == 2 and zero(T, ch[1][3])
        R.check("suspend.done", ok, entry, T.where(ch[-1][1]), "the nesting depth is not 0 after stopping the workers", None if ok else T.path())
        on = [(q, x) for q, x in req if nonzero(T, x.d["val"] if x.k == "store" else x.d["new"])]
        off = [(q, x) for q, x in req if zero(T, x.d["val"] if x.k == "store" else x.d["new"])]
        same = len(on) == 1 and len(off) == 1 and len(req) == 2 and loc(T, on[0][1]) == loc(T, off[0][1]) and \
            ch[0][0] < on[0][0] < off[0][0] < ch[-1][0]
        R.check("suspend.request", same, entry, T.where_end(),
                "the workers are not asked to stop, or the request is not withdrawn before they can be resumed", None if same else T.path())
        if not same:
            continue
        req_loc = loc(T, on[0][1])
        info["request"] = (I.role(req_loc[0]), req_loc[1])
        # all running before the request, none running before it is withdrawn
        run = info.get("running")
        r1 = [x for q, x in enumerate(T.ev) if q < on[0][0] and x.k == "load" and x.d["atomic"] and
              T.role(x).startswith("G:") and T.f.implies_eq(T.n(x.d["val"] - n)) and loc(T, x) != req_loc]
        R.check("suspend.all-running", bool(r1), entry, T.where(on[0][1]),
                "workers are asked to stop before all have started running", None if r1 else T.path())
        r0 = [x for q, x in enumerate(T.ev) if on[0][0] < q < off[0][0] and x.k == "load" and x.d["atomic"] and
              T.role(x).startswith("G:") and zero(T, x.d["val"]) and loc(T, x) != req_loc]
        ok = bool(r0) and (not r1 or loc(T, r0[-1]) == loc(T, r1[-1]))
        R.check("suspend.all-stopped", ok, entry, T.where_end(), "suspend returns before all workers have stopped", None if ok else T.path())
        if r0:
            info["running"] = (I.role(loc(T, r0[-1])[0]), loc(T, r0[-1])[1])
        bad = [e2 for e2 in T.ev if is_call(e2, "sem_post", "sem_wait")]
        R.check("suspend.nest", not bad, entry, T.where_end(), "suspend uses a semaphore", T.path() if bad else None)
    R.check("suspend.nest", plain >= 1, entry, "src/lace.c", "nested suspends are not supported")
    R.check("suspend.request", stop >= 1, entry, "src/lace.c", "workers are never stopped")
    # ---- nobody else touches the counter
    allowed = set(env.closure("lace_start")) | set(env.closure("lace_resume")) | set(env.closure("lace_suspend"))
    for f in list(env.mod.functions.values()):
        if f.defined and f.name not in allowed:
            for i in env.instrs(f.name):
                if i.op in ("store", "rmw", "cmpxchg") and (i.ops[1] if i.op == "store" else i.ops[0]) == ("glob", env.awaken):
                    R.check("resume.alone", False, "%s %s" % (env.tag, f.name), I.where(i), "%s changes the nesting depth" % f.name)
    R.count("resume.alone")


def find_start_globals(self):
    """the semaphore workers sleep on: the global one lace_start initialises"""
    if hasattr(self, "sem"):
        return
    self.sem = None
    for f in self.closure("lace_start"):
        for i in self.instrs(f):
            if i.op == "call" and i.x["callee"] == ("glob", "sem_init"):
                a = i.ops[0][1]
                if glob_of(a):
                    self.sem = glob_of(a)
    if self.sem is None:
        raise AnalysisError("semaphore for suspended workers")


RtEnv.find_start_globals = find_start_globals


# ------------------------------------------------------------------------------------- RUN / RUNEX
LOCKS = ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_timedwait")


def lock_globals(env, fns):
    """plain (non atomic) module variables these functions read or write"""
    out = set()
    for fn in fns:
        for f in env.closure(fn):
            for i in env.instrs(f):
                if i.op in ("load", "store") and not i.x["atomic"]:
                    a = i.ops[1] if i.op == "store" else i.ops[0]
                    g = glob_of(a)
                    if g and g in env.mod.globals and not env.mod.globals[g].tls and not env.mod.globals[g].const and \
                            g not in (env.nw, env.warr):
                        out.add(g)
    return out


def sections(T):
    """critical sections: list of (begin, end, mutex); and faults of locking"""
    out, faults = [], []
    held = None
    for p, e in enumerate(T.ev):
        if is_call(e, "pthread_mutex_lock"):
            m = sem_of(T, e)
            if held is not None:
                faults.append((e, "the lock is taken twice"))
            held = (p, m)
        elif is_call(e, "pthread_mutex_unlock"):
            m = sem_of(T, e)
            if held is None or held[1] != m:
                faults.append((e, "a lock is released that is not held"))
            else:
                out.append((held[0], p, m))
            held = None
        elif is_call(e, "pthread_cond_wait", "pthread_cond_timedwait"):
            b, o = T.I.split(e.d["st"], e.d["args"][1])
            if held is None or held[1] != (b, T.n(o)):
                faults.append((e, "pthread_cond_wait without holding the lock"))
    if held is not None and T.kind == "ret":
        faults.append((T.ev[held[0]], "the lock is not released"))
    if held is not None:
        out.append((held[0], len(T.ev), held[1]))
    return out, faults


def external_worker(R, env, fn):
    """RUN / RUNEX on a worker thread: in place"""
    M, I, st = env.worker(fn, 0)
    g = dict(st.g)
    t = env.task_param(st)
    entry = "%s %s (on a worker)" % (env.tag, fn)
    TS = traces_of(R, env, fn, M, I, [t], st, entry)
    rets = 0
    for T in TS:
        X = execs(T)
        ok = T.kind == "ret"
        R.check("self.run", ok, entry, T.where_end(), "RUN on a worker waits in a loop or ends the program", None if ok else T.path())
        if not ok:
            continue
        rets += 1
        one = len(X) == 1
        R.check("self.run", one, entry, T.where_end(), "RUN on a worker executes the task %d times" % len(X), None if one else T.path())
        bad = [e for e in T.ev if e.k == "call" and e.d["name"] != "lace_get_head" or e.k in ("cas", "rmw") and
               T.role(e).startswith("G:")]
        R.check("self.run", not bad, entry, T.where(bad[0]) if bad else entry,
                "RUN on a worker blocks on or hands over to other workers", T.path() if bad else None)
        if one:
            x = X[0][1]
            a = x.d["args"]
            pv = provenance(T.n(x.d["target"]))
            ok = pv is not None and T.eq(sym(pv[0]), t) and T.n(pv[1]) == const(env.lay["o_Task_f"]) and len(a) == 3 and T.eq(a[2], t)
            R.check("self.task", ok, entry, T.where(x), "another task is executed", None if ok else T.path())
            ok = len(a) == 3 and T.eq(a[0], sym(g["P"])) and T.eq(a[1], g["H"])
            R.check("self.head", ok, entry, T.where(x), "the task does not run on this worker above its pending tasks", None if ok else T.path())
        if not rets:
            raise AnalysisError(fn + " never returns")


def external(R, env):
    env.find_start_globals()
    if not hasattr(env, "sem_off"):
        serve_offsets(R, env)
    fns = ("lace_run_task", "lace_run_task_exclusive")
    for fn in fns:
        external_worker(R, env, fn)
    lockvars = lock_globals(env, fns)
    all_ = {}
    for fn in fns:
        M, I, st = env.outside(fn)
        M.lockvol = set(lockvars)
        t = env.task_param(st)
        entry = "%s %s (outside)" % (env.tag, fn)
        TS = traces_of(R, env, fn, M, I, [t], st, entry)
        all_[fn] = (TS, M, I, t, entry)
        rets = [T for T in TS if T.kind == "ret"]
        if not rets:
            raise AnalysisError(fn + " never returns")
        for T in TS:
            if T.kind == "dead":
                R.check("run.returns", False, entry, T.where_end(), "the program is terminated", T.path())
            external_common(R, env, T, M, I, t, entry, lockvars)
    # ---- roles of the protected variables
    cnt = exc = None
    for fn in fns:
        TS, M, I, t, entry = all_[fn]
        for T in TS:
            if T.kind != "ret":
                continue
            pubp = published(T, env)
            for p, e in enumerate(T.ev):
                if e.k != "store" or not T.role(e).startswith("G:") or T.role(e)[2:] not in lockvars:
                    continue
                if pubp and p < pubp[0][0]:
                    if fn == fns[0]:
                        cnt = (T.role(e)[2:])
                    elif nonzero(T, e.d["val"]):
                        exc = (T.role(e)[2:])
    R.check("runex.admission", exc is not None, env.tag + " lace_run_task_exclusive", "src/lace.c",
            "RUNEX does not announce that it needs to be alone")
    R.check("run.admission", cnt is not None, env.tag + " lace_run_task", "src/lace.c", "RUN does not count the tasks that are running")
    if cnt is None or exc is None:
        return
    for fn in fns:
        TS, M, I, t, entry = all_[fn]
        for T in TS:
            admission(R, env, T, entry, fn == fns[1], cnt, exc, lockvars)


def published(T, env):
    return [(p, e) for p, e in enumerate(T.ev) if "region" in e.d and T.role(e) == "G:" + env.ext and
            (e.k == "cas" and e.d["ok"] or e.k in ("store", "rmw"))]


def external_common(R, env, T, M, I, t, entry, lockvars):
    pub = published(T, env)
    for p, e in enumerate(T.ev):
        if "region" in e.d and T.role(e) == "G:" + env.ext:
            if e.k in ("store", "rmw"):
                R.check("run.publish", False, entry, T.where(e), "a waiting task of another caller may be overwritten", T.path(e))
            elif e.k == "cas":
                ok = zero(T, e.d["exp"])
                R.check("run.publish", ok, entry, T.where(e), "a waiting task of another caller may be overwritten", None if ok else T.path(e))
    cas = [(p, e) for p, e in pub if e.k == "cas"]
    secs, faults = sections(T)
    for e, what in faults:
        R.check("run.lock", False, entry, T.where(e), what, T.path(e))
    for p, e in enumerate(T.ev):
        if e.k in ("load", "store") and T.role(e).startswith("G:") and T.role(e)[2:] in lockvars:
            ok = any(a < p < b for a, b, _ in secs)
            R.check("run.lock", ok, entry, T.where(e), "%s is used without holding the lock" % T.role(e)[2:], None if ok else T.path(e))
        elif is_call(e, "sem_wait") or e.k == "cas":
            ok = not any(a < p < b for a, b, _ in secs)
            R.check("run.lock", ok, entry, T.where(e), "the caller waits for a worker while holding the lock", None if ok else T.path(e))
    ms = {m for _, _, m in secs}
    R.check("run.lock", len(ms) <= 1, entry, T.where_end(), "different locks are used", None)
    inits = [(p, e) for p, e in enumerate(T.ev) if is_call(e, "sem_init")]
    # a cut trace only needs to be sound up to its cut
    if cas:
        p0, e0 = cas[0]
        rec = local_of(T, e0.d["st"], e0.d["new"])
        R.check("run.record", rec is not None, entry, T.where(e0), "no record of this call is handed over", None if rec else T.path(e0))
        if rec is None:
            return
        v = value_at(T, e0.d["st"], rec[0], rec[1] + env.task_off)
        R.check("run.record", T.eq(v, t), entry, T.where(e0), "another task is handed over", None if T.eq(v, t) else T.path(e0))
        init = [(p, e) for p, e in inits if p < p0 and sem_of(T, e) and sem_of(T, e)[0] == rec[0] and sem_of(T, e)[1] == T.n(rec[1] + env.sem_off)]
        ok = len(init) == 1 and zero(T, init[0][1].d["args"][2])
        R.check("run.semaphore", ok, entry, T.where(e0),
                "the semaphore the caller waits on is not set up (empty) before the task is handed over", None if ok else T.path(e0))
        sem = (rec[0], T.n(rec[1] + env.sem_off))
        late = [e for e in T.ev[p0 + 1:] if e.k == "store" and e.d["region"] == rec[0]]
        R.check("run.record", not late, entry, T.where(late[0]) if late else entry, "the record is changed after it was handed over",
                T.path() if late else None)
        waits = [p for p, e in enumerate(T.ev) if is_call(e, "sem_wait", "sem_trywait", "sem_timedwait") and sem_of(T, e) == sem and
                 isinstance(e.d["ret"], Lin) and zero(T, e.d["ret"])]
        destroys = [p for p, e in enumerate(T.ev) if is_call(e, "sem_destroy") and sem_of(T, e) == sem]
        for p in destroys:
            ok = any(w < p for w in waits)
            R.check("run.wait", ok, entry, T.where(T.ev[p]), "the semaphore is destroyed before the task is complete", None if ok else T.path(T.ev[p]))
        if T.kind == "ret":
            ok = len(waits) == 1 and waits[0] > p0
            R.check("run.wait", ok, entry, T.where_end(),
                    "RUN returns without having waited for its own task to complete", None if ok else T.path())
            R.check("run.release", len(destroys) == 1, entry, T.where_end(), "the semaphore is not destroyed", None)
    if T.kind == "ret":
        R.check("run.publish", len(cas) == 1, entry, T.where_end(), "the task is handed over %d times" % len(cas), None if len(cas) == 1 else T.path())
        if len(cas) == 1 and possible(R, env, T):
            # awake while the task is there
            ch = changes(T, env)
            up = down = 0
            bad = False
            p0 = cas[0][0]
            waits = [p for p, e in enumerate(T.ev) if is_call(e, "sem_wait") and zero(T, e.d["ret"])]
            pw = waits[-1] if waits else len(T.ev)
            before = transitions(T, [c for c in ch if c[0] < p0])
            after = transitions(T, [c for c in ch if c[0] > pw])
            n_mid = sum(1 for c in ch if p0 <= c[0] <= pw)
            ok = before == 1 and n_mid == 0
            R.check("run.resume", ok, entry, T.where(cas[0][1]), "the workers are not resumed (once) before the task is handed over",
                    None if ok else T.path())
            ok = after == -1
            R.check("run.suspend", ok, entry, T.where_end(), "the matching suspend after the task is missing", None if ok else T.path())
    else:
        R.count("run.publish")


def transitions(T, ch):
    """net effect of a sequence of changes of the nesting counter, None if not clear"""
    if not ch:
        return 0
    tot = 0
    cur = None
    for p, e, old, new in ch:
        if old is not None:
            d = T.n(new - old)
            if cur is None and d.is_const() and abs(d.c) == 1 and T.f.implies_ge(T.n(new)) and T.f.implies_ge(T.n(old) - 1):
                tot += d.c
                continue
            if T.n(old).is_const() or T.f.implies_eq(T.n(old)) or T.f.implies_eq(T.n(old) - 1):
                cur = 0 if T.f.implies_eq(T.n(old)) else 1
                if not T.f.implies_ge(const(-1) - T.n(new)):
                    return None
                continue
            return None
        if cur is None or not T.n(new).is_const():
            return None
        tot += T.n(new).c - cur
        cur = None
    return tot if cur is None else None


def admission(R, env, T, entry, exclusive, cnt, exc, lockvars):
    secs, _ = sections(T)
    pub = [p for p, e in published(T, env) if e.k == "cas"]
    p0 = pub[0] if pub else None
    pre = "runex" if exclusive else "run"
    waits = [p for p, e in enumerate(T.ev) if is_call(e, "sem_wait") and zero(T, e.d["ret"])]
    pw = waits[-1] if waits and p0 is not None and waits[-1] > p0 else None
    CW = ("pthread_cond_wait", "pthread_cond_timedwait")

    def ev(var, kinds, lo, hi):
        return [(p, T.ev[p]) for p in range(lo, hi) if T.ev[p].k in kinds and T.role(T.ev[p]) == "G:" + var]

    def fresh_reading(var, p, sec):
        """value of var known at position p of the section: last access in it, with no waiting since"""
        last = None
        for q in range(sec[0], p):
            e = T.ev[q]
            if is_call(e, *CW):
                last = None
            elif e.k in ("load", "store") and T.role(e) == "G:" + var:
                last = e.d["val"]
        return last
    stores_c = ev(cnt, ("store",), 0, len(T.ev))
    stores_x = ev(exc, ("store",), 0, len(T.ev))

    def delta(p, e):
        ld = [x for x in T.ev[:p] if x.k == "load" and T.role(x) == "G:" + cnt]
        if not ld:
            return None
        d = T.n(e.d["val"] - ld[-1].d["val"])
        return d.c if d.is_const() else None
    # every waiting loop really waits
    if T.kind == "cut":
        it = T.ev[T.ev.index(T.ev[-1].d["mark"]) + 1:]
        inlock = [s for s in secs if s[0] < len(T.ev) - 1 <= s[1]]
        if inlock:
            ok = any(is_call(e, *CW) for e in it)
            R.check(pre + ".condwait", ok, entry, T.where(T.ev[-1]), "the caller waits in a loop while holding the lock", None if ok else T.path())
    def sec_of(p):
        for s in secs:
            if s[0] < p < s[1]:
                return s
        return None
    if not exclusive:
        bad = [e for _, e in stores_x]
        R.check("run.admission", not bad, entry, T.where(bad[0]) if bad else entry, "RUN changes the exclusive request", T.path() if bad else None)
        for p, e in stores_c:
            d = delta(p, e)
            s = sec_of(p)
            if d == 1 and (p0 is None or p < p0):
                v = fresh_reading(exc, p, s) if s else None
                # also accept a look after the increment in the same section
                ok = v is not None and zero(T, v)
                R.check("run.admission", ok, entry, T.where(e), "a task is let in without making sure that no exclusive task is waiting or running",
                        None if ok else T.path(e))
            else:
                ok = d == -1 and pw is not None and p > pw
                R.check("run.admission", ok, entry, T.where(e), "the number of running tasks is changed wrongly", None if ok else T.path(e))
                if ok and T.kind == "ret":
                    new = e.d["val"]
                    xs = [x for q, x in ev(exc, ("load",), s[0], s[1])] if s else []
                    noone = nonzero(T, new) or any(zero(T, x.d["val"]) for x in xs)
                    woken = any(is_call(x, "pthread_cond_broadcast") for x in T.ev[p:])
                    R.check("run.wake", noone or woken, entry, T.where(e),
                            "an exclusive caller waiting for the last task to finish is not woken", None if noone or woken else T.path())
        if T.kind == "ret" and p0 is not None:
            ups = [p for p, e in stores_c if delta(p, e) == 1 and p < p0]
            downs = [p for p, e in stores_c if delta(p, e) == -1 and p > p0]
            ok = len(ups) == 1 and len(downs) == 1 and len(stores_c) == 2
            R.check("run.admission", ok, entry, T.where_end(), "the task is not counted exactly while it is being executed", None if ok else T.path())
    else:
        R.check("runex.admission", not stores_c, entry, T.where(stores_c[0][1]) if stores_c else entry,
                "RUNEX changes the number of running tasks", T.path() if stores_c else None)
        for p, e in stores_x:
            s = sec_of(p)
            if nonzero(T, e.d["val"]):
                v = fresh_reading(exc, p, s) if s else None
                ok = v is not None and zero(T, v) and (p0 is None or p < p0)
                R.check("runex.admission", ok, entry, T.where(e), "two exclusive tasks may be let in", None if ok else T.path(e))
            else:
                ok = zero(T, e.d["val"]) and pw is not None and p > pw
                R.check("runex.admission", ok, entry, T.where(e), "the exclusive request ends before the task is complete", None if ok else T.path(e))
                if ok and T.kind == "ret":
                    woken = any(is_call(x, "pthread_cond_broadcast") for x in T.ev[p:])
                    R.check("runex.wake", woken, entry, T.where(e), "callers waiting for the exclusive task are not woken", None if woken else T.path())
        if p0 is not None:
            ons = [p for p, e in stores_x if nonzero(T, e.d["val"]) and p < p0]
            ok = len(ons) == 1
            if ok:
                s = sec_of(ons[0])
                v = fresh_reading(cnt, s[1], s) if s else None
                ok = v is not None and T.f.implies_ge(-T.n(v))
            R.check("runex.alone", ok, entry, T.where(T.ev[p0]), "an exclusive task is handed over although other tasks may be running",
                    None if ok else T.path(T.ev[p0]))
            if T.kind == "ret":
                offs = [p for p, e in stores_x if zero(T, e.d["val"])]
                ok = len(ons) == 1 and len(offs) == 1
                R.check("runex.admission", ok, entry, T.where_end(), "the exclusive request is not withdrawn exactly once", None if ok else T.path())


# ------------------------------------------------------------------------------------- workers' own loops
STEALS = "lace_steal_random_CALL"


class Loops:
    """analysis of the functions in which workers look for work; worker functions they call inside
    loops are analysed separately and summarised"""

    def __init__(self, R, env):
        self.R, self.env = R, env
        self.sum = {}
        self.done = {}

    def traces(self, fn, sample=None):
        """(model, interpreter, entry state g, traces) of a worker function on an arbitrary queue"""
        if fn in self.done:
            return self.done[fn]
        env = self.env
        M, I, st = env.worker(fn, None)
        g = dict(st.g)
        f = env.mod.functions[fn]
        args = [sym(g["P"]), g["H"]]
        for i, (ty, pn) in enumerate(f.params[2:]):
            k = env.mod.layout.resolve(ty)
            role = None
            if sample is not None and len(sample[1]) > i + 2 and isinstance(sample[1][i + 2], Lin):
                b, o = sample[0].I.split(sample[0].s, sample[1][i + 2])
                role = sample[0].I.role(b) if b is not None else None
            if k.k == "ptr":
                if role in (None, "T") and sample is None:
                    args.append(env.task_param(st, "a%d" % i))
                else:
                    args.append(fresh("a%d" % i, 0, None, ptr=True, role=role or "X"))
            else:
                args.append(fresh("a%d" % i, None, None, raw=k.n))
        res = I.analyse(fn, args, st)
        self.R.entry("%s %s" % (env.tag, fn), I, len(res))
        TS = [Trace(I, M, s, rv, k) for s, rv, k in res]
        self.done[fn] = (M, I, g, TS)
        for T in TS:
            for e in T.ev:
                if e.k == "call" and e.d["name"] in I.modular and e.d["name"] not in self.done:
                    self.traces(e.d["name"], (T, e.d["args"]))
        return self.done[fn]

    def must(self, fn):
        """global variables every completed run of fn looks at"""
        if fn in self.sum:
            return self.sum[fn]
        self.sum[fn] = frozenset()
        M, I, g, TS = self.done[fn]
        out = None
        for T in TS:
            if T.kind == "ret":
                s = self.seen(T, T.ev)
                out = s if out is None else out & s
        self.sum[fn] = frozenset(out or ())
        return self.sum[fn]

    def seen(self, T, evs):
        s = set()
        for e in evs:
            if e.k in ("load", "rmw", "cas") and e.d.get("region") is not None and T.role(e).startswith("G:"):
                s.add(T.role(e))
            elif e.k == "call" and e.d["name"] in self.done:
                s |= self.must(e.d["name"])
        return s

    def victims(self, fn):
        """does fn (or what it calls) try to steal"""
        M, I, g, TS = self.done[fn]
        return any(e.k == "cas" and T.role(e) == "V" for T in TS for e in T.ev)


def serve_rules(R, T, env, entry, head, info, P):
    """a worker takes an external task: it takes it away, runs it once and then releases its caller"""
    I = T.I
    got = []
    for p, e in enumerate(T.ev):
        if "region" not in e.d or T.role(e) != "G:" + env.ext:
            continue
        if e.k == "rmw" and e.d["op"] == "xchg":
            ok = zero(T, e.d["new"])
            R.check("serve.take", ok, entry, T.where(e), "the external task is not taken away", None if ok else T.path(e))
            if not zero(T, e.d["old"]):
                got.append((p, e, e.d["old"]))
        elif e.k == "cas":
            if e.d["ok"]:
                ok = zero(T, e.d["new"]) and nonzero(T, e.d["exp"])
                R.check("serve.take", ok, entry, T.where(e), "the external task is not taken away", None if ok else T.path(e))
                got.append((p, e, e.d["exp"]))
        elif e.k in ("store", "rmw"):
            R.check("serve.take", False, entry, T.where(e), "the external task is not taken away atomically: it can be lost or run twice", T.path(e))
    for i, (p, e, rec) in enumerate(got):
        if T.f.implies_eq(T.n(rec)):
            continue
        hi = got[i + 1][0] if i + 1 < len(got) else len(T.ev)
        reg = T.n(rec).t[0][0] if len(T.n(rec).t) == 1 else None
        posts = [q for q in range(p, hi) if is_call(T.ev[q], "sem_post") and same_rec(T, T.ev[q], reg)]
        xs = []
        for q in range(p, hi):
            x = T.ev[q]
            if x.k == "exec":
                pv = provenance(T.n(x.d["target"]))
                src = syminfo(pv[0]).kw.get("prov") if pv is not None else None
                if src is not None and src[0] == reg:
                    xs.append((q, x, pv, T.n(src[1])))
        # the record was there, or not
        taken = nonzero(T, rec)
        if not xs and not posts:
            ok = not taken and T.f.implies_eq(T.n(rec))
            R.check("serve.run", ok, entry, T.where(e), "an external task is taken but not executed", None if ok else T.path())
            continue
        ok = taken
        R.check("serve.run", ok, entry, T.where(e), "an external task is run although there may be none", None if ok else T.path())
        ok = len(xs) == 1 and len(posts) == 1
        R.check("serve.run", ok, entry, T.where(e), "an external task is executed %d times and its caller released %d times" % (len(xs), len(posts)),
                None if ok else T.path())
        if not ok:
            continue
        q, x, pv, toff = xs[0]
        R.check("serve.order", q < posts[0], entry, T.where(x), "the caller is released before its task is complete", None if q < posts[0] else T.path())
        a = x.d["args"]
        ok = len(a) == 3 and T.eq(a[0], sym(P)) and T.eq(a[2], sym(pv[0])) and T.n(pv[1]) == const(env.lay["o_Task_f"])
        R.check("serve.args", ok, entry, T.where(x), "the external task is not called with this worker and its own descriptor", None if ok else T.path())
        ok = len(a) == 3 and T.eq(a[1], head)
        R.check("serve.head", ok, entry, T.where(x), "the external task does not run above this worker's pending tasks", None if ok else T.path())
        late = [y for y in T.ev[posts[0] + 1:hi] if y.d.get("region") in (reg, pv[0]) and y.k in ("load", "store", "rmw", "cas")]
        R.check("serve.no-touch-after", not late, entry, T.where(late[0]) if late else entry,
                "the caller's memory is used after the caller was released", T.path() if late else None)
        po = I.split(T.ev[posts[0]].d["st"], T.ev[posts[0]].d["args"][0])[1]
        info.setdefault("sem", set()).add(T.n(po))
        info.setdefault("task", set()).add(toff)
    return len(got)


def same_rec(T, e, reg):
    s = sem_of(T, e)
    return s is not None and s[0] == reg


def serve_offsets(R, env):
    """where a worker finds the task and the semaphore in the record of an external task"""
    if not hasattr(env, "loops"):
        env.loops = Loops(Report_(), env)
    info = {}
    for fn in (STEALS, env.steal_loop()):
        M, I, g, TS = env.loops.traces(fn)
    for fn, (M, I, g, TS) in env.loops.done.items():
        for T in TS:
            serve_rules(Report_(), T, env, "", g["H"], info, g["P"])
    if len(info.get("sem", ())) != 1 or len(info.get("task", ())) != 1:
        raise AnalysisError("record of external tasks: %s" % info)
    env.sem_off = info["sem"].pop().c
    env.task_off = info["task"].pop().c


def Report_():
    from .report import Report
    return Report()


def steal_loop(self):
    """the function in which idle workers run: what the worker thread calls with the quit flag"""
    if not hasattr(self, "_sl"):
        self._sl = None
        for nm in ("lace_steal_loop_WRAP", "lace_steal_loop_CALL"):
            if nm in self.mod.functions and self.mod.functions[nm].defined:
                self._sl = nm
                break
        if self._sl is None:
            raise AnalysisError("the workers' main loop was not found")
    return self._sl


RtEnv.steal_loop = steal_loop


def workers(R, env):
    """everything idle workers do"""
    env.find_start_globals()
    if not hasattr(env, "susp"):
        suspend(Report_(), env)
    L = env.loops = Loops(R, env)
    L.R = R
    info = {}
    for fn in (STEALS, env.steal_loop()):
        L.traces(fn)
    tot = dict(steals=0, serves=0)
    lay = env.lay
    picks = {}
    for fn, (M, I, g, TS) in list(L.done.items()):
        entry = "%s %s" % (env.tag, fn)
        main = fn == env.steal_loop()
        wid, n = sym(g["wid"]), sym(g["n"])
        outcome = {}
        for T in TS:
            tot["steals"] += steal_rules(R, T, entry, g["H"])
            tot["serves"] += serve_rules(R, T, env, entry, g["H"], info, g["P"])
            # ---- victims
            for e in T.ev:
                if e.k == "load" and T.role(e) == "WARR":
                    off = T.n(e.d["off"])
                    ok = off.divisible(8)
                    ix = off.div(8) if ok else None
                    ok = ok and T.f.implies_ge(ix) and T.f.implies_ge(n - 1 - ix)
                    R.check("victim.exists", ok, entry, T.where(e), "a victim outside the existing workers is picked", None if ok else T.path(e))
                    if ok:
                        oth = T.f.implies_ne(T.n(ix - wid)) or T.f.implies_ne(T.n(off - wid * 8))
                        R.check("victim.other", oth, entry, T.where(e), "a worker may pick itself as victim", None if oth else T.path(e))
                        picks.setdefault(fn, []).append((T, ix, wid, n))
            one = any(T.f.implies_eq(T.n(n - 1)) for _ in (0,))
            # ---- one steal attempt at a time is loop free (checked on what contains the claim)
            for p, e in enumerate(T.ev):
                if e.k == "cas" and T.role(e) == "V":
                    # events on this victim before the claim
                    first = min((q for q, x in enumerate(T.ev[:p]) if x.d.get("region") == e.d["region"]), default=p)
                    slow = [x for x in T.ev[first:p] if x.k in ("loop", "call", "exec", "back", "cas")]
                    R.check("steal.attempt", not slow, entry, T.where(e), "a steal attempt loops, blocks or runs other work before claiming",
                            T.path(e) if slow else None)
                    if not e.d["ok"]:
                        again = [x for x in T.ev[p + 1:] if x.k == "cas" and x.d.get("region") == e.d["region"]]
                        R.check("steal.attempt", not again, entry, T.where(e), "a steal attempt retries in a loop", T.path() if again else None)
            # ---- requests for work
            vr = {}
            for p, e in enumerate(T.ev):
                if "region" in e.d and T.role(e) == "V":
                    vr.setdefault(e.d["region"], []).append(e)
            for reg, es in vr.items():
                pv = syminfo(reg).kw.get("prov")
                if pv is not None and pv[0] is not None and T.I.role(pv[0]) == "WARR":
                    ok = T.f.implies_ge(T.n(sym(reg) - 1))
                    R.check("victim.null", ok, entry, T.where(es[0]), "a victim that may not have started yet is not recognised",
                            None if ok else T.path(es[0]))
                if any(e.k == "cas" for e in es):
                    continue
                # nothing was found: then, unless its tasks are all stolen, it must have been asked
                words = [e for e in es if e.k == "load" and T.n(e.d["off"]) == const(M.TS) and e.d["size"] == 8]
                if not words:
                    continue
                asked = [e for e in es if e.k == "store" and T.n(e.d["off"]) == const(M.MS) and nonzero(T, e.d["val"])]
                already = [e for e in es if e.k == "load" and T.n(e.d["off"]) == const(M.MS) and nonzero(T, e.d["val"])]
                ok = bool(asked or already)
                R.check("steal.request", ok, entry, T.where(words[-1]),
                        "a victim without stealable tasks is not asked for work", None if ok else T.path())
            # ---- counters
            if "o_WorkerP_ctr" in lay:
                steal_counters(R, T, env, entry, L, I, main or fn == STEALS)
            # ---- loops
            if T.kind == "dead":
                R.check("idle.returns", False, entry, T.where_end(), "the program is terminated", T.path())
            if T.kind == "cut":
                it = T.ev[T.ev.index(T.ev[-1].d["mark"]) + 1:]
                seen = L.seen(T, it)
                waitsem = any(is_call(e, "sem_wait") for e in it) and not any(e.k == "call" and e.d["name"] == "lace_barrier" for e in it)
                if waitsem:
                    continue        # retry of an interrupted wait
                for v, what in (("G:lace_newframe", "interrupts"), ("G:" + env.ext, "external tasks"),
                                (env.susp.get("request", ("?",))[0], "suspension")):
                    ok = v in seen
                    if ok and v == "G:lace_newframe":
                        # an interrupt that was seen must be taken part in
                        pass
                    R.check("idle.poll", ok, entry, T.where(T.ev[-1]), "an idle worker goes round without looking for %s" % what,
                            None if ok else T.path())
                tries = any(e.k == "load" and T.role(e) == "WARR" for e in it) or T.f.implies_eq(T.n(n - 1))
                R.check("idle.steal", tries, entry, T.where(T.ev[-1]), "an idle worker goes round without trying to steal", None if tries else T.path())
            # ---- what was seen is acted upon
            react(R, T, env, entry, L, main)
            # ---- suspension
            suspension(R, T, env, entry, main, info)
    R.check("steal.present", tot["steals"] > 0, env.tag, "src/lace.c", "idle workers never steal")
    R.check("serve.present", tot["serves"] > 0, env.tag, "src/lace.c", "idle workers never take external tasks")
    R.check("stop.present", info.get("stops", 0) > 0, env.tag, "src/lace.c", "workers never stop when they are asked to")
    b = info.get("barriers", set())
    R.check("stop.barriers", len(b) <= 1, env.tag, "src/lace.c", "resumed workers pass different numbers of barriers: %s" % sorted(b))
    # every other worker can be picked, in the workers' main loop and by STEAL_RANDOM
    for root, who in ((env.steal_loop(), "the workers' main loop"), (STEALS, "STEAL_RANDOM")):
        for N in (2, 3, 4, 5):
            for w in range(N):
                got = picked(L, picks, root, N, w)
                for t in range(N):
                    if t != w:
                        R.check("victim.all", t in got, env.tag, "src/lace.c",
                                "with %d workers, %s of worker %d can never pick worker %d" % (N, who, w, t))
    if len(info.get("sem", ())) == 1:
        env.sem_off = list(info["sem"])[0].c
        env.task_off = list(info["task"])[0].c


def picked(L, picks, root, N, w):
    """the victims worker w of N can pick in function root and what it calls"""
    out, seen, todo = set(), set(), [root]
    while todo:
        fn = todo.pop()
        if fn in seen:
            continue
        seen.add(fn)
        M, I, g, TS = L.done[fn]
        for T in TS:
            calls = {e.d["name"] for e in T.ev if e.k == "call" and e.d["name"] in L.done} - seen - set(todo)
            mine = [x for x in picks.get(fn, ()) if x[0] is T]
            if not calls and not mine:
                continue
            f = T.f.copy()
            if not (f.add_eq(f.norm(sym(g["n"]) - N)) and f.add_eq(f.norm(sym(g["wid"]) - w)) and feasible(f)):
                continue
            todo += [c for c in calls if c != STEALS]
            for _, ix, wid, n in mine:
                for t in set(range(N)) - out:
                    h = f.copy()
                    if h.add_eq(h.norm(ix - t)) and feasible(h):
                        out.add(t)
    return out


def feasible(f):
    from .poly import infeasible
    return not infeasible([f.norm(c) for c in f.cons])


def react(R, T, env, entry, L, main):
    """a pending interrupt that was noticed is taken part in; an external task that was noticed is taken"""
    for p, e in enumerate(T.ev):
        if e.k == "load" and is_newframe(T, e) and nonzero(T, e.d["val"]):
            nxt = [q for q in range(p + 1, len(T.ev)) if T.ev[q].k == "call" and T.ev[q].d["name"] == "lace_yield"]
            ok = bool(nxt)
            R.check("idle.join", ok, entry, T.where(e), "a pending interrupt is noticed but not taken part in", None if ok else T.path())
            if ok:
                a = T.ev[nxt[0]].d["args"]
                okh = T.eq(a[0], sym(T.g["P"])) and T.eq(a[1], T.g["H"])
                R.check("idle.join", okh, entry, T.where(T.ev[nxt[0]]), "the interrupt is not run above this worker's pending tasks", None if okh else T.path())


def steal_counters(R, T, env, entry, L, I, root):
    """on each way through the functions that look for work, successes, lost races and attempts are counted as often
    as they happen; helpers that only do the attempt, or only a part of the counting, are balanced in their callers"""
    lay = env.lay
    if T.kind == "dead":
        return
    ct = ctr_events(T, lay)
    on = enabled(lay, "STEALS")
    kinds = (("CTR_steals", "successful steals"), ("CTR_steal_busy", "steals that lost a race"), ("CTR_steal_tries", "steal attempts"))
    if not on:
        for c, what in kinds:
            expect(R, T, ct, lay, entry, c, 0, what)
    elif root:
        B = balances(T, env, L)
        for i, (c, what) in enumerate(kinds):
            bad = next((b for b in B if b[i] != 0), None)
            R.check("count." + c[4:], bad is None, entry, T.where_end(),
                    "%s: counted %s more often than they happened (%s)" % (what, "?" if bad is None or bad[i] is None else bad[i], c),
                    None if bad is None else T.path())
    req(R, T, env, entry, ct)
    for c in ("CTR_tasks", "CTR_leaps", "CTR_leap_busy", "CTR_leap_tries", "CTR_split_grow", "CTR_split_shrink"):
        expect(R, T, ct, lay, entry, c, 0, "events that did not happen here")


def balances(T, env, L, depth=0):
    """possible values of (counted - happened) for successes, lost races and attempts on this trace"""
    lay = env.lay
    ct = ctr_events(T, lay)
    own = [total(ct, lay, c) for c in ("CTR_steals", "CTR_steal_busy", "CTR_steal_tries")]
    if None in own:
        return {(None, None, None)}
    for e in T.ev:
        if e.k == "cas" and T.role(e) == "V":
            own[0 if e.d["ok"] else 1] -= 1
        elif e.k == "load" and T.role(e) == "WARR":
            own[2] -= 1
    out = {tuple(own)}
    for e in T.ev:
        if e.k != "call" or e.d["name"] not in L.done or e.d["name"] == STEALS or depth > 4:
            continue
        sums = set()
        rv = e.d["ret"]
        for X in L.done[e.d["name"]][3]:
            if X.kind != "ret":
                continue
            r = X.n(X.rv) if isinstance(X.rv, Lin) else None
            if r is not None and r.is_const() and isinstance(rv, Lin):
                f = T.f.copy()
                if not f.add_eq(f.norm(rv - r.c)) or not feasible(f):
                    continue
            sums |= balances(X, env, L, depth + 1)
        if sums:
            out = {tuple(None if None in (x, y) else x + y for x, y in zip(a, b)) for a in out for b in sums}
    return out


def req(R, T, env, entry, ct):
    n = sum(1 for e in T.ev if e.k == "store" and T.role(e) == "V" and T.n(e.d["off"]) == const(T.M.MS))
    expect(R, T, ct, env.lay, entry, "CTR_split_req", n if enabled(env.lay, "SPLITS") else 0, "requests for work")


def suspension(R, T, env, entry, main, info):
    req, run = env.susp.get("request"), env.susp.get("running")
    if req is None or run is None:
        return

    def at(e, l):
        return e.d.get("region") is not None and T.role(e) == l[0] and T.n(e.d["off"]) == l[1]
    decs = [p for p, e in enumerate(T.ev) if e.k == "rmw" and at(e, run) and T.n(e.d["new"] - e.d["old"]) == const(-1)]
    incs = [p for p, e in enumerate(T.ev) if e.k == "rmw" and at(e, run) and T.n(e.d["new"] - e.d["old"]) == const(1)]
    other = [p for p, e in enumerate(T.ev) if e.k in ("rmw", "store", "cas") and at(e, run) and p not in decs and p not in incs]
    R.check("stop.count", not other, entry, T.where(T.ev[other[0]]) if other else entry, "the number of running workers is changed wrongly",
            T.path() if other else None)
    waits = [p for p, e in enumerate(T.ev) if is_call(e, "sem_wait", "sem_timedwait", "sem_trywait")]
    asked = [p for p, e in enumerate(T.ev) if e.k == "load" and at(e, req) and nonzero(T, e.d["val"])]
    retry = T.kind == "cut" and T.ev[-1].k == "back" and any(p > T.ev.index(T.ev[-1].d["mark"]) for p in waits) and \
        not any(p > T.ev.index(T.ev[-1].d["mark"]) for p in decs)
    if not (decs or incs or waits):
        ok = not asked or not main
        R.check("stop.obey", ok, entry, T.where_end(), "a worker that sees the request to stop goes on", None if ok else T.path())
        return
    R.check("stop.asked", bool(asked) and (not decs or asked[0] < decs[0]), entry, T.where_end(), "a worker stops without being asked",
            None if asked else T.path())
    good = [p for p in waits if is_call(T.ev[p], "sem_wait") and sem_of(T, T.ev[p]) is not None and
            T.I.role(sem_of(T, T.ev[p])[0]) == "G:" + env.sem and zero(T, T.ev[p].d["ret"])]
    for p in waits:
        s = sem_of(T, T.ev[p])
        ok = s is not None and T.I.role(s[0]) == "G:" + env.sem
        R.check("stop.semaphore", ok, entry, T.where(T.ev[p]), "a worker sleeps on another semaphore than the one it is woken with", None if ok else T.path())
    if retry:
        ok = len(decs) == 1 and decs[0] < waits[0]
        R.check("stop.count", ok, entry, T.where_end(), "a worker sleeps without counting itself out", None if ok else T.path())
        return
    info["stops"] = info.get("stops", 0) + 1
    ok = len(decs) == 1 and len(incs) == 1 and len(good) == 1 and decs[0] < good[0] < incs[0]
    R.check("stop.count", ok, entry, T.where_end(),
            "a worker that stops does not count itself out, sleep once and count itself in again", None if ok else T.path())
    if not ok:
        return
    between = [e for e in T.ev[decs[0]:incs[0]] if e.k == "exec" or e.k == "cas" or e.k == "call" and
               e.d["name"] not in ("sem_wait", "lace_barrier")]
    R.check("stop.quiet", not between, entry, T.where(between[0]) if between else entry, "a worker counted as stopped does work",
            T.path() if between else None)
    nb = sum(1 for e in T.ev[asked[0]:] if e.k == "call" and e.d["name"] == "lace_barrier") if asked else 0
    early = [p for p in range(asked[0], good[0]) if is_call(T.ev[p], "lace_barrier")] if asked else []
    info.setdefault("barriers", set()).add(nb)
