"""Rules on starting and stopping: lace_start, the worker thread, lace_stop, identities, lace_get_head."""
from .poly import Lin, const, sym, fresh, newsym, syminfo, ZERO
from .absint import AnalysisError, State
from .dq import Trace, provenance
from .rt import zero, nonzero, value_at
from .ext import is_call, sem_of, count_events, changes, possible, transitions, suspend, Report_, loc

ALLOC = {"aligned_alloc": 1, "malloc": 0, "calloc": None, "mmap": 1, "memalign": 1, "valloc": 0, "pvalloc": 0, "realloc": 1}
FREE = {"free", "munmap"}
DIAG = {"fprintf", "printf", "fputs", "puts", "perror", "fwrite", "vfprintf", "dprintf", "write", "error", "err", "errx", "psignal"}
ENDS = {"exit", "_exit", "_Exit", "abort", "quick_exit", "err", "errx", "__assert_fail"}


def glob_role(I, name):
    return "G:" + name


def prov_of(T, v):
    pv = provenance(T.n(v)) if isinstance(v, Lin) else None
    if pv is None or pv[0] is None or not isinstance(pv[1], Lin):
        return None
    return pv[0], T.n(pv[1])


def failed(T, e, f=None):
    """does the trace know that this acquisition failed (True), succeeded (False) or neither (None)"""
    f = f or T.f
    r = e.d["ret"]
    if not isinstance(r, Lin):
        return None
    r = f.norm(r)
    nm = e.d["name"]
    if nm == "pthread_create" or nm == "posix_memalign":
        if f.implies_eq(r):
            return False
        return True if f.implies_ne(r) or f.implies_ge(r - 1) or f.implies_ge(-r - 1) else None
    if nm == "mmap":
        bad = r - ((1 << 64) - 1)
        if f.implies_eq(bad):
            return True
        return False if f.implies_ne(bad) else None
    if f.implies_ne(r) or f.implies_ge(r - 1):
        return False
    return True if f.implies_eq(r) else None


def acquisitions(T):
    return [(p, e) for p, e in enumerate(T.ev) if e.k == "call" and (e.d["name"] in ALLOC or e.d["name"] in ("pthread_create", "posix_memalign"))]


def failure_rules(R, T, entry, pre="start"):
    """a resource that could not be had ends the program with a diagnostic; nothing else does"""
    A = acquisitions(T)
    if T.kind == "dead":
        bad = [e for p, e in A if failed(T, e) is True]
        ok = bool(bad)
        R.check(pre + ".dies-only-on-failure", ok, entry, T.where_end(), "the program is terminated although nothing failed", None if ok else T.path())
        last = T.ev[-1]
        ends = [e for e in T.ev if e.k == "call" and e.d["name"] in ENDS]
        ok = last.k == "end" and bool(ends)
        if ok and ends[-1].d["name"] in ("exit", "_exit", "_Exit", "quick_exit"):
            a = ends[-1].d["args"]
            ok = len(a) == 1 and isinstance(a[0], Lin) and nonzero(T, a[0])
        R.check(pre + ".failure-status", ok, entry, T.where_end(), "a failure ends the program as if it were a success", None if ok else T.path())
        pf = max([p for p, e in A if failed(T, e) is True], default=0)
        said = any(e.k == "call" and e.d["name"] in DIAG for e in T.ev[pf:])
        R.check(pre + ".diagnostic", said, entry, T.where_end(), "a failure is not reported", None if said else T.path())
        return
    for p, e in A:
        if e.d["name"] == "pthread_create":
            ok = failed(T, e) is False
            # the last event may be the creation itself when the path is cut there
            R.check(pre + ".create-checked", ok, entry, T.where(e), "a thread that could not be created is ignored", None if ok else T.path(e))
            continue
        use = None
        for q in range(p + 1, len(T.ev)):
            x = T.ev[q]
            if x.k in ("load", "store", "rmw", "cas") and x.d.get("region") is not None and isinstance(e.d["ret"], Lin) and \
                    sym(x.d["region"]) == e.d["ret"]:
                use = x
                break
            if x.k == "memset":
                b, _ = T.I.split(T.s, x.d["dst"])
                if b is not None and sym(b) == e.d["ret"]:
                    use = x
                    break
            if is_call(x, "pthread_create"):
                use = x
                break
        if use is None and T.kind != "ret":
            continue
        ok = failed(T, e) is False if use is None or use.facts is None else failed(T, e, use.facts) is False
        R.check(pre + ".memory-checked", ok, entry, T.where(e), "missing memory is ignored", None if ok else T.path(use) if use else T.path())


# ------------------------------------------------------------------------------------- lace_start
def run_state(env):
    """mutable module variables that code other than lace_start and the setters changes"""
    out = set()
    startc = set(env.closure("lace_start"))
    entry = [f.name for f in env.mod.functions.values() if f.defined]
    setters = {f for f in entry if f.startswith("lace_set_")}
    # functions only lace_start uses
    for f in entry:
        if f in setters:
            continue
        for i in env.instrs(f):
            if i.op in ("store", "rmw", "cmpxchg"):
                a = i.ops[1] if i.op == "store" else i.ops[0]
                from .ext import glob_of
                g = glob_of(a)
                if g is None or g not in env.mod.globals or env.mod.globals[g].const:
                    continue
                if f in startc and not reachable_otherwise(env, f):
                    continue
                out.add(g)
    return out


def reachable_otherwise(env, f):
    """is f used by something else than lace_start itself (as another API function, or by other functions)"""
    fn = env.mod.functions[f]
    startc = set(env.closure("lace_start"))
    for g in env.mod.functions.values():
        if g.defined and g.name not in startc:
            if f in env.closure(g.name):
                return True
    return False


def config_setters(env):
    out = set()
    from .ext import glob_of
    for f in env.mod.functions.values():
        if f.defined and f.name.startswith("lace_set_"):
            for i in env.instrs(f.name):
                if i.op == "store":
                    g = glob_of(i.ops[1])
                    if g:
                        out.add(g)
    return out


def start(R, env):
    if hasattr(env, "st_info"):
        return env.st_info
    info = env.st_info = {}
    env.find_start_globals()
    if not hasattr(env, "susp"):
        suspend(Report_(), env)
    M, I = env.interp("lace_start", ["lace_resume"])
    M.light = True
    st = State()
    n, q = fresh("n", 0, 65535), fresh("q", 0, (1 << 31) - 1)
    entry = "%s lace_start" % env.tag
    res = I.analyse("lace_start", [n, q], st)
    R.entry(entry, I, len(res))
    TS = [Trace(I, M, s, rv, k) for s, rv, k in res]
    rets = [T for T in TS if T.kind == "ret"]
    cuts = [T for T in TS if T.kind == "cut"]
    if not rets:
        raise AnalysisError("lace_start never returns")
    nwr = I.global_addr(env.nw).t[0][0]
    info.update(I=I, M=M, n=n, q=q, TS=TS, threads=[])
    stackvar = env.global_of("lace_get_stacksize")
    created = lambda e: is_call(e, "pthread_create")
    fnames = set()
    for T in TS:
        failure_rules(R, T, entry)
    # ---- number of workers
    for T in rets:
        if not possible(R, env, T):
            continue
        cnt = count_events(T, cuts, created)
        nw = value_at(T, T.s, nwr, 0, 4)
        ok = cnt is not None and isinstance(nw, Lin) and T.f.implies_eq(T.n(cnt - nw))
        R.check("start.count", ok, entry, T.where_end(), "the number of threads created is not the announced number of workers", None if ok else T.path())
        if isinstance(nw, Lin):
            if T.f.implies_eq(T.n(n)):
                ok = not T.n(nw).is_const() and T.n(n) == ZERO or any(s for s in T.n(nw).syms())
            else:
                ok = T.f.implies_eq(T.n(nw - n))
            R.check("start.requested", ok, entry, T.where_end(), "lace_workers() is not the requested number", None if ok else T.path())
        resumes = [p for p, e in enumerate(T.ev) if is_call(e, "lace_resume")]
        tr = transitions(T, changes(T, env)[-2:]) if not resumes else 1
        ok = len(resumes) == 1 or not resumes and tr == 1
        R.check("start.resumed", ok, entry, T.where_end(), "Lace is not resumed exactly once by lace_start", None if ok else T.path())
        # attribute objects are released
        ai = sum(1 for e in T.ev if is_call(e, "pthread_attr_init"))
        ad = sum(1 for e in T.ev if is_call(e, "pthread_attr_destroy"))
        R.check("release.attr", ai == ad, entry, T.where_end(), "thread attributes are not released", None if ai == ad else T.path())
    # ---- every creation
    for T in cuts + rets:
        for p, e in enumerate(T.ev):
            if not created(e):
                continue
            a = e.d["args"]
            marks = [x for x in T.ev[:p] if x.k == "loop"]
            back = T.ev[-1].d["mark"] if T.ev[-1].k == "back" else None
            inloop = back is not None and T.ev.index(back) < p
            nw = value_at(T, e.d["st"], nwr, 0, 4)
            ok = False
            if inloop and isinstance(a[3], Lin) and isinstance(nw, Lin):
                k = sym(back.d["k"])
                ok = T.f.implies_eq(T.n(a[3] - k)) or T.f.implies_eq(T.n(a[3] + k + 1 - nw))
            elif isinstance(a[3], Lin):
                ok = not inloop and T.n(a[3]).is_const()
            R.check("start.ids", ok, entry, T.where(e), "the workers' numbers are not 0..n-1", None if ok else T.path(e))
            fnm = I.func_of(T.n(a[2])) if isinstance(a[2], Lin) else None
            R.check("start.thread", fnm is not None and env.mod.functions[fnm].defined, entry, T.where(e), "no worker thread is started", None)
            if fnm:
                fnames.add(fnm)
            # attributes
            ao = None
            if isinstance(a[1], Lin) and T.n(a[1]) != ZERO:
                b, o = I.split(e.d["st"], a[1])
                ao = (b, T.n(o)) if b is not None else None
            mine = [x for x in T.ev[:p] if x.k == "call" and x.d["name"].startswith("pthread_attr_") and sem_of(T, x) == ao] if ao else []
            inited = [x for x in mine if x.d["name"] == "pthread_attr_init"]
            if ao is not None:
                R.check("start.attr", len(inited) >= 1, entry, T.where(e), "thread attributes are used without being initialised",
                        None if inited else T.path(e))
            det = [x for x in mine if x.d["name"] == "pthread_attr_setdetachstate"]
            detached = bool(det) and isinstance(det[-1].d["args"][1], Lin) and T.n(det[-1].d["args"][1]) == const(1)
            after = any(is_call(x, "pthread_detach") for x in T.ev[p:])
            info.setdefault("detached", []).append((detached or after, T, e))
            ss = [x for x in mine if x.d["name"] == "pthread_attr_setstacksize"]
            want = None
            for x in T.ev[:p]:
                if x.k == "load" and T.role(x) == "G:" + stackvar:
                    want = x.d["val"]
            if want is None or not zero(T, want):
                ok = bool(ss) and want is not None and T.f.implies_eq(T.n(ss[-1].d["args"][1] - want))
                R.check("start.stack", ok, entry, T.where(e), "the requested program stack size is not used", None if ok else T.path(e))
            else:
                R.count("start.stack")
            info["threads"].append((T, e))
    if not info["threads"]:
        R.check("start.thread", False, entry, "src/lace.c", "lace_start creates no threads")
        return info
    R.check("start.thread", len(fnames) == 1, entry, "src/lace.c", "different thread functions: %s" % sorted(fnames))
    info["fn"] = sorted(fnames)[0] if fnames else None
    clean_state(R, env, info, entry)
    return info


BALANCED = "variables whose changes are paired within one call (checked elsewhere)"


def clean_state(R, env, info, entry):
    """what earlier runs may have changed has its initial value when the first thread is created"""
    I, M = info["I"], info["M"]
    from .ext import lock_globals
    rs = run_state(env)
    skip = {env.ext} | lock_globals(env, ("lace_run_task", "lace_run_task_exclusive")) | config_setters(env)
    skip |= {g for g in rs if env.mod.globals[g].tls}
    stopv = stop_values(env)
    firsts = []
    for T, e in info["threads"]:
        if T.kind == "cut":
            firsts.append((T, e))
    written = {}
    for g in sorted(rs - skip):
        if write_only_temporary(env, g):
            continue
        cells = places(env, g)
        for off, size in cells:
            want = I.mod and init_const(env, g, off, size)
            bad = None
            kind = None
            for T, e in firsts:
                st = e.d["st"]
                reg = I.global_addr(g).t[0][0]
                v = value_at(T, st, reg, off, size)
                v = T.n(v) if isinstance(v, Lin) else None
                assigned = any(x.k in ("store", "rmw", "cas") and x.d.get("region") == reg for x in T.ev[:T.ev.index(e)]) or \
                    any(x.k == "memset" and I.split(st, x.d["dst"])[0] == reg for x in T.ev[:T.ev.index(e)])
                ok = v is not None and v.is_const() and want is not None and v.c == want
                if not ok and isptr(env, g) and assigned and v is not None and fresh_pointer(T, v):
                    ok = True           # new memory
                if not ok and assigned and v is not None and not v.is_const() and from_call(T, v, reg, e):
                    ok = True           # measured anew (clocks)
                if not ok and not assigned and want is not None and stopv.get((g, off)) == want:
                    ok = True           # lace_stop left it as it was initially
                if not ok:
                    bad = (T, e, v)
                    break
            nm = g if off == 0 else "%s+%d" % (g, off)
            R.check("clean.state", bad is None, entry, I.where(bad[1].ins) if bad else entry,
                    "%s may still have the value an earlier run left behind (or does not start from its initial value) "
                    "when workers are created" % nm, bad[0].path(bad[1]) if bad else None)
    # nobody is found in the list of workers before he has put himself there
    for T, e in firsts:
        st = e.d["st"]
        w = value_at(T, st, I.global_addr(env.warr).t[0][0], 0, 8)
        b, o = I.split(st, w) if isinstance(w, Lin) else (None, None)
        nw = value_at(T, st, I.global_addr(env.nw).t[0][0], 0, 4)
        ok = b is not None and isinstance(nw, Lin) and all_zero(T, st, b, T.n(o), T.n(nw * 8), T.ev[:T.ev.index(e)])
        R.check("clean.victims", ok, entry, T.where(e), "the list of workers may name some that are not there when workers are created",
                None if ok else T.path(e))
    # library objects shared by all
    for T, e in firsts:
        done = [x for x in T.ev[:T.ev.index(e)] if is_call(x, "sem_init")]
        b = [x for x in done if sem_of(T, x) and I.role(sem_of(T, x)[0]) == "G:" + env.sem]
        ok = len(b) == 1 and zero(T, b[0].d["args"][2])
        R.check("clean.semaphore", ok, entry, T.where(e), "the semaphore workers wait on is not set up, without a wake-up in it, before they are created",
                None if ok else T.path(e))
    # nothing is set up after workers may already be using it
    for T in info["TS"]:
        if T.kind != "ret":
            continue
        loops = [p for p, x in enumerate(T.ev) if x.k == "loop" and any(C.ev[-1].k == "back" and C.ev[-1].d["mark"] is x and C is T2
                                                                        for T2, _ in info["threads"] for C in (T2,))]
        if not loops:
            continue
        late = []
        for p in range(loops[0], len(T.ev)):
            x = T.ev[p]
            if x.k in ("store", "rmw", "cas") and x.d.get("region") is not None:
                r = T.role(x)
                if r.startswith("G:") and r[2:] in rs and r[2:] != env.awaken:
                    late.append(x)
            elif x.k == "call" and x.d["name"] in ("sem_init", "lace_barrier_init"):
                late.append(x)
        R.check("clean.order", not late, entry, T.where(late[0]) if late else entry, "something workers use is set up after they were created",
                T.path() if late else None)


def all_zero(T, st, region, off, ln, ev):
    """are the ln bytes at this place of the region known to be 0?"""
    if any(e.k == "call" and e.d["name"] == "calloc" and isinstance(e.d["ret"], Lin) and T.n(e.d["ret"]) == sym(region) for e in ev):
        return all(not (e.k in ("store", "rmw", "cas") and e.d.get("region") == region) for e in ev)
    cells = st.mem.get(region, ())
    for c in cells:
        if c.size is not None:
            if not (isinstance(c.val, Lin) and zero(T, c.val)) and \
                    not T.f.implies_ge(T.n(off - c.off - c.size)) and not T.f.implies_ge(T.n(c.off - off - ln)):
                return False
    for c in cells:
        if c.size is None:
            o, n, v = c.val
            if (v == 0 or isinstance(v, Lin) and zero(T, v)) and T.f.implies_ge(T.n(off - o)) and T.f.implies_ge(T.n(o + n - off - ln)):
                return True
    return False


def isptr(env, g):
    return env.mod.layout.resolve(env.mod.globals[g].ty).k == "ptr"


def fresh_pointer(T, v):
    """the result of an allocation made on this path"""
    return any(e.k == "call" and e.d["name"] in ALLOC and isinstance(e.d["ret"], Lin) and T.n(e.d["ret"]) == v for e in T.ev)


def from_call(T, v, reg, upto):
    """does not depend on the variable's own old value"""
    for s in v.syms():
        pv = syminfo(s).kw.get("prov")
        if pv is not None and pv[0] == reg:
            return False
    return True


def places(env, g):
    """parts of a variable that are accessed as scalars"""
    t = env.mod.layout.resolve(env.mod.globals[g].ty)
    out = []

    def walk(t, off):
        t = env.mod.layout.resolve(t)
        if t.k == "int":
            out.append((off, max(1, t.n // 8)))
        elif t.k == "ptr":
            out.append((off, 8))
        elif t.k == "struct":
            for i, x in enumerate(t.el):
                walk(x, off + env.mod.layout.field(t, i)[0])
        elif t.k == "array":
            pass
    walk(t, 0)
    return out


def init_const(env, g, off, size):
    v = env.mod.globals[g]
    if v.init is None:
        return None
    k = v.init[0]
    if k in ("zero", "null", "undef"):
        return 0
    if k == "int" and off == 0:
        return v.init[1]
    return 0 if k == "struct" else None


def write_only_temporary(env, g):
    """variables every user first assigns (scratch of the reports), or that nothing but counters' reports read"""
    return g.startswith(".") or g in report_scratch(env)


def report_scratch(env):
    """variables only used by the counter reports"""
    if not hasattr(env, "_rs"):
        from .ext import glob_of
        users = {}
        for f in env.mod.functions.values():
            if not f.defined:
                continue
            for i in env.instrs(f.name):
                for o in operands(i):
                    g = glob_of(o)
                    if g:
                        users.setdefault(g, set()).add(f.name)
        rep = set()
        for nm in ("lace_count_report_file", "lace_count_reset"):
            if nm in env.mod.functions and env.mod.functions[nm].defined:
                rep |= set(env.closure(nm))
        env._rs = {g for g, u in users.items() if u <= rep}
    return env._rs


def operands(i):
    out = []
    for o in i.ops:
        if isinstance(o, tuple):
            if len(o) == 2 and isinstance(o[1], tuple) and not isinstance(o[0], str):
                out.append(o[1])
            else:
                out.append(o)
    return out


def stop_values(env):
    """constants lace_stop leaves in variables, on every path"""
    if hasattr(env, "_sv"):
        return env._sv
    env._sv = {}
    try:
        M, I, st = env.outside("lace_stop", extra=("lace_resume", "lace_count_report_file"))
        res = I.analyse("lace_stop", [], st)
    except AnalysisError:
        return env._sv
    first = True
    for s, rv, k in res:
        if k != "ret":
            continue
        T = Trace(I, M, s, rv, k)
        vals = {}
        for e in T.ev:
            if e.k == "store" and T.role(e).startswith("G:"):
                vals[(T.role(e)[2:], T.n(e.d["off"]).c)] = T.n(e.d["val"]).c if isinstance(e.d["val"], Lin) and T.n(e.d["val"]).is_const() else None
        if first:
            env._sv = vals
            first = False
        else:
            env._sv = {x: y for x, y in env._sv.items() if vals.get(x, "no") == y}
    return env._sv


# ------------------------------------------------------------------------------------- worker thread
def thread(R, env):
    info = start(Report_(), env)
    if not info.get("fn"):
        R.check("thread.loop", False, env.tag, "src/lace.c", "no worker thread is started")
        return
    I, M, fn = info["I"], info["M"], info["fn"]
    lay = env.lay
    n, q = info["n"], info["q"]
    L = lay
    seen = set()
    run = env.susp.get("running")
    tlsr = I.global_addr(env.tls).t[0][0]
    mainloops = {}

    def separate(I_, st, name, args):
        if len(args) < 2 or not isinstance(args[0], Lin):
            return False
        me = M.getcell(st, tlsr, 0, 8)
        if not isinstance(me, Lin) or st.norm(args[0] - me) != ZERO:
            return False
        if name not in mainloops:
            mainloops[name] = any(i.op == "cmpxchg" for f in env.closure(name) for i in env.instrs(f))
        if mainloops[name]:
            I.modular.add(name)
        return mainloops[name]
    M.separate = separate
    M.light = True
    # pinning (only with hwloc) does not touch the worker's state beyond binding its memory
    if any(f.startswith("hwloc_") for f in env.mod.functions):
        M.boundaries = list(M.boundaries) + ["lace_pin_worker", "lace_check_memory"]
    total = 0
    for T0, e0 in info["threads"]:
        if T0.kind != "cut":
            continue
        st0 = e0.d["st"]
        sig = []
        st = State()
        st.facts = e0.facts.copy()
        nw = value_at(T0, e0.d["st"], I.global_addr(env.nw).t[0][0], 0, 4)
        if isinstance(nw, Lin):
            st.facts.add_ge(const(M.max_workers) - nw)
        for r, cells in st0.mem.items():
            role = I.role(r) or ""
            if role.startswith("G:") and not (role[2:] in env.mod.globals and env.mod.globals[role[2:]].tls):
                st.mem[r] = list(cells)
                if role[2:] not in ("verbosity",):
                    sig += [(role, repr(st.norm(c.off)), c.size, repr(st.norm(c.val)) if isinstance(c.val, Lin) else "?") for c in cells if c.size]
        case = ("q0" if T0.f.implies_eq(T0.n(q)) else "q1" if T0.f.implies_ge(T0.n(q) - 1) else "q?",
                "n0" if T0.f.implies_eq(T0.n(n)) else "n1")
        if case in seen:
            continue
        seen.add(case)
        idv = e0.d["args"][3]
        entry = "%s %s (%s)" % (env.tag, fn, "default deque size" if case[0] == "q0" else "given deque size")
        res = I.analyse(fn, [idv], st)
        R.entry("%s %s" % (env.tag, fn), I, len(res))
        total += len(res)
        rets = 0
        TS = [Trace(I, M, s, rv, k) for s, rv, k in res]
        # the loop in which work is stolen, when it is part of the thread function itself
        works = {}
        for C in TS:
            if C.kind == "cut" and C.ev[-1].k == "back":
                m = C.ev[-1].d["mark"]
                p = C.ev.index(m)
                if any(e.k == "cas" and C.role(e) == "V" or e.k == "exec" for e in C.ev[p:]):
                    works.setdefault(id(m), (m, []))[1].append(C)
        for T in TS:
            failure_rules(R, T, entry, "thread")
            if T.kind == "ret":
                rets += 1
            thread_rules(R, T, env, entry, info, idv, run, (mainloops, works), case, q, T0)
        R.check("thread.loop", rets > 0, entry, "src/lace.c", "a worker thread never ends")
    del M.separate


def documented_default():
    """the default queue size according to the documentation"""
    import os
    import re
    from .build import REPO
    try:
        with open(os.path.join(REPO, "README.md")) as f:
            m = re.search(r"`dqsize` is set to 0[^.]*?(\d{3,})\s+tasks", f.read())
    except OSError:
        return None
    return int(m.group(1)) if m else None


def thread_rules(R, T, env, entry, info, idv, run, mainloops, case, q, T0):
    I, M, L = T.I, T.M, env.lay
    ml = [p for p, e in enumerate(T.ev) if e.k == "call" and mainloops[0].get(e.d["name"]) or e.k == "loop" and id(e) in mainloops[1]]
    waits = [p for p, e in enumerate(T.ev) if is_call(e, "sem_wait") and sem_of(T, e) is not None and
             I.role(sem_of(T, e)[0]) == "G:" + env.sem and zero(T, e.d["ret"])]
    at = lambda e: run is not None and e.d.get("region") is not None and T.role(e) == run[0] and T.n(e.d["off"]) == run[1]
    rm = [(p, T.n(e.d["new"] - e.d["old"])) for p, e in enumerate(T.ev) if e.k == "rmw" and at(e)]
    rm = [(p, d.c if d.is_const() else None) for p, d in rm]
    other = [e for e in T.ev if e.k in ("store", "cas") and at(e)]
    if T.kind == "dead":
        return
    if T.kind == "cut":
        R.check("thread.suspended-first", not (ml and not waits), entry, T.where_end(), "a worker starts before it is resumed", None)
        return
    ok = len(ml) == 1
    R.check("thread.loop", ok, entry, T.where_end(), "a worker thread does not look for work exactly once until it is told to quit", None if ok else T.path())
    if not ok:
        return
    pl = ml[0]
    x = T.ev[pl]
    ok = len(waits) == 1 and waits[0] < pl
    R.check("thread.suspended-first", ok, entry, T.where(x), "a worker acts before it is resumed for the first time", None if ok else T.path())
    ups = [p for p, d in rm if d == 1]
    downs = [p for p, d in rm if d == -1]
    ok = len(ups) == 1 and len(downs) == 1 and len(rm) == 2 and not other and (not waits or waits[0] < ups[0]) and ups[0] < pl < downs[0]
    R.check("thread.count", ok, entry, T.where_end(), "a worker is not counted as running exactly while it is", None if ok else T.path())
    if downs:
        late = [e for e in T.ev[downs[-1] + 1:] if e.k in ("load", "store", "rmw", "cas") and
                not (T.role(e) or "").startswith("L:") or e.k in ("exec", "call") and e.d.get("name") not in ("pthread_exit",)]
        R.check("thread.last", not late, entry, T.where(late[0]) if late else entry,
                "a worker uses Lace's memory after it was counted out: lace_stop may have released it", T.path() if late else None)
    # ---- the worker's data as the main loop finds it
    st = x.d["st"] if x.k == "call" else x.d["st0"]
    val = lambda reg, off, size: value_at(T, st, reg, off, size)
    tlsr = I.global_addr(env.tls).t[0][0]
    P = val(tlsr, 0, 8)
    acts = [x.d["args"]] if x.k == "call" else [e.d["args"] for C in mainloops[1][id(x)][1] for e in C.ev[C.ev.index(x):] if e.k == "exec"]
    for a in acts:
        ok = isinstance(a[0], Lin) and isinstance(P, Lin) and T.n(a[0]) == T.n(P)
        R.check("thread.identity", ok, entry, T.where(x), "the thread works as another worker than it knows itself to be", None if ok else T.path(x))
    pb, po = I.split(st, P) if isinstance(P, Lin) else (None, None)
    if pb is None:
        R.check("thread.identity", False, entry, T.where(x), "the thread does not know which worker it is", T.path(x))
        return
    fld = lambda nm, size=8: val(pb, po + L["o_WorkerP_" + nm], size)
    idc = fld("worker", 2)
    ok = isinstance(idc, Lin) and T.f.implies_eq(T.n(idc - idv))
    R.check("thread.identity", ok, entry, T.where(x), "the worker's number is not the one it was created with", None if ok else T.path(x))
    W = fld("_public")
    wb, wo = I.split(st, W) if isinstance(W, Lin) else (None, None)
    R.check("thread.identity", wb is not None, entry, T.where(x), "the worker has no public data", None if wb is not None else T.path(x))
    if wb is None:
        return
    # registered under its number
    warr = val(I.global_addr(env.warr).t[0][0], 0, 8)
    ab, ao = I.split(st, warr) if isinstance(warr, Lin) else (None, None)
    reg = val(ab, ao + idv * 8, 8) if ab is not None else None
    ok = reg is not None and T.eq(reg, W)
    R.check("thread.registered", ok, entry, T.where(x), "other workers cannot find this worker under its number", None if ok else T.path(x))
    D = fld("dq")
    db, do = I.split(st, D) if isinstance(D, Lin) else (None, None)
    R.check("thread.queue", db is not None, entry, T.where(x), "the worker has no queue", None if db is not None else T.path(x))
    if db is None:
        return
    S = M.S
    end = fld("end")
    size = T.n(end - D) if isinstance(end, Lin) else None
    if case[0] == "q1":
        ok = size is not None and T.f.implies_eq(T.n(size - q * S))
        R.check("thread.queue-size", ok, entry, T.where(x), "the queue does not have the requested number of slots", None if ok else T.path(x))
    else:
        ok = size is not None and (size.is_const() and size.c > 0 and size.c % S == 0 or not size.is_const() and size.divisible(S))
        if ok and not size.is_const():
            ok = all((syminfo(s).kw.get("prov") or (None,))[0] is not None and
                     (I.role(syminfo(s).kw["prov"][0]) or "")[2:] in config_setters(env) for s in size.syms())
        R.check("thread.queue-size", ok, entry, T.where(x), "the default queue size depends on what was used before", None if ok else T.path(x))
        d = documented_default()
        if d is not None and size is not None and size.is_const():
            R.check("thread.queue-size", size.c == d * S, entry, T.where(x), "the default queue size is not the documented %d tasks" % d, None)
    for nm, v, want in (("split", fld("split"), D),):
        ok = isinstance(v, Lin) and T.eq(v, want)
        R.check("thread.clean", ok, entry, T.where(x), "the worker's private split point does not start at the bottom", None if ok else T.path(x))
    z = [("the worker's private all-stolen flag", fld("allstolen", 1)), ("the worker's public all-stolen flag", val(wb, wo + M.AS, 1)),
         ("the request for work", val(wb, wo + M.MS, 1)), ("the tail", val(wb, wo + M.TAIL, 4)), ("the public split point", val(wb, wo + M.SPLIT, 4))]
    ts = val(wb, wo + M.TS, 8)
    tsz = isinstance(ts, Lin) and zero(T, ts)
    for nm, v in z:
        ok = isinstance(v, Lin) and zero(T, v) or tsz and nm in ("the tail", "the public split point")
        R.check("thread.clean", ok, entry, T.where(x), "%s does not start from 0" % nm, None if ok else T.path(x))
    v = val(wb, wo + L["o_Worker_dq"], 8)
    ok = isinstance(v, Lin) and T.eq(v, D)
    R.check("thread.registered", ok, entry, T.where(x), "thieves look for this worker's tasks elsewhere", None if ok else T.path(x))
    if "o_WorkerP_ctr" in L:
        for j in range(L["n_ctr"]):
            v = val(pb, po + L["o_WorkerP_ctr"] + 8 * j, 8)
            ok = isinstance(v, Lin) and zero(T, v)
            R.check("thread.clean", ok, entry, T.where(x), "counter %d does not start from 0" % j, None if ok else T.path(x))
    # ---- memory
    al = [(p, e) for p, e in enumerate(T.ev[:pl]) if e.k == "call" and e.d["name"] in ALLOC]
    lens = {}
    for p, e in al:
        if isinstance(e.d["ret"], Lin) and len(e.d["ret"].t) == 1:
            nm = e.d["name"]
            ln = e.d["args"][ALLOC[nm]] if ALLOC[nm] is not None else None
            if nm == "calloc" and T.n(e.d["args"][0]).is_const():
                ln = e.d["args"][1] * T.n(e.d["args"][0]).c
            lens[e.d["ret"].t[0][0]] = (ln, e, p)

    def inside(b, o, size, what):
        ln = lens.get(b, (None,))[0]
        ok = ln is not None and T.f.implies_ge(T.n(o)) and T.f.implies_ge(T.n(ln - o - size))
        R.check("thread.memory", ok, entry, T.where(x), "%s does not lie within memory allocated for it" % what, None if ok else T.path(x))
    inside(pb, po, const(L["z_WorkerP"]), "the worker's private data")
    inside(wb, wo, const(L["z_Worker"]), "the worker's public data")
    if size is not None:
        inside(db, do, size, "the queue")
    parts = [(pb, po, const(L["z_WorkerP"]), "private data"), (wb, wo, const(L["z_Worker"]), "public data")] + \
        ([(db, do, size, "queue")] if size is not None else [])
    for i in range(len(parts)):
        for j in range(i):
            b1, o1, s1, n1 = parts[i]
            b2, o2, s2, n2 = parts[j]
            if b1 != b2:
                continue
            ok = T.f.implies_ge(T.n(o1 - o2 - s2)) or T.f.implies_ge(T.n(o2 - o1 - s1))
            R.check("thread.memory", ok, entry, T.where(x), "the worker's %s and %s overlap" % (n1, n2), None if ok else T.path(x))
    # all slots are free
    if db in lens:
        ln, e, p = lens[db]
        okz = e.d["name"] == "calloc"
        if e.d["name"] == "mmap":
            fl = T.n(e.d["args"][3]) if isinstance(e.d["args"][3], Lin) else None
            okz = fl is not None and fl.is_const() and fl.c & 0x20 != 0     # MAP_ANONYMOUS memory is zero
        for y in T.ev[p:pl]:
            if y.k == "memset" and isinstance(y.d["val"], Lin) and T.n(y.d["val"]) == ZERO:
                b, o = I.split(st, y.d["dst"])
                if b == db and size is not None and T.f.implies_ge(T.n(do - o)) and T.f.implies_ge(T.n(o + y.d["len"] - do - size)):
                    okz = True
        R.check("thread.clean", okz, entry, T.where(e), "the slots of the queue are not all free at the start", None if okz else T.path(e))
    # nothing is there to be stolen when the others can find it
    if ab is not None and wb in lens:
        ln, ea, pa = lens[wb]
        fl = T.n(ea.d["args"][3]) if ea.d["name"] == "mmap" and isinstance(ea.d["args"][3], Lin) else None
        pub = [p for p in range(pa, pl) if T.ev[p].k == "store" and T.ev[p].d.get("region") == ab and
               T.f.implies_eq(T.n(T.ev[p].d["off"] - ao - idv * 8))]
        for nm, o, sz in (("tail and split point", M.TS, 8), ("all-stolen flag", M.AS, 1)):
            if nm[0] == "a" and not pub:
                continue
            clean = ea.d["name"] == "calloc" or fl is not None and fl.is_const() and fl.c & 0x20 != 0
            for y in T.ev[pa:pub[0]] if pub else ():
                if y.k == "memset":
                    b, bo = I.split(st, y.d["dst"])
                    if b == wb:
                        over = T.f.implies_ge(T.n(wo + o - bo)) and T.f.implies_ge(T.n(bo + y.d["len"] - wo - o - sz))
                        if over:
                            clean = isinstance(y.d["val"], Lin) and T.n(y.d["val"]) == ZERO
                elif y.k == "store" and y.d.get("region") == wb:
                    d = T.n(y.d["off"] - wo - o)
                    if d == ZERO and y.d["size"] == sz:
                        clean = isinstance(y.d["val"], Lin) and zero(T, y.d["val"])
                    elif d.is_const() and -y.d["size"] < d.c < sz:
                        clean = clean and isinstance(y.d["val"], Lin) and zero(T, y.d["val"])
            if pub:
                R.check("thread.unborn", clean, entry, T.where(T.ev[pub[0]]),
                        "a worker is put in the list before its %s is 0" % nm, None if clean else T.path(T.ev[pub[0]]))
    # what was acquired
    own = env.__dict__.setdefault("thread_owned", {})
    for b, (ln, e, p) in lens.items():
        kept = set()
        for y in T.ev[p:pl]:
            if y.k == "store" and isinstance(y.d["val"], Lin) and T.n(y.d["val"]) == sym(b) and y.d.get("region") is not None:
                for g in env.mod.globals:
                    if env.mod.globals[g].tls or not isptr(env, g):
                        continue
                    gv = M.getcell(st, I.global_addr(g).t[0][0], 0, 8)
                    if isinstance(gv, Lin) and I.split(st, gv)[0] == y.d["region"] and T.f.implies_eq(T.n(y.d["off"] - idv * 8)):
                        kept.add(g)
        lenvar = None
        for g in env.mod.globals:
            t = env.mod.layout.resolve(env.mod.globals[g].ty)
            if t.k == "int" and t.n == 64 and not env.mod.globals[g].tls:
                gv = M.getcell(st, I.global_addr(g).t[0][0], 0, 8)
                if isinstance(gv, Lin) and isinstance(ln, Lin) and T.f.implies_eq(T.n(gv - ln)):
                    lenvar = g
        own[(e.d["name"], tuple(sorted(kept)))] = lenvar
        R.check("release.kept", bool(kept), entry, T.where(e), "the worker's memory is not remembered for lace_stop", None if kept else T.path(e))
    # the flag that ends the main loop
    if x.k == "call":
        for v in x.d["args"][2:]:
            if isinstance(v, Lin):
                b, o = I.split(st, v)
                if b is not None and (I.role(b) or "").startswith("G:"):
                    env.quitflag = (I.role(b), T.n(o))
    else:
        for y in T.ev[pl:]:
            if y.k == "load" and T.role(y).startswith("G:") and T.role(y)[2:] not in (env.nw, env.warr, env.tls) and nonzero(T, y.d["val"]):
                l = (T.role(y), T.n(y.d["off"]))
                stay = all(any(z.k == "load" and C.role(z) == l[0] and C.n(z.d["off"]) == l[1] and zero(C, z.d["val"]) for z in C.ev[C.ev.index(x):])
                           for C in mainloops[1][id(x)][1])
                if stay:
                    env.quitflag = l
    R.check("thread.quits", hasattr(env, "quitflag"), entry, T.where(x), "the worker does not look at a flag that ends it before it looks for work",
            T.path() if not hasattr(env, "quitflag") else None)


# ------------------------------------------------------------------------------------- lace_stop
def stop(R, env):
    info = start(Report_(), env)
    if not hasattr(env, "quitflag"):
        thread(Report_(), env)
    I0 = info["I"]
    M, I, st = env.outside("lace_stop", extra=("lace_resume", "lace_count_report_file"))
    n = sym(st.g["n"])
    entry = "%s lace_stop" % env.tag
    res = I.analyse("lace_stop", [], st)
    R.entry(entry, I, len(res))
    TS = [Trace(I, M, s, rv, k) for s, rv, k in res]
    cuts = [T for T in TS if T.kind == "cut"]
    rets = [T for T in TS if T.kind == "ret"]
    run, Q = env.susp.get("running"), getattr(env, "quitflag", None)
    if not rets or run is None:
        raise AnalysisError("lace_stop: nothing to check")
    R.check("quit.flag", Q is not None, entry, "src/lace.c", "workers do not look at a flag that ends them")
    if Q is None:
        return
    at = lambda T, e, l: e.d.get("region") is not None and T.role(e) == l[0] and T.n(e.d["off"]) == l[1]
    # what was acquired by lace_start
    acq = []
    T0 = next((T for T in info["TS"] if T.kind == "ret"), None)
    for p, e in enumerate(T0.ev):
        if e.k != "call":
            continue
        nm = e.d["name"]
        if nm in ALLOC and isinstance(e.d["ret"], Lin):
            kept = [T0.role(y)[2:] for y in T0.ev[p:] if y.k == "store" and isinstance(y.d["val"], Lin) and T0.n(y.d["val"]) == T0.n(e.d["ret"]) and
                    T0.role(y).startswith("G:")]
            freed = any(is_call(y, "free") and T0.eq(y.d["args"][0], e.d["ret"]) for y in T0.ev[p:])
            if not freed:
                R.check("release.kept", bool(kept), entry, T0.where(e), "memory acquired by lace_start is not remembered", None if kept else T0.path(e))
                if kept:
                    acq.append((nm, kept[0]))
        elif nm in ("sem_init", "hwloc_topology_init", "pthread_key_create", "pthread_mutex_init", "pthread_cond_init", "pthread_barrier_init"):
            s = sem_of(T0, e)
            if s is not None and (I0.role(s[0]) or "").startswith("G:"):
                acq.append((nm, I0.role(s[0])[2:]))
    for T in rets:
        if not possible(R, env, T):
            continue
        ev = T.ev
        qs = [p for p, e in enumerate(ev) if e.k in ("store", "rmw") and at(T, e, Q)]
        ok = len(qs) >= 1 and nonzero(T, ev[qs[0]].d["val"] if ev[qs[0]].k == "store" else ev[qs[0]].d["new"])
        R.check("quit.flag", ok, entry, T.where_end(), "the workers are not told to quit", None if ok else T.path())
        if not ok:
            continue
        pq = qs[0]
        res_ = [p for p, e in enumerate(ev[:pq]) if is_call(e, "lace_resume")]
        ok = bool(res_) or transitions(T, [c for c in changes(T, env) if c[0] < pq]) == 1
        R.check("quit.awake", ok, entry, T.where(ev[pq]), "suspended workers are not woken before they are told to quit", None if ok else T.path())
        r1 = [e for e in ev[:pq] if e.k == "load" and at(T, e, run) and T.f.implies_eq(T.n(e.d["val"] - n))]
        R.check("quit.all-running", bool(r1), entry, T.where(ev[pq]),
                "workers are told to quit before all have started running (stopping does not wait for the others)", None if r1 else T.path())
        r0 = [p for p, e in enumerate(ev) if p > pq and e.k == "load" and at(T, e, run) and zero(T, e.d["val"])]
        R.check("quit.waits", bool(r0), entry, T.where_end(), "lace_stop does not wait until every worker has left", None if r0 else T.path())
        unset = [p for p in qs[1:] if not r0 or p < r0[0]]
        R.check("quit.flag", not unset, entry, T.where(ev[unset[0]]) if unset else entry, "the request to quit is withdrawn before all have left",
                T.path() if unset else None)
        p0 = r0[0] if r0 else len(ev)
        early = [e for e in ev[:p0] if e.k == "call" and e.d["name"] in FREE | {"sem_destroy", "hwloc_topology_destroy"}]
        R.check("release.after", not early, entry, T.where(early[0]) if early else entry, "something is released while workers may still use it",
                T.path() if early else None)
        # ---- what is given back
        for nm, g in acq:
            if nm in ALLOC:
                f = "munmap" if nm == "mmap" else "free"
                c = count_events(T, cuts, lambda e: is_call(e, f) and freed_global(T, e, g))
                ok = c is not None and c == const(1)
                R.check("release.all", ok, entry, T.where_end(), "%s (from %s) is released %s times" % (g, nm, c), None if ok else T.path())
                if ok:
                    pf = [p for p, e in enumerate(ev) if is_call(e, f) and freed_global(T, e, g)]
                    if pf:
                        ptr = T.n(ev[pf[0]].d["args"][0])
                        late = used_after(T, cuts, pf[0], ptr)
                        R.check("release.use", late is None, entry, T.where(late) if late else entry, "%s is used after it was released" % g,
                                T.path() if late else None)
            else:
                d = {"sem_init": "sem_destroy", "hwloc_topology_init": "hwloc_topology_destroy"}.get(nm, nm.replace("_init", "_destroy").replace("_create", "_delete"))
                c = sum(1 for e in ev if is_call(e, d) and (sem_of(T, e) is not None and I.role(sem_of(T, e)[0]) == "G:" + g or freed_global(T, e, g)))
                R.check("release.all", c == 1, entry, T.where_end(), "%s (from %s) is released %d times" % (g, nm, c), None if c == 1 else T.path())
        # ---- workers' memory
        for (nm, g), lenvar in getattr(env, "thread_owned", {}).items():
            f = "munmap" if nm == "mmap" else "free"
            c = count_events(T, cuts, lambda e: is_call(e, f) and freed_elem(T, e, g))
            ok = c is not None and T.f.implies_eq(T.n(c - n))
            R.check("release.all", ok, entry, T.where_end(), "the workers' memory (%s, from %s) is not released once for every worker" % ("/".join(g), nm),
                    None if ok else T.path())
            other = [e for C in cuts + [T] for e in C.ev if is_call(e, *FREE) and freed_elem(C, e, g) and not is_call(e, f)]
            R.check("release.all", not other, entry, T.where(other[0]) if other else entry, "memory from %s is released with another function" % nm, None)
            for C in cuts:
                if C.ev[-1].k != "back":
                    continue
                m = C.ev.index(C.ev[-1].d["mark"])
                k = sym(C.ev[m].d["k"])
                for e in C.ev[m + 1:]:
                    if is_call(e, f) and freed_elem(C, e, g):
                        off = elem_off(C, e)
                        ok = C.f.implies_eq(C.n(off - k * 8)) or C.f.implies_eq(C.n(off + k * 8 + 8 - n * 8))
                        R.check("release.each", ok, entry, C.where(e), "not every worker's own memory is released", None if ok else C.path(e))
                        if f == "munmap":
                            pv = prov_of(C, e.d["args"][1])
                            okl = pv is not None and lenvar is not None and I.role(pv[0]) == "G:" + lenvar
                            R.check("release.each", okl, entry, C.where(e), "another amount of memory is unmapped than was mapped", None if okl else C.path(e))
        # ---- nothing is released twice
        frees = [T.n(e.d["args"][0]) for e in ev if is_call(e, *FREE)]
        dup = len(frees) != len(set(map(repr, frees)))
        R.check("release.once", not dup, entry, T.where_end(), "something is released twice", T.path() if dup else None)
    # ---- threads
    det = info.get("detached", [])
    joined = all(count_is(count_events(T, cuts, lambda e: is_call(e, "pthread_join")), n, T) for T in rets)
    ok = bool(det) and (all(d for d, _, _ in det) or joined)
    bad = next(((T, e) for d, T, e in det if not d), None)
    R.check("release.threads", ok, entry, bad[0].where(bad[1]) if bad else entry, "threads are neither detached nor joined: their memory is never given back",
            None if ok or not bad else bad[0].path(bad[1]))


def count_is(c, n, T):
    return c is not None and T.f.implies_eq(T.n(c - n))


def freed_global(T, e, g):
    pv = prov_of(T, e.d["args"][0])
    return pv is not None and T.I.role(pv[0]) == "G:" + g and pv[1] == ZERO


def freed_elem(T, e, g):
    pv = prov_of(T, e.d["args"][0])
    if pv is None:
        return False
    p2 = syminfo(pv[0]).kw.get("prov")
    return p2 is not None and (T.I.role(p2[0]) or "")[2:] in g


def elem_off(T, e):
    return prov_of(T, e.d["args"][0])[1]


def used_after(T, cuts, p, ptr):
    if len(ptr.t) != 1:
        return None
    r = ptr.t[0][0]
    for e in T.ev[p + 1:]:
        if e.k in ("load", "store", "rmw", "cas") and e.d.get("region") == r:
            return e
        if e.k == "loop":
            for C in cuts:
                if C.ev[-1].k == "back" and C.ev[-1].d["mark"] is e:
                    for y in C.ev[C.ev.index(e) + 1:]:
                        if y.k in ("load", "store", "rmw", "cas") and y.d.get("region") == r:
                            return y
    return None


# ------------------------------------------------------------------------------------- identities
def identity(R, env):
    g = env.mod.globals[env.tls]
    R.check("self.identity", g.tls, env.tag, "src/lace.c", "which worker a thread is is not kept per thread")
    for who in ("worker", "outside"):
        for fn in ("lace_is_worker", "lace_get_worker"):
            if fn not in env.mod.functions:
                raise AnalysisError("no " + fn)
            if who == "worker":
                M, I, st = env.worker(fn, None)
                P = sym(st.g["P"])
            else:
                M, I, st = env.outside(fn)
                P = ZERO
            res = I.analyse(fn, [], st)
            R.entry("%s %s" % (env.tag, fn), I, len(res))
            for s, rv, k in res:
                T = Trace(I, M, s, rv, k)
                want = P if fn == "lace_get_worker" else const(1 if who == "worker" else 0)
                ok = k == "ret" and isinstance(rv, Lin) and T.f.implies_eq(T.n(rv - want))
                R.check("self.identity", ok, "%s %s (%s)" % (env.tag, fn, who), T.where_end(),
                        "%s gives a wrong answer on a %s thread" % (fn, "worker" if who == "worker" else "non-worker"), None if ok else T.path())
    # only starting a thread makes it a worker
    from .ext import glob_of
    info = start(Report_(), env)
    allowed = set(env.closure(info["fn"])) if info.get("fn") else set()
    for f in env.mod.functions.values():
        if f.defined:
            for i in env.instrs(f.name):
                if i.op in ("store", "rmw", "cmpxchg") and glob_of(i.ops[1] if i.op == "store" else i.ops[0]) == env.tls:
                    R.check("self.identity", f.name in allowed, "%s %s" % (env.tag, f.name), info["I"].where(i),
                            "%s changes which worker a thread is" % f.name)


# ------------------------------------------------------------------------------------- the top of the queue
def gethead(R, env):
    """lace_get_head finds the top of the queue: slots in use lie below it, free ones above, and nothing outside is read"""
    fn = "lace_get_head"
    if fn not in env.mod.functions:
        raise AnalysisError("no " + fn)
    M, I, st = env.worker(fn, None, inline=(fn,))
    g = st.g
    D, h, e, S = g["D"], sym(g["h"]), sym(g["e"]), M.S
    base = M.load
    bad = []

    def load(I_, s, region, off, size, ty, ins):
        if region == D:
            off = s.norm(off)
            ok = s.facts.implies_ge(off) and s.facts.implies_ge(e * S - off - size)
            if not ok and I_.record:
                bad.append((I_.where(ins), off))
            if size == 8 and M.field(s, "DQ", off) == M.THIEF:
                i = (off - M.THIEF).div(S)
                out = []
                s1 = s.copy()
                if s1.facts.add_ge(h - i - 1):
                    out.append((s1, fresh("mark", 1, None, ptr=True, role="V", nonnull=True)))
                s2 = s.copy()
                if s2.facts.add_ge(i - h):
                    out.append((s2, ZERO))
                return out
            return [(s, fresh("slot", 0, None))]
        return base(I_, s, region, off, size, ty, ins)
    M.load = load
    entry = "%s %s" % (env.tag, fn)
    res = I.analyse(fn, [sym(g["P"])], st)
    del M.load
    R.entry(entry, I, len(res))
    TS = [Trace(I, M, s, rv, k) for s, rv, k in res]
    for T in TS:
        for p, x in enumerate(T.ev):
            if x.k == "load" and x.d.get("region") == D:
                R.count("top.bounds")
            if x.k in ("store", "rmw", "cas") and not T.role(x).startswith("L:"):
                R.check("top.readonly", False, entry, T.where(x), "looking for the top of the queue changes something", T.path(x))
        if T.kind == "ret":
            ok = isinstance(T.rv, Lin) and T.f.implies_eq(T.n(T.rv - sym(D) - h * S))
            R.check("top.found", ok, entry, T.where_end(), "the position returned is not the lowest free slot", None if ok else T.path())
    seen = set()
    for w, off in bad:
        if w not in seen:
            seen.add(w)
            R.check("top.bounds", False, entry, w, "a slot outside the queue may be read", ["offset %r from the bottom" % off])
    R.check("top.found", any(T.kind == "ret" for T in TS), entry, "src/lace.c", "no position is ever returned")
