"""Rules on the code every task goes through: SPAWN, SYNC, CALL, DROP, the task wrapper, RUN & co.
per task kind, MAKE_ALL_SHARED, and the steal protocol wherever a trace contains a steal."""
from .poly import Lin, const, sym, fresh, newsym, syminfo, ZERO
from .absint import Interp, State, AnalysisError
from .model import WorkerModel, M32
from .report import Report, path_of

RELEASE = ("release", "acq_rel", "seq_cst")
ACQUIRE = ("acquire", "acq_rel", "seq_cst")


class Env:
    """one analysed module with its layout and model"""

    def __init__(self, mod, lay, tag, boundaries=()):
        self.mod, self.lay, self.tag, self.boundaries = mod, lay, tag, boundaries

    def fresh(self):
        M = WorkerModel(self.lay, self.boundaries)
        return M, Interp(self.mod, M)


class Trace:
    def __init__(self, I, M, s, rv, kind):
        self.I, self.M, self.s, self.rv, self.kind = I, M, s, rv, kind
        self.ev = s.trace()
        self.g = s.g
        self.f = s.facts

    def n(self, l):
        return self.s.norm(l)

    def role(self, e):
        return self.I.role(e.d.get("region")) or ""

    def slot(self, e, role="DQ"):
        """(index, field offset) of an access to a task slot"""
        if self.role(e) != role:
            return None
        return self.slot_of(e.d["off"])

    def slot_of(self, off):
        off = self.n(off)
        S = self.M.S
        fo = off.c % S
        r = off - fo
        if not r.divisible(S):
            return None
        return r.div(S), fo

    def eq(self, a, b):
        return isinstance(a, Lin) and isinstance(b, Lin) and self.f.implies_eq(a - b)

    def path(self, upto=None):
        return path_of(self.I, self.ev, upto)

    def where(self, e):
        return self.I.where(e.ins)

    def where_end(self):
        for e in reversed(self.ev):
            if e.ins is not None and e.k not in ("resumed",):
                w = self.I.where(e.ins)
                if not w.startswith("?"):
                    return w
        return "?"

    def cell(self, region, off, size, st=None):
        s = (st or self.s).copy()
        r = self.I.read_cell(s, region, off, size, None, None) if any(
            True for _ in s.mem.get(region, ())) else None
        if not r or len(r) != 1:
            return None
        v = r[0][1]
        return r[0][0].norm(v) if isinstance(v, Lin) else v


def provenance(v):
    """(region, offset) a value was loaded from, for an unmodified loaded value"""
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        return syminfo(v.t[0][0]).kw.get("prov")
    return None


def func_name(I, v):
    return I.func_of(v) if isinstance(v, Lin) else None


def position(R, T, entry, want, what):
    """the queue position of the body after a macro"""
    ps = [e for e in T.ev if e.k == "position"]
    ok = len(ps) == 1 and T.eq(ps[0].d["val"], want)
    R.check("macro.position", ok, entry, T.where(ps[0]) if ps else T.where_end(),
            "after %s the queue position of the body is not %s" % what, None if ok else T.path())


# ------------------------------------------------------------------------------------- stealing
def steal_rules(R, T, entry, head):
    """claim -> own -> execute -> complete, on every steal of this trace.
    head: position the stolen work must be executed at (None: not checked)"""
    I, M, g = T.I, T.M, T.g
    claims = []                 # dict(V, t, state)
    words = {}                  # V region -> list of (tailsym, splitsym, event)
    ok_thief = True
    n = 0
    pending_noexec = None
    for p, e in enumerate(T.ev):
        role = T.role(e) if "region" in e.d else ""
        if e.k in ("store", "rmw") and role == "V":
            off = T.n(e.d["off"])
            bad = not off.is_const() or not (off.c + e.d["size"] <= M.TS or off.c >= M.TS + 8)
            R.check("steal.cas-only", not bad, entry, T.where(e),
                    "another worker's tail/split is changed without compare-and-swap", T.path(e) if bad else None)
            if off.is_const() and off.c == M.AS:
                R.check("steal.cas-only", False, entry, T.where(e), "another worker's allstolen flag is changed", T.path(e))
            continue
        if e.k == "cas" and role == "V":
            off = T.n(e.d["off"])
            if not (off.is_const() and M.TS <= off.c < M.TS + 8):
                R.check("steal.cas-only", False, entry, T.where(e), "compare-and-swap on other data of a worker", T.path(e))
                continue
            n += 1
            full = off.c == M.TS and e.d["size"] == 8
            R.check("steal.whole-word", full, entry, T.where(e),
                    "tail and split are not claimed by one compare-and-swap", None if full else T.path(e))
            if not full:
                continue
            exp, new = T.n(e.d["exp"]), T.n(e.d["new"])
            t = None
            fe = e.facts
            # the expected value must be one reading of the whole word
            pk = I.pack_split(T.s, exp, 32)
            lo = hi = None
            if pk:
                lo, hi = pk
                li = syminfo(lo.t[0][0]) if len(lo.t) == 1 and lo.c == 0 else None
                hi_ = syminfo(hi.t[0][0]) if len(hi.t) == 1 and hi.c == 0 else None
                whole = li is not None and hi_ is not None and li.kw.get("half") == "tail" and \
                    hi_.kw.get("half") == "split" and li.kw.get("of") == e.d["region"] and \
                    hi_.kw.get("of") == e.d["region"] and abs(lo.t[0][0] - hi.t[0][0]) == 1
            else:
                whole = False
            R.check("steal.one-reading", whole, entry, T.where(e),
                    "the expected value is not one reading of the victim's tail/split word",
                    None if whole else T.path(e))
            if not whole:
                continue
            R.check("steal.nonempty", fe.implies_ge(hi - lo - 1), entry, T.where(e),
                    "a task is claimed although tail < split was not established", T.path(e))
            nxt = T.f.implies_eq(new - exp - 1)
            R.check("steal.claim-one", nxt, entry, T.where(e),
                    "the claim does not move the tail by exactly one, leaving the split", None if nxt else T.path(e))
            R.check("steal.cas-order", not e.d["ok"] or (e.d["order"] in ACQUIRE if isinstance(e.d["order"], str)
                                                        else e.d["order"][0] in ACQUIRE), entry, T.where(e),
                    "a successful claim does not acquire the task", T.path(e) if e.d["ok"] else None)
            if e.d["ok"]:
                claims.append(dict(V=e.d["region"], t=lo, st="claimed", e=e, desc=None))
            continue
        if role in ("VDQ",) and e.k in ("store", "rmw", "load", "cas"):
            sl = T.slot(e, "VDQ")
            c = None
            vq = e.d["region"]
            if sl is not None:
                for x in claims:
                    if provenance(sym(vq)) and syminfo(vq).kw.get("prov")[0] == x["V"] and T.eq(sl[0], x["t"]):
                        c = x
            if e.k == "load":
                if c is not None and c["st"] == "done" and p > c["p"]:
                    R.check("steal.no-touch-after", False, entry, T.where(e),
                            "the slot of a stolen task is read after it was marked complete", T.path(e))
                continue
            R.check("steal.own-slot", c is not None, entry, T.where(e),
                    "a slot of another worker's deque is written that this worker has not claimed",
                    None if c else T.path(e))
            if c is None:
                continue
            if c["st"] == "done":
                R.check("steal.no-touch-after", False, entry, T.where(e),
                        "the slot of a stolen task is written after it was marked complete", T.path(e))
                continue
            if sl[1] != M.THIEF:
                R.check("steal.own-slot", False, entry, T.where(e), "a stolen task's slot is modified by the thief", T.path(e))
                continue
            v = T.n(e.d["val"] if e.k == "store" else e.d["new"])
            if T.eq(v, sym(g["W"])):
                R.check("steal.mark-self", c["st"] in ("claimed", "marked"), entry, T.where(e),
                        "the thief announces itself at the wrong time", None if c["st"] in ("claimed", "marked") else T.path(e))
                if c["st"] == "claimed":
                    c["st"] = "marked"
            elif T.f.implies_eq(v - 2):
                R.check("steal.complete-after", c["st"] == "executed", entry, T.where(e),
                        "a stolen task is marked complete without having been executed", T.path(e) if c["st"] != "executed" else None)
                rel = e.d["order"] in RELEASE or fence_between(T, c["pexec"], p, RELEASE)
                R.check("steal.complete-release", rel, entry, T.where(e),
                        "completion of a stolen task is announced without release ordering", None if rel else T.path(e))
                c["st"], c["p"] = "done", p
            else:
                R.check("steal.mark-self", False, entry, T.where(e),
                        "the thief field of a stolen task is set to neither the thief nor complete", T.path(e))
            continue
        if e.k == "exec" and e.d.get("name") is None:
            # call through a task descriptor
            pv = provenance(T.n(e.d["target"]))
            if pv is None or pv[0] is None or (I.role(pv[0]) or "") != "VDQ":
                continue
            sl = T.slot_of(pv[1])
            c = None
            for x in claims:
                if sl is not None and syminfo(pv[0]).kw.get("prov", (None,))[0] == x["V"] and T.eq(sl[0], x["t"]):
                    c = x
            R.check("steal.exec-claimed", c is not None, entry, T.where(e),
                    "a task of another worker is executed that was not claimed", None if c else T.path(e))
            if c is None:
                continue
            a = e.d["args"]
            okargs = len(a) == 3 and T.eq(a[0], sym(g["P"])) and sl[1] == M.lay["o_Task_f"] and \
                T.eq(a[2] if len(a) > 2 else ZERO, sym(pv[0]) + sl[0] * M.S)
            R.check("steal.exec-args", okargs, entry, T.where(e),
                    "the stolen task is not called with this worker and its own descriptor", None if okargs else T.path(e))
            if head is not None:
                okh = len(a) > 1 and T.eq(a[1], head)
                R.check("steal.exec-head", okh, entry, T.where(e),
                        "the stolen task does not run at the thief's current queue position", None if okh else T.path(e))
            R.check("steal.mark-before-exec", c["st"] == "marked", entry, T.where(e),
                    "the stolen task is executed " + ("twice" if c["st"] in ("executed", "done") else
                                                     "before the thief has announced itself"),
                    T.path(e) if c["st"] != "marked" else None)
            c["st"], c["pexec"] = "executed", p
    for c in claims:
        if T.kind == "dead":
            continue
        R.check("steal.finish", c["st"] == "done", entry, T.where(c["e"]),
                "a claimed task is left %s on some path" % {"claimed": "unexecuted", "marked": "unexecuted",
                                                          "executed": "without completion mark", "done": ""}[c["st"]],
                T.path() if c["st"] != "done" else None)
    return n


def fence_between(T, a, b, orders):
    return any(e.k == "fence" and e.d["order"] in orders for e in T.ev[a:b])


def noextra_v(T):
    return [e for e in T.ev if e.k == "store" and T.role(e) == "V"]


# ------------------------------------------------------------------------------------- SPAWN
def spawn(R, env, kind, as0, info, fn=None):
    """analyse SPAWN of one task kind in one queue mode; fills info['args'], info['wrap']"""
    name, r, isv = kind
    fn = fn or "w_spawn_" + name
    M, I = env.fresh()
    st = M.worker_state(as0, 0)
    g = st.g
    D, h, e_, s0 = g["D"], sym(g["h"]), sym(g["e"]), sym(g["s"])
    params = [fresh("a%d" % (i + 1), None, None, raw=64) for i in range(r)]
    tl0 = g["tail"][0]
    res = I.analyse(fn, [sym(g["P"]), g["H"]] + params, st)
    entry = "%s %s (all stolen: %s)" % (env.tag, fn[2:], "yes" if as0 else "no")
    R.entry("%s %s" % (env.tag, fn[2:]), I, len(res))
    S = M.S
    rets = 0
    aborts = 0
    for s, rv, kind_ in res:
        T = Trace(I, M, s, rv, kind_)
        slots = [(p, e) for p, e in enumerate(T.ev) if e.k in ("store", "rmw", "cas", "memset", "memcpy")
                 and "region" in e.d and T.role(e) == "DQ"]
        for e in T.ev:
            if e.k in ("memset", "memcpy"):
                b, o = I.split(s, e.d["dst"])
                if b == D:
                    raise AnalysisError("bulk store into the deque in SPAWN")
        if kind_ == "dead":
            aborts += 1
            R.check("spawn.abort-only-full", T.f.implies_ge(h - e_), entry, T.where_end(),
                    "SPAWN gives up although the deque is not full", T.path())
            R.check("spawn.abort-clean", not slots, entry, T.where_end(),
                    "a slot is written before the overflow is reported", T.path() if slots else None)
            continue
        for e in T.ev:
            if e.k in ("loop", "cas", "exec", "call"):
                R.check("spawn.waitfree", False, entry, T.where(e),
                        "SPAWN contains a %s" % {"loop": "loop", "cas": "compare-and-swap", "exec": "call of unknown code",
                                                "call": "call of " + str(e.d.get("name"))}[e.k], T.path(e))
        R.count("spawn.waitfree")
        if kind_ == "cut":
            continue
        rets += 1
        wlast = -1
        for p, e in slots:
            sl = T.slot(e)
            inb = e.facts.implies_ge(e_ - h - 1) and sl is not None and e.facts.implies_eq(sl[0] - h)
            R.check("spawn.bounds", inb, entry, T.where(e),
                    "a slot is written without knowing that it is inside the deque (overflow check missing or late), "
                    "or another slot than the next free one is written", None if inb else T.path(e))
            if sl is not None:
                fits = sl[1] + e.d["size"] <= S
                R.check("spawn.bounds", fits, entry, T.where(e), "a store crosses the end of the slot", None if fits else T.path(e))
            wlast = p
        position(R, T, entry, g["H"] + S, ("SPAWN", "one above"))
        ok = isinstance(rv, Lin) and T.eq(rv, g["H"])
        R.check("spawn.returns", ok, entry, T.where_end(), "SPAWN does not yield the task it created", None if ok else T.path())
        if not slots:
            R.check("spawn.bounds", T.f.implies_ge(e_ - h - 1), entry, T.where_end(),
                    "SPAWN returns although the deque is full", T.path())
        R.count("spawn.abort-clean")
        # descriptor contents
        base = h * S
        fv = T.cell(D, base + env.lay["o_Task_f"], 8)
        wrap = func_name(I, fv)
        R.check("spawn.descriptor", wrap is not None, entry, T.where_end(),
                "the descriptor's function is not set to the task's wrapper", None if wrap else T.path())
        if wrap:
            info.setdefault("wrap", wrap)
            R.check("spawn.descriptor", info["wrap"] == wrap, entry, T.where_end(),
                    "different paths store different task functions", None)
        th = T.cell(D, base + M.THIEF, 8)
        okth = isinstance(th, Lin) and T.f.implies_eq(th - 1)
        R.check("spawn.mark", okth, entry, T.where_end(),
                "a new task's slot is not marked as holding a task nobody has taken", None if okth else T.path())
        offs = {}
        for i, a in enumerate(params):
            for p, e in slots:
                if e.k == "store" and isinstance(e.d["val"], Lin) and T.n(e.d["val"]) == T.n(a):
                    sl = T.slot(e)
                    if sl is None:
                        continue
                    now = T.cell(D, base + sl[1], e.d["size"])
                    if e.d["size"] == 8 and isinstance(now, Lin) and T.eq(now, a):
                        offs.setdefault(i, sl[1])
            R.check("spawn.args", i in offs, entry, T.where_end(),
                    "argument %d is not stored in the descriptor" % (i + 1), None if i in offs else T.path())
        vals = [offs[i] for i in sorted(offs)]
        if len(vals) == r:
            R.check("spawn.args", len(set(vals)) == len(vals), entry, T.where_end(), "arguments overlap", None)
            info.setdefault("args", vals)
            R.check("spawn.args", info["args"] == vals, entry, T.where_end(),
                    "argument positions differ between paths", None)
        window_rules(R, T, "spawn", entry, h + 1, h, slots, as0)
        q = M.queue_ok(s, h + 1)
        R.check("spawn.invariant", q == "", entry, T.where_end(), "after SPAWN: " + q, T.path() if q else None)
        # work requests
        own = [e for e in T.ev if e.k in ("store", "rmw", "load") and T.role(e) == "W" and T.n(e.d["off"]) == const(M.MS)]
        w1 = s.g["wsplit"]
        if as0:
            lo = s.g["tail"][0]
            okw = T.f.implies_eq(w1 - h - 1) and T.f.implies_eq(lo - h)
            R.check("spawn.reshare", okw, entry, T.where_end(),
                    "after all tasks were stolen, a new task is not offered to thieves", None if okw else T.path())
        else:
            asked = [e for e in own if e.k == "load"]
            denied = any(isinstance(e.d["val"], Lin) and T.f.implies_eq(e.d["val"]) for e in asked)
            grown = T.f.implies_ge(w1 - s0 - 1)
            R.check("spawn.request", denied or grown, entry, T.where_end(),
                    "a request for work is pending (or not looked at) but SPAWN shares nothing", None if denied or grown else T.path())
            cleared = [e for e in own if e.k == "store" and isinstance(e.d["val"], Lin) and T.f.implies_eq(e.d["val"])]
            if not denied and grown:
                R.check("spawn.request", bool(cleared) , entry, T.where_end(),
                        "a served request for work stays pending", None if cleared else T.path())
    R.check("spawn.abort-reach", aborts >= 1, entry, fn, "SPAWN has no path that reports a full deque")
    if rets == 0:
        raise AnalysisError("SPAWN of %s never returns" % name)
    counters_spawn(R, env, res, I, M, entry)
    return info


def window_rules(R, T, pre, entry, headv, hslot, slots, as0):
    """owner's changes of tail and split: thieves may only ever see live tasks in [tail, split)"""
    M, g = T.M, T.g
    wlast = slots[-1][0] if slots else -1
    for p, e in enumerate(T.ev):
        if e.k == "owntail":
            lo, hi = e.d["old"]
            quiet = e.facts.implies_ge(lo - e.d["wsplit"]) and e.d["pend"] == 0
            R.check(pre + ".tail-store", quiet, entry, T.where(e),
                    "the owner overwrites its tail while thieves may still move it", None if quiet else T.path(e))
        elif e.k == "ownsplit":
            v, old = e.d["val"], e.d["old"]
            f = e.facts
            lo, hi = e.d["tail"]
            raises = not f.implies_ge(old - v)
            shares = not f.implies_ge(lo - v)          # something is stealable afterwards
            inside = f.implies_ge(headv - v) or not shares
            R.check(pre + ".window", inside, entry, T.where(e),
                    "the split is moved beyond the tasks that exist", None if inside else T.path(e))
            if as0:
                live = not shares or f.implies_ge(lo - hslot)
                R.check(pre + ".window", live, entry, T.where(e),
                        "tasks that were stolen before are offered again", None if live else T.path(e))
            if shares and (raises or e.d["whole"]) and not f.implies_ge(hslot - v):
                late = [q for q, x in slots if q > p]
                ordered = e.ins is not None and (e.ins.x.get("order") in RELEASE or e.d.get("order") in RELEASE) or \
                    fence_between(T, wlast if wlast < p else 0, p, RELEASE)
                R.check(pre + ".publish", not late and ordered, entry, T.where(e),
                        "a task becomes visible to thieves before its descriptor is complete",
                        None if not late and ordered else T.path(T.ev[late[-1]] if late else e))


# ------------------------------------------------------------------------------------- wrapper, CALL
def wrapper(R, env, kind, info):
    """the function a thief calls: reads the arguments where SPAWN wrote them, runs the body once at the
    given position, stores the result"""
    name, r, isv = kind
    wrap = info.get("wrap")
    if not wrap or wrap not in env.mod.functions or not env.mod.functions[wrap].defined:
        return
    M, I = env.fresh()
    st = M.worker_state(0, 0)
    g = st.g
    Tt = fresh("t", 1, None, ptr=True, role="T", nonnull=True)
    st.facts.add_ge(Tt - 4096)
    res = I.analyse(wrap, [sym(g["P"]), g["H"], Tt], st)
    entry = "%s wrapper of %s" % (env.tag, name)
    R.entry(entry, I, len(res))
    treg = Tt.t[0][0]
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        ex = [e for e in T.ev if e.k == "exec"]
        one = len(ex) == 1 and ex[0].d["name"] == "ub_" + name and k == "ret"
        R.check("wrap.once", one, entry, T.where_end(), "the wrapper does not run the task body exactly once",
                None if one else T.path())
        if not one:
            continue
        a = ex[0].d["args"]
        who = T.eq(a[0], sym(g["P"]))
        R.check("wrap.worker", who, entry, T.where(ex[0]), "the body is run on behalf of another worker", None if who else T.path())
        at = T.eq(a[1], g["H"])
        R.check("wrap.head", at, entry, T.where(ex[0]), "the body does not start at the caller's queue position", None if at else T.path())
        for i, x in enumerate(a[2:]):
            pv = provenance(T.n(x))
            ok = pv is not None and pv[0] == treg and "args" in info and len(info["args"]) > i and T.n(pv[1]) == const(info["args"][i])
            R.check("wrap.args", ok, entry, T.where(ex[0]),
                    "argument %d is not read from where SPAWN stores it" % (i + 1), None if ok else T.path())
        stores = [e for e in T.ev if e.k in ("store", "rmw") and T.role(e) == "T"]
        if not isv:
            rs = [e for e in stores if e.k == "store" and T.eq(e.d["val"], ex[0].d["ret"])]
            okr = len(rs) == 1 and T.n(rs[0].d["off"]).is_const() and T.ev.index(rs[0]) > T.ev.index(ex[0])
            R.check("wrap.result", okr, entry, T.where_end(), "the result is not stored in the descriptor", None if okr else T.path())
            if okr:
                info["res"] = T.n(rs[0].d["off"]).c
                info["ressize"] = rs[0].d["size"]
                ok = info["res"] == env.lay["o_Task_d"]
                R.check("state.result-place", ok, entry, T.where(rs[0]), "the result is not where TASK_RESULT looks for it",
                        None if ok else T.path())
        for e in stores:
            o = T.n(e.d["off"])
            ok = o.is_const() and M.THIEF + 8 <= o.c and o.c + e.d["size"] <= M.S
            R.check("wrap.bounds", ok, entry, T.where(e), "the wrapper writes outside the result", None if ok else T.path(e))


def call(R, env, kind):
    name, r, isv = kind
    M, I = env.fresh()
    st = M.worker_state(0, 0)
    g = st.g
    params = [fresh("a%d" % (i + 1), None, None, raw=64) for i in range(r)]
    res = I.analyse("w_call_" + name, [sym(g["P"]), g["H"]] + params, st)
    entry = "%s call_%s" % (env.tag, name)
    R.entry(entry, I, len(res))
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        ex = [e for e in T.ev if e.k == "exec"]
        one = len(ex) == 1 and ex[0].d["name"] == "ub_" + name and k == "ret"
        R.check("call.once", one, entry, T.where_end(), "CALL does not run the body exactly once", None if one else T.path())
        if not one:
            continue
        a = ex[0].d["args"]
        ok = T.eq(a[0], sym(g["P"])) and T.eq(a[1], g["H"])
        R.check("call.context", ok, entry, T.where(ex[0]), "CALL runs the body on another worker or queue position", None if ok else T.path())
        ok = len(a) == 2 + r and all(T.eq(x, y) for x, y in zip(a[2:], params))
        R.check("call.args", ok, entry, T.where(ex[0]), "CALL passes other arguments", None if ok else T.path())
        position(R, T, entry, g["H"], ("CALL", "unchanged"))
        if not isv:
            ok = T.eq(rv, ex[0].d["ret"])
            R.check("call.result", ok, entry, T.where_end(), "CALL returns another value than the body", None if ok else T.path())


# ------------------------------------------------------------------------------------- SYNC / DROP
def sync(R, env, kind, as0, info, drop=False):
    name, r, isv = kind
    fn = "w_drop" if drop else "w_sync_" + name
    pre = "drop" if drop else "sync"
    M, I = env.fresh()
    st = M.worker_state(as0, 1)
    g = st.g
    D, h, s0 = g["D"], sym(g["h"]), sym(g["s"])
    S = M.S
    H = g["H"]
    res = I.analyse(fn, [sym(g["P"]), H + S], st)
    entry = "%s %s (all stolen: %s)" % (env.tag, fn[2:], "yes" if as0 else "no")
    R.entry("%s %s" % (env.tag, fn[2:]), I, len(res))
    rets = 0
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        own = []
        body = None
        for p, e in enumerate(T.ev):
            if e.k == "loop":
                pass
            if e.k == "exec" and e.d["name"] is None:
                pv = provenance(T.n(e.d["target"]))
                if pv is not None and pv[0] == D:
                    own.append((p, e, True))
            elif e.k == "exec" and not drop and e.d["name"] == "ub_" + name:
                own.append((p, e, False))
        others = [(p, e) for p, e in enumerate(T.ev) if e.k == "exec" and not any(p == q for q, _, _ in own)]
        # ---- slots are only touched at index h
        for e in T.ev:
            if e.k in ("store", "rmw", "cas") and T.role(e) == "DQ":
                sl = T.slot(e)
                ok = sl is not None and T.eq(sl[0], h) and sl[1] + e.d["size"] <= S
                R.check(pre + ".bounds", ok, entry, T.where(e), "another slot than the one being synced is written", None if ok else T.path(e))
        # ---- completion seen
        done = None
        for p, e, v in thief_readings(T, D, h):
            if T.f.implies_eq(T.n(v) - 2):
                done = (p, e)
        # ---- inline execution
        for p, e, viaptr in own:
            x = e.d["st"]
            lo, hi = x.g["tail"]
            w = x.g["wsplit"]
            ok = hi is not None and x.facts.implies_ge(h - hi) and x.facts.implies_ge(h - w) and x.g["pend"] != 1
            R.check(pre + ".inline-owned", ok, entry, T.where(e),
                    "the task is run inline although a thief may have claimed it (or may still claim it)", None if ok else T.path(e))
            inloop = any(q.k == "loop" for q in T.ev[:p]) and k == "cut"
            R.check(pre + ".once", not inloop, entry, T.where(e), "the task is run inside a loop", T.path(e) if inloop else None)
            a = e.d["args"]
            okc = T.eq(a[0], sym(g["P"])) and T.eq(a[1], H)
            R.check(pre + ".head", okc, entry, T.where(e),
                    "the task is run on another worker or queue position than its own", None if okc else T.path(e))
            if not viaptr:
                for i, y in enumerate(a[2:]):
                    pv = provenance(T.n(y))
                    sl = T.slot_of(pv[1]) if pv is not None and pv[0] == D else None
                    oka = sl is not None and T.eq(sl[0], h) and "args" in info and len(info["args"]) > i and sl[1] == info["args"][i]
                    R.check(pre + ".args", oka, entry, T.where(e),
                            "argument %d is not the one SPAWN stored" % (i + 1), None if oka else T.path(e))
            th = T.cell(D, h * S + M.THIEF, 8, x)
            oke = isinstance(th, Lin) and x.facts.implies_eq(th)
            R.check(pre + ".slot-empty", oke, entry, T.where(e),
                    "the slot is not marked empty before the task runs at its position", None if oke else T.path(e))
        if drop:
            R.check("drop.not-run", not own, entry, T.where(own[0][1]) if own else fn,
                    "a dropped task is run by its owner", T.path() if own else None)
        # ---- other work done while waiting runs above the pending task
        for p, e in others:
            a = e.d["args"]
            if len(a) < 2 or not T.eq(a[0], sym(g["P"])):
                if e.d["name"] is not None and e.d["name"].startswith("ub_"):
                    R.check(pre + ".head", False, entry, T.where(e), "another task body is run", T.path(e))
                continue
            ok = T.eq(a[1], H + S)
            R.check(pre + ".wait-head", ok, entry, T.where(e),
                    "work done while waiting does not run above the task being waited for", None if ok else T.path(e))
            after = done is not None and p > done[0] and False
        n = steal_rules(R, T, entry, None)
        # ---- loops: every idle iteration polls for interrupts
        if k == "cut":
            poll_rule(R, T, pre, entry, h)
            continue
        if k == "dead":
            R.check(pre + ".returns", False, entry, T.where_end(), "the program is terminated", T.path())
            continue
        rets += 1
        position(R, T, entry, H, ("DROP" if drop else "SYNC", "the slot of the task it ends"))
        # ---- exactly once
        cnt = len(own)
        if drop:
            x = s
            lo, hi = None, None
            safe = done is not None or drop_safe(T, h)
            R.check("drop.owned", safe, entry, T.where_end(),
                    "DROP returns although a thief may be executing (or may still claim) the task", None if safe else T.path())
        else:
            R.check("sync.once", cnt <= 1, entry, T.where_end(), "the task is run twice by its owner", T.path() if cnt > 1 else None)
            okd = cnt == 1 or done is not None
            R.check("sync.wait", okd, entry, T.where_end(),
                    "SYNC returns without having run the task and without having seen it complete", None if okd else T.path())
            both = cnt and done is not None
            R.check("sync.once", not both, entry, T.where_end(), "a task completed by a thief is also run inline", T.path() if both else None)
        if done is not None and not own:
            p, e = done
            acq = (e.d.get("order") in ACQUIRE) or fence_between(T, p, len(T.ev), ACQUIRE)
            R.check(pre + ".acquire", acq, entry, T.where(e), "completion is observed without acquire ordering", None if acq else T.path())
            th = T.cell(D, h * S + M.THIEF, 8)
            oke = isinstance(th, Lin) and T.f.implies_eq(th)
            R.check(pre + ".slot-empty", oke, entry, T.where_end(), "the slot of a completed task is not marked empty", None if oke else T.path())
            early = [q for q, e2 in enumerate(T.ev) if q < p and e2.k == "store" and T.role(e2) == "DQ" and
                     T.slot(e2) is not None and T.slot(e2)[1] == M.THIEF]
            R.check(pre + ".wait", not early, entry, T.where_end(),
                    "the thief field is overwritten before completion was observed", T.path() if early else None)
        elif drop:
            th = T.cell(D, h * S + M.THIEF, 8)
            oke = isinstance(th, Lin) and T.f.implies_eq(th)
            R.check(pre + ".slot-empty", oke, entry, T.where_end(), "the slot of a dropped task is not marked empty", None if oke else T.path())
        if not isv and not drop:
            if cnt == 1:
                p, e, viaptr = own[0]
                if viaptr:
                    okr = from_slot(T, rv, D, h, info, p)
                else:
                    okr = T.eq(rv, e.d["ret"])
            elif done is not None:
                okr = from_slot(T, rv, D, h, info, done[0])
            else:
                okr = False
            R.check("sync.result", okr, entry, T.where_end(), "SYNC does not return the task's own result", None if okr else T.path())
        window_rules(R, T, pre, entry, h if cnt else h + 1, h + 1, [], as0 and not any(e.k == "exec" for e in T.ev))
        q = M.queue_ok(s, h)
        R.check(pre + ".invariant", q == "", entry, T.where_end(), "after %s: %s" % (pre.upper(), q), T.path() if q else None)
        # ---- work requests
        if cnt == 1 and not as0:
            p, e, _ = own[0]
            x = e.d["st"]
            denied = grown = False
            for e2 in T.ev[:p]:
                if e2.k == "load" and T.role(e2) == "W" and T.n(e2.d["off"]) == const(M.MS):
                    if T.f.implies_eq(e2.d["val"]):
                        denied = True
            left = x.facts.copy()
            nothing = not left.add_ge(h - x.g["wsplit"] - 1)     # unshared tasks below this one?
            for e2 in T.ev[:p]:
                if e2.k == "ownsplit" and not nothing and left.implies_ge(e2.d["val"] - e2.d["old"] - 1):
                    grown = True
            ok = denied or grown or nothing
            R.check("sync.request", ok, entry, T.where(e),
                    "a request for work is pending (or not looked at) but SYNC shares nothing", None if ok else T.path(e))
            # fast path: wait-free
            if not any(e2.k == "ownsplit" for e2 in T.ev[:p]):
                slow = [e2 for e2 in T.ev[:p] if e2.k in ("loop", "cas", "exec", "call")]
                R.check("sync.waitfree", not slow, entry, T.where(e), "SYNC of a private task is not wait-free",
                        T.path(e) if slow else None)
        if cnt == 1:
            slow = [e2 for e2 in T.ev[:own[0][0]] if e2.k in ("loop", "call", "exec")]
            R.check("sync.waitfree", not slow, entry, T.where(own[0][1]), "taking back an own task loops, blocks or runs other work",
                    T.path() if slow else None)
    if rets == 0:
        raise AnalysisError("%s never returns" % fn)
    counters_sync(R, env, res, I, M, entry)


def thief_readings(T, D, h):
    """observations of the mark in slot h: (position, event, value); at a loop head, values carried
    around the loop that were last read there"""
    M = T.M
    for p, e in enumerate(T.ev):
        if e.k in ("load", "rmw") and T.role(e) == "DQ":
            sl = T.slot(e)
            if sl is not None and sl[1] == M.THIEF and T.eq(sl[0], h):
                v = e.d["val"] if e.k == "load" else e.d["old"]
                if isinstance(v, Lin):
                    yield p, e, v
        elif e.k == "loop":
            for x in e.d.get("gens", ()):
                pv = syminfo(x).kw.get("prov")
                if pv is not None and pv[0] == D:
                    sl = T.slot_of(pv[1])
                    if sl is not None and sl[1] == M.THIEF and T.eq(sl[0], h):
                        yield p, e, sym(x)


def drop_safe(T, h):
    """the dropped task was still the owner's: nobody had or could have claimed slot h"""
    x = T.s
    lo, hi = x.g["tail"]
    w = x.g["wsplit"]
    return hi is not None and x.facts.implies_ge(h - hi) and x.facts.implies_ge(h - w) and x.g["pend"] != 1


def from_slot(T, v, D, h, info, after):
    pv = provenance(T.n(v)) if isinstance(v, Lin) else None
    if pv is None or pv[0] != D:
        return False
    sl = T.slot_of(pv[1])
    if sl is None or not T.eq(sl[0], h) or sl[1] != info.get("res"):
        return False
    for p, e in enumerate(T.ev):
        if e.k == "load" and T.role(e) == "DQ" and isinstance(e.d["val"], Lin) and T.n(e.d["val"]) == T.n(v):
            return p > after
    return False


def iteration(T):
    """events of the innermost loop iteration a cut trace ends with"""
    last = T.ev[-1]
    if last.k != "back":
        return []
    m = last.d["mark"]
    for i, e in enumerate(T.ev):
        if e is m:
            return T.ev[i + 1:-1]
    return []


def polls(T, it):
    """does this iteration look for interrupts (or run other work, which does)"""
    lay = T.M.lay
    for e in it:
        if e.k == "load" and T.role(e) == "G:lace_newframe":
            return True
        if e.k == "exec":
            return True
        if e.k == "cas" and T.role(e) == "V":
            return True
    return False


def poll_rule(R, T, pre, entry, h):
    it = iteration(T)
    if not it:
        return
    # waiting for a thief that has claimed but not yet announced itself is bounded
    m = T.ev.index(T.ev[-1].d["mark"])
    for p, e, v in thief_readings(T, T.g["D"], h):
        if p >= m and T.f.implies_ge(const(1) - T.n(v)):
            R.count(pre + ".poll")
            return
    ok = polls(T, it)
    R.check(pre + ".poll", ok, entry, T.where(T.ev[-1]), "a worker waits in a loop without looking for interrupts",
            None if ok else T.path())


# ------------------------------------------------------------------------------------- MAKE_ALL_SHARED
def makeall(R, env, as0):
    M, I = env.fresh()
    st = M.worker_state(as0, 0)
    g = st.g
    h = sym(g["h"])
    res = I.analyse("w_makeall", [sym(g["P"]), g["H"]], st)
    entry = "%s make_all_shared (all stolen: %s)" % (env.tag, "yes" if as0 else "no")
    R.entry("%s make_all_shared" % env.tag, I, len(res))
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        window_rules(R, T, "makeall", entry, h, h, [], as0)
        q = M.queue_ok(s, h)
        R.check("makeall.invariant", q == "" and k == "ret", entry, T.where_end(), "after MAKE_ALL_SHARED: " + q, T.path() if q else None)
        position(R, T, entry, g["H"], ("MAKE_ALL_SHARED", "unchanged"))
        if not as0:
            ok = T.f.implies_eq(s.g["wsplit"] - h)
            R.check("makeall.all", ok, entry, T.where_end(), "not all tasks are shared afterwards", None if ok else T.path())
        bad = [e for e in T.ev if e.k in ("loop", "exec", "call", "cas")]
        R.check("makeall.waitfree", not bad, entry, T.where_end(), "MAKE_ALL_SHARED loops or calls other code", T.path() if bad else None)


# ------------------------------------------------------------------------------------- other macros
def macros(R, env):
    """STEAL_RANDOM, YIELD_NEWFRAME, LACE_VARS, LACE_WORKER_ID and the task state macros"""
    for mac, fn in (("STEAL_RANDOM", "w_stealrandom"), ("YIELD_NEWFRAME", "w_yield")):
        M, I = env.fresh()
        st = M.worker_state(0, 0)
        g = st.g
        entry = "%s %s" % (env.tag, mac)
        res = I.analyse(fn, [sym(g["P"]), g["H"]], st)
        R.entry(entry, I, len(res))
        for s, rv, k in res:
            T = Trace(I, M, s, rv, k)
            for e in T.ev:
                if e.k in ("call", "exec"):
                    a = e.d["args"]
                    ok = len(a) >= 2 and T.eq(a[0], sym(g["P"])) and T.eq(a[1], g["H"])
                    R.check("macro.context", ok, entry, T.where(e), "%s works on another worker or queue position" % mac,
                            None if ok else T.path())
            if k == "ret":
                position(R, T, entry, g["H"], (mac, "unchanged"))
            else:
                R.check("macro.position", False, entry, T.where_end(), "%s does not return" % mac, T.path())
    # LACE_WORKER_ID
    M, I = env.fresh()
    st = M.worker_state(0, 0)
    g = st.g
    entry = "%s LACE_WORKER_ID" % env.tag
    res = I.analyse("w_id", [sym(g["P"]), g["H"]], st)
    R.entry(entry, I, len(res))
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        pv = provenance(T.n(rv)) if isinstance(rv, Lin) else None
        want = T.cell(g["P"], const(env.lay["o_WorkerP_worker"]), env.lay["w_WorkerP_worker"])
        ok = k == "ret" and (pv == (g["P"], const(env.lay["o_WorkerP_worker"])) or (want is not None and T.eq(rv, want)))
        R.check("macro.worker-id", ok, entry, T.where_end(), "LACE_WORKER_ID is not the worker's number", None if ok else T.path())
    # LACE_VARS
    M, I = env.fresh()
    st = State()
    entry = "%s LACE_VARS" % env.tag
    res = I.analyse("w_vars", [], st)
    R.entry(entry, I, len(res))
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        cs = [e for e in T.ev if e.k == "call"]
        ps = [e for e in T.ev if e.k == "position"]
        gw = [e for e in cs if e.d["name"] == "lace_get_worker"]
        gh = [e for e in cs if e.d["name"] == "lace_get_head"]
        ok = bool(gw) and bool(gh) and len(ps) == 2 and T.eq(ps[0].d["val"], gw[0].d["ret"]) and \
            T.eq(gh[-1].d["args"][0], gw[0].d["ret"]) and T.eq(ps[1].d["val"], gh[-1].d["ret"])
        R.check("macro.vars", ok, entry, T.where_end(), "LACE_VARS does not give the current worker and the top of its queue",
                None if ok else T.path())
    # state of a task
    for fn, mac, want in (("w_stolen", "TASK_IS_STOLEN", (0, 0, 1, 1)), ("w_completed", "TASK_IS_COMPLETED", (0, 0, 1, 0))):
        M, I = env.fresh()
        st = State()
        t = newsym("t", 1, None, ptr=True, role="X", nonnull=True)
        entry = "%s %s" % (env.tag, mac)
        res = I.analyse(fn, [sym(t)], st)
        R.entry(entry, I, len(res))
        for s, rv, k in res:
            T = Trace(I, M, s, rv, k)
            if k == "dead":
                continue
            seen = [T.n(e.d["val"]) for e in T.ev if e.k == "load" and e.d["region"] == t and e.d["size"] == 8 and
                    T.n(e.d["off"]) == const(env.lay["o_Task_thief"])]
            for mark, w in zip((0, 1, 2, None), want):
                f = T.f.copy()
                alive = True
                for v in seen:
                    ok = f.add_eq(v - mark) if mark is not None else f.add_ge(v - 4096)
                    alive = alive and ok is not False
                if not alive:
                    continue
                ok = k == "ret" and isinstance(rv, Lin) and f.implies_eq(f.norm(rv) - w)
                R.check("state." + fn[2:], ok, entry, T.where_end(), "%s is wrong for a task that is %s" % (
                    mac, {0: "empty", 1: "not stolen", 2: "completed", None: "being executed by a thief"}[mark]),
                    None if ok else T.path())
    M, I = env.fresh()
    st = State()
    t = newsym("t", 1, None, ptr=True, role="X", nonnull=True)
    entry = "%s TASK_RESULT" % env.tag
    res = I.analyse("w_result", [sym(t)], st)
    R.entry(entry, I, len(res))
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        ok = k == "ret" and isinstance(rv, Lin) and T.eq(rv, sym(t) + env.lay["o_Task_d"])
        R.check("state.result", ok, entry, T.where_end(), "TASK_RESULT does not point at the task's result", None if ok else T.path())


# ------------------------------------------------------------------------------------- RUN & co.
def descriptor_entry(R, env, kind, info, mac, callees):
    """RUN / RUNEX / NEWFRAME / TOGETHER: a complete descriptor is handed to the runtime, its result returned"""
    name, r, isv = kind
    M, I = env.fresh()
    from .absint import State
    st = State()
    params = [fresh("a%d" % (i + 1), None, None, raw=64) for i in range(r)]
    fn = "w_%s_%s" % (mac, name)
    res = I.analyse(fn, params, st)
    entry = "%s %s_%s" % (env.tag, mac, name)
    R.entry(entry, I, len(res))
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        cl = [e for e in T.ev if e.k in ("call", "exec") and not (e.d.get("name") or "").startswith("llvm")]
        one = len(cl) == 1 and k == "ret" and len(cl[0].d["args"]) >= 1
        R.check(mac + ".handover", one, entry, T.where_end(), "the task is not handed to the runtime exactly once", None if one else T.path())
        if not one:
            continue
        e = cl[0]
        callees.setdefault(mac, set()).add(e.d["name"])
        x = e.d["st"]
        loc = None
        for a in e.d["args"]:
            b, o = I.split(x, a) if isinstance(a, Lin) else (None, None)
            if b is not None and (I.role(b) or "").startswith("L:"):
                loc = (b, o)
        R.check(mac + ".handover", loc is not None, entry, T.where(e), "no task descriptor is passed", None if loc else T.path())
        if loc is None:
            continue
        b, o = loc
        size = syminfo(b).kw.get("size")
        R.check(mac + ".room", size is not None and size - o.c >= M.S, entry, T.where(e),
                "the descriptor is smaller than a task slot")
        fv = T.cell(b, o + env.lay["o_Task_f"], 8, x)
        okf = func_name(I, fv) is not None and func_name(I, fv) == info.get("wrap")
        R.check(mac + ".function", okf, entry, T.where(e), "the descriptor does not name the task's wrapper", None if okf else T.path())
        for i, a in enumerate(params):
            v = T.cell(b, o + info["args"][i], 8, x) if "args" in info and len(info["args"]) > i else None
            ok = isinstance(v, Lin) and T.eq(v, a)
            R.check(mac + ".args", ok, entry, T.where(e), "argument %d is not where the task reads it" % (i + 1), None if ok else T.path())
        if not isv and mac != "together":
            pv = provenance(T.n(rv)) if isinstance(rv, Lin) else None
            ok = pv is not None and pv[0] == b and "res" in info and T.n(pv[1]) == T.n(o + info["res"])
            after = True
            for p, e2 in enumerate(T.ev):
                if e2.k == "load" and e2.d["region"] == b and isinstance(e2.d["val"], Lin) and ok and T.n(e2.d["val"]) == T.n(rv):
                    after = p > T.ev.index(e)
                    break
            R.check(mac + ".result", ok and after, entry, T.where_end(), "the task's result is not returned", None if ok and after else T.path())


# ------------------------------------------------------------------------------------- counters
def ctr_events(T, lay):
    """increments of the worker's own counters on this trace: index -> [(position, delta)]"""
    out = {}
    if "o_WorkerP_ctr" not in lay:
        return out
    o0 = lay["o_WorkerP_ctr"]
    last = {}
    for p, e in enumerate(T.ev):
        if e.k not in ("load", "store") or e.d.get("region") != T.g.get("P"):
            continue
        off = T.n(e.d["off"])
        if not off.is_const() or not (o0 <= off.c < o0 + 8 * lay["n_ctr"]):
            continue
        i = (off.c - o0) // 8
        if e.k == "load":
            last[i] = e.d["val"]
        else:
            d = T.n(e.d["val"] - last[i]) if i in last and isinstance(e.d["val"], Lin) else None
            out.setdefault(i, []).append((p, d.c if d is not None and d.is_const() else None))
    return out


def total(ct, lay, name):
    k = "i_" + name
    if k not in lay:
        return None
    xs = ct.get(lay[k], [])
    if any(d is None for _, d in xs):
        return None
    return sum(d for _, d in xs)


def expect(R, T, ct, lay, entry, name, want, what):
    """counter `name` must have been increased exactly `want` times"""
    if "i_" + name not in lay:
        return
    got = total(ct, lay, name)
    R.check("count." + name[4:], got == want, entry, T.where_end(),
            "%s: counted %s, happened %s (%s)" % (what, got, want, name), None if got == want else T.path())


def enabled(lay, grp):
    return lay.get("v_LACE_COUNT_" + grp, 0) == 1


def counters_spawn(R, env, res, I, M, entry):
    lay = env.lay
    if "o_WorkerP_ctr" not in lay:
        return
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        ct = ctr_events(T, lay)
        if k == "dead":
            continue
        if enabled(lay, "TASKS"):
            expect(R, T, ct, lay, entry, "CTR_tasks", 1, "spawned tasks")
        elif "i_CTR_tasks" in lay:
            expect(R, T, ct, lay, entry, "CTR_tasks", 0, "spawned tasks while not counting")
        grow = 0 if T.g["as0"] else moves(T)[0]
        expect(R, T, ct, lay, entry, "CTR_split_grow", grow if enabled(lay, "SPLITS") else 0, "growths of the shared part")
        only(R, T, ct, lay, entry, ("CTR_tasks", "CTR_split_grow"))


def only(R, T, ct, lay, entry, names):
    """no other event counter moves (timers excluded)"""
    for c in ("CTR_tasks", "CTR_steal_tries", "CTR_leap_tries", "CTR_steals", "CTR_leaps", "CTR_steal_busy",
              "CTR_leap_busy", "CTR_split_grow", "CTR_split_shrink", "CTR_split_req"):
        if c in names or "i_" + c not in lay:
            continue
        expect(R, T, ct, lay, entry, c, 0, "events that did not happen here")


def steal_outcomes(T):
    """(claims, lost claims, requests) by this trace"""
    won = sum(1 for e in T.ev if e.k == "cas" and T.role(e) == "V" and e.d["ok"])
    lost = sum(1 for e in T.ev if e.k == "cas" and T.role(e) == "V" and not e.d["ok"])
    req = sum(1 for e in T.ev if e.k == "store" and T.role(e) == "V" and T.n(e.d["off"]) == const(T.M.MS))
    return won, lost, req


def counters_sync(R, env, res, I, M, entry):
    lay = env.lay
    if "o_WorkerP_ctr" not in lay:
        return
    for s, rv, k in res:
        T = Trace(I, M, s, rv, k)
        if k == "dead":
            continue
        # counters are checked per loop iteration / per trace from the last loop head on
        ct = ctr_events(T, lay)
        won, lost, req = steal_outcomes(T)
        st = enabled(lay, "STEALS")
        sp = enabled(lay, "SPLITS")
        expect(R, T, ct, lay, entry, "CTR_leaps", won if st else 0, "successful leaps")
        expect(R, T, ct, lay, entry, "CTR_leap_busy", lost if st else 0, "leaps that lost a race")
        tries = total(ct, lay, "CTR_leap_tries")
        if tries is not None and "i_CTR_leap_tries" in lay:
            att = attempts(T)
            ok = tries == (att if st else 0) or st and tries == 1 and att == 0 and k == "cut"
            R.check("count.leap_tries", ok, entry, T.where_end(),
                    "leap attempts: counted %s, made %s" % (tries, att), None if ok else T.path())
        expect(R, T, ct, lay, entry, "CTR_split_req", req if sp else 0, "requests for work")
        grow, shrink = moves(T)
        expect(R, T, ct, lay, entry, "CTR_split_grow", grow if sp else 0, "growths of the shared part")
        expect(R, T, ct, lay, entry, "CTR_split_shrink", shrink if sp else 0, "shrinks of the shared part")
        only(R, T, ct, lay, entry, ("CTR_leaps", "CTR_leap_busy", "CTR_leap_tries", "CTR_split_req",
                                    "CTR_split_grow", "CTR_split_shrink"))


def moves(T):
    """(growths, shrinks) of the shared part: moves of the private split pointer, apart from the reset
    of a queue that was all stolen"""
    M, g = T.M, T.g
    P = g["P"]
    cur = sym(g["D"]) + sym(g["s"]) * M.S
    if any(e.k == "resumed" or e.k == "loop" for e in T.ev):
        last = max(i for i, e in enumerate(T.ev) if e.k in ("resumed", "loop"))
    else:
        last = -1
    grow = shrink = 0
    allst = g["as0"]
    for i, e in enumerate(T.ev):
        if i <= last and e.k in ("resumed", "loop"):
            cur = None
        if e.k != "store" or e.d.get("region") != P:
            continue
        o = T.n(e.d["off"])
        if o == const(M.PAS):
            allst = 0 if isinstance(e.d["val"], Lin) and T.f.implies_eq(e.d["val"]) else 1
        if o != const(M.PSPLIT) or not isinstance(e.d["val"], Lin):
            continue
        if cur is not None and not allst and T.n(cur - e.d["val"]) != ZERO:
            if e.facts.implies_ge(T.n(e.d["val"] - cur)):
                grow += 1
            else:
                shrink += 1
        cur = e.d["val"]
    return grow, shrink


def attempts(T):
    """steal attempts in the current iteration: was a victim's state examined?"""
    return int(any("region" in e.d and T.role(e) == "V" for e in T.ev))
