"""Environment model of one Lace worker: which memory is private, which is shared with whom, and
what other threads may do to it.  This is the only place that encodes assumptions about the
concurrent environment; everything else is read off the analysed code.

Roles of memory objects
  P    the analysed worker's private data        W    its public data
  DQ   its task deque                            V    another worker's public data (or own id)
  VDQ  another worker's deque                    T    a task descriptor given by pointer
  ET   the hand-over record of an external RUN   WARR the array of public worker pointers
"""
from .poly import Lin, const, sym, fresh, newsym, syminfo, ZERO
from .absint import Model, State, BoolV, Interp, AnalysisError
from . import ir
from .build import POSITION

M32 = (1 << 32) - 1


class WorkerModel(Model):
    def __init__(self, lay, boundaries=(), max_workers=65535):
        self.lay = lay
        L = lay
        self.S = L["z_Task"]
        self.TS = L["o_Worker_ts"]
        self.TAIL = self.TS + L["o_ts_tail"]
        self.SPLIT = self.TS + L["o_ts_split"]
        self.AS = L["o_Worker_allstolen"]
        self.MS = L["o_Worker_movesplit"]
        self.PDQ, self.PSPLIT, self.PEND, self.PPUB = (L["o_WorkerP_" + f] for f in ("dq", "split", "end", "_public"))
        self.PAS, self.PID = L["o_WorkerP_allstolen"], L["o_WorkerP_worker"]
        self.THIEF = L["o_Task_thief"]
        self.boundaries = set(boundaries)
        self.max_workers = max_workers
        self.ubprefix = ("ub_", "user_")
        self.lockvol = set()
        self.const_n = True
        self.light = False
        self.tls = "current_worker"
        self.extname, self.warrname = "external_task", "workers"
        self.stable = ("n_workers", "workers", "workers_p", "workers_memory", "current_worker", "workers_memory_size")

    # ------------------------------------------------------------- construction of entry states
    def worker_state(self, allstolen, popped, name="", head_slack=True):
        """entry state of worker code; popped=1: the head argument is one below the owner's head"""
        st = State()
        g = st.g
        P = newsym("P", 1, None, ptr=True, role="P", obj=("worker", "P"), nonnull=True)
        W = newsym("W", 1, None, ptr=True, role="W", obj=("worker", "W"), nonnull=True)
        D = newsym("D", 1, None, ptr=True, role="DQ", obj=("worker", "DQ"), nonnull=True)
        # worker objects are neither of the marks 0,1,2
        for s in (P, W, D):
            st.facts.add_ge(sym(s) - 4096)
        h = newsym("h", 0, (1 << 31) - 1)
        e = newsym("e", 1, (1 << 31) - 1)
        s = newsym("s", 0, (1 << 31) - 1)
        f = st.facts
        f.add_ge(sym(e) - sym(h) - popped)
        f.add_ge(sym(e) - sym(s))
        hc = sym(h) + popped          # the owner's head before the operation
        if allstolen:
            f.add_ge(sym(s) - hc)
            ws = newsym("ws", 0, (1 << 31) - 1)
            tl = newsym("tl", 0, (1 << 31) - 1)
            f.add_ge(sym(tl) - hc)
            f.add_ge(sym(tl) - sym(ws))
            g["wsplit"] = sym(ws)
            g["tail"] = (sym(tl), sym(tl))
        else:
            f.add_ge(hc - sym(s))
            g["wsplit"] = sym(s)
            g["tail"] = (ZERO, sym(s))
        g["pend"] = 0
        g["hc"] = None
        wid = newsym("wid", 0, 65535)
        n = newsym("n", 1, self.max_workers)
        f.add_ge(sym(n) - sym(wid) - 1)
        S = self.S
        H = sym(D) + sym(h) * S
        g.update(P=P, W=W, D=D, h=h, e=e, s=s, wid=wid, n=n, S=S, as0=allstolen, H=H)
        self.cell(st, P, self.PDQ, 8, sym(D))
        self.cell(st, P, self.PSPLIT, 8, sym(D) + sym(s) * S)
        self.cell(st, P, self.PEND, 8, sym(D) + sym(e) * S)
        self.cell(st, P, self.PPUB, 8, sym(W))
        self.cell(st, P, self.PAS, 1, const(allstolen))
        self.cell(st, P, self.PID, 2, sym(wid))
        self.cell(st, W, self.lay["o_Worker_dq"], 8, sym(D))
        self.cell(st, W, self.AS, 1, const(allstolen))
        return st

    def cell(self, st, region, off, size, val):
        from .absint import Cell
        st.mem[region] = list(st.mem.get(region, ())) + [Cell(const(off), size, val)]

    def global_cell(self, I, st, name, off, size, val):
        if name in I.mod.globals:
            a = I.global_addr(name)
            self.cell(st, a.t[0][0], off, size, val)

    def bind_globals(self, I, st):
        g = st.g
        self.global_cell(I, st, "n_workers", 0, 4, sym(g["n"]))
        self.global_cell(I, st, "current_worker", 0, 8, sym(g["P"]))

    # ------------------------------------------------------------- memory hooks
    def getcell(self, st, region, off, size):
        for c in st.mem.get(region, ()):
            if c.size == size and c.off == const(off):
                return c.val
        return None

    def own_tail(self, st):
        """fresh readings of the own tail: [(state, value)].
        Thieves move the tail up to the split they see.  After the owner lowered the split they may
        still see the old one, until a full fence; a reading after that fence is final when it is
        not below the new split."""
        lo, hi = st.g["tail"]
        if hi is not None and lo == hi:
            return [(st, lo)]
        t = fresh("tail", 0, M32)
        out = []
        if st.g["pend"] == 2:
            w = st.g["wsplit"]
            for below in (True, False):
                s = st.copy()
                ok = s.facts.add_ge(t - lo) and (hi is None or s.facts.add_ge(hi - t))
                ok = ok and s.facts.add_ge(w - t - 1 if below else t - w)
                if ok:
                    s.g["tail"] = (t, w) if below else (t, t)
                    s.g["pend"] = 0
                    out.append((s, t))
            return out
        st = st.copy()
        if st.facts.add_ge(t - lo) and (hi is None or st.facts.add_ge(hi - t)):
            st.g["tail"] = (t, hi)
            out.append((st, t))
        return out

    def full_fence(self, st):
        if st.g.get("pend") == 1:
            st.g["pend"] = 2

    def fence(self, I, st, ins):
        if ins.x["order"] == "seq_cst" and ins.x["scope"] != "singlethread":
            self.full_fence(st)

    def load(self, I, st, region, off, size, ty, ins):
        if region is None:
            return None
        role = syminfo(region).kw.get("role", "X")
        off = st.norm(off)
        if role == "W" and off.is_const():
            o = off.c
            if o == self.TS and size == 8 or o in (self.TAIL, self.SPLIT) and size == 4:
                if size == 4 and o == self.SPLIT:
                    return [(st, st.g["wsplit"])]
                if size == 4:
                    return self.own_tail(st)
                return [(x, self.pack(t, x.g["wsplit"])) for x, t in self.own_tail(st)]
            if o == self.MS and size == 1:
                return [(st, fresh("movesplit", 0, 255, prov=(region, off)))]
            return None
        if role == "V" and off.is_const():
            o = off.c
            if o == self.TS and size == 8:
                t = fresh("vtail", 0, M32, half="tail", of=region)
                s = fresh("vsplit", 0, M32, half="split", of=region)
                return [(st, self.pack(t, s))]
            if o in (self.TAIL, self.SPLIT) and size == 4:
                return [(st, fresh("v32", 0, M32, half="tail32" if o == self.TAIL else "split32", of=region))]
            if o in (self.AS, self.MS) and size == 1:
                return [(st, fresh("vflag", 0, 255, prov=(region, off)))]
            if o == self.lay["o_Worker_dq"] and size == 8:
                r = I.read_cell(st, region, off, size, ty, ins)
                if r:
                    return r
                v = self.ptr("VDQ", "vdq", region)
                from .absint import Cell
                st.mem[region] = list(st.mem.get(region, ())) + [Cell(off, size, v, True)]
                return [(st, v)]
            return None
        if role in ("DQ", "VDQ", "T") and size == 8:
            f = self.field(st, role, off)
            if f == self.THIEF:
                return [(st, self.ptr("V", "thief", region, lo=0, off=off))]
        if role.startswith("G:"):
            nm = role[2:]
            if off.is_const() and size == 8:
                if nm == self.warrname and off.c == 0:
                    return self.typed(I, st, region, off, size, ty, ins, "WARR")
                if nm == "lace_newframe" and off.c == self.lay["o_nf_t"]:
                    return [(st, self.ptr("T", "newframe", region, lo=0))]
                if nm == self.extname and off.c == 0:
                    return [(st, self.ptr("ET", "ext", region, lo=0))]
                if nm == "current_worker" and off.c == 0:
                    return None
        if role == "WARR" and size == 8:
            return self.typed(I, st, region, off, size, ty, ins, "V")
        if role == "ET" and size == 8 and off.is_const():
            return self.typed(I, st, region, off, size, ty, ins, "T")
        return None

    def typed(self, I, st, region, off, size, ty, ins, role):
        r = I.read_cell(st, region, off, size, ty, ins)
        if r:
            return r
        v = self.ptr(role, role.lower(), region, lo=0 if role == "V" else 1, off=off)   # a worker that is not there yet
        from .absint import Cell
        st.mem[region] = list(st.mem.get(region, ())) + [Cell(off, size, v, True)]
        return [(st, v)]

    def field(self, st, role, off):
        """offset within a task slot"""
        S = self.S
        if role == "T":
            return off.c if off.is_const() else None
        if all(v % S == 0 for _, v in off.t):
            return off.c % S
        return None

    def ptr(self, role, name, region, lo=1, off=None):
        return fresh(name, lo, None, ptr=True, role=role, prov=(region, off))

    def pack(self, lo, hi):
        return lo + hi * (1 << 32)

    def volatile(self, I, st, region, off, size, ins):
        if ins is None:
            return False
        role = syminfo(region).kw.get("role", "X")
        if role.startswith("L:"):
            return region in st.esc and ins.op in ("load", "rmw", "cmpxchg") and \
                (ins.op != "load" or ins.x["atomic"])
        if role in ("P", "W", "DQ"):
            return False
        at = ins.op in ("rmw", "cmpxchg") or ins.op in ("load", "store") and ins.x["atomic"]
        return bool(at)

    def store(self, I, st, region, off, size, val, ins):
        if region is None:
            return None
        role = syminfo(region).kw.get("role", "X")
        off = st.norm(off)
        if role == "W" and off.is_const():
            o = off.c
            if o == self.TS and size == 8:
                p = I.pack_split(st, val, 32)
                if p is None:
                    lo, hi = fresh("lo", 0, M32), fresh("hi", 0, M32)
                else:
                    lo, hi = p
                old = st.g["tail"]
                st.emit("owntail", ins, val=lo, old=old, wsplit=st.g["wsplit"], pend=st.g["pend"])
                st.g["tail"] = (lo, lo)
                self.set_split(I, st, hi, ins, reset=lo)
                return [st]
            if o == self.TAIL and size == 4:
                self.set_tail(st, val, ins)
                return [st]
            if o == self.SPLIT and size == 4:
                self.set_split(I, st, val, ins)
                if ins.x["order"] == "seq_cst":
                    self.full_fence(st)
                return [st]
        if role in ("V",) and off.is_const() and off.c in (self.AS, self.MS):
            return [st]
        return None

    def set_tail(self, st, v, ins=None):
        lo, hi = st.g["tail"]
        st.emit("owntail", ins, val=v, old=(lo, hi), wsplit=st.g["wsplit"], pend=st.g["pend"])
        st.g["tail"] = (v, v)
        self.window(st)

    def window(self, st):
        """thieves may move the tail up to the split"""
        lo, hi = st.g["tail"]
        w = st.g["wsplit"]
        if hi is None or st.facts.implies_ge(hi - w):
            return
        st.g["tail"] = (lo, w if st.facts.implies_ge(w - hi) else None)

    def set_split(self, I, st, v, ins, reset=None):
        old = st.g["wsplit"]
        st.g["wsplit"] = v
        st.emit("ownsplit", ins, val=v, old=old, whole=reset is not None, tail=st.g["tail"])
        lo, hi = st.g["tail"]
        if reset is None and hi != lo and (hi is None or not st.facts.implies_ge(v - hi)):
            st.g["pend"] = 1
        elif reset is not None or hi == lo:
            st.g["pend"] = 0
        self.window(st)

    def rmw(self, I, st, region, off, size, op, val, ins):
        if region is None:
            return None
        role = syminfo(region).kw.get("role", "X")
        off = st.norm(off)
        if role == "W" and off.is_const() and off.c == self.SPLIT and size == 4:
            old = st.g["wsplit"]
            new = old + val if op == "add" else old - val if op == "sub" else val if op == "xchg" else fresh("rmw")
            st.g["wsplit"] = old
            self.set_split(I, st, new, ins)
            if ins.x["order"] == "seq_cst":
                self.full_fence(st)
            return [(st, old, new)]
        if role in ("DQ", "VDQ", "T") and self.field(st, role, off) == self.THIEF and size == 8 and op == "xchg":
            old = self.ptr("V", "thief", region, lo=0, off=off)
            I.write_cell(st, region, off, 8, val)
            return [(st, old, val)]
        if role == "G:" + self.extname and op == "xchg":
            old = self.ptr("ET", "ext", region, lo=0)
            return [(st, old, val)]
        return None

    def cmpxchg(self, I, st, region, off, size, exp, new, ins):
        if region is None:
            return None
        role = syminfo(region).kw.get("role", "X")
        if role == "G:lace_newframe":
            s1, s2 = st.copy(), st.copy()
            old = self.ptr("T", "newframe", region, lo=0)
            if not ins.x["weak"]:
                s2.facts.add_ne(old - exp)
            return [(s1, exp, True), (s2, old, False)]
        if role == "G:" + self.extname:
            s1, s2 = st.copy(), st.copy()
            old = self.ptr("ET", "ext", region, lo=0)
            return [(s1, exp, True), (s2, old, False)]
        if role == "V" and size == 8:
            s1, s2 = st.copy(), st.copy()
            t = fresh("vtail", 0, M32, half="tail", of=region)
            s = fresh("vsplit", 0, M32, half="split", of=region)
            return [(s1, exp, True), (s2, self.pack(t, s), False)]
        return None

    # ------------------------------------------------------------- calls
    def is_boundary(self, st, name):
        return name in self.boundaries

    def separate(self, I, st, name, args):
        """worker code called inside a loop is analysed on its own"""
        if not self.light or not I.loopdepth or len(args) < 2 or not isinstance(args[0], Lin) or \
                not isinstance(args[1], Lin) or st.norm(args[0]).is_const():
            return False
        if "P" in st.g:
            if st.norm(args[0]) != sym(st.g["P"]) or I.split(st, args[1])[0] != st.g["D"]:
                return False
        else:
            # the thread that just made itself a worker
            a = I.global_addr(self.tls) if self.tls in I.mod.globals else None
            me = self.getcell(st, a.t[0][0], 0, 8) if a is not None else None
            if not isinstance(me, Lin) or st.norm(args[0] - me) != ZERO:
                return False
        I.modular.add(name)
        return True

    def is_user(self, name):
        return name.startswith(self.ubprefix)

    LOCKING = {"pthread_mutex_lock", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_mutex_trylock"}

    def call(self, I, st, name, args, ins):
        f = I.mod.functions[name]
        if name == POSITION:
            st.emit("position", ins, val=st.norm(args[0]))
            return [(st, None)]
        if name == "lace_get_head" and "H" in st.g:
            st.emit("call", ins, name=name, args=args, ret=st.g["H"])
            return [(st, st.g["H"])]
        onworker = "P" in st.g and len(args) >= 2 and isinstance(args[0], Lin) and st.norm(args[0]) == sym(st.g["P"])
        if self.is_user(name) or name in self.boundaries or name in I.modular or (onworker and not f.noreturn):
            st.emit("exec" if self.is_user(name) else "call", ins, name=name, args=args, ret=None, target=None)
            ev = st.ev[1]
            rv = I.ret_value(ins, f)
            ev.d["ret"] = rv
            if name in ("lace_barrier",):
                return [(st, rv)]
            for a in args:
                if isinstance(a, Lin):
                    b, _ = I.split(st, a)
                    if b is not None and (I.role(b) or "").startswith("L:"):
                        I.escape(st, b)
                        I.forget(st, b)
            if onworker:
                return [(s, rv) for s in self.run_others(I, st, args[1])]
            return [(st, rv)]
        if name in self.LOCKING:
            st.emit("call", ins, name=name, args=args, ret=None)
            rv = I.ret_value(ins, f)
            st.ev[1].d["ret"] = rv
            for r in list(st.mem):
                role = I.role(r) or ""
                if role.startswith("G:") and role[2:] in self.lockvol:
                    I.forget(st, r)
            return [(st, rv)]
        return None

    def icall(self, I, st, target, args, ins):
        st.emit("exec", ins, name=None, target=target, args=args, ret=None)
        ev = st.ev[1]
        rv = I.ret_value(ins)
        ev.d["ret"] = rv
        for a in args:
            if isinstance(a, Lin):
                b, o = I.split(st, a)
                if b is None:
                    continue
                r = I.role(b) or ""
                if r.startswith("L:"):
                    I.escape(st, b)
                    I.forget(st, b)
                elif r in ("VDQ", "T"):
                    pass
        if "P" in st.g and len(args) >= 2 and isinstance(args[0], Lin) and st.norm(args[0]) == sym(st.g["P"]):
            return [(s, rv) for s in self.run_others(I, st, args[1])]
        return [(st, rv)]

    def run_others(self, I, st, head):
        """effect of running arbitrary (well behaved) task code on this worker above position `head`:
        the deque below `head` keeps its tasks, may be stolen from / shared further, and the queue
        invariant holds again with the same head.  Two outcomes: not all stolen / all stolen."""
        hc = self.index_of(I, st, head)
        out = []
        for s in (self.queue_unknown(st) if self.light else self.queue_states(st, hc)):
            D = s.g["D"]
            # slots above head are free again
            if hc is not None:
                s.mem[D] = [c for c in s.mem.get(D, ()) if c.size and s.facts.implies_ge(hc * self.S - c.off - c.size)]
            else:
                s.mem.pop(D, None)
            # memory of stolen tasks, globals and other threads' data may have changed
            for r in list(s.mem):
                role = I.role(r) or "X"
                if role in ("V", "VDQ", "T", "ET", "X"):
                    if role == "V":
                        s.mem[r] = [c for c in s.mem[r] if c.off == const(self.lay["o_Worker_dq"])]
                    else:
                        s.mem.pop(r)
                elif role.startswith("G:") and role[2:] not in self.stable:
                    s.mem.pop(r)
            s.emit("resumed", None, head=head)
            s.g["hc"] = hc
            out.append(s)
        return out

    def index_of(self, I, st, ptr):
        b, off = I.split(st, ptr)
        if b == st.g["D"] and st.norm(off).divisible(self.S):
            return st.norm(off).div(self.S)
        return None

    def queue_cells(self, st):
        """(P.split index or None, P.allstolen, W.allstolen)"""
        g = st.g
        ps = self.getcell(st, g["P"], self.PSPLIT, 8)
        s = None
        if isinstance(ps, Lin):
            d = st.norm(ps - sym(g["D"]))
            if d.divisible(self.S):
                s = d.div(self.S)
        return s, self.getcell(st, g["P"], self.PAS, 1), self.getcell(st, g["W"], self.AS, 1)

    def queue_ok(self, st, hc):
        """does the queue invariant hold with the owner's head at index hc?  '' or what fails"""
        f = st.facts
        s, pa, wa = self.queue_cells(st)
        lo, hi = st.g["tail"]
        w = st.g["wsplit"]
        if s is None:
            return "private split pointer unknown"
        if not isinstance(pa, Lin) or not isinstance(wa, Lin):
            return "allstolen flags unknown"
        if not f.implies_eq(pa - wa):
            return "private and public allstolen differ"
        if f.implies_eq(pa):
            if not f.implies_ge(hc - s):
                return "split above head while not all stolen"
            if not f.implies_eq(w - s):
                return "private and public split differ"
            if hi is None or not f.implies_ge(w - hi):
                return "tail may exceed split while not all stolen"
            return ""
        if f.implies_ge(pa - 1):
            if not f.implies_ge(s - hc):
                return "split below head while all stolen"
            if not f.implies_ge(lo - w):
                return "tasks can still be stolen while all stolen"
            if not f.implies_ge(lo - hc):
                return "tail below head while all stolen"
            return ""
        return "allstolen flag undetermined"

    def queue_unknown(self, st):
        """nothing is known about the worker's own queue (analyses that do not look at it)"""
        s = st.copy()
        g = s.g
        s.mem[g["P"]] = [c for c in s.mem.get(g["P"], ()) if c.off.c in (self.PDQ, self.PEND, self.PPUB, self.PID)]
        s.mem[g["W"]] = [c for c in s.mem.get(g["W"], ()) if c.off.c not in (self.AS, self.MS)]
        s.g["pend"] = 0
        s.g["wsplit"] = fresh("wsplit?", 0, M32)
        s.g["tail"] = (ZERO, None)
        return [s]

    def queue_states(self, st, hc):
        """queue states that task code running above index hc can leave behind"""
        g = st.g
        D, S = g["D"], self.S
        out = []
        was = self.getcell(st, g["P"], self.PAS, 1)
        was = was.c if isinstance(was, Lin) and was.is_const() else None
        for as1 in (0, 1):
            s = st.copy()
            sp = newsym("s", 0, (1 << 31) - 1)
            ok = s.facts.add_ge(sym(g["e"]) - sym(sp))
            if hc is None:
                pass
            elif as1:
                ok = ok and s.facts.add_ge(sym(sp) - hc)
            else:
                ok = ok and s.facts.add_ge(hc - sym(sp))
                if was == 1:
                    # a queue that was all stolen and got a new shared part: tail = split = head
                    ok = ok and s.facts.add_eq(sym(sp) - hc)
            if not ok:
                continue
            s.mem[g["P"]] = [c for c in s.mem.get(g["P"], ()) if c.off.c in
                             (self.PDQ, self.PEND, self.PPUB, self.PID)]
            s.mem[g["W"]] = [c for c in s.mem.get(g["W"], ()) if c.off.c not in (self.AS, self.MS)]
            self.cell(s, g["P"], self.PSPLIT, 8, sym(D) + sym(sp) * S)
            self.cell(s, g["P"], self.PAS, 1, const(as1))
            self.cell(s, g["W"], self.AS, 1, const(as1))
            s.g["pend"] = 0
            if as1:
                ws = newsym("ws", 0, (1 << 31) - 1)
                tl = newsym("tl", 0, (1 << 31) - 1)
                s.g["wsplit"] = sym(ws)
                s.g["tail"] = (sym(tl), sym(tl))
                if not s.facts.add_ge(sym(tl) - sym(ws)) or hc is not None and not s.facts.add_ge(sym(tl) - hc):
                    continue
            else:
                s.g["wsplit"] = sym(sp)
                if was == 1:
                    s.g["tail"] = (sym(sp), sym(sp))
                else:
                    lo = st.g["tail"][0]
                    s.g["tail"] = (lo, sym(sp))
                    if not s.facts.add_ge(sym(sp) - lo):
                        continue
            out.append(s)
        return out

    # ---- loops
    def loop_contract(self, I, st, cur, backs):
        if "P" not in st.g or cur == "lost":
            return cur
        if self.light:
            return "lost" if backs else cur
        ch = False
        for b, W0 in backs:
            if b.g["wsplit"] != W0.g["wsplit"] or b.g["tail"] != W0.g["tail"] or \
               self.queue_cells(b) != self.queue_cells(W0):
                ch = True
        if not ch:
            return cur
        if cur is None:
            hc = None
            for b, W0 in backs:
                h = b.g["hc"]
                if h is None or hc is not None and b.norm(hc - h) != ZERO:
                    continue
                hc = h
            if hc is None or any(x > len(st.facts.sub) + 10 ** 9 for x in hc.syms()):
                return "lost"
            cur = ("head", hc)
            return cur
        hc = cur[1]
        for b, W0 in backs:
            if self.queue_ok(b, hc):
                return "lost"
        return cur

    def loop_queue(self, I, W, contract):
        if contract == "lost":
            if self.light:
                return self.queue_unknown(W)
            W.g["wsplit"] = fresh("wsplit?", 0, M32)
            W.g["tail"] = (ZERO, None)
            W.g["pend"] = 0
            return [W]
        # the entry state itself must be one of the contract's states
        if self.queue_ok(W, contract[1]):
            return self.loop_queue(I, W, "lost")
        return self.queue_states(W, contract[1])

    def in_contract(self, st, region, off, contract):
        if contract == "lost":
            return False
        g = st.g
        return (region == g["P"] and off.is_const() and off.c in (self.PSPLIT, self.PAS)) or \
               (region == g["W"] and off.is_const() and off.c in (self.AS, self.MS))
