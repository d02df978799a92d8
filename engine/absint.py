"""Trace-partitioning abstract interpreter over LLVM IR.

Abstract state = registers and memory cells holding affine terms, plus a conjunction of affine
facts (poly.Facts) and the ordered list of shared-memory / call events of the trace partition.
Control-flow splits partition the traces; loops are closed by widening to an inductive state
(constant-step acceleration, gcd strides, Houdini-filtered bounds), so every path of any length
is covered by finitely many abstract traces.  Calls to defined functions are analysed in place.
"""
from .poly import Lin, const, sym, fresh, newsym, syminfo, Facts, ZERO, SYMS
from . import ir
from math import gcd


class AnalysisError(Exception):
    pass


class BoolV:
    __slots__ = ("k", "a", "b", "pred", "w")

    def __init__(self, k, a, b=None, pred=None, w=64):
        self.k, self.a, self.b, self.pred, self.w = k, a, b, pred, w

    def __eq__(self, o):
        return isinstance(o, BoolV) and (self.k, self.a, self.b, self.pred) == (o.k, o.a, o.b, o.pred)

    def __hash__(self):
        return hash((self.k, self.pred))


class Cell:
    __slots__ = ("off", "size", "val", "init")

    def __init__(self, off, size, val, init=False):
        self.off, self.size, self.val, self.init = off, size, val, init


class Ev:
    """one event of an abstract trace"""
    __slots__ = ("k", "d", "ins", "stack", "facts")

    def __init__(self, k, ins, stack, d, facts=None):
        self.k, self.ins, self.stack, self.d, self.facts = k, ins, stack, d, facts

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def __repr__(self):
        return "%s%r" % (self.k, {k: v for k, v in self.d.items() if k != "iters"})


# what the environment promises about library functions (a loaded topology has each kind of object)
RANGES = {"hwloc_get_type_depth": (0, 1000), "hwloc_get_nbobjs_by_depth": (1, 65535)}
for _f in ("sem_init", "sem_destroy", "sem_post", "sem_wait", "sem_trywait", "sem_timedwait", "munmap"):
    RANGES[_f] = (-1, 0)
for _f in ("create", "detach", "join", "mutex_init", "mutex_lock", "mutex_trylock", "mutex_unlock", "mutex_destroy", "cond_init",
           "cond_wait", "cond_signal", "cond_broadcast", "cond_destroy", "attr_init", "attr_destroy", "attr_setdetachstate",
           "attr_setstacksize", "attr_setscope", "key_create", "setspecific"):
    RANGES["pthread_" + _f] = (0, 4095)
SNAP = {"exec", "call", "store", "rmw", "cas", "ownsplit", "owntail"}
SNAPST = {"exec", "call", "cas"}


class State:
    __slots__ = ("facts", "mem", "ev", "env", "esc", "g", "stack", "nev")

    def __init__(self):
        self.facts = Facts()
        self.mem = {}
        self.ev = None
        self.nev = 0
        self.env = {}
        self.esc = frozenset()
        self.g = {}
        self.stack = ()

    def copy(self):
        s = State.__new__(State)
        s.facts = self.facts.copy()
        s.mem = dict(self.mem)          # inner lists are replaced, never mutated
        s.ev = self.ev
        s.nev = self.nev
        s.env = dict(self.env)
        s.esc = self.esc
        s.g = dict(self.g)
        s.stack = self.stack
        return s

    def emit(self, k, ins, **d):
        e = Ev(k, ins, self.stack, d)
        if k in SNAP:
            e.facts = self.facts.copy()
            if k in SNAPST:
                d["st"] = self.copy()
        self.ev = (self.ev, e)
        self.nev += 1
        return e

    def trace(self):
        out = []
        p = self.ev
        while p is not None:
            out.append(p[1])
            p = p[0]
        out.reverse()
        return out

    def norm(self, l):
        return self.facts.norm(l) if isinstance(l, Lin) else l


def nbits(t):
    return t.n if t.k == "int" else 64


class Model:
    """default environment model; analyses override the hooks"""

    def __init__(self):
        pass

    def is_boundary(self, st, name):
        return False

    def separate(self, I, st, name, args):
        return False

    # return None for default treatment, else list of (state, value)
    def load(self, I, st, region, off, size, ty, ins):
        return None

    def store(self, I, st, region, off, size, val, ins):
        return None

    def rmw(self, I, st, region, off, size, op, val, ins):
        return None

    def cmpxchg(self, I, st, region, off, size, exp, new, ins):
        return None

    def call(self, I, st, name, args, ins):
        return None

    def icall(self, I, st, target, args, ins):
        return None

    def fence(self, I, st, ins):
        pass

    def initial(self, I, st, region, off, size, ty, ins):
        """value of a not yet known stable cell"""
        return None

    def volatile(self, I, st, region, off, size, ins):
        return False

    # loop heads: a model may describe its own part of the state by a contract instead of values
    def loop_contract(self, I, st, cur, backs):
        return cur

    def loop_queue(self, I, W, contract):
        return [W]

    def in_contract(self, st, region, off, contract):
        return False


PURE = {"llvm.dbg.declare", "llvm.dbg.value", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0",
        "llvm.assume", "llvm.donothing", "llvm.stackrestore", "llvm.stackrestore.p0", "llvm.prefetch.p0"}


# objects of the C library that only the library changes: bytes changed by functions with that prefix
LIBOBJ = {"sem_": 32, "pthread_mutex_": 40, "pthread_cond_": 48, "pthread_attr_": 56}


class Interp:
    def __init__(self, mod, model, max_paths=6000):
        self.mod = mod
        self.model = model
        self.L = mod.layout
        self.glob = {}
        self.globname = {}
        self.max_paths = max_paths
        self.cuts = []            # traces that end at a loop back edge
        self.dead = []            # traces that end in a noreturn call / unreachable
        self.record = True
        self.stats = dict(instrs=0, forks=0, loops=0, functions=set(), paths=0, loads=0, stores=0)
        self.stored_globals = None
        self._depth = 0
        self.loopdepth = 0
        self.modular = set()      # worker functions called inside loops, to be analysed on their own

    # ------------------------------------------------------------------ globals
    def global_addr(self, name):
        if name not in self.glob:
            s = newsym("&" + name, 1, None, ptr=True, role="G:" + name, obj=("glob", name), nonnull=True)
            self.glob[name] = s
            self.globname[s] = name
        return sym(self.glob[name])

    def func_of(self, v):
        """name of the function a value denotes, or None"""
        if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            o = syminfo(v.t[0][0]).kw.get("obj")
            if o and o[0] == "glob" and o[1] in self.mod.functions:
                return o[1]
        return None

    def never_stored(self, name):
        """globals of this module that no instruction writes or leaks"""
        if self.stored_globals is None:
            w = set()

            def mark(v):
                if v[0] == "glob":
                    w.add(v[1])
                elif v[0] == "gep":
                    for _, o in v[2]:
                        mark(o)
                elif v[0] == "cast":
                    mark(v[3])
                elif v[0] == "agg":
                    for _, o in v[1]:
                        mark(o)
            for f in self.mod.functions.values():
                for b in f.blocks.values():
                    for i in b.instrs:
                        if i.op == "load":
                            continue
                        if i.op in ("store", "rmw", "cmpxchg"):
                            for o in i.ops:
                                mark(o)
                        elif i.op == "call":
                            for _, o in i.ops:
                                mark(o)
                        elif i.op == "phi":
                            for o, _ in i.x["inc"]:
                                mark(o)
                        elif i.op == "gep":
                            for _, o in i.ops:
                                mark(o)
                        else:
                            for o in i.ops:
                                if isinstance(o, tuple) and o and isinstance(o[0], str):
                                    mark(o)
            for g in self.mod.globals.values():
                if g.init:
                    mark(g.init)
            self.stored_globals = w
        g = self.mod.globals.get(name)
        return g is not None and not g.external and (g.const or (g.internal and name not in self.stored_globals))

    def constant_at(self, name, off, size):
        """value of an immutable global at a byte offset"""
        g = self.mod.globals[name]

        def walk(t, v, o):
            t = self.L.resolve(t)
            if v is None:
                return None
            if v[0] == "zero":
                return 0
            if o == 0 and t.k == "int" and self.L.size(t) == size and v[0] == "int":
                return v[1]
            if o == 0 and t.k == "ptr" and v[0] == "null":
                return 0
            if t.k == "struct" and v[0] == "agg":
                for i in range(len(t.el)):
                    fo, ft = self.L.field(t, i)
                    if fo <= o < fo + self.L.size(ft):
                        return walk(ft, v[1][i][1], o - fo)
            if t.k == "arr" and v[0] == "agg":
                es = self.L.size(t.el)
                if o // es < len(v[1]):
                    return walk(t.el, v[1][o // es][1], o % es)
            return None
        return walk(g.ty, g.init, off)

    # ------------------------------------------------------------------ operands
    def val(self, st, v, ty):
        k = v[0]
        if k == "reg":
            try:
                return st.env[v[1]]
            except KeyError:
                raise AnalysisError("register %s" % v[1])
        if k == "int":
            return const(v[1])
        if k == "null" or k == "zero":
            t = self.L.resolve(ty)
            if t.k in ("struct", "arr"):
                return [self.val(st, ("zero",), e) for e in (t.el if t.k == "struct" else [t.el] * t.n)]
            return ZERO
        if k == "undef":
            t = self.L.resolve(ty)
            if t.k in ("struct",):
                return [self.val(st, ("undef",), e) for e in t.el]
            return fresh("undef")
        if k == "fp":
            return fresh("fp:" + v[1])
        if k == "glob":
            return self.global_addr(v[1])
        if k == "gep":
            base = self.val(st, v[2][0][1], ir.PTR)
            return self.gep(st, v[1], base, [(t, self.val(st, o, t)) for t, o in v[2][1:]])
        if k == "cast":
            return self.val(st, v[3], v[2])
        if k == "bin":
            a, b = self.val(st, v[3], v[2]), self.val(st, v[4], v[2])
            if v[1] == "add":
                return a + b
            if v[1] == "sub":
                return a - b
            return fresh("cexpr")
        if k == "agg":
            return [self.val(st, o, t) for t, o in v[1]]
        if k == "cstr":
            return fresh("cstr")
        raise AnalysisError("operand %r" % (v,))

    def gep(self, st, srcty, base, idx):
        t = srcty
        addr = base
        for i, (it, v) in enumerate(idx):
            if i == 0:
                addr = addr + self.scaled(st, v, self.L.size(t))
            else:
                r = self.L.resolve(t)
                if r.k == "struct":
                    if not v.is_const():
                        raise AnalysisError("gep")
                    off, t = self.L.field(r, v.c)
                    addr = addr + off
                elif r.k in ("arr", "vec"):
                    addr = addr + self.scaled(st, v, self.L.size(r.el))
                    t = r.el
                else:
                    raise AnalysisError("gep type")
        return addr

    def scaled(self, st, v, k):
        if isinstance(v, BoolV):
            raise AnalysisError("bool index")
        return v * k

    # ------------------------------------------------------------------ conditions
    def assume(self, st, b, truth):
        """list of states in which BoolV b has the given truth value"""
        if isinstance(b, Lin):
            b = BoolV("cmp", b, ZERO, "ne", 1)
        if b.k == "not":
            return self.assume(st, b.a, not truth)
        if b.k in ("and", "or"):
            conj = (b.k == "and") == truth
            if conj:
                out = []
                for s in self.assume(st, b.a, truth):
                    out += self.assume(s, b.b, truth)
                return out
            out = self.assume(st.copy(), b.a, truth)
            for s in self.assume(st, b.a, not truth):
                out += self.assume(s, b.b, truth)
            return out
        if b.k == "opaque":
            return [st]
        if b.k == "xor":
            out = []
            for ta in (True, False):
                for s in self.assume(st.copy(), b.a, ta):
                    out += self.assume(s, b.b, ta != truth)
            return out
        pred = b.pred
        if not truth:
            pred = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
                    "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}[pred]
        a, c = b.a, b.b
        if isinstance(a, BoolV) or isinstance(c, BoolV):
            return self.assume_boolcmp(st, a, c, pred)
        if pred in ("eq", "ne"):
            d = st.norm(a - c)
            # negative constants against values known to be unsigned
            for x, y, s in ((a, c, 1), (c, a, -1)):
                if y.is_const() and y.c < 0 and (b.w < 64 or b.w == 64 and self.isptr(st.norm(x))) and st.facts.implies_ge(x):
                    d = st.norm((a - c) + s * (-(1 << b.w)))
            s = st.copy()
            if pred == "eq":
                return [s] if s.facts.add_eq(d) else []
            return [s] if s.facts.add_ne(d) else []
        out = []
        for s, (x, y) in self.norm_pair(st, a, c, b.w, pred[0] == "s"):
            d = x - y
            p = pred[1:]
            e = {"lt": -d - 1, "le": -d, "gt": d - 1, "ge": d}[p]
            s = s.copy()
            if s.facts.add_ge(e):
                out.append(s)
        return out

    def assume_boolcmp(self, st, a, c, pred):
        # comparison of i1 values
        out = []
        if isinstance(a, Lin):
            a, c = c, a
        if isinstance(c, Lin):
            if not c.is_const():
                raise AnalysisError("bool compare")
            want = bool(c.c & 1)
            return self.assume(st, a, want if pred == "eq" else not want)
        for ta in (True, False):
            for s in self.assume(st.copy(), a, ta):
                out += self.assume(s, c, ta if pred == "eq" else not ta)
        return out

    def range_split(self, st, v, w, signed):
        """[(state, value)] with value the (un)signed reading of the w-bit quantity v"""
        if isinstance(v, BoolV):
            return self.bool_int(st, v)
        v = st.norm(v)
        m = 1 << w
        lo, hi = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
        if v.is_const():
            c = v.c % m
            if signed and c > hi:
                c -= m
            return [(st, const(c))]
        f = st.facts
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            inf = syminfo(v.t[0][0])
            if inf.kw.get("ptr") and not signed:
                return [(st, v)]
            raw = inf.kw.get("raw")
            if raw is not None and raw >= 1 and raw <= w:
                s = st.copy()
                if s.facts.add_ge(v - lo) and s.facts.add_ge(const(hi) - v):
                    return [(s, v)]
        if self.isptr(v) and not signed:
            return [(st, v)]
        if f.implies_ge(v - lo) and f.implies_ge(const(hi) - v):
            return [(st, v)]
        out = []
        s = st.copy()
        if s.facts.add_ge(v - lo) and s.facts.add_ge(const(hi) - v):
            out.append((s, v))
        s = st.copy()
        if s.facts.add_ge(const(lo - 1) - v):
            out.append((s, v + m))
        s = st.copy()
        if s.facts.add_ge(v - (hi + 1)):
            out.append((s, v - m))
        self.stats["forks"] += len(out) - 1
        return out

    def isptr(self, v):
        n = 0
        for s, k in v.t:
            if syminfo(s).kw.get("ptr"):
                if k != 1:
                    return False
                n += 1
        return n == 1

    def norm_pair(self, st, a, c, w, signed):
        if w >= 64 and (self.isptr(st.norm(a)) or self.isptr(st.norm(c))) and not signed:
            # pointer comparison: difference only
            return [(st, (a, c))]
        out = []
        for s, x in self.range_split(st, a, w, signed):
            for s2, y in self.range_split(s, c, w, signed):
                out.append((s2, (x, y)))
        return out

    def bool_int(self, st, b):
        if isinstance(b, Lin):
            return [(st, b)]
        out = []
        for s in self.assume(st.copy(), b, True):
            out.append((s, const(1)))
        for s in self.assume(st.copy(), b, False):
            out.append((s, ZERO))
        return out

    def ints(self, st, v):
        """ensure integer (Lin) reading"""
        if isinstance(v, BoolV):
            return self.bool_int(st, v)
        return [(st, v)]

    # ------------------------------------------------------------------ memory
    def split(self, st, addr):
        """(region symbol or None, offset)"""
        a = st.norm(addr)
        base = None
        for s, k in a.t:
            if syminfo(s).kw.get("ptr") and k == 1:
                if base is not None:
                    # prefer an object over an unknown pointer
                    if syminfo(base).kw.get("obj"):
                        continue
                base = s
        if base is None:
            return None, a
        return base, a - sym(base)

    def role(self, region):
        return None if region is None else syminfo(region).kw.get("role", "X")

    def alias(self, st, o1, s1, o2, s2):
        """'same', 'disjoint', 'may', or ('in', delta) when [o2,o2+s2) lies at constant delta"""
        d = st.norm(o2 - o1)
        if d.is_const():
            if d.c == 0 and s1 == s2:
                return "same"
            if d.c >= s1 or d.c + s2 <= 0:
                return "disjoint"
            return ("in", d.c)
        g = 0
        for _, k in d.t:
            g = gcd(g, k)
        r = d.c % g
        if r >= s1 and r + s2 <= g:
            return "disjoint"
        if st.facts.implies_ge(d - s1) or st.facts.implies_ge(-d - s2):
            return "disjoint"
        if r == 0 or True:
            if st.facts.implies_eq(d):
                return "same" if s1 == s2 else ("in", 0)
        return "may"

    def read_cell(self, st, region, off, size, ty, ins):
        """list of (state, value) for a stable location"""
        cells = st.mem.get(region, ())
        may = False
        parts = {}
        for c in cells:
            if c.size is None:                      # fill: [off, off+len) = byte value
                lo, ln, v = c.val
                d = off - lo
                if st.facts.implies_ge(d) and st.facts.implies_ge(ln - d - size):
                    val = v if v == 0 else None
                    if val == 0:
                        # later cells take precedence; they were removed on fill
                        fillhit = True
                        res = self._exact(st, cells, off, size)
                        if res is not None:
                            return res
                        if all(x.size is None or self.alias(st, x.off, x.size, off, size) == "disjoint" for x in cells):
                            return [(st, ZERO)]
                    may = True
                elif not (st.facts.implies_ge(-d - size) or st.facts.implies_ge(d - ln)):
                    may = True
                continue
            r = self.alias(st, c.off, c.size, off, size)
            if r == "same":
                return [(st, c.val)]
            if r == "disjoint":
                continue
            if r == "may":
                may = True
                continue
            parts[r[1]] = c
        if parts:
            # load inside a larger cell
            for dlt, c in parts.items():
                if dlt >= 0 and dlt + size <= c.size:
                    return self.extract(st, c.val, dlt * 8, size * 8, c.size * 8)
            # load covering smaller cells (little endian)
            want = 0
            acc = [(st, ZERO)]
            ok = True
            for dlt in sorted(parts, reverse=True):
                c = parts[dlt]
                if -dlt != want:
                    ok = False
                    break
                nxt = []
                for s, a in acc:
                    for s2, x in self.ints(s, c.val):
                        for s3, y in self.range_split(s2, x, c.size * 8, False):
                            nxt.append((s3, a + y * (1 << (8 * want))))
                acc = nxt
                want += c.size
            if ok and want == size:
                return acc
            return [(st, self.fresh_load(region, off, size, ty, ins))]
        if may:
            return [(st, self.fresh_load(region, off, size, ty, ins))]
        return None

    def _exact(self, st, cells, off, size):
        for c in cells:
            if c.size is not None and self.alias(st, c.off, c.size, off, size) == "same":
                return [(st, c.val)]
        return None

    def extract(self, st, v, sh, w, total):
        """bits [sh, sh+w) of a total-bit value"""
        if isinstance(v, BoolV):
            v2 = self.bool_int(st, v)
            out = []
            for s, x in v2:
                out += self.extract(s, x, sh, w, total)
            return out
        out = []
        for s, hi in self.shift_right(st, v, sh, total):
            out += self.trunc(s, hi, w, total)
        return out

    def low_part(self, v, m):
        """affine term congruent to v modulo m with small coefficients"""
        t = []
        for s, c in v.t:
            r = c % m
            if r > m // 2:
                r -= m
            if r:
                t.append((s, r))
        return Lin(tuple(t), v.c % m)

    def pack_split(self, st, v, k):
        """v = lo + 2^k * hi with lo provably in [0,2^k)?"""
        v = st.norm(v)
        m = 1 << k
        lo = self.low_part(v, m)
        f = st.facts
        for d in (0, -m, m):
            if d and not lo.t:
                break
            l = lo + d
            if f.implies_ge(l) and f.implies_ge(const(m - 1) - l):
                return l, (v - l).div(m)
        return None

    def shift_right(self, st, v, sh, w):
        if sh == 0:
            return [(st, v)]
        out = []
        for s, x in self.range_split(st, v, w, False):
            p = self.pack_split(s, x, sh)
            if p:
                out.append((s, p[1]))
            else:
                q = fresh("shr", 0, (1 << (w - sh)) - 1)
                s = s.copy()
                if s.facts.add_ge(x - q * (1 << sh)) and s.facts.add_ge(q * (1 << sh) + ((1 << sh) - 1) - x):
                    out.append((s, q))
        return out

    def trunc(self, st, v, w, srcw):
        if isinstance(v, BoolV):
            return [(st, v)]
        v = st.norm(v)
        m = 1 << w
        if v.is_const():
            return [(st, const(v.c % m if v.c >= 0 else v.c))]
        f = st.facts
        if f.implies_ge(v) and f.implies_ge(const(m - 1) - v):
            return [(st, v)]
        if f.implies_ge(v + (m >> 1)) and f.implies_ge(const((m >> 1) - 1) - v):
            return [(st, v)]
        # v = lo + 2^w*hi (exact decomposition, possibly with carry)
        lo = self.low_part(v, m)
        if not lo.t:
            return [(st, lo)]
        for d in (0, -m, m):
            l = lo + d
            if f.implies_ge(l) and f.implies_ge(const(m - 1) - l):
                return [(st, l)]
        s0 = v.t[0][0]
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and syminfo(s0).kw.get("raw", 99) <= w:
            return [(st, v)]
        # the high part does not matter for an unknown value; forget the relation
        out = []
        s = st.copy()
        if s.facts.add_ge(v) and s.facts.add_ge(const(m - 1) - v):
            out.append((s, v))
        s = st.copy()
        lost = False
        for cond in (v - m, -v - 1):
            s2 = st.copy()
            if s2.facts.add_ge(cond):
                lost = True
                out.append((s2, fresh("trunc", 0, m - 1, lossy=True)))
        return out

    def fresh_load(self, region, off, size, ty, ins):
        nm = self.role(region) or "?"
        if off.is_const():
            nm += "+%d" % off.c
        else:
            nm += "[..]"
        kw = {}
        if ty.k == "ptr":
            kw.update(ptr=True, role="X")
            return fresh("*" + nm, 0, None, prov=(region, off), ins=ins, **kw)
        if ty.k == "int" and ty.n < 64 and ty.n <= 8:
            return fresh("*" + nm, 0, (1 << ty.n) - 1, prov=(region, off), ins=ins, raw=ty.n)
        if ty.k == "int":
            return fresh("*" + nm, None, None, prov=(region, off), ins=ins, raw=ty.n)
        return fresh("*" + nm, None, None, prov=(region, off), ins=ins)

    def write_cell(self, st, region, off, size, val):
        new, lost = [], []
        for c in st.mem.get(region, ()):
            if c.size is None:
                new.append(c)         # the exact cell below shadows it for this offset
                continue
            r = self.alias(st, c.off, c.size, off, size)
            if r == "disjoint":
                new.append(c)
            elif isinstance(r, tuple):
                # partial overwrite: keep the untouched part when it is a clean half
                dlt = r[1]
                if not (dlt <= 0 and dlt + size >= c.size):
                    lost.append(c)
                if 0 <= dlt and dlt + size <= c.size and size < c.size and dlt in (0, c.size - size):
                    if isinstance(c.val, Lin):
                        if dlt == 0:
                            hi = self.extract(st, c.val, size * 8, (c.size - size) * 8, c.size * 8)
                            if len(hi) == 1:
                                st = hi[0][0]
                                new.append(Cell(c.off + size, c.size - size, hi[0][1]))
                        else:
                            lo = self.extract(st, c.val, 0, dlt * 8, c.size * 8)
                            if len(lo) == 1:
                                st = lo[0][0]
                                new.append(Cell(c.off, dlt, lo[0][1]))
            elif r == "may":
                lost.append(c)
        for x in lost:      # it may hide part of a fill, which is then no longer known
            new = [c for c in new if c.size is not None or self.apart(st, c, x.off, x.size)]
        new.append(Cell(off, size, val))
        st.mem[region] = new
        return st

    def apart(self, st, fillcell, off, size):
        lo, ln, v = fillcell.val
        d = off - lo
        return st.facts.implies_ge(-d - size) or st.facts.implies_ge(d - ln)

    def fill(self, st, region, off, ln, v):
        keep = []
        for c in st.mem.get(region, ()):
            if c.size is None:
                keep.append(c)
                continue
            d = c.off - off
            if st.facts.implies_ge(-d - c.size) or st.facts.implies_ge(d - ln):
                keep.append(c)
        keep.append(Cell(off, None, (off, ln, v)))
        st.mem[region] = keep

    def forget(self, st, region):
        st.mem.pop(region, None)
        st.g.pop(("copied", region), None)

    def do_load(self, st, addr, ty, ins, atomic=False, order=None):
        size = self.L.size(ty)
        region, off = self.split(st, addr)
        self.stats["loads"] += 1
        r = self.model.load(self, st, region, off, size, ty, ins)
        if r is None:
            r = self.default_load(st, region, off, size, ty, ins)
        out = []
        for s, v in r:
            s.emit("load", ins, region=region, off=off, size=size, val=v, order=order, atomic=atomic, addr=addr)
            out.append((s, v))
        return out

    def default_load(self, st, region, off, size, ty, ins):
        if region is None:
            return [(st, self.fresh_load(region, off, size, ty, ins))]
        name = self.globname.get(region)
        if name is not None and name in self.mod.globals and off.is_const() and self.never_stored(name):
            v = self.constant_at(name, off.c, size)
            if v is not None:
                return [(st, const(v))]
        if self.model.volatile(self, st, region, off, size, ins):
            return [(st, self.fresh_load(region, off, size, ty, ins))]
        r = self.read_cell(st, region, off, size, ty, ins)
        if r is not None:
            return r
        v = self.model.initial(self, st, region, off, size, ty, ins)
        if v is None:
            src = st.g.get(("copied", region))
            if src is not None and st.facts.implies_ge(off - src[2]) and \
                    st.facts.implies_ge(src[2] + src[3] - off - size):
                # part of a block copied from elsewhere: what was there when it was copied
                v = self.fresh_load(src[0], src[1] + off - src[2], size, ty, ins)
        if v is None:
            v = self.fresh_load(region, off, size, ty, ins)
        st.mem[region] = list(st.mem.get(region, ())) + [Cell(off, size, v, True)]
        return [(st, v)]

    def do_store(self, st, addr, ty, v, ins, atomic=False, order=None):
        size = self.L.size(ty)
        region, off = self.split(st, addr)
        self.stats["stores"] += 1
        st.emit("store", ins, region=region, off=off, size=size, val=v, order=order, atomic=atomic, addr=addr)
        r = self.model.store(self, st, region, off, size, v, ins)
        if r is not None:
            return r
        if isinstance(v, Lin):
            b, _ = self.split(st, v)
            if b is not None and self.role(b) and self.role(b).startswith("L:") and region != b:
                if not (self.role(region) or "").startswith("L:") or region in st.esc:
                    self.escape(st, b)
        if region is None:
            return [st]
        return [self.write_cell(st, region, off, size, v)]

    def escape(self, st, b):
        """local object b becomes visible to others; so do the locals it points to"""
        if b in st.esc:
            return
        st.esc = st.esc | {b}
        for c in st.mem.get(b, ()):
            if isinstance(c.val, Lin):
                b2, _ = self.split(st, c.val)
                if b2 is not None and (self.role(b2) or "").startswith("L:"):
                    self.escape(st, b2)

    # ------------------------------------------------------------------ functions
    def run_function(self, name, args, st):
        """analyse a function in place; list of (state, return value)"""
        fn = self.mod.functions[name]
        if not fn.defined:
            raise AnalysisError("no body: " + name)
        self.stats["functions"].add(name)
        if len(st.stack) > 40:
            raise AnalysisError("call depth")
        saved = st.env
        st.env = {}
        for (t, pn), a in zip(fn.params, args):
            if pn is not None:
                st.env[pn] = a
        st.stack = st.stack + (name,)
        backs, exits, rets = self.run(fn, [(fn.entry.name, None, st)], None)
        out = []
        for s, v in rets:
            s.env = dict(saved)
            s.stack = s.stack[:-1]
            out.append((s, v))
        return out

    def run(self, fn, items, loop):
        """explore from (block, prev, state) items; stops at the loop's header / leaving the loop"""
        loops = ir.loops_of(fn)
        work = list(items)
        first = loop is not None
        backs, exits, rets = [], [], []
        n = 0
        while work:
            blk, prev, st = work.pop()
            n += 1
            if n > self.max_paths * 20:
                raise AnalysisError("too many paths in " + fn.name)
            if loop is not None and not first:
                if blk == loop.header:
                    backs.append((prev, st))
                    continue
                if blk not in loop.blocks:
                    exits.append((blk, prev, st))
                    continue
            if blk in loops and not (first and loop is not None and blk == loop.header):
                ex, rt = self.run_loop(fn, loops[blk], prev, st)
                work.extend(ex)
                rets.extend(rt)
                continue
            if first:
                first = False
            for nb, s, ret in self.run_block(fn, fn.blocks[blk], prev, st):
                if nb is None:
                    rets.append((s, ret))
                else:
                    work.append((nb, blk, s))
            if len(work) + len(rets) > self.max_paths:
                raise AnalysisError("too many paths in " + fn.name)
        return backs, exits, rets

    # ---- loops
    def run_loop(self, fn, loop, prev, st):
        self.stats["loops"] += 1
        hb = fn.blocks[loop.header]
        phis = [i for i in hb.instrs if i.op == "phi"]
        init = {}
        for p in phis:
            for v, b in p.x["inc"]:
                if b == prev:
                    init[p.dst] = self.val(st, v, p.ty)
        gen = {}       # generalisation of phis: dst -> ('step', d) | ('stride', g, sym) | ('fresh', sym)
        memgen = {}    # (region, off, size) -> same
        cand = None
        rec = self.record
        k = newsym("k:%s" % fn.name, 0, None)
        headfacts = []
        final = False
        queue = None       # contract the model wants for its own part of the state at the loop head
        lostfills = set()  # fills of before the loop that it may write into
        arr = {}           # cell written at a place that moves with k -> constant: what iterations before k filled
        for rnd in range(16):
            start_id = len(SYMS.info)
            W = st.copy()
            vals = {}
            for p in phis:
                vals[p.dst] = self._gen_value(init[p.dst], gen.get(p.dst), k)
            for key, g in memgen.items():
                region, off, size = key
                if g[0] == "drop":
                    W.mem[region] = [c for c in W.mem.get(region, ()) if not (c.size == size and c.off == off)]
                    continue
                base = g[-1]
                W = self.write_cell(W, region, off, size, self._gen_value(base, g[:-1], k))
            for region in {r for r, _ in lostfills}:
                W.mem[region] = [c for c in W.mem.get(region, ()) if not (c.size is None and (region, self._fillkey(c)) in lostfills)]
            variants = [W] if queue is None else self.model.loop_queue(self, W, queue)
            self.record = final and rec
            save_cuts, save_dead = list(self.cuts), list(self.dead)
            bs, exits, rets, lasts = [], [], [], []
            for W in variants:
                mark = W.emit("loop", hb.instrs[-1], fn=fn.name, header=loop.header, iters=[], loop=loop, st0=st)
                ok = True
                for c in headfacts + self._nowrap(fn, st, phis, gen, init, vals):
                    if not W.facts.add_ge(c):
                        ok = False
                for (region, off, size), v in arr.items():
                    if v is not None:
                        self.fill(W, region, off - sym(k) * size, sym(k) * size, v)
                if not ok:
                    if queue is None:
                        raise AnalysisError("inconsistent loop facts")
                    continue
                for d, v in vals.items():
                    W.env[d] = v
                W0 = W.copy()
                mark.d["head"] = W0
                mark.d["k"] = k
                mark.d["gens"] = list(self._gsyms(gen, memgen))
                self.loopdepth += 1
                backs, ex, rt = self.run(fn, [(loop.header, None, W)], loop)
                self.loopdepth -= 1
                exits += ex
                rets += rt
                for bprev, b in backs:
                    nv = {}
                    for p in phis:
                        for v, bb in p.x["inc"]:
                            if bb == bprev:
                                nv[p.dst] = self.val(b, v, p.ty)
                    bs.append((b, nv, W0, mark))
                    lasts.append((bprev, b))
            self.record = rec
            if not final:
                self.cuts = save_cuts
            changed = False
            nq = self.model.loop_contract(self, st, queue, [(b, W0) for b, _, W0, _ in bs])
            if nq is not queue:
                queue = nq
                changed = True
            # phis
            for p in phis:
                d = p.dst
                if self._update(gen, d, init[d], vals[d], [(b, nv[d]) for b, nv, _, _ in bs], k, p.ty):
                    changed = True
            # memory
            keys = {}
            for b, _, W0, _ in bs:
                for region, cells in b.mem.items():
                    old = W0.mem.get(region, ())
                    if cells is old:
                        continue
                    for f in old:
                        if f.size is not None:
                            continue
                        moving = [c for c in cells if c.size is not None and c not in old and
                                  (k in c.off.syms() or any(x >= start_id for x in c.off.syms()))]
                        if (f not in cells or any(not self.apart(b, f, c.off, c.size) for c in moving)) and \
                                not self._own_fill(f, arr, region, k):
                            if (region, self._fillkey(f)) not in lostfills:
                                lostfills.add((region, self._fillkey(f)))
                                changed = True
                    for c in cells:
                        if c.size is None:
                            continue
                        if any(x >= start_id for x in c.off.syms()) or region >= start_id:
                            continue
                        kk = (region, c.off, c.size)
                        if queue is not None and self.model.in_contract(b, region, c.off, queue):
                            continue
                        ov = None
                        for o in old:
                            if o.size == c.size and o.off == c.off:
                                ov = o.val
                        if ov is None and c.init:
                            continue
                        if ov is not None and self._same(b, ov, c.val):
                            continue
                        if ov is None and kk not in arr and kk not in memgen:
                            arr[kk] = self._fills(bs, kk, k, loop, gen)
                            if arr[kk] is not None:
                                changed = True
                        if arr.get(kk) is not None:
                            if self._fills(bs, kk, k, loop, gen) == arr[kk]:
                                continue
                            arr[kk] = None
                            changed = True
                        # cell created inside the loop for an object local to the iteration
                        if self._iter_local(region, W0):
                            continue
                        keys.setdefault(kk, ov)
                    for o in old:     # cells that got lost (may-alias writes, havoc)
                        if o.size is None:
                            continue
                        if queue is not None and self.model.in_contract(b, region, o.off, queue):
                            continue
                        if not any(c.size == o.size and c.off == o.off for c in cells):
                            keys.setdefault((region, o.off, o.size), o.val)
                for region, old in W0.mem.items():
                    if region not in b.mem:
                        for o in old:
                            if o.size is not None:
                                keys.setdefault((region, o.off, o.size), o.val)
            for kk, ov in keys.items():
                region, off, size = kk
                vs = []
                for b, _, _, _ in bs:
                    x = None
                    for c in b.mem.get(region, ()):
                        if c.size == size and c.off == off:
                            x = c.val
                    if x is None:
                        x = "lost"
                    vs.append((b, x))
                if any(isinstance(x, str) for _, x in vs) and ov is not None:
                    if memgen.get(kk, ("",))[0] != "drop":
                        memgen[kk] = ("drop", ov)
                        changed = True
                    continue
                if self._update_mem(memgen, kk, ov, vs, k, None):
                    changed = True
            if changed:
                headfacts = []
                cand = None
                self.dead = save_dead
                continue
            # candidate bounds (Houdini)
            if cand is None:
                cand = self._candidates(st, phis, init, gen, memgen, k, bs, vals)
                headfacts = cand
                if cand:
                    self.dead = save_dead
                    continue
            keep = []
            self._phi_init = init
            for c in headfacts:
                good = True
                for b, nv, _, _ in bs:
                    if not b.facts.implies_ge(self._next(c, gen, memgen, k, b, nv, phis)):
                        good = False
                        break
                if good:
                    keep.append(c)
            if len(keep) != len(headfacts):
                headfacts = keep
                self.dead = save_dead
                continue
            # stable: one more pass whose traces count
            if rec and not final:
                final = True
                self.dead = save_dead
                continue
            if self._flagged(fn, hb, gen, [nv for _, nv, _, _ in bs]):
                # left through a flag that an iteration set: by the iteration that set it (or before the first one)
                exits = [x for x in exits if x[1] != loop.header]
                for pr, s in [(prev, st)] + lasts:
                    exits += [(nb, loop.header, x) for nb, x, _ in self.run_block(fn, hb, pr, s.copy())
                              if nb is not None and nb not in loop.blocks]
            for b, nv, _, mark in bs:
                b.emit("back", hb.instrs[-1], fn=fn.name, header=loop.header, vals=dict(nv), mark=mark)
                tr = b.trace()
                i = max(j for j, e in enumerate(tr) if e is mark)
                mark.d["iters"].append(tr[i + 1:])
                if rec:
                    self.cuts.append(b)
            if not rec:
                self.dead = save_dead
            return exits, rets
        raise AnalysisError("loop in %s at %s does not stabilise" % (fn.name, self.mod.loc(hb.instrs[-1].dbg)))

    def _flagged(self, fn, hb, gen, nvs):
        """does the header's condition hang on a flag that the iterations set"""
        term = hb.instrs[-1]
        if term.op != "br" or "cond" not in term.x:
            return False
        own = {i.dst: i for i in hb.instrs if i.dst}
        work, seen = [term.ops[0]], set()
        while work:
            v = work.pop()
            if v[0] != "reg" or v[1] in seen or v[1] not in own:
                continue
            seen.add(v[1])
            i = own[v[1]]
            if i.op == "phi":
                if gen.get(i.dst, ("",))[0] == "fresh" and \
                        all(isinstance(nv[i.dst], BoolV) or isinstance(nv[i.dst], Lin) and
                            (nv[i.dst].is_const() or nv[i.dst] == gen[i.dst][1] or self._isflag(nv[i.dst])) for nv in nvs):
                    return True
            elif i.op in ("icmp", "cast", "bin", "select", "freeze"):
                work += list(i.ops)
        return False

    def _isflag(self, v):
        return v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and syminfo(v.t[0][0]).lo == 0 and syminfo(v.t[0][0]).hi == 1

    def _nowrap(self, fn, st, phis, gen, init, vals):
        """a counter whose increment may not wrap (signed overflow is undefined) stays within its type"""
        out = []
        for p in phis:
            g = gen.get(p.dst)
            if g is None or g[0] != "step" or p.ty.k != "int" or not isinstance(init[p.dst], Lin):
                continue
            inc = [v for v, b in p.x["inc"] if v[0] == "reg"]
            fl = None
            for v in inc:
                d = self._def(fn, v[1])
                if d is None or d.op != "bin" or d.x.get("o") not in ("add", "sub"):
                    continue
                f = set(d.x.get("flags") or ())
                fl = f if fl is None else fl & f
            if not fl:
                continue
            w = p.ty.n
            h = 1 << (w - 1)
            lo, hi = (-h, h - 1) if "nsw" in fl else (0, 2 * h - 1) if "nuw" in fl else (None, None)
            if lo is None or not st.facts.implies_ge(init[p.dst] - lo) or not st.facts.implies_ge(const(hi) - init[p.dst]):
                continue
            out.append(const(hi) - vals[p.dst] if g[1] > 0 else vals[p.dst] - lo)
        return out

    def _def(self, fn, name):
        if not hasattr(fn, "_defs"):
            fn._defs = {i.dst: i for b in fn.blocks.values() for i in b.instrs if i.dst}
        return fn._defs.get(name)

    def _fills(self, bs, kk, k, loop, gen):
        """the constant that every iteration writes at this place, which is right after the one of the previous iteration"""
        region, off, size = kk
        if dict(off.t).get(k) != size:
            return None
        val = None
        for b, _, W0, _ in bs:
            mine = None
            for c in b.mem.get(region, ()):
                if c.size == size and c.off == off:
                    mine = c.val
                elif c.size is None:
                    if c not in W0.mem.get(region, ()):
                        return None
                elif c not in W0.mem.get(region, ()):
                    # something else written: it must be apart from what is filled
                    d = c.off - (off - sym(k) * size)
                    if not (b.facts.implies_ge(-d - c.size) or b.facts.implies_ge(d - sym(k) * size - size)):
                        return None
            if not isinstance(mine, Lin) or not b.norm(mine) == ZERO:
                return None
            val = 0
        return val

    def _fillkey(self, f):
        return repr(f.val)

    def _own_fill(self, f, arr, region, k):
        """the part this loop itself has filled so far"""
        return any(v is not None and r == region and f.val[0] == off - sym(k) * size and f.val[1] == sym(k) * size
                   for (r, off, size), v in arr.items())

    def _iter_local(self, region, W0):
        r = self.role(region) or ""
        return r.startswith("L:") and syminfo(region).kw.get("depth", 0) > len(W0.stack)

    def _same(self, b, x, y):
        if x is y:
            return True
        if isinstance(x, Lin) and isinstance(y, Lin):
            return b.facts.implies_eq(x - y)
        if isinstance(x, BoolV) and isinstance(y, BoolV):
            return x == y
        if isinstance(x, list) and isinstance(y, list):
            return len(x) == len(y) and all(self._same(b, p, q) for p, q in zip(x, y))
        return False

    def _gen_value(self, base, g, k):
        if not g:
            return base
        if g[0] == "step":
            return base + sym(k) * g[1]
        if g[0] == "stride":
            return base + sym(g[2]) * g[1]
        if g[0] == "fresh":
            return g[1]
        raise AnalysisError("gen")

    def _prov(self, v):
        if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            return syminfo(v.t[0][0]).kw.get("prov")
        return None

    def _prov_at(self, st, v):
        """the place a value was read from, or left in by an atomic update"""
        pv = self._prov(v)
        if pv is None and isinstance(v, Lin):
            n = st.norm(v)
            ev = st.ev
            while ev:
                e = ev[1]
                if e.k == "rmw" and isinstance(e.d["new"], Lin) and e.d["region"] is not None and st.norm(e.d["new"]) == n and n.t:
                    return (e.d["region"], e.d["off"])
                ev = ev[0]
        return pv

    def _freshlike(self, v, ty=None, prov=None):
        if isinstance(v, Lin):
            kw = {}
            if prov is not None:
                kw["prov"] = prov
                i = syminfo(v.t[0][0])
                if i.kw.get("ptr") and i.kw.get("prov") is not None:
                    return fresh("w", i.lo, None, ptr=True, role=i.kw.get("role", "X"), prov=prov)
            if ty is not None and ty.k == "ptr" or self.isptr(v):
                rl = "X"
                for s, c in v.t:
                    if syminfo(s).kw.get("ptr"):
                        rl = syminfo(s).kw.get("role", "X")
                        if rl.startswith(("L:", "G:")):
                            rl = "X"
                kw.update(ptr=True, role=rl)
                return fresh("w", 0, None, **kw)
            return fresh("w", None, None, raw=(ty.n if ty is not None and ty.k == "int" else 64), **kw)
        if isinstance(v, BoolV):
            return fresh("wb", 0, 1)
        return v

    def _update(self, gen, key, init, cur, backs, k, ty=None):
        g = gen.get(key)
        if not backs:
            return False
        if g and g[0] == "fresh":
            # a value read from one place stays one only while every iteration reads it there
            pv = self._prov(g[1])
            if pv is not None and any(self._prov_at(b, v) != pv for b, v in backs):
                gen[key] = ("fresh", self._freshlike(ZERO if not self.isptr(g[1]) else g[1], ty))
                return True
            return False
        if not isinstance(init, Lin) or not all(isinstance(v, Lin) for _, v in backs):
            if all(self._same(b, cur, v) for b, v in backs):
                return False
            nf = self._freshlike(init if isinstance(init, (Lin, BoolV)) else ZERO, ty)
            gen[key] = ("fresh", nf)
            return True
        diffs = [b.norm(v - cur) for b, v in backs]
        if g is None:
            if all(self._same(b, cur, v) for b, v in backs):
                return False
            if all(d.is_const() and d.c == diffs[0].c for d in diffs) and diffs[0].c:
                gen[key] = ("step", diffs[0].c)
                return True
            return self._stride(gen, key, init, backs, ty, 0)
        if g[0] == "step":
            if all(d.is_const() and d.c == g[1] for d in diffs):
                return False
            return self._stride(gen, key, init, backs, ty, abs(g[1]))
        if g[0] == "stride":
            gg = g[1]
            for b, v in backs:
                d = b.norm(v - init)
                for _, c in d.t:
                    gg = gcd(gg, c)
                gg = gcd(gg, d.c)
                if any(syminfo(s).kw.get("ptr") for s, _ in d.t):
                    gg = 0
                    break
            if gg == g[1]:
                return False
            if gg in (0,):
                gen[key] = ("fresh", self._freshlike(init, ty))
            elif gg == 1 and not self.isptr(init):
                gen[key] = ("fresh", self._freshlike(init, ty))
            else:
                gen[key] = ("stride", gg, newsym("j", None, None))
            return True
        return False

    def _stride(self, gen, key, init, backs, ty, gg):
        for b, v in backs:
            d = b.norm(v - init)
            if any(syminfo(s).kw.get("ptr") for s, _ in d.t):
                gg = 0
                break
            for _, c in d.t:
                gg = gcd(gg, c)
            gg = gcd(gg, d.c)
        if gg == 0 or (gg == 1 and not self.isptr(init)):
            pv = self._prov_at(backs[0][0], init)
            if pv is not None and any(self._prov_at(b, v) != pv for b, v in backs):
                pv = None
            gen[key] = ("fresh", self._freshlike(init, ty, pv))
        else:
            gen[key] = ("stride", gg, newsym("j", None, None))
        return True

    def _update_mem(self, memgen, kk, ov, vs, k, W0):
        g = memgen.get(kk)
        if g is not None and g[0] in ("fresh", "drop"):
            return False
        base = g[-1] if g is not None else ov
        if base is None or any(isinstance(v, str) or not isinstance(v, Lin) for _, v in vs) or not isinstance(base, Lin):
            size = kk[2]
            like = base if isinstance(base, (Lin, BoolV)) else None
            if like is None:
                for _, v in vs:
                    if isinstance(v, (Lin, BoolV)):
                        like = v
                        break
            ty = ir.Ty("int", size * 8)
            memgen[kk] = ("fresh", self._freshlike(like if like is not None else ZERO, ty), base)
            return True
        tmp = {}
        if g is not None:
            tmp["x"] = g[:-1]
        cur = self._gen_value(base, tmp.get("x"), k)
        ch = self._update(tmp, "x", base, cur, vs, k, ir.Ty("int", kk[2] * 8))
        if ch:
            memgen[kk] = tmp["x"] + (base,)
        return ch

    def _gsyms(self, gen, memgen):
        out = {}
        for d, g in gen.items():
            if g[0] == "stride":
                out[g[2]] = ("phi", d)
            elif g[0] == "fresh" and isinstance(g[1], Lin) and len(g[1].t) == 1:
                out[g[1].t[0][0]] = ("phi", d)
        for kk, g in memgen.items():
            if g[0] == "drop":
                continue
            if g[0] == "stride":
                out[g[2]] = ("mem", kk)
            elif g[0] == "fresh" and isinstance(g[1], Lin) and len(g[1].t) == 1:
                out[g[1].t[0][0]] = ("mem", kk)
        return out

    def _candidates(self, st, phis, init, gen, memgen, k, bs, vals):
        """bounds that hold initially and are plausible inductive invariants"""
        if not bs:
            return []
        gs = self._gsyms(gen, memgen)
        out = []
        anystep = any(g[0] == "step" for g in gen.values()) or any(g[0] == "step" for g in memgen.values())
        heads = set(gs)
        if anystep:
            heads.add(k)
        if not heads:
            return []
        # guards seen in the loop body that mention a generalised symbol
        guards = set()
        for b, nv, W0, _ in bs:
            for c in b.facts.cons[len(W0.facts.cons):]:
                c = b.norm(c)
                if c.t and any(s in heads for s, _ in c.t) and len(c.t) <= 4:
                    guards.add(c)
        cands = set()
        for c in guards:
            for dlt in (-1, 0, 1, 2):
                cands.add(c + dlt)
        outer = set()
        for b, nv, W0, _ in bs:
            for c in b.facts.cons[len(W0.facts.cons):]:
                for s, _ in b.norm(c).t:
                    if s not in heads:
                        outer.add(s)
        for h in gs:
            for x in (0, 1):
                cands.add(sym(h) - x)
            for s in outer:
                if syminfo(s).kw.get("ptr"):
                    continue
                cands.add(sym(s) - sym(h))
                cands.add(sym(s) - sym(h) - 1)
                cands.add(sym(h) - sym(s))
        # generalised phis relative to their initial value
        for d, g in gen.items():
            if g[0] == "fresh" and isinstance(init[d], Lin) and not self.isptr(init[d]):
                cands.add(g[1] - init[d])
                cands.add(init[d] - g[1])
                cands.add(g[1])
        # values that move in strides, relative to what the loop compares with
        for d, g in gen.items():
            if g[0] == "stride" and isinstance(init[d], Lin) and not self.isptr(init[d]):
                v = init[d] + sym(g[2]) * g[1]
                for s in outer:
                    if not syminfo(s).kw.get("ptr") and v.t and all(x != s for x in v.syms()):
                        cands.update((sym(s) - v, v - sym(s), sym(s) - v - 1))
                for x in (0, 1):
                    cands.add(v - x)
        # moving pointers stay above the start of their object
        for gg, ini in [(g, init[d]) for d, g in gen.items()] + [(g, g[-1]) for g in memgen.values()]:
            if gg[0] == "stride" and isinstance(ini, Lin):
                b, o = self.split(st, ini)
                if b is not None:
                    cands.add(o + sym(gg[2]) * gg[1])
        # must hold initially
        res = []
        for c in cands:
            c0 = self._at_init(c, gen, memgen, k, init)
            if c0 is not None and st.facts.implies_ge(c0):
                res.append(c)
        return res

    def _at_init(self, c, gen, memgen, k, init):
        out = const(c.c)
        gs = self._gsyms(gen, memgen)
        for s, v in c.t:
            if s == k:
                continue
            if s in gs:
                kind, key = gs[s]
                g = gen[key] if kind == "phi" else memgen[key]
                base = init[key] if kind == "phi" else g[-1]
                if g[0] == "stride":
                    continue
                if base is None or not isinstance(base, Lin):
                    return None
                out = out + base * v
            else:
                out = out + Lin(((s, v),), 0)
        return out

    def _next(self, c, gen, memgen, k, b, nv, phis):
        """constraint c at the next arrival, in terms of the back-edge state b"""
        out = const(c.c)
        gs = self._gsyms(gen, memgen)
        for s, v in c.t:
            if s == k:
                out = out + (sym(k) + 1) * v
            elif s in gs:
                kind, key = gs[s]
                g = gen[key] if kind == "phi" else memgen[key]
                if kind == "phi":
                    x = nv[key]
                else:
                    x = None
                    for cl in b.mem.get(key[0], ()):
                        if cl.size == key[2] and cl.off == key[1]:
                            x = cl.val
                if not isinstance(x, Lin):
                    return const(-1)
                if g[0] == "stride":
                    d = b.norm(x - (self._phi_init[key] if kind == "phi" else g[-1]))
                    if not d.divisible(g[1]):
                        return const(-1)
                    out = out + d.div(g[1]) * v
                else:
                    out = out + x * v
            else:
                out = out + Lin(((s, v),), 0)
        return out

    # ---- blocks
    def run_block(self, fn, blk, prev, st):
        """list of (next block | None, state, return value)"""
        states = [st]
        # phis read simultaneously
        if prev is not None:
            vals = {}
            for i in blk.instrs:
                if i.op != "phi":
                    break
                for v, b in i.x["inc"]:
                    if b == prev:
                        vals[i.dst] = self.val(st, v, i.ty)
            st.env.update(vals)
        out = []
        for i in blk.instrs:
            if i.op == "phi":
                continue
            if not states:
                return out
            self.stats["instrs"] += 1
            if i.op == "br":
                for s in states:
                    if "cond" not in i.x:
                        out.append((i.x["t"], s, None))
                        continue
                    c = self.val(s, i.ops[0], ir.I1)
                    a = self.assume(s.copy(), c, True)
                    b = self.assume(s.copy(), c, False)
                    for x in b:
                        out.append((i.x["f"], x, None))
                    for x in a:
                        out.append((i.x["t"], x, None))
                return out
            if i.op == "switch":
                for s in states:
                    v = self.val(s, i.ops[0], i.x["src"])
                    for s2, x in self.ints(s, v):
                        rest = [s2]
                        for cv, lb in i.x["cases"]:
                            c = self.val(s2, cv, i.x["src"])
                            b = BoolV("cmp", x, c, "eq", nbits(i.x["src"]))
                            nr = []
                            for r in rest:
                                for y in self.assume(r.copy(), b, True):
                                    out.append((lb, y, None))
                                nr += self.assume(r.copy(), b, False)
                            rest = nr
                        for r in rest:
                            out.append((i.x["default"], r, None))
                return out
            if i.op == "ret":
                for s in states:
                    v = self.val(s, i.ops[0], i.ty) if i.ops else None
                    out.append((None, s, v))
                return out
            if i.op == "unreachable":
                for s in states:
                    s.emit("end", i, why="unreachable")
                    self.dead.append(s)
                return out
            nxt = []
            for s in states:
                nxt.extend(self.step(fn, i, s))
            states = nxt
        return out

    def step(self, fn, i, st):
        op = i.op
        if op == "bin":
            a = self.val(st, i.ops[0], i.ty)
            b = self.val(st, i.ops[1], i.ty)
            out = []
            for s, v in self.binop(st, i.x["o"], a, b, i):
                if s is st and len(out):
                    s = s.copy()
                s.env[i.dst] = v
                out.append(s)
            return out
        if op == "cast":
            v = self.val(st, i.ops[0], i.x["src"])
            out = []
            for s, x in self.cast(st, i.x["o"], v, i.x["src"], i.ty):
                s.env[i.dst] = x
                out.append(s)
            return out
        if op == "icmp":
            a = self.val(st, i.ops[0], i.x["src"])
            b = self.val(st, i.ops[1], i.x["src"])
            st.env[i.dst] = BoolV("cmp", a, b, i.x["pred"], nbits(i.x["src"]))
            return [st]
        if op == "fcmp":
            st.env[i.dst] = BoolV("opaque", fresh("fcmp"))
            return [st]
        if op == "load":
            p = self.val(st, i.ops[0], ir.PTR)
            out = []
            for s, v in self.do_load(st, p, i.ty, i, i.x["atomic"], i.x["order"]):
                s.env[i.dst] = v
                out.append(s)
            return out
        if op == "store":
            v = self.val(st, i.ops[0], i.ty)
            p = self.val(st, i.ops[1], ir.PTR)
            if isinstance(v, BoolV):
                out = []
                for s, x in self.bool_int(st, v):
                    out += self.do_store(s, p, i.ty, x, i, i.x["atomic"], i.x["order"])
                return out
            return self.do_store(st, p, i.ty, v, i, i.x["atomic"], i.x["order"])
        if op == "gep":
            base = self.val(st, i.ops[0][1], ir.PTR)
            # boolean indices become integers first
            idx = [(t, self.val(st, o, t)) for t, o in i.ops[1:]]
            st.env[i.dst] = self.gep(st, i.x["st"], base, idx)
            return [st]
        if op == "alloca":
            n = "L:%s.%s" % (fn.name, i.dst)
            s = newsym("&%s" % i.dst, 1, None, ptr=True, role=n, obj=("local", fn.name, i.dst), nonnull=True,
                       size=self.L.size(i.x["at"]), depth=len(st.stack), ins=i)
            st.env[i.dst] = sym(s)
            return [st]
        if op == "fence":
            st.emit("fence", i, order=i.x["order"], scope=i.x["scope"])
            self.model.fence(self, st, i)
            return [st]
        if op == "rmw":
            return self.do_rmw(st, i)
        if op == "cmpxchg":
            return self.do_cmpxchg(st, i)
        if op == "select":
            c = self.val(st, i.ops[0], ir.I1)
            out = []
            for t, o in ((True, 1), (False, 2)):
                for s in self.assume(st.copy(), c, t):
                    s.env[i.dst] = self.val(s, i.ops[o], i.ty)
                    out.append(s)
            return out
        if op == "copy":
            st.env[i.dst] = self.val(st, i.ops[0], i.ty)
            return [st]
        if op == "extract":
            v = self.val(st, i.ops[0], None) if i.ops[0][0] == "reg" else None
            for x in i.x["ix"]:
                v = v[x] if isinstance(v, list) else fresh("agg")
            st.env[i.dst] = v
            return [st]
        if op == "insert":
            v = self.val(st, i.ops[0], i.ty)
            e = self.val(st, i.ops[1], None) if i.ops[1][0] == "reg" else self.val(st, i.ops[1], ir.I64)
            if not isinstance(v, list):
                v = [fresh("agg") for _ in self.L.resolve(i.ty).el]
            v = list(v)
            if len(i.x["ix"]) == 1:
                v[i.x["ix"][0]] = e
            st.env[i.dst] = v
            return [st]
        if op == "opaque":
            st.env[i.dst] = fresh("opaque")
            return [st]
        if op == "call":
            return self.do_call(fn, i, st)
        raise AnalysisError("instr " + i.text)

    # ---- arithmetic
    def binop(self, st, o, a, b, i):
        w = nbits(i.ty)
        if i.ty.k == "fp":
            return [(st, fresh("fp"))]
        if w == 1 and (isinstance(a, BoolV) or isinstance(b, BoolV)):
            if o == "xor":
                if isinstance(b, Lin) and b.is_const():
                    return [(st, BoolV("not", a) if b.c & 1 else a)]
                if isinstance(a, Lin) and a.is_const():
                    return [(st, BoolV("not", b) if a.c & 1 else b)]
                return [(st, BoolV("xor", a, b))]
            if o in ("and", "or"):
                return [(st, BoolV(o, a, b))]
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            out = []
            for s, x in self.ints(st, a):
                for s2, y in self.ints(s, b):
                    out += self.binop(s2, o, x, y, i)
            return out
        a, b = st.norm(a), st.norm(b)
        if o == "add":
            return [(st, a + b)]
        if o == "sub":
            return [(st, a - b)]
        if o == "mul":
            if a.is_const():
                a, b = b, a
            if b.is_const():
                r = a * b.c
                # results that certainly leave the type's range are not tracked
                if w < 64 and not a.is_const():
                    return self.wrap_mul(st, r, w)
                return [(st, r)]
            return [(st, fresh("mul", None, None, raw=w))]
        if o == "shl" and b.is_const():
            r = a * (1 << b.c)
            if w < 64 and not a.is_const():
                return self.wrap_mul(st, r, w)
            return [(st, r)]
        if o == "lshr" and b.is_const():
            return self.shift_right(st, a, b.c, w)
        if o in ("udiv", "sdiv", "ashr", "urem", "srem"):
            return self.divrem(st, o, a, b, w, i)
        if o == "and":
            return self.and_(st, a, b, w)
        if o == "or":
            return self.or_(st, a, b, w)
        if o == "xor":
            if a == b:
                return [(st, ZERO)]
            if b.is_const() and b.c == 0:
                return [(st, a)]
            if b.is_const() and b.c == -1:
                return [(st, -a - 1)]
            return [(st, fresh("xor", 0, (1 << w) - 1))]
        return [(st, fresh(o, None, None, raw=w))]

    def wrap_mul(self, st, r, w):
        m = 1 << w
        if st.facts.implies_ge(r + (m >> 1)) and st.facts.implies_ge(const(m - 1) - r):
            return [(st, r)]
        return [(st, fresh("mul", None, None, raw=w))]

    def divrem(self, st, o, a, b, w, i):
        signed = o in ("sdiv", "srem", "ashr")
        if o == "ashr":
            if not b.is_const():
                return [(st, fresh("ashr"))]
            b = const(1 << b.c)
        if b.is_const() and b.c > 0 and a.divisible(b.c) and o in ("sdiv", "udiv", "ashr"):
            if signed or st.facts.implies_ge(a):
                return [(st, a.div(b.c))]
        out = []
        if o == "urem" and w == 32 and not a.is_const() and not \
                (st.facts.implies_ge(a) and st.facts.implies_ge(const(1 << 31) - a)):
            # hash-like numerator: only the range of the remainder matters
            for s, y in self.range_split(st, b, w, False):
                if not s.facts.implies_ge(y - 1):
                    z = s.copy()
                    if z.facts.add_eq(y):
                        z.emit("divzero", None, what=o)
                        z.g["divzero"] = True
                r = fresh("rem", 0, None)
                if s.facts.add_ge(y - 1) and s.facts.add_ge(y - r - 1):
                    out.append((s, r))
            return out
        for s, x in self.range_split(st, a, w, signed) if not self.isptr(a) else [(st, a)]:
            for s1, y in self.range_split(s, b, w, signed):
                out += self.divrem1(s1, o, x, y, w, signed)
        return out

    def divrem1(self, st, o, x, y, w, signed):
        rem = o in ("urem", "srem")
        if x.is_const() and y.is_const() and y.c > 0 and x.c >= 0:
            return [(st, const(x.c % y.c if rem else x.c // y.c))]
        out = []
        if st.facts.implies_ge(y - 1) or not signed:
            s0 = st.copy()
            if not s0.facts.add_ge(y - 1):
                s0 = None       # division by zero only
            if not st.facts.implies_ge(y - 1):
                z = st.copy()
                if z.facts.add_eq(y):
                    z.emit("divzero", None, what=o)
                    z.g["divzero"] = True
                    self.model.divzero(self, z) if hasattr(self.model, "divzero") else None
            if s0 is None:
                return out
            if y.is_const():
                c = y.c
                neg = s0.copy()
                if s0.facts.add_ge(x):
                    q = fresh("q", 0, None)
                    if s0.facts.add_ge(x - q * c) and s0.facts.add_ge(q * c + (c - 1) - x):
                        out.append((s0, (x - q * c) if rem else q))
                if signed and neg.facts.add_ge(-x - 1):
                    q = fresh("qn", None, 0)
                    if neg.facts.add_ge(q * c - x) and neg.facts.add_ge(x - q * c + (c - 1)):
                        out.append((neg, (x - q * c) if rem else q))
                return out
            # symbolic divisor: case split on the quotient 0 / 1 / more
            for qv in (0, 1):
                s = s0.copy()
                if s.facts.add_ge(x - y * qv) and s.facts.add_ge(y * (qv + 1) - x - 1):
                    out.append((s, (x - y * qv) if rem else const(qv)))
            s = s0.copy()
            if s.facts.add_ge(x - y * 2):
                r = fresh("rem" if rem else "quo", 0, None)
                if rem:
                    if s.facts.add_ge(y - r - 1):
                        out.append((s, r))
                else:
                    if s.facts.add_ge(r - 2):
                        out.append((s, r))
            if signed:
                s = s0.copy()
                if s.facts.add_ge(-x - 1):
                    out.append((s, fresh("rem" if rem else "quo", None, 0)))
            return out
        return [(st, fresh("rem" if rem else "quo", None, None))]

    def and_(self, st, a, b, w):
        if a.is_const():
            a, b = b, a
        if b.is_const():
            c = b.c % (1 << w)
            if c == 0:
                return [(st, ZERO)]
            if c & (c + 1) == 0:                      # low mask
                return self.trunc(st, a, c.bit_length(), w)
            inv = (~c) & ((1 << w) - 1)
            if inv & (inv + 1) == 0:                  # clear low bits
                g = inv + 1
                if a.divisible(g):
                    return [(st, a)]
                s = st.copy()
                q = fresh("al", None, None)
                if s.facts.add_ge(a - q * g) and s.facts.add_ge(q * g + (g - 1) - a):
                    return [(s, q * g)]
            return [(st, fresh("and", 0, c))]
        return [(st, fresh("and", 0, (1 << w) - 1))]

    def or_(self, st, a, b, w):
        if b.is_const() and b.c == 0:
            return [(st, a)]
        if a.is_const() and a.c == 0:
            return [(st, b)]
        # disjoint bit ranges: lo | hi*2^k
        for x, y in ((a, b), (b, a)):
            k = 0
            while k < 63 and x.divisible(1 << (k + 1)):
                k += 1
            if k and st.facts.implies_ge(y) and st.facts.implies_ge(const((1 << k) - 1) - y):
                return [(st, x + y)]
            # raw symbols commit to their unsigned reading
            if k and len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1 and syminfo(y.t[0][0]).kw.get("raw", 99) <= k:
                for s, yy in self.range_split(st, y, k, False)[:1]:
                    return [(s, x + yy)]
        return [(st, fresh("or", 0, (1 << w) - 1))]

    def cast(self, st, o, v, src, dst):
        if o in ("sitofp", "uitofp", "fptrunc", "fpext"):
            return [(st, fresh("fp"))]
        if o in ("fptosi", "fptoui"):
            return [(st, fresh("fpi", None, None, raw=nbits(dst)))]
        if o in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            if isinstance(v, BoolV):
                return self.bool_int(st, v)
            return [(st, v)]
        if src.k == "vec":
            return [(st, fresh("vec"))]
        if o == "trunc":
            if dst.n == 1:
                v2 = v
                if isinstance(v, BoolV):
                    return [(st, v)]
                vn = st.norm(v)
                if st.facts.implies_ge(vn) and st.facts.implies_ge(const(1) - vn):
                    return [(st, BoolV("cmp", vn, ZERO, "ne", 8))]
                return [(st, BoolV("opaque", fresh("bit")))]
            return self.trunc(st, v, dst.n, src.n)
        if o == "zext":
            return self.range_split(st, v, src.n, False)
        if o == "sext":
            if src.n == 1 or isinstance(v, BoolV):
                return [(s, -x) for s, x in self.bool_int(st, v)]
            return self.range_split(st, v, src.n, True)
        raise AnalysisError("cast " + o)

    # ---- atomics
    def do_rmw(self, st, i):
        p = self.val(st, i.ops[0], ir.PTR)
        v = self.val(st, i.ops[1], i.ty)
        size = self.L.size(i.ty)
        region, off = self.split(st, p)
        r = self.model.rmw(self, st, region, off, size, i.x["o"], v, i)
        out = []
        if r is None:
            olds = self.default_load(st, region, off, size, i.ty, i)
            r = []
            for s, old in olds:
                s = s.copy()
                o = i.x["o"]
                if isinstance(old, BoolV) or isinstance(v, BoolV):
                    raise AnalysisError("rmw")
                new = {"add": lambda: old + v, "sub": lambda: old - v, "xchg": lambda: v}.get(o, lambda: fresh("rmw"))()
                if region is not None and not self.model.volatile(self, s, region, off, size, i):
                    s = self.write_cell(s, region, off, size, new)
                r.append((s, old, new))
        for s, old, new in r:
            s.emit("rmw", i, region=region, off=off, size=size, op=i.x["o"], arg=v, old=old, new=new,
                   order=i.x["order"], addr=p, atomic=True)
            s.env[i.dst] = old
            out.append(s)
        return out

    def do_cmpxchg(self, st, i):
        p = self.val(st, i.ops[0], ir.PTR)
        e = self.val(st, i.ops[1], i.ty)
        n = self.val(st, i.ops[2], i.ty)
        size = self.L.size(i.ty)
        region, off = self.split(st, p)
        if isinstance(n, Lin):
            b, _ = self.split(st, n)
            if b is not None and (self.role(b) or "").startswith("L:"):
                self.escape(st, b)
        r = self.model.cmpxchg(self, st, region, off, size, e, n, i)
        if r is None:
            r = []
            vol = region is None or self.model.volatile(self, st, region, off, size, i)
            if vol:
                s = st.copy()
                r.append((s, e, True))
                s = st.copy()
                r.append((s, self.fresh_load(region, off, size, i.ty, i), False))
                if not i.x["weak"]:
                    r[-1][0].facts.add_ne(r[-1][1] - e)
            else:
                for s, old in self.default_load(st, region, off, size, i.ty, i):
                    for s2 in self.assume(s.copy(), BoolV("cmp", old, e, "eq", size * 8), True):
                        s2 = self.write_cell(s2, region, off, size, n)
                        r.append((s2, old, True))
                    if i.x["weak"]:
                        r.append((s.copy(), old, False))
                    else:
                        for s2 in self.assume(s.copy(), BoolV("cmp", old, e, "eq", size * 8), False):
                            r.append((s2, old, False))
        out = []
        for s, old, ok in r:
            s.emit("cas", i, region=region, off=off, size=size, exp=e, new=n, ok=ok, old=old, order=i.x["order"],
                   addr=p, weak=i.x["weak"])
            s.env[i.dst] = [old, const(1) if ok else ZERO]
            out.append(s)
        return out

    # ---- calls
    def do_call(self, fn, i, st):
        cal = i.x["callee"]
        if cal[0] == "asm":
            t = self.L.resolve(i.ty)
            if i.dst is not None:
                if t.k == "struct":
                    st.env[i.dst] = [fresh("asm", 0, (1 << nbits(e)) - 1) for e in t.el]
                else:
                    st.env[i.dst] = fresh("asm", None, None, raw=nbits(t))
            st.emit("asm", i, text=cal[1])
            return [st]
        args = [self.val(st, o, t) for t, o in i.ops]
        # booleans passed as ints
        for j, a in enumerate(args):
            if isinstance(a, BoolV):
                out = []
                for s, x in self.bool_int(st, a):
                    s.env["%arg"] = x
                    args2 = list(args)
                    args2[j] = x
                    out += self.call_with(fn, i, s, args2)
                return out
        return self.call_with(fn, i, st, args)

    def call_with(self, fn, i, st, args):
        cal = i.x["callee"]
        target = self.val(st, cal, ir.PTR)
        target = st.norm(target)
        name = self.func_of(target)
        if name is None:
            r = self.model.icall(self, st, target, args, i)
            if r is None:
                st.emit("icall", i, target=target, args=args)
                self.havoc_args(st, args)
                r = [(st, self.ret_value(i))]
            return self._ret(i, r)
        f = self.mod.functions[name]
        if name in PURE or name.startswith("llvm.dbg") or name.startswith("llvm.lifetime"):
            return self._ret(i, [(st, fresh("v"))])
        if name.startswith("llvm.memset"):
            st.emit("memset", i, dst=args[0], val=args[1], len=args[2])
            region, off = self.split(st, args[0])
            r = self.model_fill(st, region, off, args[2], args[1], i)
            return self._ret(i, [(st, None)])
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            self.memcpy(st, args, i)
            return self._ret(i, [(st, None)])
        if name.startswith("llvm.threadlocal.address"):
            return self._ret(i, [(st, args[0])])
        if name.startswith("llvm.expect"):
            return self._ret(i, [(st, args[0])])
        if name.startswith("llvm.umax") or name.startswith("llvm.umin") or name.startswith("llvm.smax") \
                or name.startswith("llvm.smin"):
            out = []
            sg = name[5] == "s"
            mx = name[6:9] == "max"
            b = BoolV("cmp", args[0], args[1], ("s" if sg else "u") + ("ge" if mx else "le"), nbits(i.ty))
            for s in self.assume(st.copy(), b, True):
                out.append((s, args[0]))
            for s in self.assume(st.copy(), b, False):
                out.append((s, args[1]))
            return self._ret(i, out)
        if f.defined and not self.model.is_boundary(st, name) and name not in st.stack and \
                not self.model.separate(self, st, name, args):
            return self._ret(i, self.run_function(name, args, st))
        r = self.model.call(self, st, name, args, i)
        if r is None:
            st.emit("call", i, name=name, args=args, ret=None)
            size = next((z for x, z in LIBOBJ.items() if name.startswith(x)), None)
            if size is None or f.defined:
                self.havoc_args(st, args)
            else:
                self.havoc_object(st, args[0], size)
            rv = self.ret_value(i, f)
            st.ev[1].d["ret"] = rv
            r = [(st, rv)]
        noret = f.noreturn or (i.x["attr"] and "noreturn" in self.mod.attrs.get(i.x["attr"], ""))
        if noret:
            for s, _ in r:
                s.emit("end", i, why=name)
                self.dead.append(s)
            return []
        return self._ret(i, r)

    def model_fill(self, st, region, off, ln, v, i):
        if region is None:
            return
        if isinstance(v, Lin) and v.is_const():
            if hasattr(self.model, "filled"):
                self.model.filled(self, st, region, off, ln, v, i)
            self.fill(st, region, off, ln, v.c)
        else:
            self.forget(st, region)

    def memcpy(self, st, args, i):
        st.emit("memcpy", i, dst=args[0], src=args[1], len=args[2])
        r1, o1 = self.split(st, args[0])
        r2, o2 = self.split(st, args[1])
        ln = st.norm(args[2])
        if r1 is None:
            return
        copied = []
        if r2 is not None and ln.is_const():
            for c in st.mem.get(r2, ()):
                if c.size is None:
                    continue
                d = st.norm(c.off - o2)
                if d.is_const() and 0 <= d.c and d.c + c.size <= ln.c:
                    copied.append((d.c, c.size, c.val))
        self.fill_unknown(st, r1, o1, ln)
        st.g.pop(("copied", r1), None)
        for d, sz, v in copied:
            self.write_cell(st, r1, o1 + d, sz, v)
        if r2 is not None and ln.is_const():
            st.g[("copied", r1)] = (r2, o2, o1, ln)

    def fill_unknown(self, st, region, off, ln):
        keep = []
        for c in st.mem.get(region, ()):
            if c.size is None:
                continue
            d = c.off - off
            if st.facts.implies_ge(-d - c.size) or st.facts.implies_ge(d - ln):
                keep.append(c)
        st.mem[region] = keep

    def havoc_object(self, st, a, size):
        """a C library object (semaphore, lock, ...) at a is changed by the library"""
        b, o = self.split(st, a) if isinstance(a, Lin) else (None, None)
        if b is not None:
            self.fill_unknown(st, b, o, const(size))

    def havoc_args(self, st, args):
        for a in args:
            if not isinstance(a, Lin):
                continue
            b, _ = self.split(st, a)
            if b is not None and (self.role(b) or "").startswith("L:"):
                self.escape(st, b)
                self.forget(st, b)

    def ret_value(self, i, f=None):
        t = self.L.resolve(i.ty)
        if t.k == "void":
            return None
        nm = "ret"
        if f is not None:
            nm = "ret:" + f.name
        if t.k == "ptr":
            return fresh(nm, 0, None, ptr=True, role="X", ins=i)
        if t.k == "int":
            lo, hi = RANGES.get(f.name if f is not None else None, (None, None))
            return fresh(nm, lo, hi, raw=t.n, ins=i)
        if t.k == "struct":
            return [fresh(nm) for _ in t.el]
        return fresh(nm)

    def _ret(self, i, results):
        out = []
        for s, v in results:
            if i.dst is not None:
                if v is None:
                    v = fresh("v")
                s.env[i.dst] = v
            out.append(s)
        return out

    # ------------------------------------------------------------------ entry
    def analyse(self, name, args, st):
        """returns the list of complete traces [(state, retval, kind)]"""
        rets = self.run_function(name, args, st)
        out = [(s, v, "ret") for s, v in rets]
        out += [(s, None, "cut") for s in self.cuts]
        out += [(s, None, "dead") for s in self.dead]
        self.stats["paths"] += len(out)
        self.cuts, self.dead = [], []
        return out

    def where(self, ins):
        if ins is None:
            return "?"
        f, l = self.mod.loc(ins.dbg)
        return "%s:%d" % (f, l)
