"""Affine terms over integer unknowns and a small convex-polyhedra domain.

Lin       affine term  sum(coeff*sym) + const
Facts     conjunction of affine inequalities / equalities / disequalities;
          entailment and emptiness by Fourier-Motzkin elimination with integer tightening.
          Both are sound: "infeasible" / "entailed" answers are always right, an answer of
          "feasible" / "not entailed" may be due to lost precision.
"""
from math import gcd


class SymTab:
    def __init__(self):
        self.info = []

    def new(self, name, lo=None, hi=None, **kw):
        self.info.append(SymInfo(len(self.info), name, lo, hi, kw))
        return len(self.info) - 1


class SymInfo:
    __slots__ = ("id", "name", "lo", "hi", "kw")

    def __init__(self, id, name, lo, hi, kw):
        self.id, self.name, self.lo, self.hi, self.kw = id, name, lo, hi, kw


SYMS = SymTab()


def newsym(name, lo=None, hi=None, **kw):
    return SYMS.new(name, lo, hi, **kw)


def syminfo(i):
    return SYMS.info[i]


class Lin:
    __slots__ = ("t", "c", "_k")

    def __init__(self, t, c=0):
        self.t = t          # tuple of (sym,coeff) sorted, coeff != 0
        self.c = c
        self._k = None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        if self._k is None:
            self._k = hash((self.t, self.c))
        return self._k

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(tuple(sorted(d.items())), self.c + o.c)

    def __mul__(self, k):
        if k == 0:
            return Lin((), 0)
        return Lin(tuple((s, v * k) for s, v in self.t), self.c * k)

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def divisible(self, k):
        return self.c % k == 0 and all(v % k == 0 for _, v in self.t)

    def div(self, k):
        return Lin(tuple((s, v // k) for s, v in self.t), self.c // k)

    def syms(self):
        return [s for s, _ in self.t]

    def coeff(self, s):
        for a, v in self.t:
            if a == s:
                return v
        return 0

    def __repr__(self):
        out = []
        for s, v in self.t:
            n = syminfo(s).name
            out.append(("+" if v == 1 else "-" if v == -1 else "%+d*" % v) + n)
        if self.c or not out:
            out.append("%+d" % self.c)
        r = " ".join(out)
        return r[1:] if r.startswith("+") else r


def const(c):
    return Lin((), c)


def sym(s):
    return Lin(((s, 1),), 0)


def fresh(name, lo=None, hi=None, **kw):
    return sym(newsym(name, lo, hi, **kw))


ZERO = const(0)
_cache = {}
LIMIT = 1500


def _tight(t, c):
    """tuple terms -> gcd-tightened"""
    g = 0
    for _, v in t:
        g = gcd(g, v)
        if g == 1:
            return t, c
    if g > 1:
        return tuple((s, v // g) for s, v in t), c // g
    return t, c


def infeasible(cons):
    """cons: iterable of Lin (>= 0).  True only if there is no integer solution."""
    return solve(cons)[0]


def solve(cons):
    """(infeasible?, an integer solution or None)"""
    base = {}
    for l in cons:
        t, c = _tight(l.t, l.c)
        if not t:
            if c < 0:
                return True, None
            continue
        o = base.get(t)
        if o is None or c < o:
            base[t] = c
    key = frozenset(base.items())
    r = _cache.get(key)
    if r is None:
        r = _fm(base)
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = r
    return r


def _model(elim):
    """back-substitution through the eliminated variables; None if rounding fails"""
    m = {}
    for s, P, N in reversed(elim):
        lo, hi = None, None
        for t, c, v in P:               # v*s + rest + c >= 0   =>  s >= -(rest+c)/v
            r = c
            for x, k in t:
                if x != s:
                    if x not in m:
                        m[x] = _default(x)
                    r += k * m[x]
            b = -(r // v)
            if lo is None or b > lo:
                lo = b
        for t, c, v in N:               # -v*s + rest + c >= 0  =>  s <= (rest+c)/v
            r = c
            for x, k in t:
                if x != s:
                    if x not in m:
                        m[x] = _default(x)
                    r += k * m[x]
            b = r // v
            if hi is None or b < hi:
                hi = b
        if lo is not None and hi is not None:
            if lo > hi:
                return None
            # stay off the boundary where possible: fewer accidental equalities
            m[s] = min(hi, lo + 7 + (s * 31) % 97) if hi - lo > 2 else lo + (hi - lo) // 2
        elif lo is not None:
            m[s] = lo + 5 + (s * 31) % 97
        elif hi is not None:
            m[s] = hi - 5 - (s * 31) % 97
        else:
            m[s] = _default(s)
    return m


def _default(s):
    i = SYMS.info[s]
    if i.lo is not None:
        v = i.lo + 11 + (s * 37) % 101
        return v if i.hi is None or v <= i.hi else i.lo
    if i.hi is not None:
        return i.hi - 11 - (s * 37) % 101
    return (s * 37) % 101


def _fm(cur):
    elim = []
    while True:
        # contradiction of opposite pairs
        for t, c in cur.items():
            nt = tuple([(s, -v) for s, v in t])
            o = cur.get(nt)
            if o is not None and c + o < 0:
                return True, None
        if not cur:
            return False, _model(elim)
        pos, neg = {}, {}
        for t in cur:
            for s, v in t:
                if v > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        best, bs = None, None
        for s in set(pos) | set(neg):
            p, q = pos.get(s, 0), neg.get(s, 0)
            cost = p * q - p - q
            if best is None or cost < best or (cost == best and s < bs):
                best, bs = cost, s
        P, N, new = [], [], {}
        for t, c in cur.items():
            v = 0
            for s, k in t:
                if s == bs:
                    v = k
                    break
            if v > 0:
                P.append((t, c, v))
            elif v < 0:
                N.append((t, c, -v))
            else:
                new[t] = c
        elim.append((bs, P, N))
        if len(P) * len(N) > LIMIT:
            return False, None
        for t1, c1, a in P:
            for t2, c2, b in N:
                g = gcd(a, b)
                m1, m2 = b // g, a // g
                d = {}
                for s, k in t1:
                    d[s] = k * m1
                for s, k in t2:
                    x = d.get(s, 0) + k * m2
                    if x:
                        d[s] = x
                    else:
                        d.pop(s, None)
                d.pop(bs, None)
                t, c = _tight(tuple(sorted(d.items())), c1 * m1 + c2 * m2)
                if not t:
                    if c < 0:
                        return True, None
                    continue
                o = new.get(t)
                if o is None or c < o:
                    new[t] = c
        cur = new
        if len(cur) > LIMIT:
            return False, None


class Facts:
    __slots__ = ("cons", "sub", "ne", "wit")

    def __init__(self):
        self.cons = []      # Lin >= 0 (already normalised when added)
        self.sub = {}       # sym -> Lin
        self.ne = []        # Lin != 0
        self.wit = {}       # an integer point satisfying cons and all symbol ranges, or None

    def copy(self):
        f = Facts.__new__(Facts)
        f.cons = list(self.cons)
        f.sub = self.sub          # copy on write
        f.ne = list(self.ne)
        f.wit = self.wit          # copy on write
        return f

    def _at(self, e):
        """value of a normalised term at the witness point"""
        w = self.wit
        r = e.c
        for s, k in e.t:
            v = w.get(s)
            if v is None:
                v = _default(s)
            r += k * v
        return r

    def _rewit(self, m, cons):
        """adopt a solver model for the symbols it mentions"""
        if m is None or self.wit is None:
            self.wit = None
            return
        w = dict(self.wit)
        for s in m:
            w[s] = m[s]
        self.wit = w
        for s, r in self.sub.items():
            pass
        # the model covers a whole connected component, other constraints keep their values
        for c in self.cons:
            if self._at(self.norm(c)) < 0:
                self.wit = None
                return
        for s, r in self.sub.items():
            i = syminfo(s)
            if i.lo is None and i.hi is None:
                continue
            v = self._at(self.norm(r))
            if (i.lo is not None and v < i.lo) or (i.hi is not None and v > i.hi):
                self.wit = None
                return
        for s in m:
            i = syminfo(s)
            if s in self.sub:
                continue
            if (i.lo is not None and w[s] < i.lo) or (i.hi is not None and w[s] > i.hi):
                self.wit = None
                return

    def _recover(self):
        """try to find a witness again"""
        inf, m = solve([self.norm(c) for c in self.cons] + self._ranges())
        if m is not None:
            self.wit = {}
            self._rewit(m, None)

    def _ranges(self):
        out = []
        syms = set()
        for c in self.cons:
            syms.update(self.norm(c).syms())
        for s, r in self.sub.items():
            syms.update(self.norm(r).syms())
        for s in syms:
            i = syminfo(s)
            if i.lo is not None:
                out.append(Lin(((s, 1),), -i.lo))
            if i.hi is not None:
                out.append(Lin(((s, -1),), i.hi))
        for s, r in self.sub.items():
            i = syminfo(s)
            r = self.norm(r)
            if i.lo is not None:
                out.append(r - i.lo)
            if i.hi is not None:
                out.append(const(i.hi) - r)
        return out

    def norm(self, l):
        sub = self.sub
        if not sub or not l.t:
            return l
        for s, _ in l.t:
            if s in sub:
                break
        else:
            return l
        out = const(l.c)
        for s, v in l.t:
            r = sub.get(s)
            out = out + (Lin(((s, v),), 0) if r is None else self.norm(r) * v)
        return self.norm(out) if any(s in sub for s, _ in out.t) else out

    def _relevant(self, seeds):
        """constraints connected to the seed terms"""
        syms = set()
        for l in seeds:
            syms.update(l.syms())
        picked = list(seeds)
        pool = [self.norm(c) for c in self.cons]
        ch = True
        while ch:
            ch = False
            rest = []
            for c in pool:
                if any(s in syms for s, _ in c.t):
                    picked.append(c)
                    for s, _ in c.t:
                        if s not in syms:
                            syms.add(s)
                    ch = True
                else:
                    rest.append(c)
            pool = rest
        for s in syms:
            i = syminfo(s)
            if i.lo is not None:
                picked.append(Lin(((s, 1),), -i.lo))
            if i.hi is not None:
                picked.append(Lin(((s, -1),), i.hi))
        # substituted symbols keep their ranges too
        for s, r in self.sub.items():
            i = syminfo(s)
            if i.lo is None and i.hi is None:
                continue
            r = self.norm(r)
            if r.t and any(x in syms for x, _ in r.t):
                if i.lo is not None:
                    picked.append(r - i.lo)
                if i.hi is not None:
                    picked.append(const(i.hi) - r)
        return picked

    def implies_ge(self, e, _depth=0):
        """e >= 0 ?"""
        e = self.norm(e)
        if not e.t:
            return e.c >= 0
        if self.wit is not None and self._at(e) < 0 and all(self._at(self.norm(d)) != 0 for d in self.ne):
            return False
        q = -e - 1
        rel = self._relevant([q])
        if infeasible(rel):
            return True
        # use disequalities: if d != 0 is known and q holds only where d == 0
        if _depth == 0 and self.ne:
            for d in self.ne:
                d = self.norm(d)
                if not d.t:
                    continue
                if infeasible(rel + self._relevant([d - 1])) and infeasible(rel + self._relevant([-d - 1])):
                    return True
        return False

    def implies_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        return self.implies_ge(e) and self.implies_ge(-e)

    def implies_ne(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c != 0
        for d in self.ne:
            d = self.norm(d)
            if d == e or d == -e:
                return True
        return self.implies_ge(e - 1) or self.implies_ge(-e - 1)

    def add_ge(self, e):
        """returns False if the facts become contradictory"""
        e = self.norm(e)
        if not e.t:
            return e.c >= 0
        if e in self.cons:
            return True
        if self.wit is not None and self._at(e) >= 0:
            self.cons.append(e)
        else:
            bad, m = solve(self._relevant([e]))
            if bad:
                return False
            self.cons.append(e)
            if self.wit is None:
                self._recover()
            else:
                self._rewit(m, None)
        # does it force an equality?
        if self.implies_ge(-e):
            return self.add_eq(e)
        return self._check_ne()

    def _check_ne(self):
        for d in list(self.ne):
            n = self.norm(d)
            if not n.t:
                if n.c == 0:
                    return False
                continue
        return True

    def add_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        if self.wit is None or self._at(e) != 0:
            bad, m = solve(self._relevant([e, -e]))
            if bad:
                return False
            if self.wit is not None:
                self._rewit(m, None)
        # substitute the newest symbol with unit coefficient
        for s, v in sorted(e.t, reverse=True):
            if v in (1, -1):
                r = (e - Lin(((s, v),), 0)) * (-v)
                self.sub = dict(self.sub)
                self.sub[s] = r
                break
        else:
            self.cons.append(e)
            self.cons.append(-e)
        for d in self.ne:
            n = self.norm(d)
            if not n.t and n.c == 0:
                return False
        return True

    def add_ne(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c != 0
        if self.implies_eq(e):
            return False
        if self.implies_ge(e):
            return self.add_ge(e - 1)
        if self.implies_ge(-e):
            return self.add_ge(-e - 1)
        self.ne.append(e)
        return True

    def bounds(self, e):
        return None
