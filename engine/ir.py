"""Parser for textual LLVM IR (clang 18, opaque pointers), only what the analysis needs.

The analysed program is the IR that clang produces from the repository's current sources;
this module turns the text into Functions / Blocks / Instrs with resolved types, operands
and source locations.
"""
import re


class ParseError(Exception):
    pass


# ----------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name", "packed")

    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k, self.n, self.el, self.name, self.packed = k, n, el, name, packed

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.el))
        if self.k == "named":
            return self.name
        return self.k


VOID = Ty("void")
PTR = Ty("ptr")
I1, I8, I16, I32, I64 = (Ty("int", n) for n in (1, 8, 16, 32, 64))


class Layout:
    def __init__(self, named):
        self.named = named
        self.cache = {}

    def resolve(self, t):
        while t.k == "named":
            t = self.named[t.name]
        return t

    def size_align(self, t):
        t = self.resolve(t)
        if t.k == "int":
            b = max(1, (t.n + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return p, p
        if t.k == "ptr":
            return 8, 8
        if t.k == "fp":
            return {32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16), 16: (2, 2)}[t.n]
        if t.k in ("arr", "vec"):
            s, a = self.size_align(t.el)
            return s * t.n, a
        if t.k == "struct":
            off, al = 0, 1
            for e in t.el:
                s, a = self.size_align(e)
                if t.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if t.k == "opaque":
            return 0, 1
        raise ParseError("size of %r" % t)

    def size(self, t):
        return self.size_align(t)[0]

    def field(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t.el):
            s, a = self.size_align(e)
            if t.packed:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise ParseError("field")


# ----------------------------------------------------------------------------- tokens
TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<cstr>c"(?:[^"\\]|\\.)*")
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+)
  | (?P<word>[a-zA-Z_][-a-zA-Z_0-9.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ";":
                break
            raise ParseError("token at %r" % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
    return out


class Toks:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        g = self.next() if self.i < len(self.t) else None
        if g != v:
            raise ParseError("expected %r got %r in %s" % (v, g, " ".join(x[1] for x in self.t)))

    def eof(self):
        return self.i >= len(self.t)

    # types
    def type(self):
        w = self.next()
        if w == "void":
            t = VOID
        elif w == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.next(); self.expect("("); self.next(); self.expect(")")
        elif re.fullmatch(r"i\d+", w):
            t = Ty("int", int(w[1:]))
        elif w == "float":
            t = Ty("fp", 32)
        elif w == "double":
            t = Ty("fp", 64)
        elif w == "x86_fp80":
            t = Ty("fp", 80)
        elif w == "fp128":
            t = Ty("fp", 128)
        elif w == "half":
            t = Ty("fp", 16)
        elif w in ("label", "metadata", "token"):
            t = Ty(w)
        elif w == "opaque":
            t = Ty("opaque")
        elif w == "[":
            n = int(self.next()); self.expect("x")
            e = self.type(); self.expect("]")
            t = Ty("arr", n, e)
        elif w == "<":
            if self.peek() == "{":
                t = self.type()
                t.packed = True
                self.expect(">")
            else:
                n = int(self.next()); self.expect("x")
                e = self.type(); self.expect(">")
                t = Ty("vec", n, e)
        elif w == "{":
            el = []
            if not self.accept("}"):
                while True:
                    el.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            t = Ty("struct", 0, el)
        elif w.startswith("%"):
            t = Ty("named", name=w)
        else:
            raise ParseError("type %r" % w)
        while self.peek() == "(":          # function type
            d = 0
            while True:
                x = self.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
            t = Ty("func", el=t)
        return t

    # values: returned as tuples
    #  ('reg',name) ('glob',name) ('int',v) ('null',) ('undef',) ('fp',txt) ('zero',)
    #  ('gep',srcty,[ (ty,val) ...]) ('cast',op,ty,val,toty) ('bin',op,ty,a,b) ('agg',[..])
    def value(self, ty):
        k, w = self.t[self.i]
        if k == "id":
            self.i += 1
            return ("reg", w[1:]) if w[0] == "%" else ("glob", w[1:].strip('"'))
        if k == "num":
            self.i += 1
            if ty.k == "fp" or "." in w:
                return ("fp", w)
            return ("int", int(w, 16) if w.startswith("0x") else int(w))
        if k == "cstr":
            self.i += 1
            return ("cstr", w)
        if w in ("true", "false"):
            self.i += 1
            return ("int", 1 if w == "true" else 0)
        if w == "null":
            self.i += 1
            return ("null",)
        if w in ("undef", "poison"):
            self.i += 1
            return ("undef",)
        if w == "zeroinitializer":
            self.i += 1
            return ("zero",)
        if w == "getelementptr":
            self.i += 1
            while self.kind() == "word":
                if self.peek() == "inrange":
                    self.next()
                    if self.accept("("):
                        while self.next() != ")":
                            pass
                    continue
                if self.peek() in ("inbounds", "nuw", "nusw"):
                    self.next()
                    continue
                break
            self.expect("(")
            st = self.type()
            self.expect(",")
            ops = []
            while True:
                if self.peek() == "inrange":
                    self.next()
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(")"):
                    break
                self.expect(",")
            return ("gep", st, ops)
        if w in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.i += 1
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", w, t, v, t2)
        if w in ("add", "sub", "mul", "shl", "and", "or", "xor"):
            self.i += 1
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type(); a = self.value(t); self.expect(",")
            t = self.type(); b = self.value(t); self.expect(")")
            return ("bin", w, t, a, b)
        if w in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[w]
            self.i += 1
            if w == "<" and self.peek() == "{":
                v = self.value(ty)
                self.expect(">")
                return v
            el = []
            if self.accept(close):
                return ("agg", el)
            while True:
                t = self.type()
                el.append((t, self.value(t)))
                if self.accept(close):
                    break
                self.expect(",")
            return ("agg", el)
        if w == "asm":
            self.i += 1
            while self.kind() == "word":
                self.next()
            a = self.next(); self.expect(","); b = self.next()
            return ("asm", a, b)
        raise ParseError("value %r in %s" % (w, " ".join(x[1] for x in self.t)))


ATTRW = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "signext",
         "zeroext", "returned", "immarg", "inreg", "nest", "swiftself", "nofree", "noreturn", "allocptr",
         "allocalign", "inalloca", "noext"}


def skip_attrs(tk):
    while True:
        w = tk.peek()
        if w in ATTRW:
            tk.next()
        elif w in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype",
                   "memory", "range", "nofpclass", "initializes"):
            tk.next()
            if tk.accept("("):
                d = 1
                while d:
                    x = tk.next()
                    d += (x == "(") - (x == ")")
            elif w == "align":
                tk.next()
        elif tk.kind() == "str":
            tk.next()
            if tk.accept("="):
                tk.next()
        else:
            return


class Instr:
    __slots__ = ("op", "dst", "ty", "ops", "x", "dbg", "fn", "text", "blk", "idx")

    def __init__(self, op, dst, ty=None, ops=None, **x):
        self.op, self.dst, self.ty, self.ops, self.x = op, dst, ty, ops or [], x
        self.dbg = None

    def __repr__(self):
        return "<%s>" % self.text


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.succs = []
        self.preds = []


class Function:
    def __init__(self, name, ret, params, defined, vararg=False):
        self.name, self.ret, self.params, self.defined = name, ret, params, defined
        self.vararg = vararg
        self.blocks = {}
        self.entry = None
        self.internal = False
        self.dbg = None
        self.noreturn = False
        self.file = None
        self.line = None


class Global:
    def __init__(self, name, ty, init, const, internal, tls, external):
        self.name, self.ty, self.init, self.const = name, ty, init, const
        self.internal, self.tls, self.external = internal, tls, external


class Module:
    def __init__(self):
        self.named = {}
        self.layout = Layout(self.named)
        self.functions = {}
        self.globals = {}
        self.meta = {}
        self.attrs = {}
        self._loc = {}

    # ---- debug info
    def _md(self, n):
        return self.meta.get(n, "")

    def loc(self, dbg):
        """(file, line) of a !dbg reference"""
        if dbg is None:
            return ("?", 0)
        if dbg in self._loc:
            return self._loc[dbg]
        s = self._md(dbg)
        m = re.search(r"line: (\d+)", s)
        line = int(m.group(1)) if m else 0
        m = re.search(r"scope: (!\d+)", s)
        f = self.scope_file(m.group(1)) if m else "?"
        self._loc[dbg] = (f, line)
        return f, line

    def scope_file(self, sc):
        seen = 0
        while sc and seen < 50:
            s = self._md(sc)
            if s.startswith("!DIFile"):
                m = re.search(r'filename: "([^"]*)"', s)
                return m.group(1) if m else "?"
            m = re.search(r"\bfile: (!\d+)", s)
            if m:
                sc = m.group(1)
            else:
                m = re.search(r"scope: (!\d+)", s)
                sc = m.group(1) if m else None
            seen += 1
        return "?"

    def strip_dbg(self, s):
        return s


def parse(text):
    mod = Module()
    lines = text.split("\n")
    # metadata first
    for ln in lines:
        if ln.startswith("!") and " = " in ln:
            k, v = ln.split(" = ", 1)
            if v.startswith("distinct "):
                v = v[9:]
            mod.meta[k] = v
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in "!;":
            continue
        if ln.startswith("%") and " = type " in ln:
            nm, b = ln.split(" = type ", 1)
            mod.named[nm] = Toks(tokenize(b), mod).type()
        elif ln.startswith("@"):
            parse_global(mod, ln)
        elif ln.startswith("attributes"):
            m = re.match(r"attributes (#\d+) = \{(.*)\}", ln)
            mod.attrs[m.group(1)] = m.group(2)
        elif ln.startswith("declare") or ln.startswith("define"):
            f = parse_sig(mod, ln)
            if ln.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                parse_body(mod, f, body)
    for f in mod.functions.values():
        if f.attr and "noreturn" in mod.attrs.get(f.attr, ""):
            f.noreturn = True
    return mod


def parse_global(mod, ln):
    tk = Toks(tokenize(ln), mod)
    name = tk.next()[1:].strip('"')
    tk.expect("=")
    internal = tls = external = const = False
    while True:
        w = tk.peek()
        if w in ("internal", "private"):
            internal = True
        elif w in ("external", "extern_weak"):
            external = True
        elif w == "thread_local":
            tls = True
            tk.next()
            if tk.accept("("):
                tk.next(); tk.expect(")")
            continue
        elif w == "global":
            tk.next()
            break
        elif w == "constant":
            const = True
            tk.next()
            break
        elif w == "alias":
            raise ParseError("alias")
        tk.next()
    ty = tk.type()
    init = None
    if not external and not tk.eof() and tk.peek() != ",":
        try:
            init = tk.value(ty)
        except ParseError:
            init = None
    mod.globals[name] = Global(name, ty, init, const, internal, tls, external)


def parse_sig(mod, ln):
    m = re.search(r"@(\"[^\"]*\"|[-\w$.]+)\(", ln)
    name = m.group(1).strip('"')
    head = ln[:m.start()]
    # matching paren
    j = m.end() - 1
    d = 0
    for k in range(j, len(ln)):
        if ln[k] == "(":
            d += 1
        elif ln[k] == ")":
            d -= 1
            if d == 0:
                break
    plist, tail = ln[j + 1:k], ln[k + 1:]
    htk = Toks(tokenize(head), mod)
    htk.next()
    internal = False
    while True:
        w = htk.peek()
        if w in ("internal", "private"):
            internal = True
            htk.next()
        elif w in ("dso_local", "linkonce_odr", "weak", "linkonce", "external", "hidden", "weak_odr",
                   "available_externally", "fastcc", "unnamed_addr"):
            htk.next()
        else:
            before = htk.i
            skip_attrs(htk)
            if htk.i == before:
                break
    ret = htk.type()
    params = []
    va = False
    tk = Toks(tokenize(plist), mod)
    while not tk.eof():
        if tk.peek() == "...":
            va = True
            tk.next()
            break
        t = tk.type()
        skip_attrs(tk)
        nm = None
        if tk.kind() == "id":
            nm = tk.next()[1:]
        params.append((t, nm))
        if not tk.eof():
            tk.expect(",")
    f = Function(name, ret, params, ln.startswith("define"), va)
    f.internal = internal
    f.retsigned = "signext" in head
    mm = re.search(r"#\d+", tail)
    f.attr = mm.group() if mm else None
    mm = re.search(r"!dbg (!\d+)", tail)
    if mm:
        f.dbg = mm.group(1)
        s = mod.meta.get(f.dbg, "")
        q = re.search(r"\bline: (\d+)", s)
        f.line = int(q.group(1)) if q else 0
        q = re.search(r"file: (!\d+)", s)
        f.file = mod.scope_file(q.group(1)) if q else "?"
    mod.functions[name] = f
    return f


ORD = ("unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst")
LBL = re.compile(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):')


def parse_body(mod, f, body):
    # join multi-line switch
    joined = []
    k = 0
    while k < len(body):
        ln = body[k]
        s = ln.strip()
        if re.search(r"\bswitch\b", s) and s.endswith("["):
            while not body[k].strip().startswith("]"):
                k += 1
                s += " " + body[k].strip()
        joined.append(s)
        k += 1
    cur = None
    for s in joined:
        if not s or s[0] == ";":
            continue
        m = LBL.match(s)
        if m and not s.startswith("%"):
            cur = Block(m.group(1) or m.group(2))
            f.blocks[cur.name] = cur
            if f.entry is None:
                f.entry = cur
            continue
        if cur is None:
            # implicit entry label
            nm = str(len(f.params))
            cur = Block(nm)
            f.blocks[nm] = cur
            f.entry = cur
        ins = parse_instr(mod, s)
        if ins is None:
            continue
        ins.fn = f
        ins.blk = cur.name
        ins.idx = len(cur.instrs)
        ins.text = s.split(", !dbg")[0]
        cur.instrs.append(ins)
    for b in f.blocks.values():
        t = b.instrs[-1]
        if t.op == "br":
            b.succs = [t.x["t"]] if "cond" not in t.x else [t.x["t"], t.x["f"]]
        elif t.op == "switch":
            b.succs = [t.x["default"]] + [c[1] for c in t.x["cases"]]
        else:
            b.succs = []
    for b in f.blocks.values():
        for s in b.succs:
            f.blocks[s].preds.append(b.name)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui",
        "fptrunc", "fpext", "addrspacecast"}


def lbl(tk):
    tk.expect("label")
    return tk.next()[1:].strip('"')


def parse_instr(mod, s):
    dbg = None
    m = re.search(r", !dbg (!\d+)", s)
    if m:
        dbg = m.group(1)
    # cut trailing metadata
    m = re.search(r", ![a-zA-Z]", s)
    core = s[:m.start()] if m else s
    tk = Toks(tokenize(core), mod)
    dst = None
    if tk.kind() == "id" and tk.peek(1) == "=":
        dst = tk.next()[1:]
        tk.next()
    op = tk.next()
    if op in ("tail", "musttail", "notail"):
        op = tk.next()

    def mk(*a, **k):
        i = Instr(*a, **k)
        i.dbg = dbg
        return i

    if op in BIN:
        fl = set()
        while tk.kind() == "word" and tk.peek() in ("nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp",
                                                    "contract", "afn", "reassoc", "disjoint"):
            fl.add(tk.next())
        t = tk.type()
        a = tk.value(t)
        tk.expect(",")
        b = tk.value(t)
        return mk("bin", dst, t, [a, b], o=op, flags=fl)
    if op in CAST:
        while tk.peek() in ("nneg", "nuw", "nsw"):
            tk.next()
        t = tk.type()
        v = tk.value(t)
        tk.expect("to")
        t2 = tk.type()
        return mk("cast", dst, t2, [v], o=op, src=t)
    if op == "load":
        at = tk.accept("atomic")
        vol = tk.accept("volatile")
        t = tk.type()
        tk.expect(",")
        pt = tk.type()
        p = tk.value(pt)
        order = None
        while tk.kind() == "word":
            w = tk.next()
            if w in ORD:
                order = w
        return mk("load", dst, t, [p], atomic=at, vol=vol, order=order)
    if op == "store":
        at = tk.accept("atomic")
        vol = tk.accept("volatile")
        t = tk.type()
        v = tk.value(t)
        tk.expect(",")
        pt = tk.type()
        p = tk.value(pt)
        order = None
        while tk.kind() == "word":
            w = tk.next()
            if w in ORD:
                order = w
        return mk("store", None, t, [v, p], atomic=at, vol=vol, order=order)
    if op == "cmpxchg":
        weak = tk.accept("weak")
        tk.accept("volatile")
        pt = tk.type(); p = tk.value(pt); tk.expect(",")
        t = tk.type(); a = tk.value(t); tk.expect(",")
        t = tk.type(); b = tk.value(t)
        orders = []
        while tk.kind() == "word":
            w = tk.next()
            if w in ORD:
                orders.append(w)
        return mk("cmpxchg", dst, t, [p, a, b], weak=weak, order=orders[0], order2=orders[-1])
    if op == "atomicrmw":
        tk.accept("volatile")
        o = tk.next()
        pt = tk.type(); p = tk.value(pt); tk.expect(",")
        t = tk.type(); v = tk.value(t)
        order = None
        while tk.kind() == "word":
            w = tk.next()
            if w in ORD:
                order = w
        return mk("rmw", dst, t, [p, v], o=o, order=order)
    if op == "fence":
        order = None
        sync = None
        while not tk.eof():
            w = tk.next()
            if w in ORD:
                order = w
            if w == "syncscope":
                tk.expect("(")
                sync = tk.next()
                tk.expect(")")
        return mk("fence", None, VOID, [], order=order, scope=sync)
    if op == "getelementptr":
        while tk.peek() in ("inbounds", "nuw", "nusw"):
            tk.next()
        st = tk.type()
        ops = []
        while tk.accept(","):
            t = tk.type()
            ops.append((t, tk.value(t)))
        return mk("gep", dst, PTR, ops, st=st)
    if op == "alloca":
        tk.accept("inalloca")
        t = tk.type()
        cnt = None
        if tk.accept(","):
            if tk.peek() not in ("align", "addrspace"):
                ct = tk.type()
                cnt = tk.value(ct)
        return mk("alloca", dst, PTR, [], at=t, count=cnt)
    if op == "icmp":
        tk.accept("samesign")
        pred = tk.next()
        t = tk.type()
        a = tk.value(t)
        tk.expect(",")
        b = tk.value(t)
        return mk("icmp", dst, I1, [a, b], pred=pred, src=t)
    if op == "fcmp":
        while tk.peek() in ("fast", "nnan", "ninf", "nsz"):
            tk.next()
        pred = tk.next()
        t = tk.type()
        a = tk.value(t); tk.expect(","); b = tk.value(t)
        return mk("fcmp", dst, I1, [a, b], pred=pred, src=t)
    if op == "br":
        if tk.peek() == "label":
            return mk("br", None, VOID, [], t=lbl(tk))
        t = tk.type()
        c = tk.value(t)
        tk.expect(",")
        a = lbl(tk)
        tk.expect(",")
        b = lbl(tk)
        if a == b:
            return mk("br", None, VOID, [], t=a)
        return mk("br", None, VOID, [c], cond=True, t=a, f=b)
    if op == "switch":
        t = tk.type()
        v = tk.value(t)
        tk.expect(",")
        d = lbl(tk)
        tk.expect("[")
        cases = []
        while not tk.accept("]"):
            ct = tk.type()
            cv = tk.value(ct)
            tk.expect(",")
            cases.append((cv, lbl(tk)))
        return mk("switch", None, VOID, [v], default=d, cases=cases, src=t)
    if op == "phi":
        t = tk.type()
        inc = []
        while True:
            tk.expect("[")
            v = tk.value(t)
            tk.expect(",")
            b = tk.next()[1:].strip('"')
            tk.expect("]")
            inc.append((v, b))
            if not tk.accept(","):
                break
        return mk("phi", dst, t, [], inc=inc)
    if op == "select":
        ct = tk.type(); c = tk.value(ct); tk.expect(",")
        t = tk.type(); a = tk.value(t); tk.expect(",")
        t = tk.type(); b = tk.value(t)
        return mk("select", dst, t, [c, a, b])
    if op == "freeze":
        t = tk.type()
        return mk("copy", dst, t, [tk.value(t)])
    if op == "fneg":
        t = tk.type()
        return mk("opaque", dst, t, [])
    if op == "extractvalue":
        t = tk.type()
        v = tk.value(t)
        ix = []
        while tk.accept(","):
            ix.append(int(tk.next()))
        return mk("extract", dst, None, [v], ix=ix)
    if op == "insertvalue":
        t = tk.type(); v = tk.value(t); tk.expect(",")
        t2 = tk.type(); e = tk.value(t2)
        ix = []
        while tk.accept(","):
            ix.append(int(tk.next()))
        return mk("insert", dst, t, [v, e], ix=ix)
    if op == "call":
        while tk.kind() == "word" and tk.peek() in ("fast", "nnan", "ninf", "nsz", "fastcc", "ccc", "coldcc",
                                                    "arcp", "contract", "afn", "reassoc"):
            tk.next()
        skip_attrs(tk)
        t = tk.type()
        if t.k == "func":
            t = t.el
        callee = tk.value(PTR)
        tk.expect("(")
        args = []
        while not tk.accept(")"):
            at = tk.type()
            if at.k == "metadata":
                d = 0
                while True:
                    w = tk.peek()
                    if d == 0 and w in (",", ")"):
                        break
                    d += (w == "(") - (w == ")")
                    tk.next()
                args.append((at, ("undef",)))
                tk.accept(",")
                continue
            skip_attrs(tk)
            args.append((at, tk.value(at)))
            tk.accept(",")
        attr = None
        if tk.kind() == "attr":
            attr = tk.next()
        return mk("call", dst, t, args, callee=callee, attr=attr)
    if op == "ret":
        t = tk.type()
        if t.k == "void":
            return mk("ret", None, VOID, [])
        return mk("ret", None, t, [tk.value(t)])
    if op == "unreachable":
        return mk("unreachable", None, VOID, [])
    if op in ("va_arg",):
        return mk("opaque", dst, PTR, [])
    raise ParseError("instr %s" % s)


# ----------------------------------------------------------------------------- loops
class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.parent = None


def loops_of(fn):
    """natural loops by header (merged), via dominators"""
    if hasattr(fn, "_loops"):
        return fn._loops
    order = []
    seen = set()

    def dfs(b):
        st = [(b, iter(fn.blocks[b].succs))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(fn.blocks[s].succs)))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(fn.entry.name)
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    dom = {b: None for b in rpo}
    dom[fn.entry.name] = fn.entry.name
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in fn.blocks[b].preds:
                if p in dom and dom[p] is not None:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]:
                                a = dom[a]
                            while num[c] > num[a]:
                                c = dom[c]
                        new = a
            if new != dom[b]:
                dom[b] = new
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == fn.entry.name:
                return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in fn.blocks[b].succs:
            if dominates(s, b):
                L = loops.setdefault(s, Loop(s))
                st = [b]
                while st:
                    x = st.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    st.extend(p for p in fn.blocks[x].preds if p in num)
            elif num[s] <= num[b]:
                raise ParseError("irreducible control flow in %s" % fn.name)
    fn._loops = loops
    return loops
