"""Rules on what the compiler's front end makes of the headers: which programs are accepted, what the
build options switch.  Compile-fail witnesses and queries over the generated IR; nothing is run."""
import itertools
import os
import re

from . import build, dq, rt, ext, stat
from .build import CLANG, CLANGXX, OPTIONS, CompileError, combo, constants, run
from .absint import AnalysisError
from .report import Report

COMPILERS = (("clang C", [CLANG, "-ferror-limit=0", "-std=gnu11"], "c"),
             ("gcc C", ["gcc", "-ftrack-macro-expansion=0", "-std=gnu11"], "c"),
             ("clang C++", [CLANGXX, "-ferror-limit=0", "-std=c++14"], "cc"),
             ("gcc C++", ["g++", "-ftrack-macro-expansion=0", "-std=c++14"], "cc"))


def compile_text(B, tag, text, cc, lang, flags):
    """(exit code, {line: first error}, output); errors attributed to the line of the witness that caused them"""
    src = os.path.join(B.tmp, "%s.%s" % (tag, lang))
    with open(src, "w") as f:
        f.write(text)
    p = run(cc + ["-w", "-fsyntax-only"] + list(flags) + [src], ok=False)
    errs = {}
    base = re.escape(os.path.basename(src))
    for l in p.stdout.split("\n"):
        m = re.search(base + r":(\d+)(?::\d+)?: (?:fatal )?error: (.*)", l)
        if m:
            errs.setdefault(int(m.group(1)), m.group(2))
    return p.returncode, errs, p.stdout


def first_errors(out, n=6):
    ls = [l for l in out.split("\n") if "error" in l or "Error" in l]
    return (ls or out.split("\n"))[:n]


# ------------------------------------------------------------------------------------- task size
def shapes(r, total):
    """parameter types that take exactly `total` bytes: [(description, [type])]"""
    if r == 0:
        return []
    out = []
    per = total // r
    last = total - per * (r - 1)
    out.append(("equal parts", ["B%d" % per] * (r - 1) + ["B%d" % last]))
    if r > 1:
        out.append(("one large", ["B1"] * (r - 1) + ["B%d" % (total - (r - 1))]))
        out.append(("one large first", ["B%d" % (total - (r - 1))] + ["B1"] * (r - 1)))
    return out


def declaration(form, name, r, isv, res, params):
    v = "VOID_" if isv else ""
    if form == "DECL":
        a = ([] if isv else [res]) + [name] + params
        return "%sTASK_DECL_%d(%s)" % (v, r, ", ".join(a))
    a = ([] if isv else [res]) + [name] + [x for i, p in enumerate(params) for x in (p, "x%d" % (i + 1))]
    body = "{ }" if isv else "{ %s r_ = %s(); return r_; }" % (res, "make_" + res) if res.startswith("B") else "{ return 0; }"
    return "%sTASK_%d(%s) %s" % (v, r, ", ".join(a), body)


def slot_cases(variant, cap, over):
    """declarations of every arity whose parameters or result take `cap` bytes (over: 0) or more
    [(label, arity, void, result, [param])]"""
    out = []
    for r in range(build.max_arity(variant) + 1):
        for extra in ([0] if not over else over):
            n = cap + extra
            for what, ps in shapes(r, n):
                for isv in (False, True):
                    out.append(("%s parameters of %d bytes (%s)" % (r, n, what), r, isv, "char", ps))
            small = ["char"] * r
            out.append(("a result of %d bytes, %d parameters" % (n, r), r, False, "B%d" % n, small))
    return out


def prelude(variant, cases, extra=""):
    sizes = sorted({int(x[1:]) for _, _, _, res, ps in cases for x in [res] + ps if re.match(r"B\d+$", x)})
    o = ["#include <%s.h>" % variant, extra]
    for n in sizes:
        o.append("typedef struct { char c[%d]; } B%d; B%d make_B%d(void);" % (n, n, n, n))
    return o


def slot_size(R, B, variant, comp, cfg="default"):
    """a task fits its slot or does not compile"""
    cname, cc, lang = comp
    flags = [f for f in B.user_flags(cfg) if not f.startswith("-std")]
    entry = "%s, %s" % (variant, cname)
    arity = build.max_arity(variant)
    cap0 = 8 * arity
    SA = "static_assert" if lang == "cc" else "_Static_assert"

    def text_accept(cases, total):
        t = prelude(variant, cases)
        at = {}
        for i, (label, r, isv, res, ps) in enumerate(cases):
            for form in ("DECL", "TASK"):
                nm = "t%d%s" % (i, form[0])
                t.append(declaration(form, nm, r, isv, res, ps) +
                         " %s(sizeof(TD_%s) <= sizeof(Task), \"fits\");" % (SA, nm))
                at[len(t)] = (label, form, isv, r)
        return "\n".join(t) + "\n", at

    tag = "slot-%s-%s" % (variant, cname.replace(" ", "").replace("+", "p"))
    rc, errs, out = compile_text(B, tag + "-0", "#include <%s.h>\nTASK_DECL_1(int, t1, int)\nVOID_TASK_DECL_0(t0)\n" % variant,
                                 cc, lang, flags)
    if rc:
        R.notes.append("%s: small tasks do not compile, nothing was decided here (see C27)" % entry)
        return

    # documented size, whole cache lines, documented number of pointers
    t = ["#include <%s.h>" % variant]
    facts = {}
    t.append('%s(sizeof(Task) == %d, "");' % (SA, 64 if variant == "lace" else 128))
    facts[len(t)] = "a task slot does not take the documented %d bytes" % (64 if variant == "lace" else 128)
    t.append('%s(sizeof(Task) %% 64 == 0, "");' % SA)
    facts[len(t)] = "a task slot is not a whole number of cache lines"
    t.append('%s(sizeof(((Task*)0)->d) >= %d * sizeof(void*), "");' % (SA, arity))
    facts[len(t)] = "a task slot has no room for %d pointers" % arity
    t.append("VOID_TASK_DECL_%d(tp%s)" % (arity, ", void*" * arity))
    facts[len(t)] = "a task of %d pointers is rejected" % arity
    t.append("TASK_DECL_%d(void*, tq%s)" % (arity, ", void*" * arity))
    facts[len(t)] = "a task of %d pointers with a result is rejected" % arity
    rc, errs, out = compile_text(B, tag + "-a", "\n".join(t) + "\n", cc, lang, flags)
    for ln, what in facts.items():
        R.check("slot.size", ln not in errs, entry, "src/%s.h" % variant, what, None if ln not in errs else [errs[ln]])
    if rc and not errs:
        R.check("slot.size", False, entry, "src/%s.h" % variant, "the header does not compile", first_errors(out))
        return

    # exactly full tasks are accepted and fit
    cases = slot_cases(variant, cap0, None)
    # (parameters that do not fill the slot, and alignment)
    text, at = text_accept(cases, cap0)
    rc, errs, out = compile_text(B, tag + "-b", text, cc, lang, flags)
    for ln, (label, form, isv, r) in at.items():
        R.check("slot.accepts", ln not in errs, "%s %s_%d%s" % (entry, form, r, " void" if isv else ""), "src/%s.h" % variant,
                "a task with %s is rejected or does not fit" % label, None if ln not in errs else [errs[ln]])
    if rc and not errs:
        R.check("slot.accepts", False, entry, "src/%s.h" % variant, "tasks that fit do not compile", first_errors(out))

    # larger tasks are rejected, each of them
    cases = slot_cases(variant, cap0, (1, 8, 64, 4096))
    cases += [("%d parameters aligned to 16 bytes" % r, r, isv, "char", ["A16"] * r)
              for r in range(1, arity + 1) if 16 * r > cap0 for isv in (False, True)]
    cases += [("a result aligned to 16 bytes", 0, False, "L%d" % n, []) for n in (cap0 // 16 * 16 + 16,)]
    al = ["typedef struct { _Alignas(16) char c[16]; } A16;" if lang == "c" else "struct alignas(16) A16 { char c[16]; };"]
    n = cap0 // 16 * 16 + 16
    al.append(("typedef struct { _Alignas(16) char c[%d]; } L%d;" if lang == "c" else "struct alignas(16) L%d { char c[%d]; };") % (n, n))
    t = prelude(variant, cases, " ".join(al))
    at = {}
    for i, (label, r, isv, res, ps) in enumerate(cases):
        t.append(declaration("DECL", "t%d" % i, r, isv, res, ps))
        at[len(t)] = (label, r, isv)
    rc, errs, out = compile_text(B, tag + "-c", "\n".join(t) + "\n", cc, lang, flags)
    for ln, (label, r, isv) in at.items():
        R.check("slot.rejects", ln in errs, "%s %sTASK_DECL_%d" % (entry, "VOID_" if isv else "", r), "src/%s.h" % variant,
                "a task with %s is accepted although it does not fit its slot" % label,
                None if ln in errs else [t[ln - 1]])

    # the slot size can be changed, and the same holds for the new one
    for ts in (cap0 + 64, 56, cap0 + 8, 16):
        f2 = flags + ["-DLACE_TASKSIZE=%d" % ts]
        rc, errs, out = compile_text(B, tag + "-d", "#include <%s.h>\n" % variant, cc, lang, f2)
        if rc:
            R.check("slot.override", ts != cap0 + 64, entry, "src/%s.h" % variant, "LACE_TASKSIZE=%d is rejected" % ts, first_errors(out))
            continue
        t = ["#include <%s.h>" % variant, '%s(sizeof(Task) %% 64 == 0, "");' % SA, '%s(sizeof(((Task*)0)->d) >= %d, "");' % (SA, ts)]
        rc, errs, out = compile_text(B, tag + "-e", "\n".join(t) + "\n", cc, lang, f2)
        R.check("slot.override", 2 not in errs and rc in (0, 1), entry, "src/%s.h" % variant,
                "with LACE_TASKSIZE=%d a task slot is not a whole number of cache lines" % ts, first_errors(out) if errs else None)
        R.check("slot.override", 3 not in errs, entry, "src/%s.h" % variant,
                "with LACE_TASKSIZE=%d a task slot has less room than that" % ts, first_errors(out) if errs else None)
    ts = cap0 + 64
    f2 = flags + ["-DLACE_TASKSIZE=%d" % ts]
    cases = slot_cases(variant, ts, None)
    text, at = text_accept(cases, ts)
    rc, errs, out = compile_text(B, tag + "-f", text, cc, lang, f2)
    bad = [at[l][0] for l in errs if l in at]
    R.check("slot.override", rc == 0, entry, "src/%s.h" % variant,
            "with LACE_TASKSIZE=%d, tasks of that size are rejected: %s" % (ts, "; ".join(bad[:3])), first_errors(out) if rc else None)
    cases = slot_cases(variant, ts, (1,))
    t = prelude(variant, cases)
    at = {}
    for i, (label, r, isv, res, ps) in enumerate(cases):
        t.append(declaration("DECL", "t%d" % i, r, isv, res, ps))
        at[len(t)] = (label, r, isv)
    rc, errs, out = compile_text(B, tag + "-g", "\n".join(t) + "\n", cc, lang, f2)
    bad = [label for l, (label, r, isv) in at.items() if l not in errs]
    R.check("slot.override", not bad, entry, "src/%s.h" % variant,
            "with LACE_TASKSIZE=%d, larger tasks are accepted: %s" % (ts, "; ".join(bad[:3])))


def task_types(R, B, variant, cfg="default"):
    """sizes of the task types the IR of the witness unit really uses"""
    ks = build.kinds(variant)
    L = constants(B.unit("w", build.witness_text(variant, ks), variant, cfg))
    lay = B.layout(variant, cfg)
    for name, r, isv in ks:
        z = L.get("z_TD_" + name)
        if z is None:
            raise AnalysisError("size of the task type of " + name + " not found")
        ok = z <= lay["z_Task"] and z >= lay["o_Task_d"] + (8 * r if r or not isv else 0) - (0 if r or isv else 0)
        R.check("slot.type", z <= lay["z_Task"], "%s/%s %s" % (variant, cfg, name), "src/%s.h" % variant,
                "the task type takes %d bytes, its slot %d" % (z, lay["z_Task"]))
        R.check("slot.type", z >= lay["o_Task_d"] + 8 * r, "%s/%s %s" % (variant, cfg, name), "src/%s.h" % variant,
                "the task type has no room for its parameters")


# ------------------------------------------------------------------------------------- build options
CLOCKS = ("llvm.x86.rdtsc", "llvm.x86.rdtscp", "llvm.readcyclecounter", "llvm.readsteadycounter", "clock_gettime", "gettimeofday",
          "mach_absolute_time", "gethrtime")


def references(m):
    """names of functions and globals a module's code and initialisers mention; and inline assembly texts"""
    names, asm = set(), []

    def walk(v):
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            if v[0] == "glob":
                names.add(v[1])
            if v[0] == "asm":
                asm.append(v[1])
            for x in v[1:]:
                walk(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(x)
    for f in m.functions.values():
        for b in f.blocks.values():
            for i in b.instrs:
                walk(i.ops)
                c = i.x.get("callee")
                if c:
                    walk(c)
                for inc in i.x.get("inc") or ():
                    walk(inc)
    for g in m.globals.values():
        if g.init:
            walk(g.init)
    return names, asm


def reads_clock(names, asm):
    return any("rdtsc" in a or "cntvct" in a for a in asm) or any(c in names for c in CLOCKS)


def user_text(variant):
    mx = build.max_arity(variant)
    ks = [k for k in build.kinds(variant) if k[1] in (0, 1, mx)]
    t = build.witness_text(variant, ks).replace("@HDR@", variant + ".h")
    t += "unsigned long w_random(WorkerP *__lace_worker) { return LACE_TRNG; }\n"
    t += "int w_pu(WorkerP *__lace_worker) { return LACE_WORKER_PU; }\n"
    t += "LACE_TYPEDEF_CB(int, callback_t, int)\n"
    t += "TASK_DECL_1(int, cb, int)\ncallback_t w_cb(void) { return TASK(cb); }\n"
    t += "#if LACE_COUNT_EVENTS\nvoid w_report(void) { lace_count_reset(); lace_count_report_file(stdout); }\n#endif\n"
    t += "void w_api(void) { lace_set_verbosity(0); lace_set_stacksize(lace_get_stacksize()); lace_start(lace_get_pu_count(), 0);" \
         " lace_suspend(); lace_resume(); lace_barrier(); (void)lace_workers(); (void)lace_is_worker(); lace_stop(); }\n"
    return t


def options(R, B, bits):
    """one combination of the build options"""
    on = {o: b == "1" for o, b in zip(OPTIONS, bits)}
    name = combo(bits)
    label = ", ".join("%s=%s" % (o[5:], "ON" if on[o] else "OFF") for o in OPTIONS)
    try:
        B.config(name)
    except CompileError as e:
        R.check("opt.configures", False, label, "CMakeLists.txt", "cmake rejects this combination", first_errors(e.out))
        return
    R.count("opt.configures")
    for variant in ("lace", "lace14"):
        entry = "%s %s" % (variant, label)
        src = os.path.join(build.REPO, "src", variant + ".c")
        hdr = "src/%s.h" % variant
        try:
            lib = B.lib(variant, name)
            R.count("opt.library")
        except CompileError as e:
            R.check("opt.library", False, entry, "src/%s.c" % variant, "the library does not compile", first_errors(e.out))
            continue
        p = run(["gcc", "-w", "-fsyntax-only"] + B.lib_flags(variant, name) + [src], ok=False)
        R.check("opt.library", p.returncode == 0, entry, "src/%s.c" % variant, "the library does not compile with gcc",
                first_errors(p.stdout) if p.returncode else None)
        text = user_text(variant)
        try:
            user = B.unit("user", text, variant, name)
            R.count("opt.user")
        except CompileError as e:
            R.check("opt.user", False, entry, hdr, "C programs using the header do not compile", first_errors(e.out))
            continue
        uf = [f for f in B.user_flags(name) if not f.startswith("-std")]
        tag = "u-%s-%s" % (variant, name)
        for cname, cc, lang in (("gcc, C11", ["gcc", "-std=c11"], "c"), ("gcc, C17", ["gcc", "-std=gnu17"], "c"),
                                ("clang, C++11", [CLANGXX, "-std=c++11"], "cc"), ("clang, C++20", [CLANGXX, "-std=gnu++20"], "cc"),
                                ("gcc, C++11", ["g++", "-std=gnu++11"], "cc"), ("gcc, C++17", ["g++", "-std=c++17"], "cc")):
            rc, errs, out = compile_text(B, tag, text, cc, lang, uf)
            R.check("opt.user", rc == 0, "%s (%s)" % (entry, cname), hdr,
                    "programs using the header do not compile (%s)" % cname, first_errors(out) if rc else None)
        # the values the code sees, in the library and in user code
        lay = B.layout(variant, name)
        inlib = B.ir_text('#include "%s"\n' % src + B.layout_text(), "liblay-%s-%s" % (variant, name), B.lib_flags(variant, name), "c", set(lay))
        for o in OPTIONS:
            k = "v_" + o
            if k in lay:
                R.check("opt.value", lay[k] == (1 if on[o] else 0), entry, "src/lace_config.h.in",
                        "%s is %d in user code" % (o, lay[k]))
                R.check("opt.value", inlib.get(k) == (1 if on[o] else 0), entry, "src/%s.c" % variant,
                        "%s is %s in the library" % (o, inlib.get(k)))
        diff = sorted(k for k in lay if inlib.get(k) != lay[k])
        R.check("opt.layout", not diff, entry, "src/%s.c" % variant,
                "the library and C programs disagree about the data layout: %s" % ", ".join(diff[:4]))
        incxx = B.ir_text("#include <%s.h>\n" % variant + B.layout_text(), "cxxlay-%s-%s" % (variant, name), uf, "cc", set(lay))
        diff = sorted(k for k in lay if incxx.get(k) != lay[k])
        R.check("opt.layout", not diff, entry, hdr, "C and C++ programs disagree about the data layout: %s" % ", ".join(diff[:4]))
        # what is switched
        ln, la = references(lib)
        un, ua = references(user)
        has = "mmap" in ln
        R.check("opt.mmap", has == on["LACE_USE_MMAP"], entry, "src/%s.c" % variant,
                "mmap is %sused by the library" % ("" if has else "not "))
        has = "munmap" in ln
        R.check("opt.mmap", has == on["LACE_USE_MMAP"], entry, "src/%s.c" % variant,
                "munmap is %sused by the library" % ("" if has else "not "))
        has = any(n.startswith("hwloc_") for n in ln)
        R.check("opt.hwloc", has == on["LACE_USE_HWLOC"], entry, "src/%s.c" % variant,
                "hwloc is %sused by the library" % ("" if has else "not "))
        pins = any(n in ("hwloc_set_cpubind", "hwloc_set_thread_cpubind", "pthread_setaffinity_np") for n in ln)
        R.check("opt.hwloc", pins or not on["LACE_USE_HWLOC"], entry, "src/%s.c" % variant,
                "workers are not pinned although hwloc is used")
        for where, (nn, aa) in (("the library", (ln, la)), ("user code", (un, ua))):
            has = reads_clock(nn, aa)
            R.check("opt.pie", has == on["LACE_PIE_TIMES"], entry, hdr,
                    "%s %s the clock" % (where, "reads" if has else "does not read"))
        cnt = any(on[o] for o in ("LACE_PIE_TIMES", "LACE_COUNT_TASKS", "LACE_COUNT_STEALS", "LACE_COUNT_SPLITS"))
        for fn in ("lace_count_reset", "lace_count_report_file"):
            f = lib.functions.get(fn)
            has = f is not None and f.defined
            R.check("opt.report", has or not cnt, entry, "src/%s.c" % variant, "%s is not defined" % fn)
        R.check("opt.counters", ("n_ctr" in lay) == cnt, entry, hdr,
                "workers have %s counters" % ("no" if cnt else "still"))
        for o, c in (("LACE_COUNT_TASKS", "CTR_tasks"), ("LACE_COUNT_STEALS", "CTR_steals"), ("LACE_COUNT_SPLITS", "CTR_split_grow"),
                     ("LACE_PIE_TIMES", "CTR_wapp")):
            if "n_ctr" in lay and on[o]:
                R.check("opt.counters", "i_" + c in lay and lay["i_" + c] < lay["n_ctr"], entry, hdr, "there is no counter %s" % c)
        # the report is made when Lace stops
        seen, todo = set(), ["lace_stop"]
        while todo:
            f = lib.functions.get(todo.pop())
            if f is None or f.name in seen or not f.defined:
                continue
            seen.add(f.name)
            for b in f.blocks.values():
                for i in b.instrs:
                    c = i.x.get("callee")
                    if c and c[0] == "glob":
                        todo.append(c[1])
        has = "lace_count_report_file" in seen
        R.check("opt.report", has == cnt, entry, "src/%s.c" % variant, "the counters are %sreported when Lace stops" % ("" if has else "not "))
        # everything user code calls is there
        for n in sorted(un):
            f = user.functions.get(n)
            if f is not None and not f.defined and re.match(r"_?lace_", n) and n != build.POSITION:
                d = lib.functions.get(n)
                R.check("opt.defined", d is not None and d.defined and not d.internal, entry, "src/%s.c" % variant,
                        "%s is called by user code but not defined by the library" % n)
            g = user.globals.get(n)
            if g is not None and g.external and re.match(r"_?lace_", n):
                d = lib.globals.get(n)
                R.check("opt.defined", d is not None and not d.external and not d.internal, entry, "src/%s.c" % variant,
                        "%s is used by user code but not defined by the library" % n)


def combos(tier):
    """combinations of the options: every one of them"""
    return ["".join(x) for x in itertools.product("01", repeat=len(OPTIONS))]


def counting(R, B, variant, bits, what):
    """the counters that are switched on count, the others do not (the rules of the counters, per combination)"""
    name = combo(bits)
    lay = B.layout(variant, name)
    X = Report()
    if what == "user":
        ks = [("n1", 1, False), ("v0", 0, True)]
        env = dq.Env(B.unit("wc", build.witness_text(variant, ks), variant, name), lay, variant + "/" + name)
        for k in ks:
            info = {}
            for a in (0, 1):
                dq.spawn(X, env, k, a, info)
            dq.wrapper(X, env, k, info)
            for a in (0, 1):
                dq.sync(X, env, k, a, info)
        for a in (0, 1):
            dq.sync(X, env, ("drop", 0, True), a, {}, drop=True)
            dq.makeall(X, env, a)
    else:
        env = rt.RtEnv(B.lib(variant, name), lay, variant + "/" + name)
        env.R = X
        env.B, env.variant, env.cfg = B, variant, name
        ext.workers(X, env)
        stat.counters(X, env)
    X.viol = [v for v in X.viol if v["rule"].startswith("count.")]
    X.obl = {k: v for k, v in X.obl.items() if k.startswith("count.")}
    R.merge(X)
    R.count("opt.counting")
