"""Builds the analysed program from /repo's current sources: cmake configurations, LLVM IR of the
library, and of small witness units that instantiate every task macro."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import atexit

from . import ir

REPO = os.environ.get("LACE_REPO", "/repo")
CLANG = "/usr/bin/clang-18"
CLANGXX = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"

CONFIGS = {
    "default": [],
    "stats": ["-DLACE_COUNT_TASKS=ON", "-DLACE_COUNT_STEALS=ON", "-DLACE_COUNT_SPLITS=ON"],
    "pie": ["-DLACE_PIE_TIMES=ON", "-DLACE_COUNT_TASKS=ON", "-DLACE_COUNT_STEALS=ON", "-DLACE_COUNT_SPLITS=ON"],
    "pieonly": ["-DLACE_PIE_TIMES=ON"],
    "nommap": ["-DLACE_USE_MMAP=OFF"],
    "hwloc": ["-DLACE_USE_HWLOC=ON"],
}


OPTIONS = ("LACE_USE_MMAP", "LACE_USE_HWLOC", "LACE_COUNT_TASKS", "LACE_COUNT_STEALS", "LACE_COUNT_SPLITS", "LACE_PIE_TIMES")


def combo(bits):
    """name of the configuration with these values of OPTIONS ('101000')"""
    return "o-" + bits


def options_of(name):
    """cmake arguments of a configuration"""
    if name.startswith("o-"):
        return ["-D%s=%s" % (o, "ON" if b == "1" else "OFF") for o, b in zip(OPTIONS, name[2:])]
    return CONFIGS[name]


class BuildError(Exception):
    pass


class CompileError(BuildError):
    def __init__(self, cmd, out):
        BuildError.__init__(self, out)
        self.cmd, self.out = cmd, out


def run(cmd, cwd=None, ok=True, timeout=600):
    env = dict(os.environ)
    for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS", "CPATH", "C_INCLUDE_PATH"):
        env.pop(v, None)
    env["LC_ALL"] = "C.UTF-8"
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                       timeout=timeout, errors="replace")
    if ok and p.returncode != 0:
        raise CompileError(cmd, p.stdout)
    return p


class Build:
    def __init__(self, tmp=None):
        self.own = tmp is None
        self.tmp = tmp or tempfile.mkdtemp(prefix="lace-sa-")
        if self.own:
            atexit.register(self.cleanup)
        self.cfgs = {}
        self.mods = {}

    def cleanup(self):
        if self.own and os.path.isdir(self.tmp):
            shutil.rmtree(self.tmp, ignore_errors=True)

    # ---------------------------------------------------------------- configure
    def configure_raw(self, name, opts):
        d = os.path.join(self.tmp, "cfg-" + name)
        p = run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
                 "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
                 "-DLACE_BUILD_TESTS=OFF", "-DLACE_BUILD_BENCHMARKS=OFF",
                 "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"] + opts, ok=False)
        return d, p

    def config(self, name):
        if name in self.cfgs:
            return self.cfgs[name]
        d, p = self.configure_raw(name, options_of(name))
        if p.returncode != 0 or not os.path.exists(os.path.join(d, "lace_config.h")):
            raise CompileError("cmake " + name, p.stdout)
        flags = {}
        for e in json.load(open(os.path.join(d, "compile_commands.json"))):
            base = os.path.basename(e["file"])
            args = e["command"].split()
            keep = []
            it = iter(args)
            for a in it:
                if a.startswith("-D") or a.startswith("-U") or a.startswith("-I") or a.startswith("-std="):
                    keep.append(a)
                elif a in ("-isystem", "-include"):
                    keep += [a, next(it)]
            flags[base] = keep
        self.cfgs[name] = (d, flags)
        return self.cfgs[name]

    def lib_flags(self, variant, cfg):
        d, fl = self.config(cfg)
        return fl.get(variant + ".c", ["-I" + os.path.join(REPO, "src"), "-I" + d, "-std=gnu11"])

    def user_flags(self, cfg):
        d, _ = self.config(cfg)
        return ["-I" + os.path.join(REPO, "src"), "-I" + d, "-std=gnu11"]

    # ---------------------------------------------------------------- IR
    def ir(self, src, flags, tag, extra=()):
        ll = os.path.join(self.tmp, tag + ".ll")
        run([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-discard-value-names",
             "-DNDEBUG", "-w", "-S", "-emit-llvm"] + [f for f in flags] + list(extra) + [src, "-o", ll])
        out = ll + ".m"
        run([OPT, "-passes=mem2reg", "-S", ll, "-o", out])
        with open(out) as f:
            text = f.read()
        m = ir.parse(text)
        m.srcfile = src
        return m

    def ir_text(self, text, tag, flags, lang, keep):
        """constants of a unit given as text; lines for constants not in `keep` are left out"""
        ls = []
        for l in text.split("\n"):
            m = re.match(r"const unsigned long (\w+)", l)
            if m and m.group(1) not in keep:
                continue
            ls.append('extern "C" ' + l if lang == "cc" and m else l)
        src = os.path.join(self.tmp, tag + "." + lang)
        with open(src, "w") as f:
            f.write("\n".join(ls))
        ll = os.path.join(self.tmp, tag + ".ll")
        cc = [CLANG] if lang == "c" else [CLANGXX, "-std=c++14", "-Wno-invalid-offsetof"]
        p = run(cc + ["-O0", "-w", "-S", "-emit-llvm"] + list(flags) + [src, "-o", ll], ok=False)
        if p.returncode:
            return {}
        out = {}
        for l in open(ll):
            m = re.match(r"@(\w+) = .*constant i64 (\d+)", l)
            if m:
                out[m.group(1)] = int(m.group(2))
        return out

    def lib(self, variant, cfg):
        k = ("lib", variant, cfg)
        if k not in self.mods:
            src = os.path.join(REPO, "src", variant + ".c")
            self.mods[k] = self.ir(src, self.lib_flags(variant, cfg), "lib-%s-%s" % (variant, cfg))
        return self.mods[k]

    def unit(self, name, text, variant, cfg, extra=()):
        k = ("unit", name, variant, cfg)
        if k not in self.mods:
            src = os.path.join(self.tmp, "%s-%s-%s.c" % (name, variant, cfg))
            with open(src, "w") as f:
                f.write(text.replace("@HDR@", variant + ".h"))
            self.mods[k] = self.ir(src, self.user_flags(cfg), "%s-%s-%s" % (name, variant, cfg), extra)
        return self.mods[k]

    # ---------------------------------------------------------------- layout
    FIELDS = {
        "WorkerP": ["dq", "split", "end", "_public", "rng", "seed", "worker", "allstolen", "pu"],
        "Worker": ["dq", "ts", "allstolen", "movesplit"],
        "Task": ["f", "thief", "d"],
    }

    def layout(self, variant, cfg):
        k = ("layout", variant, cfg)
        if k not in self.mods:
            text = "#include <@HDR@>\n" + self.layout_text()
            while True:
                try:
                    m = self.unit("layout", text, variant, cfg)
                    break
                except CompileError as e:
                    # constants of members and counters this configuration does not have are left out
                    bad = {int(x) for x in re.findall(r"layout-\S+\.c:(\d+):\d+: error", e.out)}
                    ls = text.split("\n")
                    keep = [l for n, l in enumerate(ls, 1) if n not in bad or not l.startswith("const unsigned long")]
                    if len(keep) == len(ls):
                        raise
                    text = "\n".join(keep)
            self.mods[k] = constants(m)
        return self.mods[k]

    def layout_text(self):
        body = ["#include <stddef.h>"]
        for st, fs in self.FIELDS.items():
            body.append("const unsigned long z_%s = sizeof(%s);" % (st, st))
            for f in fs:
                body.append("const unsigned long o_%s_%s = offsetof(%s,%s);" % (st, f, st, f))
                body.append("const unsigned long w_%s_%s = sizeof(((%s*)0)->%s);" % (st, f, st, f))
        body.append("const unsigned long o_ts_tail = offsetof(TailSplitNA, ts.tail);")
        body.append("const unsigned long o_ts_split = offsetof(TailSplitNA, ts.split);")
        body.append("const unsigned long a_ts_tail = offsetof(TailSplit, ts.tail);")
        body.append("const unsigned long a_ts_split = offsetof(TailSplit, ts.split);")
        body.append("const unsigned long z_ts = sizeof(TailSplit);")
        body.append("const unsigned long o_nf_t = offsetof(lace_newframe_t, t);")
        body.append("const unsigned long c_EMPTY = (unsigned long)0;")
        body.append("#if LACE_COUNT_EVENTS\nconst unsigned long o_WorkerP_ctr = offsetof(WorkerP,ctr);\n"
                    "const unsigned long o_WorkerP_time = offsetof(WorkerP,time);\n"
                    "const unsigned long o_WorkerP_level = offsetof(WorkerP,level);\n"
                    "const unsigned long n_ctr = CTR_MAX;")
        for c in CTRS:
            body.append("const unsigned long i_%s = %s;" % (c, c))
        body.append("#endif")
        for v in OPTIONS + ("LACE_COUNT_EVENTS",):
            body.append("const unsigned long v_%s = %s;" % (v, v))
        return "\n".join(body) + "\n"


def constants(m):
    """the integer constants a unit defines"""
    L = {}
    for g in m.globals.values():
        if g.init and g.init[0] == "int":
            L[g.name] = g.init[1]
        elif g.init and g.init[0] in ("zero", "null"):
            L[g.name] = 0
    return L


CTRS = ["CTR_tasks", "CTR_steal_tries", "CTR_leap_tries", "CTR_steals", "CTR_leaps", "CTR_steal_busy",
        "CTR_leap_busy", "CTR_split_grow", "CTR_split_shrink", "CTR_split_req", "CTR_init", "CTR_close",
        "CTR_wapp", "CTR_lapp", "CTR_wsteal", "CTR_lsteal", "CTR_wstealsucc", "CTR_lstealsucc", "CTR_wsignal",
        "CTR_lsignal"]


POSITION = "lace_sa_position"        # reports a body's queue position to the analysis


def max_arity(variant):
    return 14 if variant == "lace14" else 6


def kinds(variant):
    """(name, arity, isvoid) of every task macro"""
    out = []
    for r in range(max_arity(variant) + 1):
        out.append(("n%d" % r, r, False))
        out.append(("v%d" % r, r, True))
    return out


def witness_text(variant, ks, split=False):
    """one task per kind whose body is an external function, plus entry points to the static inlines"""
    o = ["#include <@HDR@>", "extern void %s(void *);" % POSITION]
    for name, r, isv in ks:
        t = "void" if isv else "long"
        al = "".join(", long a%d" % (i + 1) for i in range(r))
        o.append("extern %s ub_%s(WorkerP*, Task*%s);" % (t, name, al))
        margs = "".join(", long, x%d" % (i + 1) for i in range(r))
        dargs = "".join(", long" for i in range(r))
        uargs = "".join(", x%d" % (i + 1) for i in range(r))
        ret = "" if isv else "return "
        bodytxt = "{ %sub_%s(__lace_worker, __lace_dq_head%s); }" % (ret, name, uargs)
        if split:
            if isv:
                o.append("VOID_TASK_DECL_%d(%s%s)" % (r, name, dargs))
                o.append("VOID_TASK_IMPL_%d(%s%s) %s" % (r, name, margs, bodytxt))
            else:
                o.append("TASK_DECL_%d(long, %s%s)" % (r, name, dargs))
                o.append("TASK_IMPL_%d(long, %s%s) %s" % (r, name, margs, bodytxt))
        else:
            if isv:
                o.append("VOID_TASK_%d(%s%s) %s" % (r, name, margs, bodytxt))
            else:
                o.append("TASK_%d(long, %s%s) %s" % (r, name, margs, bodytxt))
        a = "".join(", a%d" % (i + 1) for i in range(r))
        V = "WorkerP *__lace_worker, Task *__lace_dq_head"
        keep, giv = ("", "") if isv else ("%s r_ = " % t, " return r_;")
        o.append("Task *w_spawn_%s(%s%s) { Task *t_ = SPAWN(%s%s); %s(__lace_dq_head); return t_; }" % (name, V, al, name, a, POSITION))
        o.append("%s w_sync_%s(%s) { %sSYNC(%s); %s(__lace_dq_head);%s }" % (t, name, V, keep, name, POSITION, giv))
        o.append("%s w_call_%s(%s%s) { %sCALL(%s%s); %s(__lace_dq_head);%s }" % (t, name, V, al, keep, name, a, POSITION, giv))
        ga = al[2:] or "void"
        ca = a[2:]
        for mac, rt, rr in (("RUN", t, ret), ("RUNEX", t, ret), ("NEWFRAME", t, ret), ("TOGETHER", "void", "")):
            args = (", " + ca) if ca else ""
            o.append("%s w_%s_%s(%s) { %s%s(%s%s); }" % (rt, mac.lower(), name, ga, rr, mac, name, args))
        o.append("const unsigned long z_TD_%s = sizeof(TD_%s);" % (name, name))
    V = "WorkerP *__lace_worker, Task *__lace_dq_head"
    o.append("void w_drop(%s) { DROP(); %s(__lace_dq_head); }" % (V, POSITION))
    o.append("void w_makeall(%s) { LACE_MAKE_ALL_SHARED(); %s(__lace_dq_head); }" % (V, POSITION))
    o.append("void w_yield(%s) { YIELD_NEWFRAME(); %s(__lace_dq_head); }" % (V, POSITION))
    o.append("void w_stealrandom(%s) { STEAL_RANDOM(); %s(__lace_dq_head); }" % (V, POSITION))
    o.append("void w_vars(void) { LACE_VARS; %s(__lace_worker); %s(__lace_dq_head); }" % (POSITION, POSITION))
    o.append("long w_id(%s) { return LACE_WORKER_ID; }" % V)
    o.append("int w_stolen(Task *t) { return TASK_IS_STOLEN(t) ? 1 : 0; }")
    o.append("int w_completed(Task *t) { return TASK_IS_COMPLETED(t) ? 1 : 0; }")
    o.append("void *w_result(Task *t) { return (void*)TASK_RESULT(t); }")
    return "\n".join(o) + "\n"
