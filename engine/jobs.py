"""The analyses, and which property each rule decides."""
import fnmatch
import time

from . import build, dq, rt, ext, life, front, stat
from .report import Report, pmap

BOTH = ("lace", "lace14")


# ------------------------------------------------------------------------------------- analyses
def witness(B, variant, cfg):
    """the witness unit: every task macro instantiated, as IR"""
    ks = build.kinds(variant)
    return ks, B.unit("w", build.witness_text(variant, ks), variant, cfg)


def dq_tasks(B, variant, cfg, groups, few=False):
    lay = B.layout(variant, cfg)
    ks, mod = witness(B, variant, cfg)
    env = dq.Env(mod, lay, variant + "/" + cfg)
    if few:
        mx = build.max_arity(variant)
        ks = [k for k in ks if k[1] in (0, 1, mx)]

    def one(kind):
        R, info = Report(), {}
        if "spawn" in groups or "sync" in groups or "wrap" in groups or "desc" in groups:
            S = R if "spawn" in groups else Report()
            for a in (0, 1):
                dq.spawn(S, env, kind, a, info)
            if "call" in groups:
                dq.call(R, env, kind)
            W = R if "wrap" in groups else Report()
            dq.wrapper(W, env, kind, info)
        if "sync" in groups:
            for a in (0, 1):
                dq.sync(R, env, kind, a, info)
        if "desc" in groups:
            cal = {}
            for m in ("run", "runex", "newframe", "together"):
                dq.descriptor_entry(R, env, kind, info, m, cal)
        return R

    def drop():
        R = Report()
        for a in (0, 1):
            dq.sync(R, env, ("drop", 0, True), a, {}, drop=True)
        return R

    def makeall():
        R = Report()
        for a in (0, 1):
            dq.makeall(R, env, a)
        return R
    out = []
    if set(groups) & {"spawn", "wrap", "call", "sync", "desc"}:
        out += [(one, (k,)) for k in sorted(ks, key=lambda k: -k[1])]
    if "drop" in groups:
        out.append((drop, ()))
    if "makeall" in groups:
        out.append((makeall, ()))
    if "macros" in groups:
        def macros():
            R = Report()
            dq.macros(R, env)
            return R
        out.append((macros, ()))
    return out


SHARED = ("start", "thread", "stop", "identity")       # use each other's results


def lib_tasks(B, variant, cfg, groups):
    lay = B.layout(variant, cfg)
    mod = B.lib(variant, cfg)

    def go(groups):
        R = Report()
        env = rt.RtEnv(mod, lay, variant + "/" + cfg)
        env.R = R
        env.B, env.variant, env.cfg = B, variant, cfg
        for group in groups:
            fn = getattr(rt, group, None) or getattr(ext, group, None) or getattr(life, group, None) or getattr(stat, group)
            fn(R, env)
        return R
    together = [g for g in groups if g in SHARED]
    out = [(go, (together,))] if together else []
    return out + [(go, ([g],)) for g in groups if g not in SHARED]


def front_tasks(tier, groups):
    """compile-time witnesses; these look at configurations of their own"""
    def mk(f, *a):
        def go():
            R, B = Report(), build.Build()
            try:
                f(R, B, *a)
            finally:
                B.cleanup()
            return R
        return go, ()
    out = []
    if "slots" in groups:
        for v in BOTH:
            out += [mk(front.slot_size, v, c) for c in front.COMPILERS]
            out.append(mk(front.task_types, v))
    if "counting" in groups:
        for pie in ("0", "1") if tier == "thorough" else ("0",):
            for tsp in ("011", "101", "110", "001", "010", "100"):
                for v in BOTH:
                    for w in ("lib", "user"):
                        out.append(mk(front.counting, v, "10" + tsp + pie, w))
    if "options" in groups:
        out += [mk(front.options, b) for b in front.combos(tier)]
    return out


FRONT = ("slots", "options", "counting")
DQ = ("spawn", "wrap", "call", "sync", "desc", "drop", "makeall", "macros")

# property -> (analyses, rules).  An analysis is a deque group, or the name of a library analysis.
PROPS = {
    "C01": (("spawn", "wrap", "sync", "drop", "makeall", "frames", "workers"),
            ("spawn.descriptor", "spawn.mark", "spawn.window", "spawn.publish", "spawn.tail-store", "spawn.invariant", "spawn.bounds",
             "wrap.once", "wrap.head", "wrap.bounds", "sync.inline-owned", "sync.once", "sync.invariant", "sync.window", "sync.publish",
             "sync.tail-store", "sync.head", "sync.wait-head", "sync.bounds", "sync.slot-empty", "sync.wait", "sync.returns",
             "drop.inline-owned", "drop.once", "drop.invariant", "drop.window", "drop.publish", "drop.tail-store", "drop.bounds",
             "drop.wait-head", "drop.owned",
             "makeall.invariant", "makeall.window", "makeall.publish", "makeall.tail-store",
             "steal.*", "frame.freeze", "frame.tail-final", "frame.restore")),
    "C02": (("wrap", "sync", "workers"),
            ("wrap.result", "wrap.once", "wrap.args", "sync.head", "sync.wait-head", "sync.args", "sync.bounds", "sync.wait", "sync.acquire", "sync.result", "sync.returns", "sync.once", "sync.inline-owned",
             "steal.complete-after", "steal.complete-release", "steal.no-touch-after", "steal.finish", "steal.mark-self",
             "steal.exec-claimed", "steal.exec-args", "steal.own-slot", "steal.mark-before-exec")),
    "C03": (("spawn", "wrap", "call", "sync", "desc", "workers", "external", "frames"),
            ("*.args", "*.result", "*.function", "*.handover", "spawn.descriptor", "wrap.once", "wrap.bounds", "call.once",
             "steal.exec-args", "steal.exec-claimed", "run.record", "frame.copy", "newframe.task", "together.task", "together.root",
             "newframe.outside", "together.outside", "self.task")),
    "C04": (("slots", "spawn", "wrap", "call"), ("slot.*", "*.bounds", "*.room")),
    "C05": (("spawn", "wrap", "sync", "drop", "gethead"),
            ("*.bounds", "spawn.abort-only-full", "spawn.abort-clean", "spawn.abort-reach", "*.room")),
    "C06": (("drop", "workers"),
            ("drop.*", "steal.complete-after", "steal.complete-release", "steal.cas-only", "steal.finish")),
    "C07": (("spawn", "sync", "drop", "wrap", "external", "frames", "gethead"),
            ("top.*", "spawn.mark", "spawn.descriptor", "sync.slot-empty", "drop.slot-empty", "spawn.head", "sync.head", "sync.wait-head",
             "wrap.head", "self.head", "frame.head", "serve.head", "steal.exec-head", "drop.wait-head", "drop.head")),
    "C08": (("spawn", "sync", "drop", "makeall", "workers"),
            ("spawn.reshare", "spawn.request", "sync.request", "drop.request", "makeall.*", "steal.request", "sync.invariant",
             "spawn.invariant", "drop.invariant")),
    "C09": (("spawn", "sync", "drop", "workers"),
            ("spawn.waitfree", "sync.waitfree", "drop.waitfree", "makeall.waitfree", "steal.attempt", "sync.attempt")),
    "C10": (("workers",), ("victim.*", "idle.steal")),
    "C11": (("sync", "drop", "frames", "workers"),
            ("*.poll", "idle.*", "frame.participate", "together.poll", "stop.obey", "sync.returns", "drop.returns")),
    "C12": (("frames",), ("width.*", "frame.publish", "frame.participate", "frame.barriers", "frame.same-barriers", "frame.copy", "frame.copy-before",
                          "frame.reset", "frame.descriptor", "yield.*", "frame.returns")),
    "C13": (("frames",), ("width.*", "together.*", "frame.barriers", "frame.same-barriers", "yield.once", "frame.descriptor", "frame.copy")),
    "C14": (("frames", "workers"), ("width.*", "idle.steal", "newframe.*", "yield.once", "frame.barriers", "frame.same-barriers", "frame.descriptor", "frame.copy")),
    "C15": (("frames",), ("frame.freeze", "frame.tail-final", "frame.restore", "frame.restore-after", "frame.head")),
    "C16": (("barrier",), ("width.*", "barrier.*",)),
    "C17": (("external", "workers", "suspend"), ("width.*", "run.*", "serve.*", "runex.admission", "runex.wake", "runex.condwait")),
    "C18": (("external",), ("width.*", "runex.*", "run.admission", "run.wake", "run.condwait", "run.lock")),
    "C19": (("external", "frames", "start", "thread", "identity", "macros", "wrap", "call", "sync"), ("self.*", "thread.identity", "thread.registered", "macro.worker-id", "macro.vars", "wrap.worker", "call.context",
                                                                        "sync.head")),
    "C20": (("external", "frames", "workers", "sync", "drop"),
            ("run.wait", "run.record", "run.semaphore", "serve.no-touch-after", "serve.order", "frame.copy", "frame.copy-before", "frame.reset",
             "newframe.flag", "newframe.helpers", "together.wait", "together.counter", "steal.no-touch-after", "frame.barriers",
             "newframe.outside", "together.outside", "frame.restore-after")),
    "C21": (("start", "thread"), ("start.count", "start.requested", "start.ids", "start.thread", "start.attr", "start.stack", "start.resumed",
                                  "thread.loop", "thread.queue", "thread.queue-size", "thread.memory", "thread.identity", "thread.registered")),
    "C22": (("start", "thread", "stop"), ("width.*", "quit.*", "release.*", "thread.last", "thread.quits", "thread.count")),
    "C23": (("start", "thread", "workers"), ("clean.*", "victim.null", "thread.clean", "thread.unborn", "thread.suspended-first", "thread.count")),
    "C24": (("suspend", "workers", "external"), ("width.*", "resume.*", "suspend.*", "stop.*", "run.resume", "run.suspend")),
    "C25": (("start", "thread"), ("*.create-checked", "*.memory-checked", "*.dies-only-on-failure", "*.failure-status", "*.diagnostic")),
    "C32": (("spawn", "wrap", "workers", "macros"),
            ("state.*", "spawn.mark", "spawn.returns", "steal.mark-before-exec", "steal.mark-self", "steal.complete-after", "steal.complete-release",
             "steal.own-slot", "steal.no-touch-after", "wrap.result", "steal.finish")),
    "C28": (("spawn", "call", "sync", "drop", "wrap", "makeall", "macros"),
            ("macro.*", "spawn.bounds", "sync.head", "sync.bounds", "sync.args", "drop.bounds", "drop.head", "call.context", "call.once",
             "sync.wait-head", "drop.wait-head", "wrap.head")),
    "C26": (("spawn", "sync", "drop", "makeall", "workers", "counters"), ("count.*",)),
    "C27": (("options", "counting"), ("opt.*", "count.*")),
}

# configurations analysed per property; the others look at the default build
CFGS = {
    "C26": ("stats",),
    "C22": ("default", "nommap", "pie"),
    "C25": ("default", "nommap"),
    "C23": ("default", "stats"),
}
ALL = ("default", "stats", "nommap", "pie", "hwloc")
THOROUGH = {
    "C21": ALL, "C22": ALL, "C23": ALL, "C25": ALL,
    "C26": ("stats", "default"),
}


def configs(prop, tier):
    if tier == "thorough":
        return THOROUGH.get(prop, ("default", "stats"))
    return CFGS.get(prop, ("default",))


def matches(rule, pats):
    return any(fnmatch.fnmatchcase(rule, p) for p in pats)


def analyse(prop, tier, B):
    """run what decides a property; (report restricted to its rules, errors, groups run)"""
    groups, pats = PROPS[prop]
    dqg = tuple(g for g in groups if g in DQ)
    libg = [g for g in groups if g not in DQ and g not in FRONT]
    frg = [g for g in groups if g in FRONT]
    tasks, units = front_tasks(tier, frg), []
    if "slots" in frg:
        units.append("compile-time witnesses with clang and gcc, C and C++")
    if "options" in frg:
        units.append("all %d combinations of the build options" % (2 ** len(build.OPTIONS)))
    for cfg in configs(prop, tier) if dqg or libg else ():
        for v in BOTH:
            if dqg:
                tasks += dq_tasks(B, v, cfg, dqg)
            if libg:
                tasks += lib_tasks(B, v, cfg, libg)
            units.append(v + "/" + cfg)
    res = pmap(tasks, True)
    R, errs = Report(), []
    for r, e in res:
        if e:
            errs.append(e)
        else:
            R.merge(r)
    R.viol = [v for v in R.viol if matches(v["rule"], pats)]
    R.obl = {k: x for k, x in R.obl.items() if matches(k, pats)}
    return R, errs, units
