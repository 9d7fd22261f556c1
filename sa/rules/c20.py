"""Modifiers of asynchronous executions.  `apply_async_modifiers` is interpreted once per combination of configured values;
the function it returns is then called and awaited and the trace of (cache, permit, limiter, user function) compared with
the documented nesting.  Real functions, descriptors, bindings and property getters are then driven through
construction, binding, call and await with each application of the modifiers recorded: exactly one per execution."""
from ..lib import *
from .. import locks as L
from .. import modes as M

ASSUMPTIONS = ["`async with` a semaphore or limiter takes exactly one permit (C01)", "alru_cache(maxsize=, ttl=, typed=)(f) calls f at most once per cached key and only when the key is missing"]
W = M.WRAPPED
ASEM, LIM = ("tok", "the user's asyncio.Semaphore"), ("tok", "the user's AsyncLimiter")
X, KX = ("tok", "positional argument"), ("tok", "keyword argument")
NEUTRAL = {"default": None, "cache_type": None, "cache_typed": False, "ram_cache_maxsize": -1, "ram_cache_ttl": None, "runs_per_minute": None, "semaphore": None}
CACHES = [None, {"cache_type": "memory"}, {"cache_typed": True}, {"ram_cache_maxsize": 100}, {"ram_cache_ttl": 30}, {"cache_type": "memory", "cache_typed": True, "ram_cache_maxsize": 5, "ram_cache_ttl": 7},
          {"cache_type": "memory", "ram_cache_maxsize": None}]


def simple(fv):
    n = callee_attr(("call", 0, fv))
    if n is None and fv[0] == "func":
        n = fv[1].split("#")[0].split(":")[-1].split(".")[-1]
    if n is None and fv[0] == "ext":
        n = fv[1].split(".")[-1]
    return n

TAKE, GIVE = ("acquire", "c_acquire", "__aenter__"), ("release", "c_release", "__aexit__")


class Mods(Client):
    data = ('positional argument', 'keyword argument')
    kd = True
    debug = False

    def __init__(self, m, conf, sem=None):
        self.m, self.conf, self.sem = m, conf, sem
        self.mgr = L.klass(m, "a_sync.a_sync.modifiers.manager", "ModifierManager")

    def inline(self, f):
        return f.name not in NOINLINE and f.name not in TAKE + GIVE

    def inline_property(self, f):
        return f.cls is not None and f.cls.name == "ModifierManager"

    def neutral(self, base):
        """the module-level manager of neutral values"""
        if base[0] == "new" and base[2] == self.mgr.id:
            return "null" in repr(base[3:])
        if base[0] == "glob":
            return True
        return False

    def model_attr(self, st, base, name):
        if name in NEUTRAL:
            if base[0] == "self":
                v = self.conf.get(name, NEUTRAL[name])
                return v if isinstance(v, tuple) else const(v)
            if self.neutral(base):
                return const(NEUTRAL[name])
        if name in ("__name__", "__qualname__", "__module__", "__doc__") and base == W:
            return const("f")
        return Client.model_attr(self, st, base, name)

    def guard(self, cm):
        """which modifier a context manager is"""
        if cm == LIM or cm[0] == "call" and cm[2][0] == "ext" and cm[2][1].endswith("AsyncLimiter"):
            if cm == LIM:
                return ("limit", cm)
            a = tuple(cm[3]) + tuple(v for k, v in sorted(cm[4], key=lambda x: x[0] != "max_rate"))
            # the second argument is the period in seconds
            return ("limit", a[0] if len(a) == 1 or len(a) == 2 and is_const(a[1]) and cval(a[1]) == 60 else ("tuple", a) if a else ())
        if cm == ASEM or cm == self.sem:
            return ("permit", cm)
        if cm[0] == "new" and "emaphore" in cm[2]:
            return ("permit", cm[3][:1] and cm[3][0])
        if cm[0] == "call" and cm[2][0] == "ext" and cm[2][1].endswith("Semaphore"):
            return ("permit", cm[3][:1] and cm[3][0])
        return None

    def event(self, st, ev):
        if ev.kind in ("entered", "exit") and ev.cm is not None:
            g = self.guard(ev.cm)
            if g is not None:
                return self.add(st, ("+" if ev.kind == "entered" else "-",) + g)
            if ev.kind == "entered":
                return None
        if ev.kind == "call":
            b, n = callee_base(ev), callee_attr(ev)
            if n in TAKE + GIVE and b is not None and self.guard(b) is not None:
                return self.add(st, ("+" if n in TAKE else "-",) + self.guard(b))
            if ev.callee == W:
                return self.add(st, ("user", tuple(ev.args), tuple(ev.kw)))
            if ev.callee[0] == "tok" and ev.callee[1] == "cached":
                return self.add(st, ("cache", ev.callee[2]))
        return None

    def add(self, st, x):
        if len(st.ts) >= 14:
            return []
        return st.but(ts=st.ts + (x,)).note(" ".join(str(y) if isinstance(y, str) else show(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else repr(y) for y in x)[:120])

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        fv, a = ev.callee, ev.args
        a0 = a[0] if a else None
        if fv[0] == "ext":
            d = fv[1].split(".")[-1]
            if d == "alru_cache":
                kw = dict(ev.kw)
                if a and len(a) == 1 and a[0][0] != "const":
                    return [(st, ("tok", "cached", frozenset(kw.items()), a[0]))]
                kw.update(zip(("maxsize", "typed", "ttl"), a))
                return [(st, ("tok", "alru", frozenset(kw.items())))]
            if d == "iscoroutinefunction":
                return [(st, const(a0 == W or a0[0] in ("fn", "func", "closure", "bound") or a0[0] == "tok" and a0[1] == "cached" or a0[0] == "call"))]
            if d == "callable":
                return [(st, const(a0 == W or a0[0] != "const"))]
            if d in ("isinstance", "issubclass") and len(a) == 2:
                t = repr(a[1])
                if a0 == W or a0[0] in ("fn", "closure"):
                    return [(st, FALSE)]
                if a0 == LIM:
                    return [(st, const("AsyncLimiter" in t))]
                if a0 == ASEM:
                    return [(st, const("asyncio.Semaphore" in t or "asyncio.locks.Semaphore" in t))]
                if a0[0] == "const" and "builtins" not in t:
                    return [(st, FALSE)]
        if fv[0] == "tok" and fv[1] == "alru" and a:
            return [(st, ("tok", "cached", fv[2], a[0]))]
        if fv[0] == "tok" and fv[1] == "cached":
            s = self.event(st, ev)
            return [(e.st, e.value) for e in self.it.call_value(st, fv[3], ev.args, ev.kw) if e.kind == "return"]
        return None


def label(conf):
    return ", ".join("%s=%s" % (k, show(v) if isinstance(v, tuple) and v[0] != "new" else "Semaphore" if isinstance(v, tuple) else v) for k, v in sorted(conf.items())) or "nothing configured"


def want_trace(conf, sem):
    """[(kind, value)] outermost first"""
    out = []
    c = {k: conf.get(k, NEUTRAL[k]) for k in ("cache_type", "cache_typed", "ram_cache_maxsize", "ram_cache_ttl")}
    if any(c[k] != NEUTRAL[k] for k in c):
        ms = c["ram_cache_maxsize"]
        out.append(("cache", frozenset({"maxsize": const(None if ms == -1 else ms), "ttl": const(c["ram_cache_ttl"]), "typed": const(c["cache_typed"])}.items())))
    s = conf.get("semaphore")
    if s is not None:
        out.append(("permit", s if isinstance(s, tuple) else const(s)))
    r = conf.get("runs_per_minute")
    if r is not None:
        out.append(("limit", r if isinstance(r, tuple) else const(r)))
    return out


def judge(e, want):
    """None, or (rule, what is wrong) for one finished execution"""
    got = []
    depth = []
    users = 0
    for t in e.st.ts:
        if t[0] == "cache":
            got.append(("cache", t[1]))
            if users or depth:
                return "order", "the cache is looked up %s" % ("after the function ran" if users else "while a %s is held" % depth[-1])
        elif t[0] == "+":
            got.append((t[1], t[2]))
            depth.append(t[1])
            if users:
                return "order", "a %s is taken after the function ran" % t[1]
        elif t[0] == "-":
            if not users:
                return "order", "the %s is given back before the function ran" % t[1]
            if t[1] in depth:
                depth.remove(t[1])
        elif t[0] == "user":
            users += 1
            if t[1] != (X,) or t[2] != (("k", KX),):
                return "values", "the function is called with %s" % show_args(t[1], t[2])
            if [d for d in depth] != [k for k, _ in want if k != "cache"]:
                if sorted(depth) == sorted(k for k, _ in want if k != "cache"):
                    return "order", "taken in the order %s" % " > ".join(depth)
                miss = [k for k, _ in want if k != "cache" and k not in depth]
                return "once", ("runs without its %s" % miss[0]) if miss else "holds %s" % ", ".join(depth or ["nothing"])
    if users != 1:
        return "once", "the function runs %d times" % users
    if sorted(k for k, _ in got) != sorted(k for k, _ in want):
        return "once", "goes through (%s), must go through (%s)" % (", ".join(k for k, _ in got), ", ".join(k for k, _ in want))
    for (k, v) in got:
        w = dict(want)[k]
        if k == "cache":
            d = dict(v)
            full = {"maxsize": const(128), "ttl": const(None), "typed": const(False)}
            full.update(d)
            if frozenset(full.items()) != w:
                return "values", "the cache gets %s" % ", ".join("%s=%s" % (a, show(b)) for a, b in sorted(full.items()))
        elif v != w and not (v == () or w[0] == "new"):
            return "values", "the %s gets %s, must get %s" % (k, show(v), show(w))
    x, how = M.peel(e.value)
    if x is None or x[0] != "call" or x[2] != W or how != ["await"]:
        return "values", "the caller gets %s" % show(e.value)
    return None


def execute(ctx, cl, f, start, conf, sem):
    """call what `start` returned, await it, judge it -> list of (rule, text, path)"""
    bad = []
    it = cl.it
    n = 0
    for e in start:
        if e.kind == "raise":
            bad.append(("once", "is refused with %s" % M.excname(ctx.model, e.value), e.st.path()))
            continue
        s0 = e.st.but(ts=())
        for c in it.call_value(s0, e.value, (X,), (("k", KX),), f):
            if c.kind == "raise":
                bad.append(("values", "calling raises %s" % M.excname(ctx.model, c.value), c.st.path()))
                continue
            for r in it.await_value(c.st, c.value, f):
                n += 1
                if r.kind == "raise":
                    bad.append(("values", "awaiting raises %s" % M.excname(ctx.model, r.value), r.st.path()))
                    continue
                j = judge(r, want_trace(conf, sem))
                if j:
                    bad.append((j[0], j[1], r.st.path()))
    if not n and not bad:
        bad.append(("once", "cannot be called", ()))
    return bad


RULES = ("order", "once", "values")


def report(ctx, construct, bad, where):
    for r in RULES:
        b = [x for x in bad if x[0] == r]
        ctx.ob(r, construct, not b, where, b[0][1] if b else "", b[0][2] if b else ())


def semaphores(m):
    c = L.klass(m, "a_sync.primitives.locks.semaphore", "Semaphore")
    return ("new", "the user's", c.id, (const(2),), ())


def facts(sem):
    return {k: v for x in (sem, ASEM, LIM) for k, v in ((("truthy", x), True), (("eq", x, NONE), False), (("eq", NONE, x), False), (("is", x, NONE), False))}


def combos(m, tier):
    sem = semaphores(m)
    for lim in (None, 60, LIM):
        for s in (None, 3, ASEM, sem):
            for c in CACHES:
                conf = dict(c or {})
                if lim is not None:
                    conf["runs_per_minute"] = lim
                if s is not None:
                    conf["semaphore"] = s
                yield conf, sem


def stack(ctx):
    m = ctx.model
    c = L.klass(m, "a_sync.a_sync.modifiers.manager", "ModifierManager")
    f = m.find_method(c, "apply_async_modifiers")
    if f is None:
        raise AnalysisError("apply_async_modifiers vanished")
    p = [x for x in f.params() if x != "self"]
    for conf, sem in combos(m, ctx.tier):
        cl = Mods(m, conf, sem)
        it = cl.it = Interp(m, cl, inline_new=False, max_inline=14)
        cl.func = f
        ex = it.run(f, cls=c, args={p[0]: W}, facts=facts(sem))
        ctx.analysed(it, f, ex)
        report(ctx, label(conf), execute(ctx, cl, f, ex, conf, sem), L.where(f))


def direct(ctx):
    """the decorators themselves"""
    m = ctx.model
    sem = semaphores(m)
    mods = {"semaphore": ("a_sync.a_sync.modifiers.semaphores", "apply_semaphore"), "runs_per_minute": ("a_sync.a_sync.modifiers.limiter", "apply_rate_limit")}
    rows = []
    for kw, (mod, name) in mods.items():
        f = m.func(mod, name)
        for v in ((3, 1, 0, ASEM, sem) if kw == "semaphore" else (60, 1, LIM)):
            val = v if isinstance(v, tuple) else const(v)
            rows += [(f, "%s(fn, %s)", {0: W, 1: val}, kw, v, False), (f, "%s(%s)(fn)", {0: val}, kw, v, True)]
            if kw != "semaphore":
                rows.append((f, "%s(%s as keyword)(fn)", {1: val}, kw, v, True))
    for f, text, args, kw, v, deco in rows:
        conf = {kw: v}
        cl = Mods(m, conf, sem)
        it = cl.it = Interp(m, cl, max_inline=14)
        cl.func = f
        p = f.params()
        a = {x: NONE for x in p}
        a.update({p[i]: x for i, x in args.items()})
        ex = it.run(f, args=a, facts=facts(sem))
        ctx.analysed(it, f, ex)
        if deco:
            ex = [r for e in ex for r in ([e] if e.kind == "raise" else it.call_value(e.st, e.value, (W,), (), f))]
        report(ctx, text % (f.name, label({"": v})[1:]), execute(ctx, cl, f, ex, conf, sem), L.where(f))
    from itertools import product
    f = m.func("a_sync.a_sync.modifiers.cache", "apply_async_cache")
    g = m.func("a_sync.a_sync.modifiers.cache.memory", "apply_async_memory_cache")
    for fn, names in ((f, ("cache_typed", "ram_cache_maxsize", "ram_cache_ttl")), (g, ("typed", "maxsize", "ttl"))):
        for form in ("fn", "decorator", "int"):
            conf = {"cache_typed": True, "ram_cache_maxsize": 9, "ram_cache_ttl": 4, "cache_type": "memory"}
            cl = Mods(m, conf, sem)
            it = cl.it = Interp(m, cl, max_inline=14)
            cl.func = fn
            a = {fn.params()[0]: {"fn": W, "decorator": NONE, "int": const(9)}[form]}
            a.update(zip(names, (TRUE, const(9) if form != "int" else NONE, const(4))))
            if "cache_type" in fn.params():
                a["cache_type"] = const("memory")
            ex = it.run(fn, args=a)
            ctx.analysed(it, fn, ex)
            if form != "fn":
                ex = [r for e in ex for r in ([e] if e.kind == "raise" else it.call_value(e.st, e.value, (W,), (), fn))]
            report(ctx, "%s as %s" % (fn.name, form), execute(ctx, cl, fn, ex, conf, sem), L.where(fn))


def check(ctx):
    ctx.rule("order", "cache outermost, then the permit, then the rate limit, then the user function; nothing is given back before it ran", 60)
    ctx.rule("once", "each configured modifier is gone through exactly once, none that was not configured", 60)
    ctx.rule("values", "each modifier gets the user's values and the user function the user's arguments and result", 60)
    ctx.rule("applied", "every asynchronous execution of a function, method or property goes through its modifiers once", 40)
    stack(ctx)
    direct(ctx)
    applied(ctx)


# ------------------------------------------------------------------ exactly one application per execution
from . import c17       # noqa: E402
INST, OWNER = c17.INST, c17.TYPE
CONFIGURED = {"cache_type": ("tok", "the configured cache"), "cache_typed": ("tok", "the configured typed"), "ram_cache_maxsize": ("tok", "the configured size"),
              "ram_cache_ttl": ("tok", "the configured ttl"), "runs_per_minute": LIM, "semaphore": ASEM}


class Drive(c17.Get):
    """managers are known dicts ("kd", ("manager", n)); applying one to a function gives the token ("applied", function, tag)"""
    model_raises = False

    def __init__(self, m, coro):
        c17.Get.__init__(self, m, True, False)
        self.coro = coro
        self.me = ("tok", "the descriptor")
        self.mgr = L.klass(m, "a_sync.a_sync.modifiers.manager", "ModifierManager")
        self.updates = "update" in self.mgr.methods or any(f.name == "update" for f in m.all_funcs() if f.cls is self.mgr)

    def inline(self, f):
        return f.name not in NOINLINE and not f.id.startswith("a_sync/a_sync/modifiers/") and "cache_timer" not in f.name and "validate_wrapped" not in f.name

    def glob(self, mod, name):
        if name == "null_modifiers":
            return ("kd", "null_modifiers")
        if name in ("NULLS", "USER_DEFAULTS", "user_set_default_modifiers"):
            return ("tok", name)
        return None

    def tag(self, st, v):
        """what applying the manager `v` does to a function"""
        c = st.heap.get(("kd", v[1], ""))
        if c is None or c[0] != "kdc":
            return "unknown"
        have = dict(c[1])
        tags = set()
        for k, tok in CONFIGURED.items():
            x = have.get(const(k))
            tags.add("default" if x is None and not c[2] else "configured" if x == tok else "nothing" if x == const(NEUTRAL[k]) else "other")
        return tags.pop() if len(tags) == 1 else "mixed: " + ", ".join("%s=%s" % (cval(k), show(x)) for k, x in c[1])

    def kd_call(self, st, v, name, args, kw):
        if name == "apply_async_modifiers" and args:
            t = self.tag(st, v)
            return [(st, args[0] if t == "nothing" else ("tok", "applied", args[0], t))]
        if name == "apply_sync_modifiers" and args:
            return [(st, args[0])]
        if isinstance(v[1], tuple) and v[1][0] == "manager" and name in ("update", "setdefault", "pop") and not self.updates:
            return [(st, NONE)]     # the hidden storage of the dict base class
        return None

    def model_attr(self, st, base, name):
        if base[0] == "kd" and isinstance(base[1], tuple) and base[1][0] == "manager":
            c = st.heap.get(("kd", base[1], ""))
            have = dict(c[1]) if c else {}
            if name in NEUTRAL or name == "executor":
                return have.get(const(name), NONE if name == "default" else ("tok", "default of " + name))
            return None
        if name in ("__name__", "__qualname__", "__module__", "__doc__") and base[0] in ("tok", "fn", "bound", "func") and base != INST:
            return const("getter")
        if base == OWNER and name == cval(c17.NAME):
            return None
        return c17.Get.model_attr(self, st, base, name)

    def event(self, st, ev):
        if ev.kind == "call":
            if ev.callee[0] == "tok" and ev.callee[1] == "applied":
                return self.add(st, ("applied", ev.callee[3]))
            u = M.Mode.user_call(self, ev)
            if u is not None:
                return self.add(st, ("user", tuple(u[0]), tuple(u[1])))
        return None

    add = Mods.add

    def awaitable(self, st, v):
        """the getter behind an awaitable of async_property"""
        if v[0] == "call" and callee_attr(v) == "__get__" and v[3][:1] == (INST,):
            b = callee_base(v)
            return st.heap.get(("attr", b[1] if b and b[0] == "super" else b, "_fget"))
        return None

    def model(self, st, ev):
        it = self.it
        if ev.kind == "awaitval":
            g = self.awaitable(st, ev.value)
            if g is not None:
                return [(x.st, x.value) for e in it.call_value(st, g, (INST,), ()) if e.kind == "return"
                        for x in it.await_value(e.st, e.value) if x.kind == "return"]
            return None
        if ev.kind != "call":
            return None
        fv, a = ev.callee, ev.args
        a0 = a[0] if a else None
        n = simple(fv)
        if fv[0] == "class" and fv[1] == self.mgr.id:
            self.n += 1
            items, rest = ((), ()) if a0 is None else it.kd_merge(st, (), (), a0)
            return [it.kd_new(st, ("manager", self.n), items, rest)]
        if fv[0] == "tok" and fv[1] == "applied":
            return [(e.st, e.value) for e in it.call_value(st, fv[2], ev.args, ev.kw) if e.kind == "return"]
        if n == "apply_class_defined_modifiers":
            return [(st, NONE)]
        if fv[0] == "ext":
            d = fv[1].split(".")[-1]
            if d == "iscoroutinefunction":
                if a0 == W:
                    return [(st, const(self.coro))]
                if a0[0] == "tok" and a0[1] == "applied":
                    return [(st, TRUE)]
                f = it.target(a0)[0]
                return [(st, const(f is not None and f.is_async))]
            if d in ("isasyncgenfunction", "isgeneratorfunction"):
                return [(st, FALSE)]
            if d == "callable":
                return [(st, const(a0 != NONE))]
            if d == "isinstance" and len(a) == 2 and (a0[0] in ("tok", "fn", "bound", "func") and a0 != INST):
                return [(st, FALSE)]
            if d == "ref" and a0 == INST:
                return [(st, ("tok", "weakref of the instance"))]
            if d == "update_wrapper":
                return [(st, a0)]
        if fv == ("tok", "weakref of the instance"):
            return [(st, INST)]
        if n == "run_until_complete" and a:
            return [(e.st, e.value) for e in it.await_value(st, a0) if e.kind == "return"]
        if n in ("get_event_loop", "_get_event_loop"):
            return [(st, ("tok", "the loop"))]
        return c17.Get.model(self, st, ev)


def once(ctx, construct, f, ends, args, what):
    """every finished execution applied the modifiers exactly once, around the one call of the function"""
    bad = None
    n = 0
    for e in ends:
        if e.kind == "raise":
            bad = bad or (e, "raises %s" % M.excname(ctx.model, e.value))
            continue
        n += 1
        t = [x for x in e.st.ts if x[0] == "applied"]
        u = [x for x in e.st.ts if x[0] == "user"]
        if len(u) != 1:
            bad = bad or (e, "the function runs %d times" % len(u))
        elif len(t) != 1 or t[0][1] != what:
            bad = bad or (e, "the modifiers applied are (%s), must be (%s)" % (", ".join(x[1] for x in t) or "none", what))
        elif e.st.ts.index(t[0]) > e.st.ts.index(u[0]):
            bad = bad or (e, "the modifiers are applied after the function ran")
    if not n and bad is None:
        raise AnalysisError("%s cannot be driven" % construct)
    ctx.ob("applied", construct, bad is None, L.where(f), bad[1] if bad else "", bad[0].st.path() if bad else ())


def applied(ctx):
    m = ctx.model
    P = "a_sync.a_sync.property"
    fun = L.klass(m, "a_sync.a_sync.function", "ASyncFunction")
    meth = L.klass(m, "a_sync.a_sync.method", "ASyncMethodDescriptor")
    prop = L.klass(m, P, "_ASyncPropertyDescriptorBase")
    bound = L.klass(m, "a_sync.a_sync.method", "ASyncBoundMethod")
    fin = [c for c in [fun] + m.subclasses(fun) if bound not in m.mro(c)]
    des = [c for c in [meth] + m.subclasses(meth) if c.name != "HiddenMethodDescriptor"]
    props = m.subclasses(prop)
    for kind, cs in (("function", fin), ("method", des), ("property", props)):
        for c in cs:
            for coro in (False, True):
                for conf in (True, False):
                    one(ctx, kind, c, coro, conf)


def one(ctx, kind, c, coro, conf):
    m = ctx.model
    f = m.find_method(c, "__init__")
    p = f.params()
    cl = Drive(m, coro)
    it = cl.it = Interp(m, cl, inline_new=True, max_inline=14, keep_heap_on_await=True)
    cl.func, cl.n = f, 0
    null = tuple((const(k), const(v)) for k, v in NEUTRAL.items()) + ((const("executor"), ("tok", "the default executor")),)
    mods = tuple((const(k), v) for k, v in CONFIGURED.items()) if conf else ()
    heap = {("kd", "null_modifiers", ""): ("kdc", null, ()), ("kd", "idict", ""): ("kdc", (), ()), ("kd", "mods", ""): ("kdc", mods, ())}
    args = {p[1]: W}
    kwname = f.node.args.kwarg
    if kwname is None:
        raise AnalysisError("%s takes no modifiers" % c.name)
    args[kwname.arg] = ("kd", "mods")
    for x, v in (("field_name", c17.NAME), ("_skip_validate", FALSE), ("_fset", NONE), ("_fdel", NONE)):
        if x in p:
            args[x] = v
    me = ("self", c.id)
    what = "configured" if conf else "default"
    made = it.run(f, cls=c, args=args, heap=heap, facts=c17.FACTS)
    ctx.analysed(it, f, made)
    base = "%s of %s, modifiers %s" % (c.name, "an async def" if coro else "a def", "configured" if conf else "left at the defaults")
    bad = [e for e in made if e.kind == "raise"]
    made = [e for e in made if e.kind == "return"]
    if not made:
        ctx.ob("applied", base, False, L.where(f), "decorating fails with %s" % (M.excname(m, bad[0].value) if bad else "?"), bad[0].st.path() if bad else ())
        return

    def drive(st, fv, args, flag):
        out = []
        for e in it.call_value(st.but(ts=()), fv, args, flag, f):
            out += [e] if e.kind == "raise" else it.await_value(e.st, e.value, f) if flag != (("sync", TRUE),) else [e]
        return out
    for flag in ((("sync", FALSE),), (("sync", TRUE),)):
        if flag == (("sync", TRUE),) and not coro:
            continue        # runs the plain function, without the asynchronous modifiers
        t = ", asynchronous call" if flag[0][1] == FALSE else ", synchronous call"
        if kind == "function":
            ends = [x for e in made for x in drive(e.st, ("bound", it.fid(m.find_method(c, "__call__")), me), (X,), flag)]
            once(ctx, base + t, f, ends, 1, what)
        elif kind == "method":
            g = m.find_method(c, "__get__")
            bs = [b for e in made for b in it.call_value(e.st, ("bound", it.fid(g), me), (INST, OWNER), (), f)]
            ends = [x for b in bs for x in ([b] if b.kind == "raise" else drive(b.st, b.value, (X,), flag))]
            once(ctx, base + t, g, ends, 1, what)
    if kind == "property":
        ends = []
        for e in made:
            g = e.st.heap.get(("attr", me, "_fget"))
            if g is None:
                raise AnalysisError("%s keeps no getter" % c.name)
            ends += drive(e.st, g, (INST,), ())
        once(ctx, base + ", property access", f, ends, 1, what)
        ends = []
        for e in made:
            h = e.st.heap.get(("attr", me, "hidden_method_descriptor"))
            if h is None or h[0] != "new":
                raise AnalysisError("%s keeps no hidden method" % c.name)
            g = m.find_method(it.class_by_id(h[2]), "__get__")
            for b in it.call_value(e.st, ("bound", it.fid(g), h), (INST, OWNER), (), f):
                ends += [b] if b.kind == "raise" else drive(b.st, b.value, (), (("sync", FALSE),))
        once(ctx, base + ", hidden method", f, ends, 1, what)
