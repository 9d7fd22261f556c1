"""Mapping and aggregating entry points.  Every public way to map a wrapped callable over iterables, or to aggregate it over them (functions,
bound methods, descriptors of methods and of properties), is interpreted with the task mapping summarised: it has to build one task mapping of
itself over all the iterables with the caller's options, and give what the same-named aggregate of that mapping gives.  Then a mapping is
constructed over every kind of wrapped callable and what its tasks await is compared: the callable, asynchronously, with its key."""
from ..lib import *
from .. import locks as L
from .. import modes as M
from . import c20, c23
import ast

TASK = "a_sync.task"
AGGREGATES = ("any", "all", "min", "max", "sum")
I1, I2, N, LABEL, KW = ("tok", "iterable 1"), ("tok", "iterable 2"), ("tok", "concurrency"), ("tok", "label"), ("tok", "kwarg value")
SELF = ("tok", "the callable")
NAMES = ("task_name", "name")


class Entry(Client):
    """a mapping is built (once) and asked for its aggregate"""
    data = ('answer', 'awaited answer', 'result', 'kwarg value')
    kd = True
    class_defaults = True

    def __init__(self, m, selfv, default=None):
        self.m, self.selfv, self.default = m, selfv, default

    def truthy(self, v):
        return True if v in (LABEL, N, KW) else None

    def inline_property(self, f):
        return f.name in AGGREGATES or f.name == "_TaskMapping" or f.name.startswith("_") and not f.name.startswith("__")

    def glob(self, mod, name):
        return ("ext", "TaskMapping") if name == "TaskMapping" else None

    def model_attr(self, st, base, name):
        if base == self.selfv and name == "default":
            return ("tok", "default")
        if base == self.selfv and name in ("field_name", "__name__"):
            return ("tok", "its name")
        if base == ("tok", "default"):
            return None
        return None

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[:2] == ("tok", "answer"):
                return [(st, ("tok", "awaited answer") + v[2:])]
            return None
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, tuple(ev.args), tuple(ev.kw)
        n = c20.simple(fv)
        if fv == ("ext", "TaskMapping") or fv[0] == "class" and fv[1].endswith(":TaskMapping"):
            if len(st.ts) > 3:
                return []
            s = st.but(ts=st.ts + (("mapping", a, self.flat(st, kw)),)).note("mapping %s" % ", ".join(map(show, a)))
            return [(s, ("tok", "mapping", len(s.ts) - 1))]
        b = callee_base(ev)
        if b is not None and b[:2] == ("tok", "mapping") and n in AGGREGATES:
            return [(st, ("tok", "answer", n, b[2], a, self.flat(st, kw)))]
        if n == "a_sync" and not a:
            return [(st, ("tok", "decorator", self.flat(st, kw)))]
        if fv[:2] == ("tok", "decorator") and len(a) == 1:
            return [(st, ("tok", "dual-mode", fv[2], a[0]))]
        if n == "a_sync" and len(a) == 1:
            return [(st, ("tok", "dual-mode", self.flat(st, kw), a[0]))]
        return None

    def flat(self, st, kw):
        """the keyword arguments, merged: ((name, value), ...)"""
        out = []
        for x in kw:
            k, v = x if len(x) == 2 else (None, x)
            if isinstance(k, str):
                out.append((k, v))
            else:
                c = self.it.kd_get(st, v) if isinstance(v, tuple) and v else None
                if c is None or c[2]:
                    out.append(("**", v))
                else:
                    out += [(cval(y[0]) if is_const(y[0]) else y[0], y[1]) for y in c[1]]
        return tuple(out)


def names(f):
    """the named parameters of `f`, keyword-only ones included"""
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def options(f):
    """(name of the concurrency parameter, name of the label parameter) of an entry point"""
    ps = names(f)
    return ("concurrency" if "concurrency" in ps else None, next((x for x in NAMES if x in ps), None))


def default(f, name):
    """the value a parameter has when it is left out"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(reversed(pos), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == name and isinstance(d, ast.Constant):
            return NONE if d.value is None else const(d.value)
    return ("param", name)


def arguments(f, given, single, takes):
    """argument values for the parameters of `f`, with the options given or left out"""
    a, heap = {}, {}
    va = f.node.args.vararg
    pos = [x for x in names(f) if x not in ("self", "concurrency", "owner") + NAMES]
    its = (I1,) if single else (I1, I2)
    if va is not None:
        a[va.arg] = ("vararg", its)
    elif pos:
        a[pos[0]] = I1
        its = (I1,)
    conc, label = options(f)
    if conc:
        a[conc] = N if given else default(f, conc)
    if label:
        a[label] = LABEL if given else default(f, label)
    if "owner" in names(f):
        a["owner"] = default(f, "owner")
    extra = f.node.args.kwarg
    if extra is not None:
        u = ("kd", "kwargs")
        items = [(const("kwarg"), KW)] if given and takes else []
        if conc is None and given:
            items += [(const("concurrency"), N), (const("name"), LABEL)]
        heap[u + ("",)] = ("kdc", tuple(items), ())
        a[extra.arg] = u
    return a, heap, its


def judge_mapping(x, selfv, its, given, label, has_kw):
    """what is wrong with the mapping that was built"""
    _, a, kw = x
    kw = dict(kw)
    if not a or a[0] != selfv:
        return "maps %s instead of itself" % (show(a[0]) if a else "nothing")
    got = []
    for y in a[1:]:
        got += list(y[1]) if y[0] == "star" and len(y) == 2 and y[1][0] in ("vararg", "tuple", "list") else [y]
    flat = []
    for y in got:
        flat += list(y[1]) if y[0] in ("vararg",) else [y]
    if tuple(flat) != tuple(its):
        return "maps over [%s] instead of [%s]" % (", ".join(map(show, flat)), ", ".join(map(show, its)))
    if "**" in kw:
        return None
    if given:
        if kw.get("concurrency") != N:
            return "drops the concurrency it was given"
        if label and kw.get("name") != LABEL:
            return "drops the name it was given"
        if has_kw and kw.get("kwarg") != KW:
            return "drops a keyword argument for the callable"
    extra = [k for k, v in kw.items() if k not in ("concurrency", "name", "kwarg", "owner")]
    if extra:
        return "hands the callable %s" % ", ".join(map(str, extra))
    if not given and kw.get("concurrency", NONE) not in (NONE, const(0)):
        return "limits the concurrency to %s by itself" % show(kw["concurrency"])
    return None


def entry_points(m):
    """(label, class, function name) of every public entry point"""
    out = []
    for path, cname in (("a_sync.a_sync.function", "ASyncFunction"), ("a_sync.a_sync.method", "ASyncBoundMethod")):
        for n in ("map",) + AGGREGATES:
            out.append((cname, path, n))
    for path, cname in (("a_sync.a_sync._descriptor", "ASyncDescriptor"), ("a_sync.a_sync.property", "_ASyncPropertyDescriptorBase")):
        for n in ("map",) + AGGREGATES:
            out.append((cname, path, n))
    return out


def entries(ctx, m):
    for cname, path, n in entry_points(m):
        cls = L.klass(m, path, cname)
        f = m.find_method(cls, n)
        label = "%s.%s" % (cname, n)
        if f is None:
            ctx.ob("entries", label, False, path, "there is no %s" % n)
            continue
        selfv = ("self", cls.id)
        bad = None
        for g in f.cls.variants.get(n, [f]):
            for given in (True, False):
                for single in (True,) if cname == "_ASyncPropertyDescriptorBase" else (False, True):
                    bad = bad or entry(ctx, m, cls, g, n, selfv, given, single)
        ctx.ob("entries", label, bad is None, L.where(f), bad[0] if bad else "", bad[1] if bad else ())


def entry(ctx, m, cls, f, n, selfv, given, single):
    takes = f.cls.module.name != "a_sync.a_sync.property" and cls.name != "_ASyncPropertyDescriptorBase"  # a property takes no argument
    cl = Entry(m, selfv)
    it = Interp(m, cl, max_inline=8)
    cl.it = it
    states = [(None, f, {}, None)]
    if f.is_property:
        ex = it.run(f, cls=cls)
        ctx.analysed(it, f, ex)
        if not ex:
            return ("gives nothing", ())
        states = []
        for e in ex:
            v = e.value
            if e.kind != "return" or v[:2] != ("tok", "dual-mode"):
                return ("gives %s instead of a dual-mode function" % show(v), e.st.path())
            if dict(v[2]).get("default", NONE) != ("tok", "default"):
                return ("does not follow the declared default", e.st.path())
            g = it.func_by_id(v[3][1]) if v[3][0] in ("bound", "func", "fn") else None
            if g is None:
                return None
            if v[3][0] == "bound" and v[3][2] != selfv:
                return ("is bound to %s" % show(v[3][2]), e.st.path())
            states.append((e, g, {}, None))
    for e0, g, _, _ in states:
        a, heap, its = arguments(g, given, single, takes)
        cl = Entry(m, selfv)
        it = Interp(m, cl, max_inline=8)
        cl.it = it
        ex = it.run(g, cls=cls, args=a, heap=heap)
        ctx.analysed(it, g, ex)
        if not ex:
            return ("does not return", ())
        conc, label = options(g)
        for e in ex:
            if e.kind != "return":
                return ("raises %s" % show(e.value), e.st.path())
            maps = [x for x in e.st.ts if x[0] == "mapping"]
            if len(maps) != 1:
                return ("builds %d mappings" % len(maps), e.st.path())
            p = judge_mapping(maps[0], selfv, its, given, label is not None or conc is None, takes and g.node.args.kwarg is not None)
            if p:
                return (p, e.st.path())
            v = e.value
            if n == "map":
                if v != ("tok", "mapping", 0):
                    return ("gives %s instead of the mapping" % show(v), e.st.path())
                continue
            if v[:2] == ("tok", "awaited answer") and v[2] != n:
                return ("gives the %s of the results" % v[2], e.st.path())
            if v[:2] != ("tok", "awaited answer"):
                return ("gives %s" % show(v), e.st.path())
            kw = dict(v[5])
            if kw.get("sync") == TRUE or kw.get("asynchronous") == FALSE:
                return ("asks for the aggregate in sync mode inside a coroutine", e.st.path())
    return None


# ------------------------------------------------------------------ what the tasks of a mapping await

FN, KEY = c23.FN, c23.KEYS[0]
KINDS = ("ASyncFunction", "ASyncBoundMethod", "ASyncMethodDescriptor", "_ASyncPropertyDescriptorBase")


class Kind(c23.Build):
    """a mapping is constructed over a wrapped callable of a known kind, and loaded"""
    fresh_globals = True

    def __init__(self, m, cls, clsid, kind, async_def):
        c23.Build.__init__(self, m, cls, clsid, NONE)
        self.kind, self.async_def = kind, async_def

    def model_attr(self, st, base, name):
        if base == FN and name in ("_modified_fn", "_asyncified", "get", "__call__", "fn", "__wrapped__"):
            return ("attr", FN, name)
        if base == FN and name == "_async_def":
            return const(self.async_def)
        return c23.Build.model_attr(self, st, base, name)

    def is_kind(self, t):
        names = [show(y).split(":")[-1].split(".")[-1] for y in (t[1] if t[0] == "tuple" else (t,))]
        return any(n == self.kind or n in PARENTS[self.kind] for n in names)

    def model(self, st, ev):
        if ev.kind == "awaitval" and ev.value == ("tok", "called"):
            return [(st, ("tok", "result"))]
        if ev.kind == "call":
            fv, a = ev.callee, tuple(ev.args)
            n, b = c20.simple(fv), callee_base(ev)
            if n == "isinstance" and len(a) == 2 and a[0] == FN:
                return [(st, const(self.is_kind(a[1])))]
            if fv == FN or fv[0] == "attr" and fv[1] == FN:
                s = self.add(st, ("called", fv, a, Entry.flat(self, st, ev.kw)))
                return [(s, ("tok", "called"))] if s else []
            if n == "get" and b is not None and b[0] == "glob":
                return [(st, NONE)]
        return c23.Build.model(self, st, ev)


PARENTS = {"ASyncBoundMethod": ("ASyncFunction", "_ModifiedMixin"), "ASyncFunction": ("_ModifiedMixin",),
           "ASyncMethodDescriptor": ("ASyncDescriptor", "_ModifiedMixin"), "_ASyncPropertyDescriptorBase": ("ASyncDescriptor", "_ModifiedMixin")}


def wrapped(ctx, m):
    cls = L.klass(m, TASK, "TaskMapping")
    clsid = "%s:TaskMapping" % cls.module.rel
    f = m.find_method(cls, "__init__")
    for kind in KINDS:
        for async_def in (True, False):
            for flag in (None, ("sync", FALSE), ("asynchronous", TRUE)):
                if flag and kind in ("ASyncFunction", "_ASyncPropertyDescriptorBase"):
                    continue
                items = ((const("kwarg"), KW),) + (((const(flag[0]), flag[1]),) if flag else ())
                cl = Kind(m, cls, clsid, kind, async_def)
                ex = c23.drive(ctx, cl, f, {"wrapped_func": FN, "iterables": ("vararg", (c23.listed(KEY),)), "name": const(""), "concurrency": NONE,
                                            "wrapped_func_kwargs": ("kd", "kwargs")}, {("kd", "kwargs", ""): ("kdc", items, ())})
                bad, n = None, 0
                for e in ex:
                    for e2 in c23.loads(cl, f, e) if e.kind == "return" else ():
                        for x in [x for x in e2.st.ts if x[0] == "start"]:
                            n += 1
                            bad = bad or judge_call(cl, e2, x[1], kind, async_def, f)
                ctx.ob("wrapped", "%s, %s, %s" % (kind, "async def" if async_def else "def", "=".join((flag[0], show(flag[1]))) if flag else "no flag"), bad is None, L.where(f),
                       bad[0] if bad else "", bad[1] if bad else ())
                if not n:
                    ctx.notes.append("no task of a mapping over %s was followed" % kind)


def judge_call(cl, e2, coro, kind, async_def, f):
    n0 = len(e2.st.ts)
    for e in cl.it.await_value(e2.st, coro, f):
        if e.kind != "return":
            return ("a task raises %s" % show(e.value), e.st.path())
        calls = [x for x in e.st.ts[n0:] if x[0] == "called"]
        if len(calls) != 1:
            return ("a task calls the function %d times" % len(calls), e.st.path())
        _, fv, a, kw = calls[0]
        kw = dict(kw)
        if a != (KEY,) or kw.get("kwarg") != KW:
            return ("a task calls the function with (%s)" % ", ".join([show(x) for x in a] + ["%s=%s" % (k, show(v)) for k, v in kw.items()]), e.st.path())
        sync, asyn = kw.get("sync"), kw.get("asynchronous")
        if fv[0] == "attr" and fv[2] == ("_modified_fn" if async_def else "_asyncified") and kind == "ASyncFunction":
            continue
        if fv[0] == "attr" and fv[2] == "get" and kind == "_ASyncPropertyDescriptorBase":
            continue
        if fv[0] == "attr" and fv[2] == "__call__" or fv == FN:
            if sync == FALSE and asyn is None or asyn == TRUE and sync is None:
                continue
            if sync is None and asyn is None:
                return ("a task calls the %s without asking for asynchronous mode, which fails when its default is sync" % kind, e.st.path())
            return ("a task calls the function with contradictory flags", e.st.path())
        return ("a task awaits %s" % show(fv), e.st.path())
    return None


def check(ctx):
    m = ctx.model
    ctx.rule("entries", "mapping or aggregating a callable builds one task mapping of it over all iterables with the caller's options and gives its same-named aggregate", 20)
    ctx.rule("wrapped", "the tasks of a mapping call a wrapped callable of any kind asynchronously, with their key and the keyword arguments", 8)
    entries(ctx, m)
    wrapped(ctx, m)
