"""Effective modifier values.  The manager's lookup is interpreted per modifier and per explicit value (also falsy ones), the
module body of the configuration once per environment, and every public way to decorate with unknown names, with
explicit values and with integer limits."""
import ast

from ..lib import *
from ..model import Func
from .. import locks as L
from .. import modes as M
from . import c17, c20

ASSUMPTIONS = ["`os.environ` behaves as a mapping of strings", "a TypedDict call gives a dict of its keyword arguments"]
W = M.WRAPPED
CFG = "a_sync.a_sync.config"
MGR = "a_sync.a_sync.modifiers.manager"
NEUTRAL = c20.NEUTRAL
ENV = {"default": ("A_SYNC_DEFAULT_MODE", "async", "async"), "cache_type": ("A_SYNC_CACHE_TYPE", "Memory", "memory"), "cache_typed": ("A_SYNC_CACHE_TYPED", "1", True),
       "ram_cache_maxsize": ("A_SYNC_RAM_CACHE_MAXSIZE", "50", 50), "ram_cache_ttl": ("A_SYNC_RAM_CACHE_TTL", "2.5", 2.5),
       "runs_per_minute": ("A_SYNC_RUNS_PER_MINUTE", "30", 30), "semaphore": ("A_SYNC_SEMAPHORE", "4", 4)}
FALSY = {"default": (None,), "cache_type": (None,), "cache_typed": (False,), "ram_cache_maxsize": (-1, None, 0), "ram_cache_ttl": (None, 0), "runs_per_minute": (None, 0), "semaphore": (None, 0)}


class Lookup(Client):
    """one manager with known contents; the process-wide defaults are another one with all names"""
    kd = True
    debug = False

    def __init__(self, m):
        self.m = m
        self.mgr = L.klass(m, MGR, "ModifierManager")
        self.names = ()

    def inline_property(self, f):
        return True

    def glob(self, mod, name):
        mo = self.m.modules.get(mod)
        e = mo.assigns.get(name) if mo is not None else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "ModifierManager" and e.args:
            return ("kd", "manager of " + ast.unparse(e.args[0]).split(".")[-1])
        if name in ("user_set_default_modifiers", "null_modifiers"):
            return ("kd", "manager of " + name)
        return None

    def model_attr(self, st, base, name):
        if base[0] == "kd" and base != ("kd", "mods"):
            c = st.heap.get(("kd", base[1], ""))
            return dict(c[1]).get(const(name)) if c else None
        if base[0] == "self" and name == "_modifiers":
            return ("kd", "mods")
        return Client.model_attr(self, st, base, name)

    def model(self, st, ev):
        if ev.kind == "call" and callee_attr(ev) in ("__getattribute__", "__getattr__") and callee_base(ev) and callee_base(ev)[0] == "super" and len(ev.args) == 1 and is_const(ev.args[0]):
            n = cval(ev.args[0])
            return [(st, ("kd", "mods") if n == "_modifiers" else ("tok", "ordinary attribute", n))]
        return None


def defaults_heap():
    return {("kd", "manager of user_set_default_modifiers", ""): ("kdc", tuple((const(k), ("tok", "process default", k)) for k in list(NEUTRAL) + ["executor"]), ()),
            ("kd", "manager of null_modifiers", ""): ("kdc", tuple((const(k), const(v)) for k, v in NEUTRAL.items()) + ((const("executor"), ("tok", "the default executor")),), ())}


def lookup(ctx):
    m = ctx.model
    c = L.klass(m, MGR, "ModifierManager")
    g = m.find_method(c, "__getattribute__") or m.find_method(c, "__getattr__")
    if g is None:
        raise AnalysisError("the manager's attribute lookup vanished")
    p = [x for x in g.params() if x != "self"][0]
    for k in list(NEUTRAL) + ["executor"]:
        rows = [("explicit", ("tok", "given", k)), ("absent", None)] + [("explicit %r" % v, const(v)) for v in FALSY.get(k, ())]
        for name, given in rows:
            for others in (False, True):
                items = (() if given is None else ((const(k), given),)) + (tuple((const(x), ("tok", "given", x)) for x in NEUTRAL if x != k) if others else ())
                heap = defaults_heap()
                heap[("kd", "mods", "")] = ("kdc", items, ())
                it = Interp(m, Lookup(m), max_inline=6)
                ex = it.run(g, cls=c, args={p: const(k)}, heap=heap)
                ctx.analysed(it, g, ex)
                want = given if given is not None else ("tok", "process default", k)
                bad = [e for e in ex if e.kind == "raise" or e.value != want]
                ctx.ob("lookup", "%s, %s%s" % (k, name, ", others given" if others else ""), not bad and bool(ex), L.where(g),
                       "%s %s, must be %s" % (bad[0].kind, show(bad[0].value), show(want)) if bad else "", bad[0].st.path() if bad else ())


def mapping(ctx):
    """the manager as a mapping: exactly the explicit values, also falsy ones"""
    m = ctx.model
    c = L.klass(m, MGR, "ModifierManager")
    for k in NEUTRAL:
        for given in [None, ("tok", "given", k)] + [const(v) for v in FALSY.get(k, ())]:
            for name in ("__contains__", "__getitem__"):
                g = m.find_method(c, name)
                if g is None:
                    continue
                p = [x for x in g.params() if x != "self"][0]
                heap = defaults_heap()
                heap[("kd", "mods", "")] = ("kdc", () if given is None else ((const(k), given),), ())
                it = Interp(m, Lookup(m), max_inline=6)
                ex = it.run(g, cls=c, args={p: const(k)}, heap=heap)
                ctx.analysed(it, g, ex)
                bad = None
                for e in ex:
                    if name == "__contains__":
                        if e.kind == "raise" or is_const(e.value) and bool(cval(e.value)) != (given is not None):
                            bad = bad or (e, "%s %s" % (e.kind, show(e.value)))
                    elif given is None and e.kind == "return" or given is not None and (e.kind == "raise" or e.value != given):
                        bad = bad or (e, "%s %s" % (e.kind, show(e.value)))
                ctx.ob("lookup", "%s(%r) %s" % (name, k, "absent" if given is None else "given %s" % show(given)), bad is None, L.where(g), bad[1] if bad else "", bad[0].st.path() if bad else ())


# ------------------------------------------------------------------ the configuration module
def convert(fn, v):
    try:
        return const({"int": int, "float": float, "str": str}[fn[9:]](cval(v)))
    except (ValueError, TypeError):
        return None


class Env(Client):
    kd = True
    debug = False
    model_raises = True

    def __init__(self, m, env, known=None):
        self.m, self.env, self.known = m, env, known or {}

    def glob(self, mod, name):
        if mod == CFG and name in self.known:
            return self.known[name]
        return None

    def get(self, k):
        return const(self.env[k]) if k in self.env else None

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        fv, a = ev.callee, ev.args
        n = c20.simple(fv)
        env = fv[0] == "attr" and fv[1][0] in ("ext", "attr") and "environ" in repr(fv[1]) or fv[0] == "ext" and ("environ" in fv[1] or fv[1] == "os.getenv")
        if env and n in ("get", "getenv", "pop", "setdefault") and a and is_const(a[0]):
            v = self.get(cval(a[0]))
            return [(st, v if v is not None else a[1] if len(a) > 1 else dict(ev.kw).get("default", NONE))]
        if fv[0] in ("class", "ext", "glob") and "ModifierKwargs" in repr(fv[1:]):
            return [self.it.kd_new(st, ("table", ev.node.lineno), [(const(k), v) for k, v in ev.kw if k is not None], [v for k, v in ev.kw if k is None])]
        if n == "get_default_executor" and not a:
            return [(st, ("tok", "the default executor"))]
        if fv[0] == "ext" and fv[1] in ("builtins.int", "builtins.float", "builtins.str") and len(a) == 1 and is_const(a[0]):
            v = convert(fv[1], a[0])
            return [] if v is None else [(st, v)]
        return None

    def raises(self, st, ev):
        if ev.kind == "call" and ev.callee[0] == "ext" and ev.callee[1] in ("builtins.int", "builtins.float", "builtins.str") and len(ev.args) == 1 and is_const(ev.args[0]) \
                and convert(ev.callee[1], ev.args[0]) is None:
            return [("exc", "ValueError", "conversion of an environment variable")]
        return ()


def module_func(mod):
    """the module body as a function"""
    body = [s for s in mod.tree.body if not isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))]
    node = ast.FunctionDef(name="<module>", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=body + [ast.copy_location(ast.Pass(), body[-1])], decorator_list=[], returns=None)
    ast.copy_location(node, body[0])
    ast.fix_missing_locations(node)
    return node


def config(ctx):
    m = ctx.model
    mod = m.modules.get(CFG)
    if mod is None:
        raise AnalysisError("config module vanished")
    node = module_func(mod)
    some = next(iter(mod.funcs.values())) if hasattr(mod, "funcs") else None
    if some is None:
        some = next(f for f in m.all_funcs() if f.module is mod)
    import copy
    f = copy.copy(some)
    f.node, f.name, f.qual = node, "<module>", "<module>"
    where = "%s:1" % mod.rel
    rows = [("no variable set", {}, {})]
    for k, (var, text, val) in ENV.items():
        rows.append(("%s=%s" % (var, text), {var: text}, {k: val}))
    for k, text, val in (("ram_cache_maxsize", "1", 1), ("ram_cache_ttl", "0.5", 0.5), ("ram_cache_ttl", "60", 60.0), ("runs_per_minute", "1", 1), ("runs_per_minute", "6000", 6000),
                         ("semaphore", "1", 1), ("semaphore", "1000", 1000), ("default", "sync", "sync"), ("cache_type", "memory", "memory"), ("cache_typed", "true", True)):
        rows.append(("%s=%s" % (ENV[k][0], text), {ENV[k][0]: text}, {k: val}))
    rows.append(("all variables set", {v[0]: v[1] for v in ENV.values()}, {k: v[2] for k, v in ENV.items()}))
    for name, env, want in rows:
        for table in ("user_set_default_modifiers", "null_modifiers"):
            cl = Env(m, env)
            it = cl.it = Interp(m, cl, max_inline=8)
            ex = it.run(f)
            bad = None
            n = 0
            for e in ex:
                if e.kind == "raise":
                    bad = bad or (e, "importing the configuration raises %s" % show(e.value))
                    continue
                v = e.st.env.get(table)
                c = e.st.heap.get(("kd", v[1], "")) if v is not None and v[0] == "kd" else None
                if c is None:
                    raise AnalysisError("%s is not a known table: %s" % (table, show(v) if v else v))
                n += 1
                have = dict(c[1])
                for k in NEUTRAL:
                    w = const(want.get(k, NEUTRAL[k]) if table.startswith("user") else NEUTRAL[k])
                    if have.get(const(k)) != w:
                        bad = bad or (e, "%s is %s, must be %s" % (k, show(have[const(k)]) if const(k) in have else "missing", show(w)))
            if not n and bad is None:
                raise AnalysisError("the configuration cannot be interpreted")
            ctx.ob("environment", "%s, %s" % (name, table), bad is None, where, bad[1] if bad else "", bad[0].st.path() if bad else ())
    ctx.analysed(it, some, ex)
    g = m.func(CFG, "get_default_executor")
    for typ in (None, "threads", "T", "processes", "Proc", "bogus"):
        for num in (None, "3"):
            env = {k: v for k, v in (("A_SYNC_EXECUTOR_TYPE", typ), ("A_SYNC_EXECUTOR_VALUE", num)) if v is not None}
            cl = Env(m, env)
            it = cl.it = Interp(m, cl, max_inline=8)
            first = [e for e in it.run(f) if e.kind == "return"]
            if not first:
                raise AnalysisError("the configuration cannot be interpreted")
            known = {k: v for k, v in first[0].st.env.items() if v is not None and is_const(v)}
            cl = Env(m, env, known)
            it = cl.it = Interp(m, cl, max_inline=8)
            ex = it.run(g)
            ctx.analysed(it, g, ex)
            kind = {"t": "Thread", "p": "Process"}.get((typ or "threads")[0].lower())
            bad = None
            for e in ex:
                if kind is None:
                    if e.kind != "raise" or M.excname(m, e.value) != "ValueError":
                        bad = bad or (e, "must be refused")
                elif e.kind == "raise" or not (e.value[0] in ("call", "new") and kind in show(e.value) and (e.value[3][:1] or tuple(v for _, v in e.value[4])) == (const(int(num or 8)),)):
                    bad = bad or (e, "%s %s" % (e.kind, show(e.value)))
            ctx.ob("executor", "type %s, value %s" % (typ, num), bad is None and bool(ex), L.where(g), bad[1] if bad else "", bad[0].st.path() if bad else ())


# ------------------------------------------------------------------ decorating
class Deco(c20.Drive):
    """managers keep the class's own constructor, so that names are validated"""
    fresh_globals = True

    def inline(self, f):
        return f.name not in NOINLINE and "cache_timer" not in f.name and "validate_wrapped" not in f.name and not f.id.startswith("a_sync/primitives/")

    def model(self, st, ev):
        it = self.it
        if ev.kind == "call":
            fv, a = ev.callee, ev.args
            if fv[0] == "class" and fv[1] == self.mgr.id:
                f = self.m.find_method(self.mgr, "__init__")
                self.n += 1
                items, rest = ((), ()) if not a else it.kd_merge(st, (), (), a[0])
                s, v = it.kd_new(st, ("manager", self.n), items, rest)
                R = []
                out = []
                for s2, _ in it.inline(s, f, ("self", self.mgr.id), [v], [], ev.node, R):
                    # what the manager keeps, not what it was given
                    kept = s2.heap.get(("attr", ("self", self.mgr.id), "_modifiers"))
                    c = s2.heap.get(("kd", kept[1], "")) if kept is not None and kept[0] == "kd" else None
                    if c is not None and c[0] == "kdc":
                        s2 = s2.but(heap={**s2.heap, ("kd", v[1], ""): c})
                    out.append((s2, v))
                self.refused += [M.excname(self.m, x) for _, x in R]
                return out
            if c20.simple(fv) == "apply_class_defined_modifiers":
                return None
            if fv[0] in ("class", "ext", "glob") and "ModifierKwargs" in repr(fv[1:]) and len(a) == 1:
                items, rest = it.kd_merge(st, (), (), a[0])
                self.n += 1
                return [it.kd_new(st, ("kwargs", self.n), items, rest)]
            if fv[0] == "ext" and fv[1].endswith("isinstance") and len(a) == 2 and a[0][0] == "kd":
                return [(st, const("dict" in repr(a[1]) or "Mapping" in repr(a[1])))]
        return c20.Drive.model(self, st, ev)


def entries(m):
    """(label, function, class or None, has a function argument, {param: value}, args applied to the result)"""
    P, F, ME = "a_sync.a_sync.property", "a_sync.a_sync.function", "a_sync.a_sync.method"
    out = []
    for mod, name in (("a_sync.a_sync.decorator", "a_sync"), (P, "a_sync_property"), (P, "a_sync_cached_property")):
        f = m.func(mod, name)
        p = f.params()
        for first in ("fn", "none", "sync", "async"):
            out.append(("%s%s" % (name, {"fn": "(fn)", "none": "()(fn)", "sync": "('sync')(fn)", "async": "('async')(fn)"}[first]), f, None,
                        {p[0]: {"fn": W, "none": NONE}.get(first, const(first))}, () if first == "fn" else (W,), first))
    base = L.klass(m, F, "ASyncFunction")
    bound = L.klass(m, ME, "ASyncBoundMethod")
    des = L.klass(m, "a_sync.a_sync._descriptor", "ASyncDescriptor")
    for c in [base] + [x for x in m.subclasses(base) if bound not in m.mro(x)] + m.subclasses(L.klass(m, ME, "ASyncMethodDescriptor")) + m.subclasses(L.klass(m, P, "_ASyncPropertyDescriptorBase")):
        f = m.find_method(c, "__init__")
        if c.name == "HiddenMethodDescriptor":
            continue
        a = {f.params()[1]: W}
        for x, v in (("field_name", c17.NAME), ("_skip_validate", FALSE), ("_fset", NONE), ("_fdel", NONE)):
            if x in f.params():
                a[x] = v
        out.append((c.name, f, c, a, (), "fn"))
    return out


def build(ctx, entry, mods, coro):
    label, f, c, args, then, first = entry
    m = ctx.model
    cl = Deco(m, coro)
    it = cl.it = Interp(m, cl, inline_new=True, max_inline=14, keep_heap_on_await=True)
    cl.func, cl.n, cl.refused = f, 0, []
    heap = defaults_heap()
    heap[("kd", "null_modifiers", "")] = heap[("kd", "manager of null_modifiers", "")]
    d = ("kd", "manager of user_set_default_modifiers", "")
    heap[d] = ("kdc", tuple((k, const("async") if k == const("default") else v) for k, v in heap[d][1]), ())
    heap[("kd", "mods", "")] = ("kdc", tuple((const(k), v) for k, v in mods.items() if k not in f.params()), ())
    heap[("kd", "idict", "")] = ("kdc", (), ())
    a = dict(args)
    a[f.node.args.kwarg.arg] = ("kd", "mods")
    for k, v in mods.items():
        if k in f.params():
            a[k] = v
    if "default" in f.params() and "default" not in a:
        a["default"] = NONE
    facts = dict(c17.FACTS)
    facts.update(c20.facts(c20.ASEM))
    ex = it.run(f, cls=c, args=a, heap=heap, facts=facts)
    ctx.analysed(it, f, ex)
    if then:
        ex = [r for e in ex for r in ([e] if e.kind == "raise" else it.call_value(e.st, e.value, then, (), f))]
    me = ("self", c.id) if c is not None else None
    return cl, it, [(e, me or e.value) for e in ex]


def manager(it, st, obj):
    """contents of the manager of a built object"""
    v = st.heap.get(("attr", obj, "modifiers"))
    c = st.heap.get(("kd", v[1], "")) if v is not None and v[0] == "kd" else None
    return None if c is None else dict(c[1])


def decorating(ctx):
    m = ctx.model
    given = {k: ("tok", "given", k) for k in NEUTRAL if k != "default"}
    for entry in entries(m):
        label, f = entry[0], entry[1]
        for coro in (False, True):
            text = "%s of %s" % (label, "an async def" if coro else "a def")
            # unknown names
            bad, wrong, some = [], [], True
            for more in ({"bogus": const(1)}, {"bogus": NONE}, {"_default": const("sync")}):
                cl, it, ex = build(ctx, entry, more, coro)
                bad += [e for e, _ in ex if e.kind == "return"]
                wrong += [e for e, _ in ex if e.kind == "raise" and M.excname(m, e.value) not in ("ValueError", "TypeError")] or [x for x in cl.refused if x not in ("ValueError", "TypeError")]
                some = some and (bool(ex) or bool(cl.refused))
            ctx.ob("names", text, not bad and not wrong and some, L.where(f), "an unknown modifier is accepted" if bad else "refused with another error" if wrong else "",
                   bad[0].st.path() if bad else ())
            # explicit values
            cl, it, ex = build(ctx, entry, given, coro)
            bad = None
            n = 0
            for e, obj in ex:
                if e.kind == "raise":
                    bad = bad or (e, "is refused with %s" % M.excname(m, e.value))
                    continue
                n += 1
                have = manager(it, e.st, obj)
                if have is None:
                    raise AnalysisError("%s: the manager of %s is not known" % (text, show(obj)))
                for k, v in given.items():
                    if have.get(const(k)) != v:
                        bad = bad or (e, "%s becomes %s" % (k, show(have[const(k)]) if const(k) in have else "lost"))
                d = have.get(const("default"))
                want = const(entry[5]) if entry[5] in ("sync", "async") else None
                if want is not None and d != want or want is None and d not in (None, NONE):
                    bad = bad or (e, "default is %s" % (show(d) if d else d))
            if cl.refused:
                bad = bad or (ex[0][0] if ex else None, "is refused with %s" % cl.refused[0])
            if not n and bad is None:
                raise AnalysisError("%s cannot be built" % text)
            ctx.ob("explicit", text, bad is None, L.where(f), bad[1] if bad else "", bad[0].st.path() if bad and bad[0] else ())
            # explicit neutral values are explicit
            none = {k: const(v) for k, v in NEUTRAL.items() if k != "default"}
            cl, it, ex = build(ctx, entry, none, coro)
            bad = None
            for e, obj in ex:
                have = manager(it, e.st, obj) if e.kind == "return" else None
                if have is None:
                    bad = bad or (e, "cannot be built")
                    continue
                for k, v in none.items():
                    if have.get(const(k)) != v:
                        bad = bad or (e, "the explicit %s=%s %s" % (k, show(v), "becomes %s" % show(have[const(k)]) if const(k) in have else "is lost: the process-wide default applies"))
                if "default" in f.params() and entry[5] in ("fn", "none") and have.get(const("default")) != NONE:
                    bad = bad or (e, "the explicit default=None is lost: the process-wide default applies")
            ctx.ob("explicit", text + ", neutral values given", bad is None and bool(ex), L.where(f), bad[1] if bad else "", bad[0].st.path() if bad else ())
            # nothing explicit: nothing but the mode may be pinned
            cl, it, ex = build(ctx, entry, {}, coro)
            bad = None
            for e, obj in ex:
                have = manager(it, e.st, obj) if e.kind == "return" else None
                if have is None:
                    bad = bad or (e, "cannot be built")
                elif [k for k in have if cval(k) != "default"]:
                    bad = bad or (e, "pins %s" % ", ".join(cval(k) for k in have))
            ctx.ob("explicit", text + ", nothing given", bad is None and bool(ex), L.where(f), bad[1] if bad else "", bad[0].st.path() if bad else ())
            # integer limits
            cl, it, ex = build(ctx, entry, {"semaphore": const(3), "runs_per_minute": const(60)}, coro)
            bad = None
            n = 0
            for e, obj in ex:
                if e.kind == "raise":
                    continue
                n += 1
                have = manager(it, e.st, obj)
                if have is None:
                    raise AnalysisError("%s: the manager is not known" % text)
                for k, amount in (("semaphore", 3), ("runs_per_minute", 60)):
                    v = have.get(const(k))
                    if v is None or is_const(v):
                        bad = bad or (e, "%s stays %s: each function or binding made from it gets its own limiter" % (k, show(v) if v else "unset"))
                    elif not limiter(v, amount):
                        bad = bad or (e, "%s becomes %s" % (k, show(v)))
            if not n and bad is None and ex:
                bad = (ex[0][0], "integer limits are refused with %s" % M.excname(m, ex[0][0].value))
            if not n and bad is None:
                raise AnalysisError("%s cannot be built with integer limits" % text)
            ctx.ob("shared", text, bad is None, L.where(f), bad[1] if bad else "", bad[0].st.path() if bad else ())


def limiter(v, amount):
    """an object built from exactly this amount (a rate limiter's period is a minute)"""
    if v[0] not in ("new", "call"):
        return False
    a = tuple(v[3]) + tuple(y for k, y in v[4] if k != "name")
    name = v[2] if isinstance(v[2], str) else repr(v[2])
    return a[:1] == (const(amount),) and ("AsyncLimiter" not in name or len(a) == 1 or len(a) == 2 and is_const(a[1]) and cval(a[1]) == 60)


def classes(ctx):
    for limits in ({"semaphore": 3, "runs_per_minute": 60}, {"semaphore": 1}, {"semaphore": 0}, {"runs_per_minute": 1}, {"runs_per_minute": 250}):
        class_body(ctx, limits)


def class_body(ctx, limits):
    m = ctx.model
    g = m.func("a_sync.a_sync.modifiers", "get_modifiers_from")
    cl = Deco(m, False)
    it = cl.it = Interp(m, cl, inline_new=True, max_inline=8)
    cl.func, cl.n, cl.refused = g, 0, []
    items = tuple((const(k), const(v)) for k, v in limits.items()) + ((const("cache_type"), const("memory")), (const("ram_cache_ttl"), NONE), (const("cache_typed"), FALSE), (const("method"), ("tok", "a method")))
    heap = defaults_heap()
    heap[("kd", "attrs", "")] = ("kdc", items, ())
    ex = it.run(g, args={g.params()[0]: ("kd", "attrs")}, heap=heap)
    ctx.analysed(it, g, ex)
    bad = None
    for e in ex:
        c = it.kd_get(e.st, e.value) if e.kind == "return" else None
        if c is None:
            bad = bad or (e, "gives %s" % show(e.value))
            continue
        have = dict(c[1])
        for k, amount in limits.items():
            v = have.get(const(k))
            if v is None or is_const(v) or not limiter(v, amount):
                bad = bad or (e, "%s is %s" % (k, show(v) if v else "lost"))
        for k in NEUTRAL:
            if k not in limits and k != "cache_type" and have.get(const(k)) != {"ram_cache_ttl": NONE, "cache_typed": FALSE}.get(k):
                bad = bad or (e, "%s is %s" % (k, show(have[const(k)]) if const(k) in have else "lost"))
        if have.get(const("cache_type")) != const("memory") or const("method") in have:
            bad = bad or (e, "the modifiers are %s" % ", ".join(str(cval(k)) for k in have))
    ctx.ob("shared", "class body with %s" % ", ".join("%s=%s" % x for x in limits.items()), bad is None and bool(ex), L.where(g), bad[1] if bad else "", bad[0].st.path() if bad else ())


def types(ctx):
    """values of the wrong type never reach an execution"""
    m = ctx.model
    bogus = ("tok", "a value of the wrong type")

    class T(c20.Mods):
        def model(self, st, ev):
            if ev.kind == "call" and ev.callee[0] == "ext":
                d = ev.callee[1].split(".")[-1]
                if d == "isinstance" and ev.args[0] == bogus:
                    return [(st, FALSE)]
                if d == "AsyncLimiter" and ev.args[:1] == (bogus,):
                    return []       # aiolimiter divides by it
            return c20.Mods.model(self, st, ev)
    for mod, name, kw in (("a_sync.a_sync.modifiers.semaphores", "apply_semaphore", "semaphore"), ("a_sync.a_sync.modifiers.limiter", "apply_rate_limit", "runs_per_minute"),
                          ("a_sync.a_sync.modifiers.cache", "apply_async_cache", "ram_cache_maxsize"), ("a_sync.a_sync.modifiers.cache", "apply_async_cache", "cache_type"),
                          ("a_sync.a_sync.modifiers.cache.memory", "apply_async_memory_cache", "maxsize")):
        f = m.func(mod, name)
        for fn in (W, NONE):
            if name == "apply_semaphore" and fn == NONE:
                continue
            if name == "apply_async_memory_cache" and fn == W:
                continue        # reached with the function only from apply_async_cache, which goes the other way
            cl = T(m, {})
            it = cl.it = Interp(m, cl, max_inline=10)
            cl.func = f
            p = f.params()
            a = {p[0]: fn, kw: bogus}
            fa = c20.facts(c20.ASEM)
            fa.update({("truthy", bogus): True, ("is", bogus, NONE): False, ("eq", bogus, const("memory")): False, ("eq", const("memory"), bogus): False, ("eq", bogus, const("disk")): False,
                       ("eq", bogus, const(-1)): False, ("eq", bogus, NONE): False})
            ex = it.run(f, args=a, facts=fa)
            ctx.analysed(it, f, ex)
            ex = [r for e in ex for r in ([e] if e.kind == "raise" or fn == W else it.call_value(e.st, e.value, (W,), (), f))]
            bad = [e for e in ex if e.kind == "return"]
            if "maxsize" in kw:
                for size in (0, -5):
                    cl = T(m, {})
                    it = cl.it = Interp(m, cl, max_inline=10)
                    cl.func = f
                    ex2 = it.run(f, args={**a, kw: const(size)}, facts=c20.facts(c20.ASEM))
                    ex2 = [r for e in ex2 for r in ([e] if e.kind == "raise" or fn == W else it.call_value(e.st, e.value, (W,), (), f))]
                    b2 = [e for e in ex2 if e.kind == "return"]
                    ctx.ob("types", "%s(%s%s=%d)" % (name, "fn, " if fn == W else "", kw, size), not b2 and bool(ex2), L.where(f), "is accepted" if b2 else "", b2[0].st.path() if b2 else ())
            ctx.ob("types", "%s(%s%s of the wrong type)" % (name, "fn, " if fn == W else "", kw), not bad, L.where(f), "is accepted" if bad else "", bad[0].st.path() if bad else ())


def check(ctx):
    ctx.rule("lookup", "an explicit value wins, also a falsy one; otherwise the process-wide default", 30)
    ctx.rule("environment", "each documented variable sets the default of its modifier and of no other; unset means neutral", 16)
    ctx.rule("executor", "the default executor is the configured kind and size", 12)
    ctx.rule("names", "an unknown modifier name is refused when decorating", 20)
    ctx.rule("explicit", "the values given when decorating are the ones the decorated object keeps, and no others", 40)
    ctx.rule("shared", "an integer limit becomes one limiter when decorating", 20)
    ctx.rule("types", "a modifier value of the wrong type is refused before the function runs", 5)
    lookup(ctx)
    mapping(ctx)
    config(ctx)
    decorating(ctx)
    classes(ctx)
    types(ctx)
