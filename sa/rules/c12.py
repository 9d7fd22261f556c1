"""Contradictory or ambiguous requests: each way of making one is interpreted as its own row and must end in the
library's error before the wrapped function is called or the object is built; rows with one valid flag must not."""
import ast

from ..lib import *
from .. import locks as L
from .. import modes as M

ASSUMPTIONS = ["validation caches hold only callables that passed validation (C34)", "`inspect` describes signatures correctly"]
BOTH = [(("sync", a), ("asynchronous", b)) for a in (True, False) for b in (True, False)]


def excname(m, v):
    if v[0] == "exc":
        return v[1]
    if v[0] == "new":
        return v[2].rsplit(":", 1)[-1]
    if v[0] == "class":
        return v[1].rsplit(":", 1)[-1]
    if v[0] == "call" and v[2][0] == "ext":
        return v[2][1].split(".")[-1]
    if v[0] == "ext":
        return v[1].split(".")[-1]
    return show(v)


def check(ctx):
    m = ctx.model
    ctx.rule("flags", "a call with both flag spellings raises TooManyFlags before the function runs", 4)
    ctx.rule("single", "a call with one flag is not refused", 4)
    ctx.rule("instance", "an instance or class with both flags raises TooManyFlags, one without any NoFlagsFound", 8)
    ctx.rule("argspec", "a function with a parameter named like a flag cannot be decorated", 8)
    ctx.rule("retry", "a function that was refused is refused again", 0)
    ctx.rule("generator", "a generator function cannot be decorated", 4)
    ctx.rule("default", "an unknown default mode is refused when decorating", 4)
    flags(ctx)
    instance(ctx)
    decorating(ctx)
    defaults(ctx)


def flags(ctx):
    m = ctx.model
    for c, kind in M.entry_points(m):
        bad = sing = None
        n = 0
        f = m.find_method(c, "__call__")
        insts = (None,) if kind == "function" else ("sync", "async", "plain")
        for both in BOTH:
            for d in (None, "sync"):
                for coro in (False, True):
                    for inst in insts:
                        row = M.Row(both, d, coro, inst)
                        f, res = M.drive(ctx, c, row)
                        for r in res or ():
                            n += 1
                            if r.mode == "async-error":
                                continue        # refused when awaited: not before the call is accepted
                            if r.mode != "error" or excname(m, r.value) != "TooManyFlags" or r.calls:
                                bad = bad or (r, "%s: %s" % (row.label(), "is accepted" if r.mode != "error" else
                                                             "raises %s" % excname(m, r.value) if not r.calls else "runs the function first"))
        ctx.ob("flags", c.name, bad is None and n > 0, L.where(f), bad[1] if bad else "", bad[0].path if bad else ())
        for fl in M.flagsets():
            for coro in (False, True):
                row = M.Row(fl, None, coro, insts[0])
                f, res = M.drive(ctx, c, row)
                for r in res or ():
                    if r.mode in ("error", "async-error") and excname(m, r.value) in ("TooManyFlags", "InvalidFlag", "InvalidFlagValue", "NoFlagsFound"):
                        sing = sing or (r, "%s raises %s" % (row.label(), excname(m, r.value)))
        ctx.ob("single", c.name, sing is None, L.where(f), sing[1] if sing else "", sing[0].path if sing else ())


class Inst(Client):
    """signature parameters and attributes of an instance, per row"""
    kd = True
    absent = set(M.FLAGS)
    fresh_globals = True
    debug = None

    def __init__(self, sig, attrs, cdef=()):
        self.sig, self.attrs, self.cdef = sig, attrs, cdef

    def inline_property(self, f):
        return True

    def model(self, st, ev):
        fv = ev.callee if ev.kind == "call" else ("",)
        if fv == ("ext", "inspect.signature"):
            return [(st, ("tok", "the signature"))]
        if fv == ("ext", "builtins.hasattr") and len(ev.args) == 2 and is_const(ev.args[1]) and cval(ev.args[1]) in M.FLAGS:
            return [(st, const(cval(ev.args[1]) in self.attrs))]
        if fv == ("ext", "builtins.getattr") and len(ev.args) >= 2 and is_const(ev.args[1]) and cval(ev.args[1]) in M.FLAGS:
            return [(st, ("tok", "flag value"))] if cval(ev.args[1]) in self.attrs else ([(st, ev.args[2])] if len(ev.args) == 3 else [])
        if fv == ("ext", "builtins.isinstance") and len(ev.args) == 2 and is_const(ev.args[0]):
            return [(st, const(isinstance(cval(ev.args[0]), str) if ev.args[1] == ("ext", "builtins.str") else False))]
        return None

    def model_attr(self, st, base, name):
        if name == "parameters" and base == ("tok", "the signature"):
            return ("kd", "parameters")
        if name == "__name__":
            return const("UserClass")
        return Client.model_attr(self, st, base, name)


def instance(ctx):
    m = ctx.model
    c = L.klass(m, "a_sync.a_sync.base", "ASyncGenericBase")
    f = m.find_method(c, "__a_sync_flag_name__")
    S, Y = M.FLAGS
    rows = [((), ()), ((), (S,)), ((), (Y,)), ((), (S, Y)), ((S,), (S,)), ((Y,), (Y,)), ((S, Y), (S, Y)), ((S,), (S, Y))]
    for sig, attrs in rows:
        cl = Inst(sig, attrs)
        it = Interp(m, cl, max_inline=14)
        heap = {("kd", "parameters", ""): ("kdc", tuple((const(n), ("tok", "parameter")) for n in sig), (("tok", "other parameters"),))}
        ex = it.run(f, cls=c, heap=heap)
        ctx.analysed(it, f, ex)
        want = sig[0] if len(sig) == 1 else attrs[0] if len(attrs) == 1 and not sig else None
        err = "TooManyFlags" if len(attrs) == 2 and len(sig) != 1 else "NoFlagsFound" if not attrs and not sig else None
        bad = None
        for e in ex:
            if err:
                if e.kind != "raise" or excname(m, e.value) != err:
                    bad = bad or (e, "must raise %s, %s" % (err, "returns %s" % show(e.value) if e.kind == "return" else "raises %s" % excname(m, e.value)))
            elif e.kind == "raise":
                bad = bad or (e, "raises %s" % excname(m, e.value))
            elif is_const(e.value) and cval(e.value) != want:
                bad = bad or (e, "uses the flag %s, must be %s" % (show(e.value), want))
        ctx.ob("instance", "parameters (%s) attributes (%s)" % (",".join(sig), ",".join(attrs)), bad is None and bool(ex),
               L.where(f), bad[1] if bad else "", bad[0].st.path() if bad else ())
    # constructing / calling with both flags
    a = L.klass(m, "a_sync.a_sync.abstract", "ASyncABC")
    for name in ("__a_sync_should_await__", "__a_sync_instance_will_be_sync__"):
        g = m.find_method(a, name)
        if g is None:
            raise AnalysisError("%s vanished" % name)
        p = [x for x in g.params() if "kwargs" in x]
        if not p:
            raise AnalysisError("%s takes no kwargs" % name)
        for both in BOTH:
            it = Interp(m, Inst((), ()), max_inline=14)
            heap = {("kd", "caller", ""): ("kdc", tuple((const(n), const(v)) for n, v in both), (M.K,))}
            ex = it.run(g, cls=a, args={p[0]: ("kd", "caller")}, heap=heap)
            ctx.analysed(it, g, ex)
            bad = [e for e in ex if e.kind == "return" or excname(m, e.value) != "TooManyFlags"]
            ctx.ob("instance", "%s %s" % (name, dict(both)), not bad and bool(ex), L.where(g),
                   "both flags: %s %s" % (bad[0].kind, show(bad[0].value)) if bad else "", bad[0].st.path() if bad else ())


INNER = ("tok", "the cached function")


class Deco(Client):
    kd = True
    absent = set(M.FLAGS) | {"default"}
    fresh_globals = True
    debug = False

    def __init__(self, m, kind, names=((), ()), lru=False, first=False, remembered=()):
        self.m, self.kind, self.names, self.lru, self.first = m, kind, names, lru, first
        self.remembered = remembered            # module-level containers in which the function was put earlier
        self.subject = INNER if lru else M.WRAPPED

    def glob(self, modname, name):
        mod = self.m.modules.get(modname)
        e = mod.assigns.get(name) if mod is not None else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.Name, ast.Attribute, ast.Lambda)):
            return ("tok", "FunctionType")
        return Client.glob(self, modname, name)

    def inline(self, f):
        # which modifiers are in effect, and the objects made for them, are C20's and C21's subject
        return Client.inline(self, f) and not f.id.startswith("a_sync/a_sync/modifiers/")

    def inline_property(self, f):
        return False

    def event(self, st, ev):
        if ev.kind == "setitem" and ev.base[0] == "glob" and any(x in (M.WRAPPED, INNER) for x in list(subterms(ev.index)) + list(subterms(ev.value))) \
                and ev.base not in st.ts:
            return st.but(ts=st.ts + (ev.base,))
        if ev.kind == "call" and ev.callee[0] == "attr" and ev.callee[2] in ("add", "append", "setdefault") and ev.callee[1][0] == "glob" \
                and ev.callee[1] not in st.ts and any(x in (M.WRAPPED, INNER) for a in ev.args for x in subterms(a)):
            return st.but(ts=st.ts + (ev.callee[1],))
        # the wrapped function is kept: from here on the object exists
        if ev.kind == "store" and ev.name == "__wrapped__" and ev.base[0] == "self":
            return st.but(ts=st.ts if "kept" in st.ts else st.ts + ("kept",))
        return None

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        fv, a = ev.callee, ev.args
        a0 = a[0] if a else None
        mine = a0 == self.subject
        if fv[0] == "attr" and fv[2] == "get" and fv[1][0] == "glob" and fv[1] in self.remembered and a:
            return [(st, ("tok", "what was kept"))]
        if fv == ("tok", "what was kept"):      # the reference still gives the same function
            return [(st, self.subject)]
        if fv[0] == "ext":
            d = fv[1]
            if d in ("inspect.getfullargspec",) and mine:
                return [(st, ("tok", "argspec"))]
            if d in ("inspect.signature", "inspect.unwrap") and a0 in (M.WRAPPED, INNER):
                return [(st, ("tok", "the signature") if d.endswith("signature") else self.subject)]
            if d == "inspect.getfullargspec":
                return [(st, ("tok", "other argspec"))]
            if (d.endswith("isasyncgenfunction") or d.endswith("isgeneratorfunction")) and not mine:
                return [(st, FALSE)]
            if d.endswith("isasyncgenfunction"):
                return [(st, const(self.kind == "async generator"))]
            if d.endswith("isgeneratorfunction"):
                return [(st, const(self.kind == "generator"))]
            if d.endswith("iscoroutinefunction") and a0 in (M.WRAPPED, INNER):
                return [(st, const(self.kind == "coroutine"))]
            if d == "builtins.callable" and a0 != NONE:
                return [(st, TRUE)]
            if d == "builtins.type" and a0 in (M.WRAPPED, INNER):
                return [(st, ("tok", "FunctionType" if mine else "type of the wrapper"))]
            if d in ("builtins.isinstance", "builtins.issubclass") and a0 in (M.WRAPPED, INNER, ("tok", "FunctionType"), ("tok", "type of the wrapper")):
                t = repr(a[1]) if len(a) > 1 else ""
                fn = a0 in (self.subject, ("tok", "FunctionType"))
                if "FunctionType" in t and "ASync" not in t:
                    return [(st, const(fn))]
                return [(st, const(not fn and "LRU" in t))]
        if callee_attr(ev) in ("apply_async_modifiers", "apply_sync_modifiers"):
            return [(st, ("tok", "modified function"))]
        return None

    def model_attr(self, st, base, name):
        if base == M.WRAPPED and name == "__wrapped__" and self.lru:
            return INNER
        if base == ("tok", "argspec"):
            pos, kwo = self.names
            if name == "args":
                return ("list", tuple(const(x) for x in (pos + ("x",) if self.first else ("x",) + pos)))
            if name == "kwonlyargs":
                return ("list", tuple(const(x) for x in kwo))
        if base == ("tok", "other argspec") and name in ("args", "kwonlyargs"):
            return ("list", (const("x"),))
        if base == ("tok", "the signature") and name == "parameters":
            return ("kd", "parameters")
        return Client.model_attr(self, st, base, name)


def decorating(ctx):
    m = ctx.model
    targets = [L.klass(m, "a_sync.a_sync.function", "ASyncFunction"), L.klass(m, "a_sync.a_sync._descriptor", "ASyncDescriptor")]

    def run(c, kind, names, lru=False, first=False, remembered=()):
        f = m.find_method(c, "__init__")
        p = f.params()
        cl = Deco(m, kind, names, lru, first, remembered)
        it = Interp(m, cl, max_inline=14)
        heap = {("kd", "parameters", ""): ("kdc", tuple((const(n), ("tok", "parameter")) for n in ("x",) + names[0] + names[1]), ())}
        args = {p[1]: M.WRAPPED}
        if "_skip_validate" in p:
            args["_skip_validate"] = FALSE
        ex = it.run(f, cls=c, args=args, heap=heap)
        ctx.analysed(it, f, ex)
        return f, ex
    for c in targets:
        for kind in ("plain", "coroutine"):
            for fl in M.FLAGS:
                for where in (0, 1):
                    names = ((fl,), ()) if where == 0 else ((), (fl,))
                    f, ex = run(c, kind, names)
                    bad = [e for e in ex if e.kind == "return"]
                    ctx.ob("argspec", "%s of a %s function with %s parameter %r" % (c.name, kind, ("a", "a keyword-only")[where], fl),
                           not bad and bool(ex), L.where(f), "is accepted", bad[0].st.path() if bad else ())
                    again(ctx, run, c, kind, names, ex, "a %s function with %s parameter %r" % (kind, ("a", "a keyword-only")[where], fl))
                    for lru, first in ((False, True), (True, False)):
                        if first and where or lru and c is not targets[0]:
                            continue
                        f, ex = run(c, kind, names, lru, first)
                        bad = [e for e in ex if e.kind == "return"]
                        ctx.ob("argspec", "%s of %s %s function with %s parameter %r" % (c.name, "an lru-cached" if lru else "a", kind, "a first" if first else ("a", "a keyword-only")[where], fl),
                               not bad and bool(ex), L.where(f), "is accepted", bad[0].st.path() if bad else ())
            f, ex = run(c, kind, ((), ()))
            bad = [e for e in ex if e.kind == "raise" and excname(m, e.value) in ("RuntimeError", "ValueError", "TypeError", "TooManyFlags")]
            ctx.ob("argspec", "%s of an ordinary %s function" % (c.name, kind), not bad and bool(ex), L.where(f),
                   "is refused with %s" % show(bad[0].value) if bad else "", bad[0].st.path() if bad else ())
        for kind in ("generator", "async generator"):
            f, ex = run(c, kind, ((), ()))
            bad = [e for e in ex if e.kind == "return"]
            ctx.ob("generator", "%s of %s function" % (c.name, kind), not bad and bool(ex), L.where(f), "is accepted", bad[0].st.path() if bad else ())
            again(ctx, run, c, kind, ((), ()), ex, "a %s function" % kind)


def again(ctx, run, c, kind, names, ex, what):
    """decorating the refused function once more: whatever the first attempt left in a module-level container is there"""
    seen = set()
    for e in ex:
        kept = tuple(x for x in e.st.ts if isinstance(x, tuple) and x[0] == "glob")
        if e.kind == "raise":
            seen.add(kept)
    for kept in sorted(seen):
        if not kept:
            continue
        f, ex2 = run(c, kind, names, remembered=kept)
        bad = [e for e in ex2 if e.kind == "return"]
        ctx.ob("retry", "%s of %s, tried again" % (c.name, what), not bad and bool(ex2), L.where(f),
               "the refused function is accepted the second time: it was remembered in %s" % ", ".join(show(x) for x in kept), bad[0].st.path() if bad else ())


class Def(Deco):
    def __init__(self, m, mode):
        Deco.__init__(self, m, "plain")
        self.mode = mode

    def model_attr(self, st, base, name):
        if name == "default" and (base[0] == "attr" and base[2] == "modifiers" or base[0] == "new" and "ModifierManager" in base[2]):
            return const(self.mode)
        return Deco.model_attr(self, st, base, name)


def defaults(ctx):
    m = ctx.model
    for mod, fn in (("a_sync.a_sync.decorator", "a_sync"), ("a_sync.a_sync.property", "a_sync_property"), ("a_sync.a_sync.property", "a_sync_cached_property")):
        f = m.func(mod, fn)
        for d in ("bogus", "asynchronous", ""):
            for given in (False, True):
                cl = Def(m, d)
                it = Interp(m, cl, inline_new=True, max_inline=14)
                args = {f.params()[0]: M.WRAPPED if given else NONE}
                heap = {}
                kwn = f.node.args.kwarg.arg if f.node.args.kwarg else None
                if "default" in f.params():
                    args["default"] = const(d)
                    items = ()
                else:
                    items = ((const("default"), const(d)),)
                if kwn:
                    args[kwn] = ("kd", "caller")
                    heap[("kd", "caller", "")] = ("kdc", items, ())
                ex = it.run(f, args=args, heap=heap)
                ctx.analysed(it, f, ex)
                bad = [e for e in ex if e.kind == "return"]
                ctx.ob("default", "%s(default=%r)%s" % (fn, d, " with a function" if given else ""), not bad and bool(ex), L.where(f),
                       "is accepted", bad[0].st.path() if bad else ())
                if d == "bogus":
                    for ok in (None, "sync", "async"):
                        cl = Def(m, ok)
                        it = Interp(m, cl, inline_new=True, max_inline=14)
                        a2, h2 = dict(args), dict(heap)
                        if "default" in f.params():
                            a2["default"] = const(ok)
                        else:
                            h2[("kd", "caller", "")] = ("kdc", ((const("default"), const(ok)),), ())
                        ex = it.run(f, args=a2, heap=h2)
                        bad = [e for e in ex if e.kind == "raise" and excname(m, e.value) in ("ValueError", "RuntimeError")
                               and "ModifierManager." not in repr(e.value)]     # names of modifiers: C21
                        ctx.ob("default", "%s(default=%r)%s" % (fn, ok, " with a function" if given else ""), not bad and bool(ex), L.where(f),
                               "is refused with %s" % (show(bad[0].value) if bad else ""), bad[0].st.path() if bad else ())
