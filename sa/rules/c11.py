"""Call mode: for every public entry point the decision table (call flag x declared default x definition x instance)
is computed from the source and compared with the documented precedence."""
import ast

from ..lib import *
from .. import locks as L
from .. import modes as M

ASSUMPTIONS = ["flag values are booleans", "the wrapped function, executors and event loop behave as documented",
               "cache, rate limit and semaphore wrappers keep the call's result (C20)"]


def check(ctx):
    m = ctx.model
    ctx.rule("mode", "a call is synchronous exactly when flag, else declared default, else instance, else definition say so", 60)
    ctx.rule("result", "a synchronous call returns the function's finished result, an asynchronous one an awaitable of it", 60)
    ctx.rule("property", "a dual-mode property follows its declared default, else the instance", 6)
    ctx.rule("hidden", "awaiting a hidden property method runs the getter asynchronously", 1)
    ctx.rule("declared", "the default declared when decorating is the default of the function, descriptor or bound method", 8)
    seen = {}
    for c, kind in M.entry_points(m):
        f = m.find_method(c, "__call__")
        bad_mode, bad_res, n = {}, {}, 0
        for row in M.rows(kind, c, m):
            f, res = M.drive(ctx, c, row)
            if res is None:
                continue
            want = "sync" if M.want_sync(row) else "async"
            n += 1
            lab = row.label()
            for r in res:
                mode = r.mode
                if mode == "?":
                    continue
                if mode in ("sync", "async") and mode != want:
                    bad_mode[lab] = (r, "runs %s, must be %s" % ("synchronously" if mode == "sync" else "asynchronously", want))
                elif mode in ("error", "async-error"):
                    bad_mode[lab] = (r, "fails with %s" % show(r.value))
                elif mode in ("sync", "async") and not M.value_ok(row, r):
                    bad_res[lab] = (r, "gives the caller %s instead of the function's result" % show(r.value))
            if not res:
                bad_mode[lab] = (None, "never returns")
        for row in M.rows(kind, c, m):
            lab = row.label()
            # plain `def` methods of asynchronous instances are one recorded finding, not one per class
            name = "%s: %s" % ("bound method" if kind == "bound" else "function", lab)
            for rule, bad in (("mode", bad_mode), ("result", bad_res)):
                k = (rule, name)
                if lab in bad and not seen.get(k):
                    seen[k] = (c, f) + bad[lab]
                else:
                    seen.setdefault(k, None)
    for (rule, name), b in sorted(seen.items(), key=lambda x: x[0]):
        if b is None:
            ctx.ob(rule, name, True)
        else:
            c, f, r, msg = b
            ctx.ob(rule, name, False, L.where(f), "%s.__call__ with %s %s" % (c.name, name, msg), r.path if r else ())
    properties(ctx)
    hidden(ctx)
    declared(ctx)
    decorators(ctx)
    hidden_default(ctx)
    hooks(ctx)


class Prop(M.Mode):
    """the descriptor's own lookup of the value is the awaitable of the getter"""

    def model(self, st, ev):
        fv = ev.callee if ev.kind == "call" else ("",)
        n = callee_attr(ev) if ev.kind == "call" else None
        if n == "__get__" and (fv[0] == "attr" and fv[1][0] == "super" or fv[0] == "bound" and "async_property" in fv[1]):
            return [(st.but(ts=st.ts + (("made", M.WRAPPED),)), ("call", "descriptor", M.WRAPPED, (self.inst,), ()))]
        return M.Mode.model(self, st, ev)

    def model_attr(self, st, base, name):
        if name == "default" and base[0] == "self":
            return const(self.row.default)
        return M.Mode.model_attr(self, st, base, name)


def properties(ctx):
    m = ctx.model
    base = L.klass(m, "a_sync.a_sync.property", "_ASyncPropertyDescriptorBase")
    done = {}
    for c in [base] + m.subclasses(base):
        f = m.find_method(c, "__get__")
        if f is None:
            e = m.find_attr(c, "__get__")
            continue
        for inst in ("sync", "async"):
            for d in (None, "sync", "async"):
                row = M.Row((), d, True, inst)
                it = Interp(m, Prop(m, row), attr_stable=("default", "modifiers"), max_inline=14)
                names = f.params()
                ex = it.run(f, cls=c, args={names[1]: M.INST})
                ctx.analysed(it, f, ex)
                want = "sync" if M.want_sync(row) else "async"
                for r in M.outcomes(it, row, ex, f):
                    k = "property default=%s on a %s instance" % (d, inst)
                    if r.mode in ("sync", "async") and r.mode != want or r.mode == "error":
                        done[k] = (f, r, "%s: %s, must be %s" % (c.name, r.mode if r.mode != "error" else "fails with %s" % show(r.value), want))
                    else:
                        done.setdefault(k, None)
    for k, b in sorted(done.items()):
        ctx.ob("property", k, b is None, L.where(b[0]) if b else "", b[2] if b else "", b[1].path if b else ())


def hidden(ctx):
    m = ctx.model
    c = L.klass(m, "a_sync.a_sync.property", "HiddenMethod")
    f = m.find_method(c, "__await__")
    if f is None:
        ctx.ob("hidden", "HiddenMethod.__await__", False, c.id, "hidden property methods cannot be awaited")
        return
    for d in (None, "sync", "async"):
        row = M.Row((), d, True, "sync")

        class H(M.Mode):
            def model(self, st, ev):
                if ev.kind == "call" and callee_attr(ev) == "__await__":
                    return [(st, callee_base(ev))]
                return M.Mode.model(self, st, ev)
        it = Interp(m, H(m, row), attr_stable=("__wrapped__", "modifiers", "default"), max_inline=14)
        ex = it.run(f, cls=c)
        ctx.analysed(it, f, ex)
        bad = [r for r in M.outcomes(it, row, ex, f) if r.mode not in ("async", "?") or not M.value_ok(row, r)
               or [a for a, k in r.calls if tuple(a) != (M.INST,)]]
        ctx.ob("hidden", "HiddenMethod.__await__ default=%s" % d, not bad and bool(ex), L.where(f),
               "awaiting the hidden method gives %s %s" % (bad[0].mode, show(bad[0].value)) if bad else "", bad[0].path if bad else ())


def kwval(v, name):
    """value of keyword `name` in a call/new value: (explicit value or None, rest values)"""
    out, rest = None, []
    for n, x in v[4]:
        if n == name:
            out = x
        elif n is None:
            rest.append(x)
    return out, rest


class Build(Client):
    kd = True
    absent = {"default"}
    debug = False

    def __init__(self, model):
        self.m = model

    def model(self, st, ev):
        # calling a freshly built decorator object
        if ev.kind == "call" and ev.callee[0] == "new":
            return [(st, ("call", "decorate", ev.callee, tuple(ev.args), tuple(ev.kw)))]
        return None


def declared(ctx):
    m = ctx.model
    # a_sync(default=...) / a_sync("sync")
    f = m.func("a_sync.a_sync.decorator", "a_sync")
    fn = M.WRAPPED
    dp = [x for x in f.params() if x == "default"]
    for d in (None, "sync", "async"):
        for how in ("keyword", "positional", "with function"):
            if how == "positional" and d is None or not dp:
                continue
            args = {f.params()[0]: {"keyword": NONE, "positional": const(d), "with function": fn}[how], "default": const(d if how != "positional" else None)}
            it = Interp(m, Build(m))
            ex = it.run(f, args=args)
            ctx.analysed(it, f, ex)
            bad = []
            for e in ex:
                if e.kind == "raise":
                    bad.append((e, "fails with %s" % show(e.value)))
                    continue
                ns = [x for x in subterms(e.value) if x and x[0] == "new" and "default" in dict((k, 1) for k, _ in x[4]) or x and x[0] == "new" and "Decorator" in x[2]]
                if not ns:
                    continue
                dv, rest = kwval(ns[0], "default")
                if dv is not None and is_const(dv) and cval(dv) != d:
                    bad.append((e, "declares default=%s" % show(dv)))
                if dv is None and not rest and d is not None:
                    bad.append((e, "drops the declared default"))
                cls = ns[0][2]
                if "SyncDefault" in cls and d != ("async" if "AsyncDefault" in cls else "sync"):
                    bad.append((e, "builds a %s" % cls))
            ctx.ob("declared", "a_sync default=%s given %s" % (d, how), not bad and bool(ex), L.where(f), bad[0][1] if bad else "", bad[0][0].st.path() if bad else ())
    # the decorator hands its modifiers (with the default) to the function it builds
    base = L.klass(m, "a_sync.a_sync.function", "ASyncDecorator")
    for c in [base] + m.subclasses(base):
        g = m.find_method(c, "__call__")
        it = Interp(m, Build(m), attr_stable=("modifiers",))
        ex = it.run(g, cls=c)
        ctx.analysed(it, g, ex)
        bad = []
        for e in ex:
            v = e.value
            if e.kind != "return" or v[0] != "new":
                continue
            dv, rest = kwval(v, "default")
            if dv is None and not any(contains_attr(x, "modifiers") for x in rest):
                bad.append((e, "the function it builds does not get the declared default"))
            if dv is not None and is_const(dv) and not (c is not base and cval(dv) == ("async" if "Async" in c.name.replace("ASync", "") else "sync")):
                bad.append((e, "the function it builds gets default=%s" % show(dv)))
        ctx.ob("declared", "%s.__call__" % c.name, not bad and bool(ex), L.where(g), bad[0][1] if bad else "", bad[0][0].st.path() if bad else ())
    # descriptors hand it to their bound methods
    base = L.klass(m, "a_sync.a_sync.method", "ASyncMethodDescriptor")
    for c in [base] + m.subclasses(base):
        g = m.find_method(c, "__get__")
        own = class_default(m, c)

        class D(Build):
            def model_attr(self, st, b, name):
                if name == "default" and b[0] == "self" and own:
                    return const(own)
                return Client.model_attr(self, st, b, name)
        it = Interp(m, D(m), attr_stable=("modifiers", "default", "_bound_modifiers"))
        ex = it.run(g, cls=c, args={g.params()[1]: M.INST})
        ctx.analysed(it, g, ex)
        bad, n = [], 0
        for e in ex:
            v = e.value
            if e.kind != "return" or v[0] != "new":
                continue
            n += 1
            dv, rest = kwval(v, "default")
            if own and not (dv is not None and dv in (const(own), ("attr", ("self", c.id), "default"))):
                # a descriptor whose class declares the default
                if not (m.is_subclass(c, "HiddenMethodDescriptor") and any(contains_attr(x, "modifiers") or contains_attr(x, "_bound_modifiers") for x in rest)):
                    bad.append((e, "the bound method does not get the declared default %r" % own))
            elif not own and dv is None and not any(contains_attr(x, "modifiers") or contains_attr(x, "_bound_modifiers") for x in rest):
                bad.append((e, "the bound method does not get the declared default"))
        ctx.ob("declared", "%s.__get__" % c.name, not bad, L.where(g), bad[0][1] if bad else "", bad[0][0].st.path() if bad else ())


def class_default(m, c):
    """the `default` written in the class body"""
    own = m.find_attr(c, "default")
    own = own[1] if own is not None else None
    return own.value if isinstance(own, ast.Constant) else None


def decorators(ctx):
    """the property decorators: the descriptor they build declares the mode they were given"""
    m = ctx.model
    for fn in ("a_sync_property", "a_sync_cached_property"):
        f = m.func("a_sync.a_sync.property", fn)
        kwn = f.node.args.kwarg.arg if f.node.args.kwarg else None
        for d in (None, "sync", "async"):
            for how in ("keyword", "positional", "with function"):
                if how == "positional" and d is None:
                    continue
                args = {f.params()[0]: {"keyword": NONE, "positional": const(d), "with function": M.WRAPPED}[how]}
                items = ((const("default"), const(d)),) if how != "positional" and d is not None else ()
                heap = {}
                if "default" in f.params():
                    args["default"] = const(d if how != "positional" else None)
                    items = ()
                if kwn:
                    args[kwn] = ("kd", "caller")
                    heap[("kd", "caller", "")] = ("kdc", items, ())
                it = Interp(m, Build(m), max_inline=14)
                ex = it.run(f, args=args, heap=heap)
                ctx.analysed(it, f, ex)
                bad, n = None, 0
                for e in ex:
                    if e.kind == "raise":
                        bad = bad or (e, "fails with %s" % show(e.value))
                        continue
                    for v in subterms(e.value):
                        if v and v[0] == "new":
                            cid = v[2]
                        elif v and v[0] == "call" and v[2] == ("ext", "functools.partial") and v[3] and v[3][0][0] == "class":
                            cid = v[3][0][1]
                        else:
                            continue
                        c = m.class_by_id(cid) if hasattr(m, "class_by_id") else next((k for k in all_classes(m) if k.id == cid), None)
                        if c is None or not m.is_subclass(c, "_ASyncPropertyDescriptorBase"):
                            continue
                        n += 1
                        own = class_default(m, c)
                        dv, rest = kwval(v, "default")
                        if own is not None and own != d:
                            bad = bad or (e, "builds a %s, whose default is %r" % (c.name, own))
                        elif own is None and d is not None and dv is None and not rest:
                            bad = bad or (e, "drops the declared default")
                        if dv is not None and is_const(dv) and cval(dv) != d:
                            bad = bad or (e, "declares default=%s" % show(dv))
                if ex and not n and bad is None:
                    ctx.notes.append("%s default=%s %s: the descriptor class was not recognised" % (fn, d, how))
                ctx.ob("declared", "%s default=%s given %s" % (fn, d, how), bad is None and bool(ex), L.where(f), bad[1] if bad else "", bad[0].st.path() if bad else ())


def hidden_default(ctx):
    """the hidden method of a property is asynchronous unless a flag says otherwise, whatever the property declares"""
    from . import c19
    m = ctx.model
    base = L.klass(m, "a_sync.a_sync.property", "_ASyncPropertyDescriptorBase")
    f = m.find_method(base, "__init__")
    h = L.klass(m, "a_sync.a_sync.property", "HiddenMethodDescriptor")
    for d in (None, "sync", "async"):
        class I(c19.Hid):
            debug = False

            def model(self, st, ev):
                if ev.kind == "call" and callee_attr(ev) == "_get_applied_modifiers":
                    k = ("kd", "applied")
                    items = ((const("default"), const(d)),) if d else ()
                    st = st.but(heap={**st.heap, ("kd", "applied", ""): ("kdc", items, ())})
                    return [(st, k)]
                return c19.Hid.model(self, st, ev)
        it = Interp(m, I(), max_inline=1)
        ex = it.run(f, cls=base, args={"field_name": const("prop")})
        ctx.analysed(it, f, ex)
        bad, n = None, 0
        for e in ex:
            if e.kind == "raise":
                continue
            for x in e.st.ts:
                if x[0] != "hidden_method_descriptor" or x[1][0] != "new":
                    continue
                dv, rest = kwval(x[1], "default")
                if dv is None:
                    for r in rest:
                        k = it.kd_get(e.st, r) if r[0] == "kd" else None
                        for kk, vv in (k[1] if k else ()):
                            if kk == const("default"):
                                dv = vv
                if dv is None and not rest:
                    dv = const(class_default(m, h))
                n += 1
                if dv is not None and is_const(dv) and cval(dv) != "async":
                    bad = bad or (e, "the hidden method's default is %s, must be 'async'" % show(dv))
        ctx.ob("declared", "hidden method of a property with default=%s" % d, bad is None and n > 0, L.where(f), bad[1] if bad else "no hidden method", bad[0].st.path() if bad else ())


def hooks(ctx):
    """`@prop.setter` and `@prop.deleter` give a property that declares the same mode"""
    m = ctx.model
    c = L.klass(m, "a_sync.a_sync.property", "ASyncCachedPropertyDescriptor")
    for name in ("setter", "deleter"):
        f = m.find_method(c, name)
        if f is None:
            ctx.ob("declared", "cached property %s" % name, False, c.id,
                   "async_property's own %s builds the new property from the getter alone and drops the declared default" % name)
            continue
        for d in ("sync", "async"):
            class H(Build):
                def inline(self, f):
                    return f.name != "__init__"

                def model_attr(self, st, b, name):
                    if b == MODS and name == "default" or b[0] == "self" and name == "default":
                        return const(d)
                    if b[0] == "self" and name in ("modifiers", "_bound_modifiers"):
                        return MODS
                    if b[0] == "self" and name in ("_fget", "_fset", "_fdel", "field_name"):
                        return ("tok", name)
                    if b[0] == "self" and name == "__class__":
                        return ("class", c.id)
                    return Client.model_attr(self, st, b, name)

                def model(self, st, ev):
                    if ev.kind == "call" and callee_attr(ev) == "_get_applied_modifiers":
                        st = st.but(heap={**st.heap, ("kd", "applied", ""): ("kdc", ((const("default"), const(d)),), ())})
                        return [(st, ("kd", "applied"))]
                    if ev.kind == "call" and ev.callee == ("ext", "builtins.type") and len(ev.args) == 1 and ev.args[0][0] == "self":
                        return [(st, ("class", c.id))]
                    if ev.kind == "call" and callee_attr(ev) in ("_check_method_name", "_check_method_sync"):
                        return [(st, NONE)]
                    return Build.model(self, st, ev)
            it = Interp(m, H(m), max_inline=10)
            ex = it.run(f, cls=c, args={f.params()[1]: ("tok", "the hook")})
            ctx.analysed(it, f, ex)
            bad = None
            for e in ex:
                if e.kind == "raise":
                    continue
                v = e.value
                if v[0] == "self":
                    continue            # the same property with the hook added
                if v[0] != "new":
                    continue
                dv, rest = kwval(v, "default")
                if dv is None and not any(MODS in tuple(subterms(x)) for x in rest):
                    bad = bad or (e, "the new property does not get the declared default")
                if dv is not None and is_const(dv) and cval(dv) != d:
                    bad = bad or (e, "the new property gets default=%s" % show(dv))
                given = tuple(v[3]) + tuple(x for k, x in v[4])
                for what in (("tok", "_fget"), ("tok", "the hook"), ("tok", "_fdel" if name == "setter" else "_fset")):
                    if what not in given:
                        bad = bad or (e, "the new property does not get %s" % (show(what)))
            ctx.ob("declared", "cached property %s default=%s" % (name, d), bad is None and bool(ex), L.where(f), bad[1] if bad else "", bad[0].st.path() if bad else ())


MODS = ("tok", "the modifiers")


def all_classes(m):
    for mod in m.modules.values():
        for k in mod.classes.values():
            yield k


def contains_attr(v, name):
    return any(x and x[0] == "attr" and x[2] == name for x in subterms(v))
