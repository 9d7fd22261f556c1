"""Dual-mode iteration.  Iterables, iterators and generator functions are constructed over a source which gives scripted items and ends or
fails when it is called or when it is awaited; `for` and `async for` over them, the awaited list and the `materialized` list are interpreted
to the end, and what they give is compared with the script."""
import itertools

from ..lib import *
from .. import locks as L
from .c28 import both
from . import c20

ASSUMPTIONS = ["`loop.run_until_complete(x)` gives the outcome of awaiting x, or RuntimeError when the loop is already running",
               "async_property's `async_cached_property` runs its function once and gives its outcome to everyone who awaits"]
MOD = "a_sync.iter"
LOOP, SRC, FN = ("tok", "loop"), ("tok", "source"), ("tok", "generator function")
ERR = ("exc", "ValueError", "of the source")
RT = ("exc", "RuntimeError", "of the source")       # with the loop's own text
BUSY = ("exc", "RuntimeError", "loop is running")
ITEMS = (("tok", "item", 0), ("tok", "item", 1), ("tok", "item", 2))
MIXED = (("tok", "item", 0), NONE, const(0), ("tok", "item", 1))


class Views(Client):
    data = ('item', 'its value', 'x', 'y', 'answer', 'awaited answer')
    kd = True
    debug = False
    model_raises = True
    iter_objects = True
    class_defaults = True
    recursion = 2

    def __init__(self, m, items=(), end=None, early=False, busy=False, sync_source=False, order=None, falsy=False):
        self.m, self.items, self.end, self.early, self.busy, self.sync_source, self.falsy = m, items, end, early, busy, sync_source, falsy

    def add(self, st, x):
        if len(st.ts) >= 40:
            return []
        return st.but(ts=st.ts + (x,)).note(" ".join(show(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else str(y) for y in x)[:100])

    def inline_property(self, f):
        return f.module.name == MOD

    def truthy(self, v):
        if v[0] == "tok" and v[1] == "iterator" and self.falsy:
            return False
        return None if v[1] == "item" else True

    # -- the source: every __aiter__ gives a fresh iterator ("tok", "iterator", k) except for single-use sources
    def fresh(self, st):
        k = sum(1 for x in st.ts if x[0] == "iterated")
        s = self.add(st, ("iterated",))
        return s, ("tok", "iterator", k)

    def advance(self, st, it):
        """-> (state, "item"|"end"|"raise", value)"""
        pos = st.heap.get(("env", it, "pos"), 0)
        h = dict(st.heap)
        h[("env", it, "pos")] = min(pos + 1, len(self.items) + 1)
        s = st.but(heap=h)
        if pos < len(self.items):
            return s, "item", self.items[pos]
        if pos == len(self.items) and self.end is not None:
            return s, "raise", self.end
        return s, "end", None

    def step(self, st, it, is_async):
        if it[:2] != ("tok", "iterator"):
            return None
        if is_async == self.sync_source:
            return [(st, "raise", ("exc", "TypeError", "not iterable"))]
        return [self.advance(st, it)]

    def iterator(self, st, v, is_async):
        return self.fresh(st) if v == SRC and is_async != self.sync_source else None

    def raised(self, what, x, is_async=True):
        return x if what == "raise" else ("exc", "StopAsyncIteration" if is_async else "StopIteration", "end")

    def outcome(self, st, v):
        """awaiting a token"""
        if v[:2] == ("tok", "next of"):
            s, what, x = self.advance(st, v[2])
            return [(s, x)] if what == "item" else [(s, self.raised(what, x), "raise")]
        if v[:2] == ("tok", "given"):
            return [(st, v[2])]
        return None

    def awaited(self, st, v):
        return self.outcome(st, v)

    def model(self, st, ev):
        if ev.kind == "awaitval":
            return self.awaited(st, ev.value)
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, tuple(ev.args), dict(ev.kw)
        n, b = c20.simple(fv), callee_base(ev)
        x = b if b is not None and n.startswith("__") else a[0] if a else None
        if n in ("get_event_loop", "get_running_loop"):
            return [(st, LOOP)]
        if n == "is_running" and b == LOOP:
            return [(st, const(self.busy))]
        if n == "run_until_complete" and b == LOOP:
            if self.busy:
                return [(st, BUSY, "raise")]
            return self.wait(st, a[0])
        if n == "_await" and len(a) == 1:
            return self.wait(st, a[0])
        if n == "str" and a in ((RT,), (BUSY,)):
            return [(st, const("This event loop is already running"))]
        if n in ("iscoroutine", "isawaitable") and a:
            return [(st, const(a[0][0] == "coro" or a[0][:2] in (("tok", "next of"), ("tok", "given"))))]
        if n == "isinstance" and len(a) == 2 and a[0][0] == "tok":
            ts = [t[1].rsplit(".", 1)[-1] for t in (a[1][1] if a[1][0] == "tuple" else (a[1],)) if t[0] in ("ext", "class", "glob")]
            is_async = {"Iterable": False, "Iterator": False, "AsyncIterable": True, "AsyncIterator": True, "AsyncGenerator": True}
            return [(st, const(a[0] != FN and any(is_async.get(t) is (not self.sync_source) and not (a[0] == SRC and t.endswith("Iterator")) for t in ts)))]
        if n in ("isasyncgenfunction",) and a:
            return [(st, const(a[0] == FN))]
        if n == "ref" and a:
            return [(st, ("tok", "weakref", a[0]))]
        if fv[:2] == ("tok", "weakref"):
            return [(st, fv[2])]
        if n == "update_wrapper":
            return [(st, NONE)]
        if fv == FN:
            return [(st, ("tok", "iterator", (a, tuple(ev.kw))))]
        if n in (("__iter__", "iter") if self.sync_source else ("__aiter__", "aiter")) and x is not None and x[0] == "tok":
            if x == SRC:
                return [self.fresh(st)]
            if x[1] == "iterator":
                return [(st, x)]
        if x is not None and x[:2] == ("tok", "iterator"):
            if n in ("__anext__", "anext") and not self.sync_source:
                pos = st.heap.get(("env", x, "pos"), 0)
                if self.early:
                    s, what, y = self.advance(st, x)
                    return [(s, ("tok", "given", y))] if what == "item" else [(s, self.raised(what, y), "raise")]
                return [(st, ("tok", "next of", x, pos))]
            if n in ("__next__", "next") and self.sync_source:
                s, what, y = self.advance(st, x)
                return [(s, y)] if what == "item" else [(s, self.raised(what, y, False), "raise")]
        if n == "__await__" and fv[0] == "attr":
            return [(st, ("tok", "awaiting", b))]
        return None

    def wait(self, st, v):
        if v[:2] == ("tok", "materialized"):
            return [(st, ("tok", "its value"))]
        return both(self.it.await_value(st, v))

    def model_attr(self, st, base, name):
        if name == "_materialized" and base[0] in ("self", "new"):
            return ("tok", "materialized")
        if name in ("__name__", "__qualname__") and base == FN:
            return const("fn")
        return Client.model_attr(self, st, base, name)


SCRIPTS = [(MIXED[:k], end, early) for k in (0, 1, 4) for end in (None, ERR, RT) for early in (False, True)]


def label(items, end, early):
    return "%d items%s%s" % (len(items), "" if end is None else ", then an error" if end != RT else ", then a RuntimeError", ", raised by __anext__ itself" if early else "")


def construct(ctx, m, cl, cls, args, kw=()):
    it = Interp(m, cl, max_inline=12, inline_new=True, keep_heap_on_await=True)
    cl.it = it
    f = m.find_method(cls, "__init__")
    frame = m.find_method(cls, "__repr__") or f
    ex = it.call_value(St({}, (), {}, {}, (), None), ("class", cls.id), args, kw, func=frame)
    ctx.analysed(it, f, ex)
    return it, frame, ex


def compare(exits, it, want, end):
    """(why, exit) when an exit of a `collect` is not the wanted items then the wanted end"""
    if not exits:
        return "never ends", None
    for e in exits:
        got = tuple(it.collected(e))
        if got != want[:len(got)] or len(got) < len(want):
            return "gives %s, not %s" % (show(("list", got)), show(("list", want))), e
        if len(got) > len(want):
            return "gives %s" % show(("list", got)), e
        if end is None and e.kind != "return":
            return "raises %s" % show(e.value), e
        if end is not None and (e.kind != "raise" or e.value != end):
            return "%s %s instead of raising %s" % (e.kind, show(e.value), show(end)), e
    return None, None


def keep(e):
    h = {k: v for k, v in e.st.heap.items() if not (k[0] == "kd" and isinstance(k[1], tuple) and k[1] and k[1][0] == "comp")}
    return e.st.but(env={}, heap=h)


def check(ctx):
    m = ctx.model
    ctx.rule("async", "`async for` gives the source's items, end and errors", 20)
    ctx.rule("sync", "`for` gives the same items, end and errors as `async for`", 20)
    ctx.rule("again", "an iterable starts over when it is iterated again; an exhausted iterator ends at once", 8)
    ctx.rule("untouched", "construction takes nothing from the source", 2)
    ctx.rule("list", "awaiting gives the list of all items, or the error; `materialized` gives what awaiting gives", 6)
    ctx.rule("running", "in a running loop, `for` raises SyncModeInAsyncContextError", 1)
    ctx.rule("genfunc", "a generator function's result iterates what the wrapped function gives for the arguments", 6)
    itb, itr, gen = (L.klass(m, MOD, n) for n in ("ASyncIterable", "ASyncIterator", "ASyncGeneratorFunction"))
    for c, n in ((itb, "ASyncIterable"), (itr, "ASyncIterator"), (gen, "ASyncGeneratorFunction")):
        if c is None:
            raise AnalysisError("%s vanished" % n)
    for items, end, early in SCRIPTS:
        for cls, arg in ((itb, SRC), (itr, ("tok", "iterator", "given"))):
            for is_async in (True, False):
                cl = Views(m, items, end, early)
                it, f, ex = construct(ctx, m, cl, cls, (arg,))
                lab = "%s: %s" % (cls.name, label(items, end, early))
                where = L.where(m.find_method(cls, "__anext__" if is_async and cls is itr else "__next__" if cls is itr else "__aiter__" if is_async else "__iter__") or f)
                bad = [e for e in ex if e.kind == "raise" or e.st.ts or any(k[0] == "env" for k in e.st.heap)]
                if not early and is_async:
                    ctx.ob("untouched", lab, ex and not bad, L.where(f), "raises or touches the source" if bad else "", bad[0].st.path() if bad else ())
                for e in ex:
                    if e.kind == "raise":
                        continue
                    r = it.collect(keep(e), e.value, f, is_async)
                    why, x = compare(r, it, items, end)
                    ctx.ob("async" if is_async else "sync", lab, why is None, where, why or "", x.st.path() if x else ())
                    if end is None:
                        for e2 in r:
                            r2 = it.collect(keep(e2), e.value, f, is_async)
                            why, x = compare(r2, it, items if cls is itb else (), None)
                            ctx.ob("again", lab + (", async for" if is_async else ", for"), why is None, where, why or "", x.st.path() if x else ())
    # awaiting
    for items, end, early in SCRIPTS:
        if early:
            continue
        for cls, arg in ((itb, SRC), (itr, ("tok", "iterator", "given"))):
            cl = Views(m, items, end)
            it, f, ex = construct(ctx, m, cl, cls, (arg,))
            lab = "%s: %s" % (cls.name, label(items, end, early))
            g = m.find_method(cls, "_materialized")
            for how in ("await", "materialized"):
                h = m.find_method(cls, "__await__" if how == "await" else "materialized")
                if h is None:
                    raise AnalysisError("%s.%s vanished" % (cls.name, how))
                why = x = None
                for e in ex:
                    if e.kind == "raise":
                        continue
                    for e2 in it.call_value(keep(e), ("bound", it.fid(h), e.value), func=f):
                        v = e2.value[1] if e2.value[0] == "awaited" else e2.value
                        if how == "await" and v[:2] == ("tok", "awaiting") and v[2] == ("tok", "materialized") or how == "materialized" and v == ("tok", "its value"):
                            if g is None:
                                raise AnalysisError("_materialized vanished")
                            outs = []
                            for e3 in it.call_value(e2.st, ("bound", it.fid(g), e.value), func=f):
                                outs += it.await_value(e3.st, e3.value, func=f) if e3.kind == "return" and e3.value[0] == "coro" else [e3]
                        elif how == "await" and v[:2] == ("tok", "awaiting"):
                            outs = it.await_value(e2.st, v[2], func=f)
                        else:
                            outs = [e2]
                        for o in outs:
                            got = it.kd_literal(o.st, o.value) if o.kind == "return" else o.value
                            if o.kind == "return" and (end is not None or got is None or tuple(got) != items) or o.kind == "raise" and got != end:
                                why, x = "%s gives %s %s" % (how, o.kind, show(o.value)), o
                ctx.ob("list", lab + ", " + how, why is None, L.where(h), why or "", x.st.path() if x else ())
    # in a running loop
    cl = Views(m, ITEMS[:2], busy=True)
    it, f, ex = construct(ctx, m, cl, itr, (("tok", "iterator", "given"),))
    for e in ex:
        r = it.collect(keep(e), e.value, f, False)
        bad = [x for x in r if x.kind != "raise" or not (x.value[0] in ("exc", "new") and "SyncModeInAsyncContextError" in str(x.value))]
        ctx.ob("running", "for in a running loop", r and not bad, L.where(m.find_method(itr, "__next__")), "gives %s %s" % (bad[0].kind, show(bad[0].value)) if bad else "", bad[0].st.path() if bad else ())
    # generator functions
    call = m.find_method(gen, "__call__")
    X, Y, I = ("tok", "x"), ("tok", "y"), ("tok", "an instance")
    for inst, (pos, kw) in itertools.product(((), (I,)), (((), ()), ((X, Y), ()), ((X,), (("k", Y),)))):
        for is_async in (True, False):
            for items, end in ((ITEMS[:2], None), ((), ERR)):
                cl = Views(m, items, end)
                it, f, ex = construct(ctx, m, cl, gen, (FN,) + inst)
                why = x = None
                for e in ex:
                    if e.kind == "raise":
                        why, x = "construction raises %s" % show(e.value), e
                        continue
                    for e2 in it.call_value(keep(e), ("bound", it.fid(call), e.value), pos, kw, func=f):
                        if e2.kind == "raise":
                            why, x = "calling it raises %s" % show(e2.value), e2
                            continue
                        r = it.collect(keep(e2), e2.value, f, is_async)
                        w, x2 = compare(r, it, items, end)
                        if w:
                            why, x = w, x2
                        for y in r:
                            its = [k[1] for k in y.st.heap if k[0] == "env" and k[2] == "pos"]
                            if its != [("tok", "iterator", (inst + pos, kw))]:
                                why, x = "iterates the result for other arguments", y
                ctx.ob("genfunc", "%s, %d and %d arguments, %s: %s" % ("method" if inst else "function", len(pos), len(kw), "async for" if is_async else "for", label(items, end, False)), why is None, L.where(call), why or "", x.st.path() if x else ())
