"""Filtered and sorted views.  A view is constructed over a plain or asynchronous source of scripted items, with a plain or asynchronous
predicate or key of scripted answers, and interpreted to its end with `async for` and with `for`; the items given and the evaluations made
are compared with what the script prescribes."""
import itertools

from ..lib import *
from .. import locks as L
from .c28 import both
from .c30 import Views, compare, construct, keep, ITEMS, ERR, SRC, MOD
from . import c20

ASSUMPTIONS = ["`sorted` and `list.sort` are stable", "`asyncio.gather(*xs)` gives the outcomes in order, or the first failure", "a key is plain, or a function asyncio recognises as asynchronous (SortKey)"]
FUN = ("tok", "the function")
FERR = ("exc", "KeyError", "of the function")


class Fun(Views):
    """FUN answers by script: {item: value or ("raise",)}, directly or as an awaitable"""

    def __init__(self, m, answers, kinds, **kw):
        Views.__init__(self, m, **kw)
        self.answers, self.kinds = answers, kinds     # kinds: {item: "plain" | "async" | "future"}

    def order(self, st, v):
        return None

    def truthy(self, v):
        if v[:2] == ("tok", "iterator") or v == SRC:
            return not self.falsy
        return None if v[1] == "item" else True

    def outcome(self, st, v):
        if v[:2] == ("tok", "answer"):
            x = self.answers[v[2]]
            return [(st, FERR, "raise")] if x == "raise" else [(st, x)]
        if v[:2] == ("tok", "task"):
            return self.outcome(st, v[2]) if v[2][0] == "tok" else both(self.it.await_value(st, v[2]))
        if v[:2] == ("tok", "gathered"):
            cur, out = [(st, ())], []
            for x in v[2]:
                nxt = []
                for s, acc in cur:
                    for r in self.outcome(s, x) or both(self.it.await_value(s, x)):
                        if len(r) == 3:
                            out.append(r)
                        else:
                            nxt.append((r[0], acc + (r[1],)))
                cur = nxt
            return out + [(s, ("list", acc)) for s, acc in cur]
        if v[:2] == ("tok", "next of gen"):
            # the generator is run to its end once; its items are then given one by one
            key = ("env", v[2], "run")
            out = []
            sts = [(st, st.heap[key])] if key in st.heap else []
            if not sts:
                for e in self.it.collect(st, v[2], self.it.stack[-1], True):
                    h = {k: x for k, x in e.st.heap.items() if not (k[0] == "kd" and isinstance(k[1], tuple) and k[1] and k[1][0] == "comp") or k in st.heap}
                    h[key] = ("run", tuple(self.it.collected(e)), e.value if e.kind == "raise" else None)
                    sts.append((e.st.but(env=st.env, outer=st.outer, heap=h), h[key]))
            for s, (_, items, end) in sts:
                h = dict(s.heap)
                pos = h.get(("env", v[2], "pos"), 0)
                h[("env", v[2], "pos")] = pos + 1
                s = s.but(heap=h)
                if pos < len(items):
                    out.append((s, items[pos]))
                else:
                    out.append((s, end if pos == len(items) and end is not None else ("exc", "StopAsyncIteration", "end"), "raise"))
            return out
        return Views.outcome(self, st, v)

    def model(self, st, ev):
        if ev.kind == "call":
            fv, a = ev.callee, tuple(ev.args)
            n, b = c20.simple(fv), callee_base(ev)
            if fv == FUN and len(a) == 1:
                s = self.add(st, ("asked", a[0]))
                if self.kinds.get(a[0]) in ("async", "future"):
                    return [(s, ("tok", "answer", a[0]))]
                x = self.answers[a[0]]
                return [(s, FERR, "raise")] if x == "raise" else [(s, x)]
            if n == "iscoroutinefunction" and a:
                return [(st, const(a[0] == FUN and "async" in self.kinds.values() or a[0][0] == "func" and bool(self.it.func_by_id(a[0][1]).is_async)))]
            if n in ("iscoroutine",) and a and a[0][:2] == ("tok", "answer") and self.kinds.get(a[0][2]) == "future":
                return [(st, FALSE)]
            if n in ("isawaitable", "iscoroutine") and a:
                return [(st, const(a[0][0] in ("coro",) or a[0][:2] in (("tok", "answer"), ("tok", "task"), ("tok", "next of"), ("tok", "gathered"))))]
            if n in ("create_task", "ccreate_task", "ccreate_task_simple", "ensure_future") and a:
                return [(st, ("tok", "task", a[0]))]
            if n in ("gather", "cgather") and not any(x[0] == "star" for x in a):
                return [(st, ("tok", "gathered", a))]
            if n in ("__aiter__", "aiter") and (b if b is not None and n[0] == "_" else a[0] if a else ("",))[0] == "gen":
                return [(st, b if b is not None and n[0] == "_" else a[0])]
            if n in ("__anext__", "anext") and (b if b is not None and n[0] == "_" else a[0] if a else ("",))[0] == "gen":
                return [(st, ("tok", "next of gen", b if b is not None and n[0] == "_" else a[0]))]
        return Views.model(self, st, ev)


def prep(st, it, v):
    return st


def check(ctx):
    m = ctx.model
    ctx.rule("filter", "a filtered view gives exactly the items the predicate is true for, in order, then the source's end or error", 60)
    ctx.rule("evaluated", "the predicate is evaluated once for each item, in order; the key once for each item", 60)
    ctx.rule("sort", "a sorted view gives every item once, ordered by key and stably, reversed if asked", 30)
    ctx.rule("errors", "an error of the predicate, the key or the source is raised by the view", 30)
    ctx.rule("ended", "an exhausted view ends at once when it is iterated on", 8)
    fil, srt, mix = (L.klass(m, MOD, n) for n in ("ASyncFilter", "ASyncSorter", "_AwaitableAsyncIterableMixin"))
    if fil is None or srt is None:
        raise AnalysisError("ASyncFilter or ASyncSorter vanished")
    filtered(ctx, m, fil)
    ordered(ctx, m, srt)
    fluent(ctx, m)


def run(ctx, m, cl, cls, args, kw, is_async, items, end, rule, lab, asked, again=True):
    it, f, ex = construct(ctx, m, cl, cls, args, kw)
    where = L.where(m.find_method(cls, "__anext__") or f)
    why = x = why2 = x2 = why3 = None
    for e in ex:
        if e.kind == "raise":
            why, x = "construction raises %s" % show(e.value), e
            continue
        if any(t[0] == "asked" for t in e.st.ts):
            why2, x2 = "construction evaluates the function", e
        r = it.collect(keep(e), e.value, f, is_async)
        w, y = compare(r, it, items, end)
        if w:
            why, x = w, y
        for e2 in r:
            q = [t[1] for t in e2.st.ts if t[0] == "asked"]
            if cls.name == "ASyncSorter":
                q = q if end is not None else sorted(q)
            if asked is not None and (q != list(asked) if end is None else q != list(asked)[:len(q)]):
                why2, x2 = "evaluates the function for %s" % show(("list", tuple(q))), e2
            if again and end is None and e2.kind == "return":
                nx = m.find_method(cls, "__anext__" if is_async else "__next__")
                for e3 in it.call_value(keep(e2), ("bound", it.fid(nx), e.value), func=f):
                    for e4 in (it.await_value(e3.st, e3.value, func=f) if is_async and e3.kind == "return" else [e3]):
                        if e4.kind != "raise" or ("StopAsyncIteration" if is_async else "StopIteration") not in it.exc_classes(e4.value)[0]:
                            why3, x = "%s %s after its end" % ("gives" if e4.kind == "return" else "raises", show(e4.value)), e4
    if not ex:
        why = "construction never ends"
    ctx.ob(rule if end is None else "errors", lab, why is None, where, why or "", x.st.path() if why and x else ())
    if asked is not None:
        ctx.ob("evaluated", lab, why2 is None, where, why2 or "", x2.st.path() if x2 else ())
    if again and end is None:
        ctx.ob("ended", lab, why3 is None, where, why3 or "", x.st.path() if why3 and x else ())


def filtered(ctx, m, cls):
    answers = [("T", TRUE, "plain"), ("F", FALSE, "plain"), ("aT", TRUE, "async"), ("aF", FALSE, "async"), ("E", "raise", "plain"), ("aE", "raise", "async"),
               ("fT", TRUE, "future"), ("fF", FALSE, "future")]   # an awaitable which is not a coroutine
    for n in (0, 1, 2, 3):
        for combo in itertools.product(answers, repeat=n):
            if n == 3 and (len({c[2] for c in combo}) > 1 or any("E" in c[0] for c in combo[:2])):
                continue
            for sync in (False, True):
                for end in ((None, ERR) if n < 3 else (None,)):
                    for how in ((True, False) if n < 2 else (True,)):
                        xs = ITEMS[:n]
                        cl = Fun(m, {x: c[1] for x, c in zip(xs, combo)}, {x: c[2] for x, c in zip(xs, combo)}, items=xs, end=end, sync_source=sync, falsy=n == 2)
                        want, asked, stop = [], [], end
                        for x, c in zip(xs, combo):
                            asked.append(x)
                            if c[1] == "raise":
                                stop = FERR
                                break
                            if c[1] == TRUE:
                                want.append(x)
                        lab = "filter, %s source, %s: answers %s%s" % ("plain" if sync else "async", "async for" if how else "for", " ".join(c[0] for c in combo) or "none", "" if end is None else ", then an error")
                        run(ctx, m, cl, cls, (FUN, SRC), (), how, tuple(want), stop, "filter", lab, asked, again=n < 3)


def ordered(ctx, m, cls):
    KEYS = [(), (5,), (2, 1), (1, 2), (1, 1), (2, 3, 1), (1, 0, 1), (1, 1, 0), (0, 1, 1), (3, 2, 1), (1, 1, 1)]
    for keys in KEYS:
        for mode in ("none", "plain", "async"):
            for rev in (False, True):
                for sync in (False, True):
                    n = len(keys)
                    if mode == "none":
                        # the items themselves are compared
                        xs = tuple(const(k) for k in keys)
                    else:
                        xs = ITEMS[:n]
                    kk = dict(zip(xs, keys))
                    cl = Fun(m, {x: const(k) for x, k in kk.items()}, {x: mode for x in xs}, items=xs, sync_source=sync, falsy=n == 2)
                    if mode == "async" and not xs:
                        cl.kinds = {None: "async"}
                    want = tuple(sorted(xs, key=kk.get, reverse=rev))
                    kw = (("key", FUN),) if mode != "none" else ()
                    kw += (("reverse", TRUE),) if rev else ()
                    lab = "sort%s, %s key, %s source: keys %s" % (" reversed" if rev else "", "no" if mode == "none" else mode, "plain" if sync else "async", " ".join(map(str, keys)) or "none")
                    for how in ((True, False) if n == 2 else (True,)):
                        run(ctx, m, cl, cls, (SRC,), kw, how, want, None, "sort", lab + (", async for" if how else ", for"), sorted(xs) if mode != "none" else None, again=n < 3)
    for mode in ("none", "plain", "async"):
        for sync in (False, True):
            for end, bad in ((ERR, None), (None, 1)):
                if mode == "none" and end is None:
                    continue
                xs = ITEMS[:2] if mode != "none" else (const(1), const(2))
                cl = Fun(m, {x: "raise" if i == bad else const(i) for i, x in enumerate(xs)}, {x: mode for x in xs}, items=xs, end=end, sync_source=sync)
                run(ctx, m, cl, cls, (SRC,), (("key", FUN),) if mode != "none" else (), True, (), end or FERR, "sort",
                    "sort, %s key, %s source: %s" % ("no" if mode == "none" else mode, "plain" if sync else "async", "the source fails" if end else "the key fails"), xs if mode != "none" else None, again=False)


def fluent(ctx, m):
    """.filter(f) and .sort(key=, reverse=) give views of the object itself with what was passed"""
    ctx.rule("views", "`filter` and `sort` give the view of the iterable for the given function and direction", 4)
    itb = L.klass(m, MOD, "ASyncIterable")
    xs, keys = ITEMS[:3], {ITEMS[0]: 2, ITEMS[1]: 3, ITEMS[2]: 1}
    for name, args, kw, want in (("filter", (FUN,), (), (ITEMS[0], ITEMS[2])), ("filter", (), (("function", FUN),), (ITEMS[0], ITEMS[2])), ("sort", (), (("key", FUN),), (ITEMS[2], ITEMS[0], ITEMS[1])),
                                 ("sort", (), (("key", FUN), ("reverse", TRUE)), (ITEMS[1], ITEMS[0], ITEMS[2])), ("sort", (), (("key", FUN), ("reverse", FALSE)), (ITEMS[2], ITEMS[0], ITEMS[1]))):
        answers = {x: const(k) for x, k in keys.items()} if name == "sort" else {xs[0]: TRUE, xs[1]: FALSE, xs[2]: TRUE}
        cl = Fun(m, answers, {x: "plain" for x in xs}, items=xs)
        it, f, ex = construct(ctx, m, cl, itb, (SRC,))
        g = m.find_method(itb, name)
        if g is None:
            raise AnalysisError("ASyncIterable.%s vanished" % name)
        why = x = None
        for e in ex:
            for e2 in (it.call_value(keep(e), ("bound", it.fid(g), e.value), args, kw, func=f) if e.kind == "return" else [e]):
                if e2.kind == "raise":
                    why, x = "raises %s" % show(e2.value), e2
                    continue
                w, y = compare(it.collect(keep(e2), e2.value, f, True), it, want, None)
                if w:
                    why, x = w, y
        ctx.ob("views", "%s(%s)" % (name, ", ".join(["function"] * len(args) + ["%s=%s" % (k, show(v)) for k, v in kw])), why is None, L.where(g), why or "", x.st.path() if x else ())
