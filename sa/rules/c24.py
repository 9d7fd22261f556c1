"""Aggregates of a task mapping.  Every aggregate is interpreted over a scripted iteration of its mapping (each list of results over a
small domain, up to three of them, in the order they finish) and its answer compared with the Python built-in's; then over
iterations which fail at each position, and over a loader which found no keys.  The stand-alone any/all are interpreted with
every outcome and finish order."""
import itertools

from ..lib import *
from .. import locks as L
from .. import modes as M
from . import c20

ASSUMPTIONS = ["iterating the mapping delivers its results as they finish and raises a task's or the loader's failure (C23)",
               "`asyncio.as_completed(fs)` gives one awaitable per future in finish order"]
T = "a_sync.task"
LOADER = ("tok", "the loader")
EMPTY = ("exc", "a_sync/task.py:_EmptySequenceError", "raised here")
CANCEL = ("exc", "asyncio.CancelledError", "of a task")
ITERS = ("__aiter__", "map", "items", "values")


class Script(Client):
    """self's iteration gives `results`; the one at `fail[0]` raises fail[1]"""
    data = ('res', 'key')
    kd = True
    debug = False
    recursion = 1

    def __init__(self, m, clsid, results, fail=None, loader="done"):
        self.m, self.clsid, self.results, self.fail, self.loader = m, clsid, results, fail, loader
        self.me = ("self", clsid)
        self.fids = {}

    def inline(self, f):
        return not (f.cls is not None and f.qual.split(".")[-1] in ("__aiter__", "map", "_if_pop_clear", "clear"))

    def inline_property(self, f):
        return f.qual.split(".")[-1] not in ITERS + ("_init_loader",)

    def source(self, v):
        """'pairs' | 'values' | None: is this an iteration over the mapping"""
        if v == self.me:
            return "pairs"
        if v[0] == "gen" and v[2][0] == "bound" and v[2][2] == self.me:
            n = v[2][1].split("#")[0].split(".")[-1]
            return "pairs" if n in ITERS else None
        if v[0] == "call" and callee_base(v) == self.me:
            n = c20.simple(v[2])
            return "values" if n == "values" else "pairs" if n in ITERS else None
        if v[0] == "new" and self.me in v[3]:
            return "values" if v[2].endswith("Values") else "pairs" if v[2].endswith("Items") else None
        return None

    def pos(self, st):
        return st.heap.get(("env", "pos", ""), 0)

    def step(self, st, v, is_async):
        k = self.source(v) if is_async else None
        if k is None:
            return None
        i = self.pos(st)
        h = dict(st.heap)
        h[("env", "pos", "")] = i + 1
        s = st.but(heap=h)
        p = dict(v[4]).get("pop") if len(v) > 4 else None
        if p is not None and ("pop", p) not in s.ts:
            s = s.but(ts=s.ts + (("pop", p),))
        if self.fail is not None and i == self.fail[0]:
            return [(s, "raise", self.fail[1])]
        if i >= len(self.results):
            return [(s, "end", None)]
        r = self.results[i]
        return [(s, "item", r if k == "values" else ("tuple", (("tok", "key", i), r)))]

    def event(self, st, ev):
        if ev.kind == "assign" and getattr(ev, "aug", None):
            v = ev.value
            if v[0] == "binop" and any(x[0] == "tok" and x[1] == "res" for x in walk_values(v[2])):
                return st.but(ts=st.ts + (("in place", v[2]),))
        return None

    def model_attr(self, st, base, name):
        if base == self.me and name == "_init_loader":
            return NONE if self.loader == "none" else LOADER
        return None

    def truthy(self, v):
        return True if v == LOADER or v[0] == "exc" else None

    def model(self, st, ev):
        if ev.kind == "awaitval":
            if ev.value == LOADER:
                return [(st, EMPTY, "raise")] if self.loader == "empty" else [(st, NONE)]
            return None
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, ev.args, dict(ev.kw)
        n, b = c20.simple(fv), callee_base(ev)
        if b == LOADER:
            if n == "done":
                return [(st, TRUE)]
            if n == "cancelled":
                return [(st, FALSE)]
            if n == "exception":
                return [(st, EMPTY if self.loader == "empty" else NONE)]
            if n == "result":
                return [(st, EMPTY, "raise") if self.loader == "empty" else (st, NONE)]
        if fv[0] == "ext" and fv[1].split(".")[0] == "builtins" and n in BUILTIN and a:
            xs = self.it.kd_literal(st, a[0]) if len(a) == 1 else list(a)
            if xs is not None and not [k for k in kw if k not in ("default",)]:
                if not xs and n in ("max", "min"):
                    return [(st, kw["default"])] if "default" in kw else [(st, ("exc", "ValueError", n + " of nothing"), "raise")]
                if all(is_const(x) for x in xs):
                    try:
                        return [(st, wrap(BUILTIN[n]([x[2] for x in xs])))]
                    except TypeError:
                        return [(st, ("exc", "TypeError", n), "raise")]
                if n == "sum":
                    v = const(0)
                    for x in xs:
                        v = ("binop", "Add", v, x)
                    return [(st, v)]
        return None


BUILTIN = {"sum": sum, "max": max, "min": min, "any": any, "all": all, "sorted": sorted, "len": len}


def wrap(v):
    return ("list", tuple(const(x) for x in v)) if isinstance(v, list) else const(v)


def walk_values(v):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            todo += [y for y in x if isinstance(y, tuple)]


def outcome(m, e):
    if e.kind == "raise":
        return ("raise", M.excname(m, e.value), e.value)
    return ("return", e.value)


def expected(name, xs):
    """what the built-in says: ("return", value) | ("raise", class)"""
    try:
        return ("return", BUILTIN[name](xs))
    except ValueError:
        return ("raise", "EmptySequenceError")


def same(got, want):
    if got[0] == "return" and want[0] == "return":
        v = M.peel(got[1]) if got[1][0] not in ("const",) else got[1]
        return v[0] == "const" and v[2] == want[1] and isinstance(v[2], bool) == isinstance(want[1], bool)
    return got[0] == want[0] == "raise" and want[1] == got[1].split(":")[-1].split(".")[-1]


AGG = ("any", "all", "max", "min", "sum")
DOMAIN = {"any": (False, 0, "", 2, True), "all": (False, 0, "", 2, True), "max": (-1, 0, 3), "min": (-1, 0, 3), "sum": (-2, 0, 3)}


def scripts(name, tier):
    n = 4 if tier == "thorough" else 3
    for k in range(n + 1):
        yield from itertools.product(DOMAIN[name], repeat=k)
    if name in ("max", "min"):
        yield (None,)


def early(name, xs):
    """how many results decide the answer"""
    for i, x in enumerate(xs):
        if name == "any" and x or name == "all" and not x:
            return i + 1
    return len(xs) + 1


def run(ctx, m, f, cls, clsid, xs, pop, **kw):
    cl = Script(m, clsid, [x if isinstance(x, tuple) else const(x) for x in xs], **kw)
    it = Interp(m, cl, max_inline=8, keep_heap_on_await=True)
    cl.it = it
    ex = it.run(f, cls=cls, args={"self": cl.me, "pop": const(pop)})
    ctx.analysed(it, f, ex)
    return cl, ex


def check(ctx):
    m = ctx.model
    cls = L.klass(m, T, "TaskMapping")
    clsid = "%s:TaskMapping" % cls.module.rel
    ctx.rule("value", "for every list of results the aggregate gives what the built-in gives", 100)
    ctx.rule("early", "any and all take no further result once they are decided", 20)
    ctx.rule("failure", "a failing task raises its own exception, whatever it is and whenever it fails", 20)
    ctx.rule("no keys", "iterables which held no keys give the answer of the built-in for nothing; a mapping never given keys raises MappingIsEmptyError", 10)
    ctx.rule("pop", "the aggregate pops if and only if it was told to", 5)
    ctx.rule("own results", "the results are not changed", 1)
    ctx.rule("stand-alone", "utils.any and utils.all agree with the built-ins in every finish order, and stop when decided", 20)
    for name in AGG:
        f = m.find_method(cls, name)
        if f is None:
            raise AnalysisError("TaskMapping.%s vanished" % name)
        for pop in (True, False):
            bad = None
            for xs in scripts(name, ctx.tier):
                cl, ex = run(ctx, m, f, cls, clsid, xs, pop)
                want = expected(name, xs)
                for e in ex:
                    got = outcome(m, e)
                    if not same(got, want):
                        bad = bad or ("gives %s for %s, not %s" % (show(e.value), list(xs), want[1]), e)
                    elif name in ("any", "all"):
                        ok = cl.pos(e.st) <= early(name, xs)
                        ctx.ob("early", "%s of %s, pop=%s" % (name, list(xs), pop), ok, L.where(f), "" if ok else "%d results are taken" % cl.pos(e.st), () if ok else e.st.path())
                    p = [x[1] for x in e.st.ts if x[0] == "pop"]
                    if p and p != [const(pop)]:
                        ctx.ob("pop", "%s(pop=%s)" % (name, pop), False, L.where(f), "the mapping is iterated with pop=%s" % show(p[0]), e.st.path())
                if not ex:
                    bad = bad or ("never ends for %s" % (list(xs),), None)
                ctx.ob("value", "%s of %s, pop=%s" % (name, list(xs), pop), bad is None, L.where(f), bad[0] if bad else "", bad[1].st.path() if bad and bad[1] else ())
                if bad:
                    break
            ctx.ob("pop", "%s(pop=%s)" % (name, pop), True)
            # failures: exc at position i after undecided results
            und = {"any": 0, "all": 2}.get(name, 2)
            USER = ("exc", "ValueError", "of a task")
            NEVER = ("exc", "a_sync/exceptions.py:MappingIsEmptyError", "raised here")
            cases = [("a task raising ValueError", i, USER, l) for i in (0, 1) for l in ("done", "none")]
            cases += [("a cancelled task", i, CANCEL, "done") for i in (0, 1)]
            cases += [("a task raising _EmptySequenceError", i, EMPTY, l) for i in (0, 1) for l in ("done", "none")]
            cases += [("a task raising EmptySequenceError", i, ("exc", "a_sync/exceptions.py:EmptySequenceError", "raised here"), "done") for i in (0, 1)]
            for what, i, x, l in cases:
                cl, ex = run(ctx, m, f, cls, clsid, [und] * 2, pop, fail=(i, x), loader=l)
                bad = [e for e in ex if e.kind != "raise" or e.value != x]
                ctx.ob("failure", "%s(pop=%s): %s at position %d, loader %s" % (name, pop, what, i, l), ex and not bad, L.where(f),
                       "gives %s" % show(bad[0].value) if bad else "", bad[0].st.path() if bad else ())
            cl, ex = run(ctx, m, f, cls, clsid, [], pop, fail=(0, NEVER), loader="none")
            bad = [e for e in ex if e.kind != "raise" or e.value != NEVER]
            ctx.ob("no keys", "%s(pop=%s) of a mapping never given keys" % (name, pop), ex and not bad, L.where(f), "gives %s" % show(bad[0].value) if bad else "", bad[0].st.path() if bad else ())
            cl, ex = run(ctx, m, f, cls, clsid, [], pop, fail=(0, EMPTY), loader="empty")
            bad = [e for e in ex if not same(outcome(m, e), expected(name, []))]
            ctx.ob("no keys", "%s(pop=%s) of an empty iterable" % (name, pop), ex and not bad, L.where(f), "gives %s" % show(bad[0].value) if bad else "", bad[0].st.path() if bad else ())
        if name == "sum":
            cl, ex = run(ctx, m, f, cls, clsid, [("tok", "res", i) for i in range(3)], False)
            bad = [e for e in ex if any(x[0] == "in place" for x in e.st.ts)]
            ctx.ob("own results", "sum of objects", not bad, L.where(f), "+= on what may be a task's result" if bad else "", bad[0].st.path() if bad else ())
    standalone(ctx, m)


class Alone(Client):
    data = ('res', 'key')
    kd = True
    debug = False
    recursion = 1
    distinct = True

    def __init__(self, m, results, fails, order):
        self.m, self.results, self.fails, self.sequence = m, results, fails, order

    def res(self, i):
        return ("tok", "res", i)

    def truthy(self, v):
        if v[0] == "tok" and v[1] == "res":
            return self.results[v[2]]
        return True if v[0] == "exc" else None

    def note(self, st, x):
        return st.but(ts=st.ts + (x,)) if len(st.ts) < 40 else st

    def event(self, st, ev):
        if ev.kind == "await" and ev.value[0] == "tok" and ev.value[1] in ("aw", "fut"):
            return self.note(st, ("await", ev.value[1], ev.value[2]))
        return None

    def raises(self, st, ev):
        if ev.kind == "await" and ev.value[0] == "tok" and ev.value[1] in ("aw", "fut") and ev.value[2] in self.fails:
            return (self.fails[ev.value[2]],)
        return ()

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[0] == "tok" and v[1] in ("aw", "fut"):
                return [(st, self.res(v[2]))] if v[2] not in self.fails else []
            return None
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, ev.args, dict(ev.kw)
        n, b = c20.simple(fv), callee_base(ev)
        if n in ("ensure_future", "create_task") and a and a[0][0] == "tok" and a[0][1] in ("aw", "fut"):
            if a[0][1] == "fut":
                return [(st, a[0])]
            if ("future", a[0][2]) in st.ts:
                return [(self.note(st, ("twice", a[0][2])), ("tok", "fut", a[0][2]))]
            return [(self.note(st, ("future", a[0][2])), ("tok", "fut", a[0][2]))]
        if n == "as_completed" and a:
            xs = self.it.kd_literal(st, a[0])
            if xs is not None and all(x[0] == "tok" and x[1] in ("aw", "fut") for x in xs):
                return [(st, ("list", tuple(sorted(xs, key=lambda x: self.sequence.index(x[2])))))]
        if b is not None and b[0] == "tok" and b[1] == "fut":
            if n == "cancel":
                return [(self.note(st, ("cancel", b[2])), TRUE)]
            if n in ("done",):
                return [(st, const(("await", "fut", b[2]) in st.ts))]
        if n == "bool" and len(a) == 1 and a[0][0] == "tok" and a[0][1] == "res":
            return [(st, const(self.results[a[0][2]]))]
        return None


def standalone(ctx, m):
    for name, decisive in (("any", True), ("all", False)):
        f = m.func("a_sync.utils", name)
        if f is None:
            ctx.notes.append("utils.%s is gone" % name)
            continue
        va = f.node.args.vararg.arg
        for n in range(0, 4):
            for results in itertools.product((False, True), repeat=n):
                for order in itertools.permutations(range(n)):
                    for fails in [{}] + ([{0: ("exc", "ValueError", "of an awaitable")}, {0: CANCEL}, {0: ("exc", "RuntimeError", "of an awaitable")}] if n else []):
                        cl = Alone(m, results, fails, order)
                        it = Interp(m, cl, max_inline=8, keep_heap_on_await=True)
                        cl.it = it
                        ex = it.run(f, args={va: ("vararg", tuple(("tok", "aw", i) for i in range(n)))})
                        ctx.analysed(it, f, ex)
                        want, seen = ("return", const(not decisive)), len(order)
                        for k, i in enumerate(order):
                            if i in fails:
                                want, seen = ("raise", fails[i]), k + 1
                                break
                            if results[i] is decisive:
                                want, seen = ("return", const(decisive)), k + 1
                                break
                        bad = None
                        for e in ex:
                            if e.kind != want[0] or e.kind == "return" and e.value != want[1] or e.kind == "raise" and M.excname(m, e.value).split(".")[-1] != want[1][1].split(".")[-1]:
                                bad = ("gives %s instead of %s" % (show(e.value), show(want[1])), e)
                            elif len([x for x in e.st.ts if x[0] == "await"]) > seen:
                                bad = ("keeps waiting after it is decided", e)
                        if not ex:
                            bad = ("never ends", None)
                        ctx.ob("stand-alone", "utils.%s of %s, finishing %s, failing %s" % (name, list(results), list(order), ["%d: %s" % (i, x[1]) for i, x in fails.items()] or "none"),
                               bad is None, L.where(f), bad[0] if bad else "", bad[1].st.path() if bad and bad[1] else ())
