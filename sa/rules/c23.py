"""Task mappings.

Starts: a mapping is constructed with every kind and combination of iterables (repeated keys, empty ones), its loader is interpreted, and
what it starts is compared with the distinct keys; each started coroutine is then awaited.  Delivery: every way of iterating is
interpreted together with an environment which, at every suspension, may load further keys, finish tasks and finish or fail the loader in any
order; what is yielded is compared with the keys and their own results."""
import itertools

from ..lib import *
from .. import locks as L
from .. import modes as M
from . import c20

ASSUMPTIONS = ["`asyncio.wait(fs, return_when=FIRST_COMPLETED)` suspends and gives a non-empty set of those that are done", "as_completed over a mapping yields each of its keys with the "
               "outcome of its awaitable as it finishes (C26)", "as_yielded yields everything its iterators yield (C27)", "a wait of an Event is over once it was set (C03)"]
T = "a_sync.task"
MAP = ("kd", "mapping")
LOADER = ("tok", "loader")
NEXTKEYS = ("tok", "next keys")
NEXT = ("tok", "_next")
NEXTWAIT = ("tok", "_next.wait()")
QUEUE, FN = ("tok", "processing queue"), ("tok", "wrapped function")
USER = ("exc", "ValueError", "of a task")
CANCEL = ("exc", "asyncio.CancelledError", "of a task")
LOADFAIL = ("exc", "KeyError", "of an iterable")
HANG = ("exc", "HANG", "waits for ever")
KEYS = (const(0), const("b"), const("c"))


def task(i):
    return ("tok", "task", i)


def res(i):
    return ("tok", "res", i)


class Env(Client):
    """env: (tasks started, keys loaded, keys fetched from the loader's queue, loader, finished tasks)"""
    data = ('res', 'kwarg value')
    kd = True
    debug = False
    model_raises = True
    iter_objects = True
    class_defaults = True
    distinct = True
    frozen = False
    recursion = 2

    def __init__(self, m, cls, clsid, n=0, pre=0, loader="running", fails=None, loadfail=None, concurrency=NONE):
        self.m, self.cls, self.clsid, self.n, self.fails, self.loadfail = m, cls, clsid, n, fails or {}, loadfail
        self.pre, self.concurrency = pre, concurrency
        self.start = (frozenset(range(pre)), pre, pre, loader, frozenset())

    # -- the environment
    def env(self, st):
        return st.heap.get(("env", "tm", ""), self.start)

    def with_env(self, st, e, mapping=None):
        h = dict(st.heap)
        h[("env", "tm", "")] = e
        if mapping is not None:
            h[("kd", "mapping", "")] = ("kdc", mapping, ())
        return st.but(heap=h)

    def change(self, st, **kw):
        names = ("started", "loaded", "fetched", "loader", "finished")
        e = dict(zip(names, self.env(st)))
        e.update(kw)
        return self.with_env(st, tuple(e[x] for x in names))

    def heap(self):
        return {("kd", "mapping", ""): ("kdc", tuple((KEYS[i], task(i)) for i in range(self.pre)), ())}

    def moves(self, st):
        started, k, g, l, d = self.env(st)
        items = st.heap[("kd", "mapping", "")][1]
        if l == "running":
            if k < self.n and (self.loadfail is None or k < self.loadfail):
                yield self.with_env(st, (started | {k}, k + 1, g, l, d), items + ((KEYS[k], task(k)),))
            elif self.loadfail is not None:
                yield self.with_env(st, (started, k, g, "failed", d))
            else:
                yield self.with_env(st, (started, k, g, "done", d))
        for i in started - d:
            yield self.with_env(st, (started, k, g, l, d | {i}))

    def advance(self, st):
        """every state the environment may be in when this task goes on"""
        if self.frozen:
            return [st]
        seen, todo, out = set(), [st], []
        while todo:
            s = todo.pop()
            key = (self.env(s), s.heap[("kd", "mapping", "")])
            if key in seen:
                continue
            seen.add(key)
            out.append(s)
            todo += list(self.moves(s))
        return out

    def add(self, st, x):
        if len(st.ts) >= 30:
            return []
        return st.but(ts=st.ts + (x,)).note("%s %s" % (x[0], show(x[1]) if len(x) > 1 else ""))

    # -- hooks
    def inline(self, f):
        return f.qual not in ("as_yielded", "gather")

    def still(self, st, x, func, is_async):
        was, self.frozen = self.frozen, True
        try:
            return list(self.it.collect(st, x, func, is_async))
        finally:
            self.frozen = was

    def iterator(self, st, v, is_async):
        """as_yielded: what its iterators give, interleaved in any way"""
        if v[0] != "gen" or not is_async or "as_yielded" not in repr(v[2]):
            return None
        cur = [(st, ())]
        for x in v[3]:
            nxt = []
            for s, acc in cur:
                for e in self.still(s.but(env={}), x, self.it.func, True):
                    nxt.append((e.st.but(env=s.env), acc + ((tuple(self.it.collected(e)), e.value if e.kind == "raise" else None),)))
            cur = nxt
        if len(cur) != 1:
            raise AnalysisError("%s: what as_yielded merges is not known" % self.it.func.id)
        return cur[0][0], ("tok", "merged", cur[0][1])

    def inline_property(self, f):
        return f.qual.split(".")[-1] not in ("_init_loader", "_queue")

    def truthy(self, v):
        return True if v[0] == "exc" or v[0] == "tok" and v[1] not in ("res",) else None

    def model_attr(self, st, base, name):
        if base == MAP:
            if name == "_init_loader":
                return NONE if self.env(st)[3] == "none" else LOADER
            if name == "_init_loader_next":
                return ("tok", "method", "loader_next", LOADER)
            if name == "_next":
                return NEXT
            if name == "concurrency":
                return self.concurrency
            if name == "_queue":
                return QUEUE
            if name == "_wrapped_func":
                return FN
            if name == "_wrapped_func_kwargs":
                return ("dict", ())
            if name == "_name":
                return const("name")
            if name == "__dict__":
                return ("dict", ())
        return None

    def event(self, st, ev):
        if ev.kind == "yield":
            s = self.add(st, ("yield", ev.value, self.mapping_items(st, MAP)))
            return self.advance(s) if s else []
        return None

    def outcome(self, st, i):
        return (st, self.fails[i], "raise") if i in self.fails else (st, res(i))

    def hang(self, st):
        return [(st, HANG, "raise")]

    def start_task(self, st, key):
        """the function was called with the key and will run: (state, task)"""
        i = KEYS.index(key) if key in KEYS else -1
        started = self.env(st)[0]
        if i in started or i < 0:
            return st.but(ts=st.ts + (("again", key),)), task(max(i, 0))
        return self.change(st, started=started | {i}), task(i)

    def position(self, st, v, to=None):
        if to is None:
            return st.heap.get(("env", v, "pos"), 0)
        h = dict(st.heap)
        h[("env", v, "pos")] = to
        return st.but(heap=h)

    def step(self, st, v, is_async):
        if v[:2] == ("tok", "source"):
            if is_async != (v[2] == "async"):
                return [(st, "raise", ("exc", "TypeError", "not iterable"))]
            i = self.position(st, v)
            items, end = v[3], v[4]
            out = []
            for s in self.advance(st) if is_async else [st]:
                s = self.position(s, v, i + 1)
                out.append((s, "item", items[i]) if i < len(items) else (s, "raise", end) if end is not None else (s, "end", None))
            return out
        if v[:2] == ("tok", "merged") and is_async:
            at = st.heap.get(("env", v, "at"), (0,) * len(v[2]))
            out = []
            for s in self.advance(st):
                live = [j for j, (items, end) in enumerate(v[2]) if at[j] < len(items) or end is not None]
                if not live:
                    out.append((s, "end", None))
                for j in live:
                    items, end = v[2][j]
                    h = dict(s.heap)
                    h[("env", v, "at")] = at[:j] + (at[j] + 1,) + at[j + 1:]
                    out.append((s.but(heap=h), "item", items[at[j]]) if at[j] < len(items) else (s, "raise", end))
            return out
        if v[:2] != ("tok", "completed") or not is_async:
            return None
        pos = ("env", "completed", v[2:])
        given = st.heap.get(pos, ())
        left = [x for x in v[2] if x[0] not in given]
        if not left:
            return [(st, "end", None)]
        out = []
        for s in self.advance(st):
            for k, t in left:
                if t[2] in self.env(s)[4]:
                    h = dict(s.heap)
                    h[pos] = tuple(sorted(given + (k,)))
                    o = self.outcome(s.but(heap=h), t[2])
                    out.append((o[0], "raise", o[1]) if len(o) == 3 else (o[0], "item", ("tuple", (k, o[1]))))
        return out or [(st, "raise", HANG)]

    def complete(self, st, v):
        started, k, g, l, d = self.env(st)
        if v == NEXTKEYS:
            return k > g
        if v == LOADER:
            return l != "running"
        if v[:2] == ("tok", "task"):
            return v[2] in d
        return None

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v == NEXTWAIT:
                d = self.env(st)[4]
                return [(s, TRUE) for s in self.advance(st) if self.env(s)[4] > d] or self.hang(st)
            if v == NEXTKEYS:
                out = []
                for s in self.advance(st):
                    started, k, g, l, d = self.env(s)
                    if k > g:
                        out.append((self.change(s, fetched=k), ("list", tuple(("tuple", (KEYS[i], task(i))) for i in range(g, k)))))
                return out or self.hang(st)
            if v == LOADER:
                out = []
                for s in ([st] if self.complete(st, LOADER) else self.advance(st)):
                    l = self.env(s)[3]
                    if l != "running":
                        out.append((s, LOADFAIL, "raise") if l == "failed" else (s, CANCEL, "raise") if l == "cancelled" else (s, NONE))
                return out
            if v[:2] == ("tok", "task"):
                return [self.outcome(s, v[2]) for s in ([st] if self.complete(st, v) else self.advance(st)) if v[2] in self.env(s)[4]]
            if v[:2] == ("tok", "later"):
                return [(s, v[2]) for s in self.advance(st)]
            if v[:2] == ("tok", "gathered"):
                return [(st, v)]
            if v[0] in ("coro", "call") and c20.simple(v[2]) == "gather" and v[3] and self.it.kd_get(st, v[3][0]) is not None:
                return [(st, ("tok", "gathered", self.mapping_items(st, v[3][0])))]
            if v[:2] == ("tok", "waiting"):
                out = []
                for s in self.advance(st):
                    c = [x for x in v[2] if self.complete(s, x)]
                    if v[3] == "ALL_COMPLETED":
                        sets = [c] if len(c) == len(v[2]) else []
                    else:
                        sets = [x for r in range(1, len(c) + 1) for x in itertools.combinations(c, r)]
                    for x in sets:
                        out.append((s, ("tuple", (("set", tuple(x)), ("set", tuple(y for y in v[2] if y not in x))))))
                return out or self.hang(st)
            if v[0] == "call" and c20.simple(v[2]) == "sleep":
                return [(s, NONE) for s in self.advance(st)]
            return None
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, ev.args, dict(ev.kw)
        n, b = c20.simple(fv), callee_base(ev)
        if b == MAP and fv[0] == "attr":
            # generator methods behind a wrapper of the library
            f = self.m.find_method(self.cls, n)
            if f is not None and f.is_gen:
                return [(st, ("gen", self.it.site(ev.node), ("bound", self.it.fid(f), MAP), a, ev.kw))]
        if fv == FN and a:
            return [(st, ("tok", "running", a[0]))]
        if b == QUEUE and n in ("put_nowait",) and len(a) == 1:
            return [self.start_task(st, a[0])]
        if n == "isinstance" and len(a) == 2 and a[0][:2] in (("tok", "source"), ("tok", "later")):
            t = repr(a[1])
            is_async = a[0][1] == "source" and a[0][2] == "async"
            if "AsyncIter" in t or "AsyncGenerator" in t:
                return [(st, const(is_async))]
            if "Iter" in t or "Collection" in t or "Sequence" in t:
                return [(st, const(a[0][1] == "source" and not is_async))]
            if "Awaitable" in t:
                return [(st, const(a[0][1] == "later"))]
        if n == "isinstance" and len(a) == 2 and a[0][0] in ("list", "tuple", "kl", "kd"):
            t = repr(a[1])
            if "Async" in t or "Awaitable" in t:
                return [(st, FALSE)]
            if "Iterable" in t or "Collection" in t:
                return [(st, TRUE)]
        if n == "isawaitable" and a:
            return [(st, const(a[0][:2] == ("tok", "later")))]
        if n == "loader_next":
            return [(st, NEXTKEYS)]
        if b == NEXT and n == "wait":
            return [(st, NEXTWAIT)]
        if b == NEXT and n in ("set", "clear"):
            return [(st, NONE)]
        if b == LOADER or b is not None and b[:2] == ("tok", "task"):
            if n == "done":
                return [(st, const(self.complete(st, b)))]
            if n == "cancelled":
                return [(st, const(b == LOADER and self.env(st)[3] == "cancelled"))]
            if n == "cancel":
                if b == LOADER and not self.complete(st, b):
                    st = self.change(st, loader="cancelled")
                return [(st, TRUE)]
            if n in ("exception", "result") and self.complete(st, b):
                o = self.outcome(st, b[2]) if b != LOADER else (st, LOADFAIL, "raise") if self.env(st)[3] == "failed" else (st, NONE)
                return [o] if n == "result" else [(st, o[1] if len(o) == 3 else NONE)]
        if n in ("create_task", "ensure_future") and (a or "coro" in kw):
            x = a[0] if a else kw["coro"]
            if x[:2] == ("tok", "running"):
                return [self.start_task(st, x[2])]
            if x[0] == "tok":
                return [(st, x)]
        if n == "wait" and fv[0] == "ext" and a:
            xs = self.it.kd_literal(st, a[0])
            if xs is not None and all(self.complete(st, x) is not None for x in xs):
                return [(st, ("tok", "waiting", tuple(xs), show(kw.get("return_when", const("ALL_COMPLETED"))).split(".")[-1].strip("'")))]
        if n == "wait_for" and a:
            return [(st, a[0])]
        if n in ("gather", "cgather") and a and self.it.kd_get(st, a[0]) is not None and n != "TaskMapping.gather" and b != MAP:
            return [(st, ("tok", "gathered", self.mapping_items(st, a[0])))]
        if n == "as_completed" and a:
            items = self.mapping_items(st, a[0])
            if items is not None and kw.get("aiter") == TRUE:
                return [(st, ("tok", "completed", items, self.it.site(ev.node)))]
        if n == "proxy" and len(a) == 1 or n == "ref" and fv[0] == "ext":
            return [(st, a[0])]
        if fv[0] == "attr" and fv[1][0] == "super" and fv[1][1][0] == "kd":
            fv, a = ("ext", "builtins.dict." + n), (fv[1][1],) + tuple(a)
        if fv[0] == "ext" and fv[1].startswith("builtins.dict.") and a and a[0][0] == "kd":
            R = []
            if n == "__getitem__" and len(a) == 2:
                r = self.it.kd_item(st, a[0], a[1], ev.node, R)
            elif n == "__setitem__" and len(a) == 3:
                r = [(self.it.kd_store(st, a[0], a[1], a[2]), NONE)]
            elif n == "__delitem__" and len(a) == 2:
                r = [(self.it.kd_del(s, a[0], a[1]), NONE) for s, _ in self.it.kd_item(st, a[0], a[1], ev.node, R)]
            else:
                r = self.it.kd_method(st, a[0], n, list(a[1:]), ev.kw, ev.node, R)
            if r is not None:
                return r + [(s, x, "raise") for s, x in R]
        return None

    def mapping_items(self, st, v):
        c = self.it.kd_get(st, v)
        if c is not None:
            return tuple(c[1])
        return tuple(v[1]) if v[0] == "dict" else None


class Build(Env):
    """the construction of a mapping and its loader"""

    def __init__(self, m, cls, clsid, concurrency, fails=None):
        Env.__init__(self, m, cls, clsid, concurrency=NONE)
        self.conc, self.failing, self.frozen = concurrency, fails, True

    def inline_property(self, f):
        return True

    def glob(self, mod, name):
        return {"ProcessingQueue": ("ext", "ProcessingQueue"), "Queue": ("ext", "Queue"), "Event": ("ext", "Event"), "CythonEvent": ("ext", "Event")}.get(name)

    def model_attr(self, st, base, name):
        if base == MAP and name in ("__dict__",):
            return ("dict", ())
        if base == FN and name == "__name__":
            return const("function")
        return None

    def raises(self, st, ev):
        if ev.kind == "await" and ev.value[:2] == ("tok", "running") and self.failing:
            return (self.failing,)
        return ()

    def begin(self, st, coro):
        s = self.add(st, ("start", coro))
        n = sum(1 for x in s.ts if x[0] == "start") - 1 if s else 0
        return [(s, ("tok", "task", n))] if s else []

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[:2] == ("tok", "running"):
                return [] if self.failing else [(st, ("tok", "outcome", v[2], v[3]))]
            if v[:2] == ("tok", "later"):
                return [(st, v[2])]
            return Env.model(self, st, ev)
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, ev.args, dict(ev.kw)
        n, b = c20.simple(fv), callee_base(ev)
        if fv == ("ext", "ProcessingQueue"):
            return [(self.add(st, ("queue", a[1] if len(a) > 1 else kw.get("num_workers", NONE))), ("tok", "pqueue", a[0]))]
        if fv == ("ext", "Queue"):
            return [(st, ("tok", "loader queue"))]
        if fv == ("ext", "Event"):
            return [(st, NEXT)]
        if n in ("set", "clear") and b is not None and (b == NEXT or b[0] == "new" and b[2].endswith(":Event") or b == ("attr", MAP, "_next")):
            return [(self.add(st, (n,)), NONE)]
        if n == "get" and b is not None and b[0] == "glob":
            return [(st, NONE)]     # the cache of unwrapped functions is empty
        if b is not None and b[:2] == ("tok", "loader queue") and n in ("put_nowait", "put") and a:
            return [(self.add(st, ("put", a[0])), NONE)]
        if fv == FN:
            return [(st, ("tok", "running", a, tuple(sorted(ev.kw))))]
        if b is not None and b[:2] == ("tok", "pqueue") and n in ("put_nowait",):
            out = []
            for s, v, *r in ((e.st.but(env=st.env), e.value, *(() if e.kind == "return" else ("raise",))) for e in self.it.call_value(st.but(env={}), b[2], a, ev.kw, func=self.it.func)):
                out += [(s, v, "raise")] if r else self.begin(s, v)
            return out
        if n in ("create_task", "ensure_future") and (a or "coro" in kw):
            x = a[0] if a else kw["coro"]
            if x[0] == "coro" and "exhaust_iterator" in repr(x[2]) or x[0] == "coro" and not [y for y in st.ts if y[0] == "loader"]:
                return [(self.add(st, ("loader", x)), LOADER)]
            return self.begin(st, x)
        if b == LOADER:
            return [(st, NONE)]
        if n == "wraps" and fv[0] == "ext":
            return [(st, ("ext", "identity"))]
        if fv == ("ext", "identity"):
            return [(st, a[0])]
        if n == "isinstance" and len(a) == 2 and a[0] == FN:
            return [(st, FALSE)]
        return Env.model(self, st, ev)


def drive(ctx, cl, f, args=None, heap=None):
    it = Interp(cl.m, cl, max_inline=12, keep_heap_on_await=True, inline_new=True, max_states=3000000)
    cl.it = it
    h = cl.heap()
    h.update(heap or {})
    a = {"self": MAP}
    a.update(args or {})
    ex = it.run(f, cls=cl.cls, args=a, heap=h, facts={("type", MAP): cl.clsid})
    if ctx is not None:
        ctx.analysed(it, f, ex)
    return ex


def path(e):
    return e.st.path() if e is not None else ()


def yields(e):
    return [x[1] for x in e.st.ts if x[0] == "yield"]


def judge(ex, expected, failures=(), popped=False, ordered=None):
    """(what is wrong, exit) or None.  expected: the values to be yielded, once each, in any order"""
    if not ex:
        return "never ends", None
    for e in ex:
        ys = yields(e)
        again = [x[1] for x in e.st.ts if x[0] == "again"]
        kept = [k for x in e.st.ts if x[0] == "yield" and popped for k, t in x[2] or () if x[1] in (k, res(t[2]), ("tuple", (k, res(t[2]))))]
        if again:
            return "starts another task for %s" % show(again[0]), e
        if kept:
            return "leaves %s in the mapping when it is delivered" % show(kept[0]), e
        wrong = [y for y in ys if y not in expected]
        if wrong:
            return "yields %s" % show(wrong[0]), e
        twice = [y for y in ys if ys.count(y) > 1]
        if twice:
            return "yields %s twice" % show(twice[0]), e
        if e.kind == "raise" and e.value == HANG:
            return "waits for ever", e
        if e.kind == "raise" and e.value not in failures:
            return "raises %s" % show(e.value), e
        if failures and e.kind != "raise":
            return "ends without raising %s" % show(failures[0]), e
        if e.kind != "raise" and len(ys) != len(expected):
            return "never yields %s" % show([x for x in expected if x not in ys][0]), e
        left = e.st.heap[("kd", "mapping", "")][1]
        if popped and e.kind != "raise" and left:
            return "leaves %s in the mapping" % show(left[0][0]), e
    return None


def environments(tier):
    """(label, keyword arguments of Env, number of keys)"""
    out = []
    for n in ((1, 2, 3) if tier == "thorough" else (1, 2)):
        out.append(("%d keys, no loader" % n, dict(n=n, pre=n, loader="none"), n))
        out.append(("%d keys being loaded" % n, dict(n=n), n))
        out.append(("%d keys, loaded" % n, dict(n=n, pre=n, loader="done"), n))
        if n > 1:
            out.append(("%d keys, the first loaded" % n, dict(n=n, pre=1), n))
    return out


def check(ctx):
    m = ctx.model
    cls = L.klass(m, T, "TaskMapping")
    clsid = "%s:TaskMapping" % cls.module.rel
    ctx.rule("starts", "a mapping starts one task per distinct key of its iterables and holds it under that key", 20)
    ctx.rule("outcome", "a key's task gives what the function gives for the key and wakes those who wait for a task", 6)
    ctx.rule("lookup", "a key in the mapping is not started again by looking it up", 2)
    ctx.rule("delivered", "every key is delivered once, with its own result, in every schedule", 30)
    ctx.rule("failed", "the failure of a task or of an iterable reaches the consumer, as it is", 30)
    ctx.rule("map", "map starts one task per distinct key and delivers every key once with its own result", 30)
    ctx.rule("whole", "awaiting the whole mapping waits until every key is loaded", 4)
    starts(ctx, m, cls, clsid)
    lookup(ctx, m, cls, clsid)
    for pop in (False, True):
        for what in ("async for", "keys", "values", "items", "map"):
            for label, kw, n in environments(ctx.tier):
                deliver(ctx, m, cls, clsid, what, pop, label, kw, n)
    maps(ctx, m, cls, clsid)
    whole(ctx, m, cls, clsid)


def source(items, end=None):
    return ("tok", "source", "async", tuple(items), end)


def listed(*items):
    return ("list", tuple(items))


def later(v):
    return ("tok", "later", v)


def iterable_sets(tier):
    a, b, c = KEYS
    out = [("a list", (listed(a, b),)), ("a list with a key twice", (listed(a, b, a),)), ("a tuple", (("tuple", (a, b)),)),
           ("an async iterable", (source((a, b)),)), ("an async iterable with a key twice", (source((a, a, b)),)),
           ("an awaited list", (later(listed(a, b)),)), ("an awaited async iterable", (later(source((a, b))),)),
           ("two lists with a key in common", (listed(a, b), listed(b))), ("two async iterables with a key in common", (source((a, b)), source((b, a)))),
           ("a list and an async iterable", (listed(a), source((b, a)))), ("an async iterable and a list", (source((b, a)), listed(a))),
           ("an empty list and a list", (listed(), listed(a, b))), ("an empty list and an async iterable", (listed(), source((a, b)))),
           ("an awaited empty list and an async iterable", (later(listed()), source((a, b)))), ("an empty async iterable and a list", (source(()), listed(a, b)))]
    out += [("an async iterable of three keys", (source((a, b, c)),))]
    if tier == "thorough":
        out += [("three lists", (listed(a), listed(b, a), listed(c))), ("three async iterables", (source((a,)), source((b, a)), source((c, a)))),
                ("a list, an awaited list and an async iterable", (listed(c), later(listed(a, c)), source((b, a))))]
    return out


def keys_of(its):
    out = []
    for v in its:
        v = v[2] if v[:2] == ("tok", "later") else v
        for k in (v[3] if v[:2] == ("tok", "source") else v[1]):
            if k not in out:
                out.append(k)
    return out


KWARG = ("tok", "kwarg value")
KWARGS = ("kd", "kwargs")
GIVEN = {("kd", "kwargs", ""): ("kdc", ((const("kwarg"), KWARG),), ())}


def starts(ctx, m, cls, clsid):
    f = m.find_method(cls, "__init__")
    sets = [(l, i, None) for l, i in iterable_sets(ctx.tier)]
    a, b, _ = KEYS
    sets += [("an async iterable which fails after a key", (source((a,), LOADFAIL),), LOADFAIL), ("an async iterable which fails and a list", (source((), LOADFAIL), listed(a)), LOADFAIL)]
    for conc in (NONE, const(2)):
        for label, its, end in sets:
            cl = Build(m, cls, clsid, conc)
            ex = drive(ctx, cl, f, {"wrapped_func": FN, "iterables": ("vararg", its), "name": const(""), "concurrency": conc, "wrapped_func_kwargs": KWARGS}, GIVEN)
            bad = judge_starts(ctx, cl, f, ex, its, end, conc)
            ctx.ob("starts", "%s, concurrency %s" % (label, show(conc)), bad is None, L.where(f), bad[0] if bad else "", path(bad[1]) if bad else ())
    for conc in (NONE, const(2)):
        for fail in (None, USER, CANCEL):
            cl = Build(m, cls, clsid, conc)
            ex = drive(ctx, cl, f, {"wrapped_func": FN, "iterables": ("vararg", (listed(a, b),)), "name": const(""), "concurrency": conc, "wrapped_func_kwargs": KWARGS}, GIVEN)
            bad = None
            for e in ex:
                for e2 in loads(cl, f, e):
                    for k, c in [(k, x[1]) for k, x in zip((a, b), [x for x in e2.st.ts if x[0] == "start"])]:
                        cl.failing = fail
                        n0 = len(e2.st.ts)
                        out = cl.it.await_value(e2.st, c, f)
                        cl.failing = None
                        for e3 in out:
                            if fail is None and (e3.kind != "return" or e3.value != ("tok", "outcome", (k,), (("kwarg", KWARG),))):
                                bad = bad or ("the task of %s gives %s" % (show(k), show(e3.value)), e3)
                            if fail is not None and (e3.kind != "raise" or e3.value != fail):
                                bad = bad or ("gives %s when the function raises %s" % (show(e3.value), show(fail)), e3)
                            if not any(x == ("set",) for x in e3.st.ts[n0:]):
                                bad = bad or ("ends without waking who waits for the next task", e3)
                        if not out:
                            bad = bad or ("never ends", e2)
            ctx.ob("outcome", "%s, concurrency %s" % ("the function returns" if fail is None else "the function raises %s" % show(fail), show(conc)), ex and bad is None, L.where(f), bad[0] if bad else "", path(bad[1]) if bad else ())


def loads(cl, f, e):
    """exits of the loader started during construction"""
    out = []
    for x in e.st.ts:
        if x[0] == "loader":
            out += cl.it.await_value(e.st, x[1], f)
    return out


def judge_starts(ctx, cl, f, ex, its, end, conc):
    if not ex:
        return "never ends", None
    want = keys_of(its)
    for e in ex:
        if e.kind != "return":
            return "raises %s" % show(e.value), e
        if sum(1 for x in e.st.ts if x[0] == "loader") != 1:
            return "starts %d loaders" % sum(1 for x in e.st.ts if x[0] == "loader"), e
        outs = loads(cl, f, e)
        if not outs:
            return "the loader never ends", e
        for e2 in outs:
            st = [x[1] for x in e2.st.ts if x[0] == "start"]
            keys = [key_of(x) for x in st]
            if end is not None:
                if e2.kind != "raise" or e2.value != end:
                    return "the loader gives %s instead of the iterable's failure" % show(e2.value), e2
                if len(set(keys)) != len(keys) or any(k not in want for k in keys):
                    return "starts %s" % [show(k) for k in keys], e2
                continue
            if e2.kind != "return":
                return "the loader raises %s" % show(e2.value), e2
            if sorted(keys, key=repr) != sorted(want, key=repr):
                return "starts tasks for %s instead of %s" % ([show(k) for k in keys], [show(k) for k in want]), e2
            held = e2.st.heap[("kd", "mapping", "")][1]
            if sorted(held, key=repr) != sorted(((k, task(i)) for i, k in enumerate(keys)), key=repr):
                return "holds %s" % [(show(k), show(t)) for k, t in held], e2
            put = [x[1] for x in e2.st.ts if x[0] == "put"]
            if len(put) != len(want):
                return "announces %d keys" % len(put), e2
            q = {x[1] for x in e2.st.ts if x[0] == "queue"}
            if q != ({conc} if conc != NONE else set()):
                return "uses a queue of %s workers" % [show(x) for x in q], e2
    return None


def key_of(c):
    """the key a started coroutine was made for"""
    if c[0] == "coro" and c[3]:
        return c[3][0]
    if c[:2] == ("tok", "running") and c[2]:
        return c[2][0]
    return c


def lookup(ctx, m, cls, clsid):
    f = m.find_method(cls, "__getitem__")
    if f is None:
        raise AnalysisError("TaskMapping.__getitem__ vanished")
    it = None
    for k, there in ((KEYS[0], True), (KEYS[1], False)):
        cl = Env(m, cls, clsid, n=1, pre=1, loader="none")
        ex = drive(ctx, cl, f, {f.params()[1]: k})
        bad = None
        for e in ex:
            i = KEYS.index(k)
            started = cl.env(e.st)[0]
            if e.kind != "return" or e.value != task(i):
                bad = ("gives %s" % show(e.value), e)
            elif any(x[0] == "again" for x in e.st.ts):
                bad = ("starts the key again", e)
            elif (KEYS[i], task(i)) not in e.st.heap[("kd", "mapping", "")][1]:
                bad = ("does not hold the task", e)
        ctx.ob("lookup", "mapping[key], the key is %s" % ("there" if there else "new"), ex and bad is None, L.where(f), bad[0] if bad else "", path(bad[1]) if bad else ())


def consume(ctx, m, cls, clsid, cl, what, pop):
    """exits of one way of iterating: (function, exits)"""
    if what in ("async for", "map"):
        f = m.find_method(cls, "__aiter__" if what == "async for" else "map")
        args = {"pop": const(pop)}
        if what == "map":
            args.update({"iterables": ("vararg", ()), "yields": const("both")})
        return f, drive(ctx, cl, f, args)
    g = m.find_method(cls, what)
    out = []
    f = g
    for e in drive(ctx, cl, g, {"pop": const(pop)}):
        view = e.value
        c = cl.it.typeof(e.st, view)
        f = m.find_method(c, "__aiter__") if c is not None else None
        if f is None:
            raise AnalysisError("TaskMapping.%s() gives %s" % (what, show(view)))
        it = Interp(m, cl, max_inline=12, keep_heap_on_await=True, inline_new=True, max_states=3000000)
        cl.it = it
        ex = it.run(f, cls=c, args={f.params()[0]: view}, heap=e.st.heap, facts={("type", MAP): clsid})
        ctx.analysed(it, f, ex)
        out += ex
    return f, out


def deliver(ctx, m, cls, clsid, what, pop, label, kw, n):
    cases = [("", {}, None)]
    if what != "keys":
        cases += [(", %s fails" % show(KEYS[i]), {i: USER}, None) for i in range(n)]
        cases += [(", %s is cancelled" % show(KEYS[0]), {0: CANCEL}, None)]
    if kw.get("loader", "running") == "running":
        cases += [(", an iterable fails", {}, k) for k in range(kw.get("pre", 0), n)]
    for more, fails, loadfail in cases:
        cl = Env(m, cls, clsid, fails=fails, loadfail=loadfail, **kw)
        f, ex = consume(ctx, m, cls, clsid, cl, what, pop)
        want = [{"keys": KEYS[i], "values": res(i)}.get(what, ("tuple", (KEYS[i], res(i)))) for i in range(n)]
        bad = judge(ex, want, list(fails.values()) + ([LOADFAIL] if loadfail is not None else []), pop)
        ctx.ob("failed" if more else "delivered", "%s, pop=%s: %s%s%s" % (what, pop, label, more, " after %d" % loadfail if loadfail is not None else ""), bad is None, L.where(f), bad[0] if bad else "", path(bad[1]) if bad else ())


def maps(ctx, m, cls, clsid):
    f = m.find_method(cls, "map")
    a, b, _ = KEYS
    for pop in (False, True):
        sets = [(l, i, None) for l, i in iterable_sets(ctx.tier)] + [("an empty list", (listed(),), None)]
        sets += [("an async iterable which fails after a key", (source((a,), LOADFAIL),), LOADFAIL)]
        for label, its, end in sets:
            keys = keys_of(its)
            for mode in ("both", "keys"):
                for conc in (NONE, const(2)):
                    for fails in ({}, {0: USER}):
                        if fails and (mode == "keys" or not keys) or conc != NONE and (mode == "keys" or fails):
                            continue
                        cl = Env(m, cls, clsid, loader="none", fails=fails, concurrency=conc)
                        ex = drive(ctx, cl, f, {"iterables": ("vararg", its), "pop": const(pop), "yields": const(mode)})
                        want = [KEYS[i] if mode == "keys" else ("tuple", (KEYS[i], res(i))) for i in range(3) if KEYS[i] in keys]
                        bad = judge(ex, want, list(fails.values()) + ([end] if end else []), pop)
                        ctx.ob("map", "%s, pop=%s, yields=%s, concurrency %s%s" % (label, pop, mode, show(conc), ", the first key fails" if fails else ""), bad is None, L.where(f),
                               bad[0] if bad else "", path(bad[1]) if bad else ())


def whole(ctx, m, cls, clsid):
    f = m.find_method(cls, "gather")
    for label, kw, n in environments(ctx.tier):
        for loadfail in [None] + ([0] if kw.get("loader", "running") == "running" and not kw.get("pre") else []):
            cl = Env(m, cls, clsid, loadfail=loadfail, **kw)
            ex = drive(ctx, cl, f, {"return_exceptions": FALSE, "exclude_if": NONE, "tqdm": FALSE, "tqdm_kwargs": ("kw", (), ())})
            bad = None
            for e in ex:
                if loadfail is not None:
                    if e.kind != "raise" or e.value != LOADFAIL:
                        bad = ("gives %s when an iterable fails" % show(e.value), e)
                elif e.kind != "return" or e.value[:2] != ("tok", "gathered"):
                    bad = ("gives %s" % show(e.value), e)
                elif sorted(k for k, _ in e.value[2]) != sorted(KEYS[:n]):
                    bad = ("gathers only %s" % [show(k) for k, _ in e.value[2]], e)
            ctx.ob("whole", "gather: %s%s" % (label, ", an iterable fails" if loadfail is not None else ""), ex and bad is None, L.where(f), bad[0] if bad else "", path(bad[1]) if bad else ())
