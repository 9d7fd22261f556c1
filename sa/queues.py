"""Processing queues: what a put enqueues, followed through _get into the worker loop."""
from .lib import *
from . import locks as L

MOD = "a_sync.primitives.queue"
CLASSES = ("ProcessingQueue", "PriorityProcessingQueue", "SmartProcessingQueue")
ARGS, KW, FUT, PRIO = ("tok", "args"), ("tok", "kwargs"), ("tok", "fut"), ("tok", "prio")
STABLE = ("_no_futs", "_closed", "func", "num_workers")


def forget(st, v):
    """what was found out about the value before does not hold for the one it stands for now"""
    return st.but(facts={k: b for k, b in st.facts.items() if not contains(k, v)})


def enqueue_payload(ev):
    """the item handed to the asyncio queue underneath, or None"""
    if ev.kind != "call" or ev.callee[0] != "attr" or callee_attr(ev) not in ("put_nowait", "put"):
        return None
    b, a = callee_base(ev), ev.args
    if b[0] in ("class", "ext") and a and a[0][0] == "self":
        return a[1] if len(a) == 2 else None
    if b[0] == "super":
        return a[0] if len(a) == 1 else None
    return None


def raw_put(ev):
    return ev.kind == "call" and ((callee_attr(ev) == "_put" and callee_base(ev) is not None and callee_base(ev)[0] in ("self", "super", "class")) or (
        callee_base(ev) is not None and callee_base(ev)[0] == "attr" and callee_base(ev)[2] == "_queue" and callee_attr(ev) in L.MUT | {"extendleft"}) or (
        L.opname(ev.callee) in ("heappush",)))


def modes(c):
    return (False,) if c.name == "SmartProcessingQueue" else (False, True)


def no_futs(c, flag):
    return {("truthy", ("attr", ("self", c.id), "_no_futs")): flag}


class Put(Client):
    """records what a way of adding work does"""
    branches = True

    def __init__(self):
        self.puts = []

    def event(self, st, ev):
        p = enqueue_payload(ev)
        add = lambda x: st.but(ts=(st.ts + (x,))[:12]).note("%s %s" % (ev.loc, x[0]))
        if p is not None:
            if callee_attr(ev) == "put":
                return add(("badput", callee_attr(ev), show(callee_base(ev))))
            return add(("put", p))
        if raw_put(ev):
            return add(("rawput",))
        if ev.kind == "call" and callee_attr(ev) in ("put", "put_nowait") and callee_base(ev) is not None and callee_base(ev)[0] == "self" and ev.target is None:
            return add(("badput", callee_attr(ev), "self"))
        if ev.kind == "prop" and ev.name == "_workers":
            return add(("workers",)) if ("workers",) not in st.ts else None
        if ev.kind == "setitem" and ev.base[0] == "attr" and ev.base[2] == "_futs":
            return add(("register", ev.index, ev.value))
        if ev.kind == "call" and callee_base(ev) is not None and callee_base(ev)[0] == "attr" and callee_base(ev)[2] == "_futs" \
                and callee_attr(ev) in ("pop", "clear", "setdefault", "update", "popitem", "__setitem__"):
            return add(("futs", callee_attr(ev)) + tuple(ev.args))
        if ev.kind == "delitem" and ev.base[0] == "attr" and ev.base[2] == "_futs":
            return add(("futs", "del", ev.index))
        return None

    def raises(self, st, ev):
        return ()

    def model(self, st, ev):
        fv = ev.callee if ev.kind == "call" else ("",)
        if (fv[0] == "attr" and fv[2] == "create_future") or fv == ("ext", "asyncio.Future") or fv[0] == "class" and fv[1].endswith(":SmartFuture"):
            if fv[0] == "class":
                kw = dict(ev.kw)
                st = st.but(ts=(st.ts + (("futargs", kw.get("queue"), kw.get("key")),))[:12])
            st = st.but(ts=(st.ts + (("newfut",),))[:12]).note("%s creates a future" % ev.loc)
            if st.ts.count(("newfut",)) > 1:
                return [(st, ("tok", "fut%d" % st.ts.count(("newfut",))))]
            return [(st, FUT)]
        return None


def entries(m, c):
    """the ways of adding work"""
    return [(n, m.find_method(c, n)) for n in ("put", "put_nowait", "__call__") if m.find_method(c, n) is not None and m.find_method(c, n).module.name.startswith("a_sync")]


def subst(v, table):
    if v in table:
        return table[v]
    if isinstance(v, tuple):
        return tuple(subst(x, table) if isinstance(x, tuple) else x for x in v)
    return v


def star_normal(v):
    """(*args) packed again is args"""
    if isinstance(v, tuple) and v and v[0] == "vararg" and len(v[1]) == 1 and v[1][0][0] == "star":
        return star_normal(v[1][0][1])
    if isinstance(v, tuple) and v and v[0] == "tuple" and len(v[1]) == 1 and v[1][0][0] == "star" and v[1][0][1] == ("param", "*args"):
        return v[1][0][1]
    if isinstance(v, tuple) and v and v[0] == "kw" and len(v[1]) == 1 and v[1][0][0] is None:
        return star_normal(v[1][0][1])
    if isinstance(v, tuple):
        return tuple(star_normal(x) if isinstance(x, tuple) else x for x in v)
    return v


class Worker(Client):
    """One worker serving items with a given payload."""
    data = ('result',)
    branches = True
    model_raises = True

    def __init__(self, payload, futs, selfv, getter, smart):
        self.payload, self.futs, self.selfv, self.getter, self.smart = payload, futs, selfv, getter, smart
        self.func = ("attr", selfv, "func")
        self.gets = 0

    # -- the queue
    def is_get(self, v):
        if v[0] != "call" or v[2][0] != "attr" or v[2][2] != "get":
            return False
        b = v[2][1]
        return b == self.selfv or b[0] == "super" or (b[0] in ("class", "ext") and v[3][:1] == (self.selfv,))

    def popped(self, st, ev):
        """what _get() makes of the payload: [(state, value)]"""
        if self.getter is None:
            return [(st, self.payload)]
        it = ev.interp
        saved = it.stack
        it.stack = [self.getter]
        try:
            return it.inline(st, self.getter, self.selfv, [], [], None, [])
        finally:
            it.stack = saved

    def model(self, st, ev):
        g = L.tsget
        if ev.kind == "awaitval":
            v = ev.value
            if self.is_get(v):
                self.gets += 1
                out = []
                st = L.tsput(forget(st, ("tok", "result")), got=True, calls=0, outcome=None, resolved=0, done=0, skip=False, fut=True)
                for s, x in self.popped(st, ev):
                    out.append((s, x))
                return out
            if v[0] == "call" and v[2] == self.func:
                return [(L.tsput(st, outcome="ok"), ("tok", "result"))]
            return None
        fv = ev.callee
        if L.opname(fv) == "heappop":
            return [(st, self.payload)]
        if fv[0] == "new" and fv[2].endswith(":_SmartFutureRef") or fv[0] == "call" and L.opname(fv[2]) == "ref":
            if fv[3] and fv[3][0] == FUT:
                return [(L.tsput(st, fut=False), NONE), (st, FUT)]
        if fv == ("attr", FUT, "done"):
            return [(L.tsput(st, maydone=False), FALSE), (L.tsput(st, resolved=max(g(st, "resolved", 0), 1), wasdone=True), TRUE)]
        return None

    def raises(self, st, ev):
        g = L.tsget
        if ev.kind == "await":
            v = ev.value
            if v[0] == "call" and v[2] == self.func:
                return [(L.tsput(st, outcome="exc", maydone=True), ("exc", "Exception?", ev.loc)),
                        (L.tsput(st, outcome="cancel", maydone=True), ("exc", "CancelledError", ev.loc))]
            if self.is_get(v):
                return [(L.tsput(st, atget=True), ("exc", "CancelledError", ev.loc))]
            return [("exc", "CancelledError", ev.loc)]
        if ev.kind == "call":
            if ev.callee == self.func:
                return [(L.tsput(st, outcome="exc"), ("exc", "Exception?", ev.loc))]
            if ev.callee in (("attr", FUT, "set_result"), ("attr", FUT, "set_exception")) and g(st, "maydone", True):
                return [(L.tsput(st, resolved=max(g(st, "resolved", 0), 1)), ("exc", "InvalidStateError", ev.loc))]
        if ev.kind == "load" and ev.base == self.func:
            return [("exc", "AttributeError", ev.loc)]      # any callable can be the worker function
        return ()

    def settle(self, st, ev):
        """the worker turns to the next item"""
        g = L.tsget
        if not g(st, "got"):
            return st
        if self.futs and not g(st, "fut", True):
            if g(st, "calls", 0):
                st = L.err(st, ev, "once", "an abandoned request is run")
        elif g(st, "calls", 0) != 1:
            st = L.err(st, ev, "once", "an item is taken but the function is called %d times for it" % g(st, "calls", 0))
        elif self.futs and not g(st, "resolved", 0):
            st = L.err(st, ev, "future", "the future of an item stays pending (the call %s)" % {
                "ok": "returned", "exc": "raised", "cancel": "was cancelled", None: "was not awaited"}[g(st, "outcome")])
        if g(st, "done", 0) != 1:
            st = L.err(st, ev, "count", "task_done() is called %d times for an item" % g(st, "done", 0))
        return L.tsput(st, got=False)

    def event(self, st, ev):
        g = L.tsget
        k = ev.kind
        if g(st, "errs", ()):
            return None
        if k == "await" and self.is_get(ev.value):
            st = self.settle(st, ev)
            return L.tsput(st, got=False, calls=0, outcome=None, resolved=0, done=0, maydone=True, wasdone=False)
        if k == "await":
            return L.tsput(st, maydone=True)
        if k != "call":
            return None
        fv = ev.callee
        if fv == self.func:
            if ev.args != (("star", ARGS),) or tuple(ev.kw) != ((None, KW),):
                st = L.err(st, ev, "once", "the function is called with %s instead of the arguments given" % show_args(ev.args, ev.kw))
            return L.tsput(st, calls=min(g(st, "calls", 0) + 1, 2)).note("%s function called" % ev.loc)
        a, b = callee_attr(ev), callee_base(ev)
        if a == "task_done" and b in (self.selfv,) or (a == "task_done" and b is not None and b[0] in ("super", "class", "ext")):
            if not g(st, "got"):
                st = L.err(st, ev, "count", "task_done() without an item")
            return L.tsput(st, done=min(g(st, "done", 0) + 1, 3)).note("%s task_done()" % ev.loc)
        if b == FUT and a in ("set_result", "set_exception", "cancel"):
            o = g(st, "outcome")
            if a == "set_result" and (o != "ok" or ev.args != (("tok", "result"),)):
                return L.err(st, ev, "future", "the future gets %s as result, which is not the outcome of its call" % show_args(ev.args, ()))
            if a == "set_exception" and (o not in ("exc", "cancel") or not (ev.args and ev.args[0][0] == "exc")):
                return L.err(st, ev, "future", "the future gets %s as exception, which is not the outcome of its call" % show_args(ev.args, ()))
            if a == "cancel" and o != "cancel":
                return L.err(st, ev, "future", "the future is cancelled although its call was not")
            return L.tsput(st, resolved=min(g(st, "resolved", 0) + 1, 2)).note("%s future %s" % (ev.loc, a))
        return None


def worker_entry(ctx, c):
    """the coroutine every worker task runs: the value stored to _worker_coro by the constructor"""
    m = ctx.model
    init = m.find_method(c, "__init__")
    found = []

    def sel(st, ev):
        if ev.kind == "store" and ev.name == "_worker_coro":
            found.append(ev.value)
        return None
    ctx.run(init, Rec(sel), cls=c)
    vals = [v for i, v in enumerate(found) if v not in found[:i]]
    f = m.find_method(c, "_worker_coro")
    if not vals and f is not None:
        return ("bound", None, f)
    if len(vals) != 1:
        raise AnalysisError("%s: %d values for _worker_coro" % (c.name, len(vals)))
    return vals[0]


def payloads(ctx, c, flag):
    """[(payload, future returned)] over the paths of put_nowait that enqueue"""
    m = ctx.model
    f = m.find_method(c, "put_nowait")
    it = Interp(m, Put(), attr_stable=STABLE)
    ex = it.run(f, cls=c, facts=no_futs(c, flag))
    ctx.analysed(it, f, ex)
    out = []
    for e in ex:
        for t in e.ts:
            if t[0] == "put" and e.kind == "return":
                x = (star_normal(t[1]), e.value)
                if x not in out:
                    out.append(x)
    return f, ex, out


def to_tokens(p, fut, flag):
    table = {("param", "*args"): ARGS, ("param", "**kwargs"): KW, ("param", "priority"): PRIO}
    p = subst(p, {fut: FUT}) if not flag else p
    return subst(p, table)


def run_worker(ctx, c, flag, payload, facts=None):
    m = ctx.model
    v = worker_entry(ctx, c)
    selfv = ("self", c.id)
    getter = m.find_method(c, "_get")
    cl = Worker(payload, not flag, selfv, getter if getter is not None and getter.module.name.startswith("a_sync") else None, c.name.startswith("Smart"))
    it = Interp(m, cl, attr_stable=STABLE)
    init = m.find_method(c, "__init__")
    it.stack = [init]
    st = St({"self": selfv}, (), {**no_futs(c, flag), **(facts or {})}, {}, L.tsput(St({}, (), {}, {}, (), None), maydone=True).ts, None)
    if v[0] == "bound" and v[1] is None:
        v = ("bound", it.fid(v[2]), selfv)
    R = []
    rets = []
    for s, r in it.apply(st, v, [], [], None, R):
        for s2, r2 in it.do_await(s, r, None, R):
            rets.append((s2, r2))
    ctx.states += it.count
    ctx.paths += len(R) + len(rets)
    for k in it.inlined:
        ctx.funcs.add(k)
    return cl, rets, R
