"""Heap/queue typestate of the priority semaphore over every path of acquire, release and wake-up (helpers inlined,
cancellation injected at the wait): the most urgent manager is popped first, its oldest waiter first, a popped
manager is put back or deregistered, waiters are queued on the registered manager of the requested priority, permits
are conserved on the parent; comparison and lookup use the priority the caller gave."""
from ..lib import *
from .. import locks as L

ASSUMPTIONS = [
    "heapq keeps the smallest element (by __lt__) at the front of a list only changed through heapq",
    "the package's own assert statements hold",
    "asyncio futures and cancellation behave as documented",
]
TEXT = {
    "conserve": "permits (free, handed over, held) are unchanged by every path",
    "guard": "a permit is only taken where one is known to be free",
    "heap": "the heap of managers changes through heapq only; a popped manager is put back iff it may still have waiters, else deregistered",
    "fifo": "within a priority waiters are queued at the tail and served from the head",
    "scan": "a wake-up passes over a waiter only when it is known to be finished",
    "barge": "a permit is taken directly only when nobody is waiting",
    "wake": "whenever a permit becomes free the waiters are looked at before the operation ends",
    "queue": "a waiter is queued once and no live waiter is left behind",
}


def check(ctx):
    m = ctx.model
    for k, t in TEXT.items():
        ctx.rule(k, t, 4)
    ctx.rule("tracked", "every container a wake-up removes a waiter from is one acquire put it into", 1)
    ctx.rule("registered", "a waiter is queued on the manager registered with the parent for its priority", 1)
    ctx.rule("register", "a manager is registered and pushed on the heap together, under the priority it carries", 1)
    ctx.rule("priority", "the manager handed out carries exactly the priority asked for; None means the top priority", 2)
    ctx.rule("order", "managers are ordered by their priority, smaller first", 1)
    mgr = L.klass(m, L.PRIO, "_PrioritySemaphoreContextManager")
    par = L.klass(m, L.PRIO, "PrioritySemaphore")
    needs, tracked = set(), None
    for debug in (False, True):
        for c, ops in ((mgr, (("acquire", 0, 1), ("__aenter__", 0, 1), ("release", 1, 0), ("__aexit__", 1, 0))),
                       (par, (("acquire", 0, 1), ("__aenter__", 0, 1), ("release", 1, 0), ("__aexit__", 1, 0)))):
            for op, before, after in ops:
                cl = L.Prio(debug=debug, noinline=("c_getitem",))
                cl.parent_id = par.id
                f, sync, out = L.run_api(ctx, c, op, cl, True)
                out = [settled(cl, x) for x in out if not (x.kind == "raise" and x.value[0] == "new" and x.value[2].endswith("AssertionError"))]
                pr = L.judge(ctx, None, c, op, f, out, before, after, prio=True)
                con = "%s.%s" % (c.name, op)
                for rule in TEXT:
                    p = pr.get(rule) or (pr.get("step") if rule == "conserve" else None)
                    ctx.ob(rule, con, p is None, L.where(f), p[0] if p else "", p[1].st.path() if p else ())
                for x in out:
                    needs |= set(L.tsget(x.st, "needs", ()))
                    if before == 0 and L.tsget(x.st, "fut") is not None:
                        t = set(L.tsget(x.st, "tracked", ()))
                        tracked = t if tracked is None else tracked & t
                        ctx.ob("registered", con, bool(L.tsget(x.st, "reg")), L.where(f),
                               "the waiter is queued on a manager that may not be the registered one", x.st.path())
                if before == 0:
                    ctx.ob("registered", con, any(L.tsget(x.st, "fut") is not None for x in out), L.where(f), "no path queues a waiter")
    for n in sorted(needs):
        ctx.ob("tracked", n, n in (tracked or ()), "", "wake-up removes the waiter from %s but acquire does not put it there on every path" % n)
    ctx.ob("tracked", "all", True)
    lookup(ctx, m, par)
    order(ctx, m, mgr)
    init(ctx, m, mgr, par)


def settled(cl, x):
    if L.tsget(x.st, "mgr") is not None:
        ev = Ev("end", None, None, {}, None)
        return Exit(x.kind, x.value, cl.settle(x.st, ev))
    return x


def strip(v):
    """drop conversions that keep the value"""
    while isinstance(v, tuple) and v and v[0] == "call" and v[2] in (("ext", "builtins.int"),) and len(v[3]) == 1:
        v = v[3][0]
    return v


def lookup(ctx, m, par):
    f = m.find_method(par, "__getitem__")
    p = ("param", f.params()[1])
    top = []
    for none in (True, False):
        facts = {("is", p, NONE): none, ("truthy", p): False} if none else {("is", p, NONE): False}

        def sel(st, ev):
            if ev.kind == "setitem" and ev.base[0] == "attr" and ev.base[2] == "_context_managers":
                return ("reg", strip(ev.index), ev.value)
            if ev.kind == "call" and ev.callee == ("ext", "heapq.heappush") and len(ev.args) == 2:
                return ("push", ev.args[1])
            if ev.kind == "call" and ev.callee[0] == "class" and ev.callee[1].endswith("ContextManager") or ev.kind == "call" and callee_attr(ev) == "_context_manager_class":
                a = list(ev.args) + [v for k, v in ev.kw if k == "priority"]
                pr = dict(ev.kw).get("priority", ev.args[1] if len(ev.args) > 1 else NONE)
                pa = dict(ev.kw).get("parent", ev.args[0] if ev.args else NONE)
                return ("make", strip(pr), pa)
            return None
        ex = ctx.run(f, Rec(sel), cls=par, ts=(), facts=facts)
        for x in ex:
            if x.kind != "return":
                continue
            d = {}
            for t in x.ts:
                d.setdefault(t[0], []).append(t[1:])
            v = x.value
            if "make" in d:
                pr, pa = d["make"][0]
                ok = len(d.get("push", ())) == 1 and len(d.get("reg", ())) == 1 and len(d["make"]) == 1
                ctx.ob("register", "PrioritySemaphore.__getitem__", ok, L.where(f), "a new manager is not pushed and registered exactly once each", x.st.path())
                if ok:
                    key, val = d["reg"][0]
                    ctx.ob("register", "PrioritySemaphore.__getitem__", key == pr and val == d["push"][0][0], L.where(f),
                           "registered under %s, built for %s" % (show(key), show(pr)), x.st.path())
                ctx.ob("register", "PrioritySemaphore.__getitem__", pa == ("self", par.id), L.where(f), "the manager belongs to %s" % show(pa), x.st.path())
                ctx.ob("register", "PrioritySemaphore.__getitem__", v == (d["reg"][0][1] if "reg" in d else None) or v[0] == "item", L.where(f), "another manager is returned", x.st.path())
                if v[0] == "item":
                    ctx.ob("priority", "PrioritySemaphore.__getitem__", strip(v[2]) == pr, L.where(f), "manager %s returned for %s" % (show(v[2]), show(pr)), x.st.path())
            else:
                ctx.ob("priority", "PrioritySemaphore.__getitem__", v[0] in ("item",) or v[0] == "call" and callee_attr(v) == "get", L.where(f), "returns %s" % show(v), x.st.path())
                pr = strip(v[2]) if v[0] == "item" else strip(v[3][0]) if v[0] == "call" and v[3] else None
            if none:
                top.append(pr)
                ok = is_const(pr) or pr == ("attr", ("self", par.id), "_top_priority")
                ctx.ob("priority", "PrioritySemaphore.__getitem__[None]", ok, L.where(f), "None is looked up as %s" % show(pr), x.st.path())
            else:
                ctx.ob("priority", "PrioritySemaphore.__getitem__[given]", pr == p, L.where(f), "the priority given is looked up as %s" % show(pr), x.st.path())
    # the parent itself uses the same top priority
    i = m.find_method(par, "__init__")
    tops = set()
    it = Interp(m, Rec(lambda st, ev: ("top", ev.value) if ev.kind == "store" and ev.name == "_top_priority" else None))
    for x in it.run(i, cls=par, ts=()):
        tops |= {t[1] for t in x.ts}
    ctx.analysed(it, i)
    want = {t for t in top if is_const(t)}
    ctx.ob("priority", "top priority", len(tops) == 1 and want <= tops, L.where(i), "top priority is %s but None means %s" % (
        sorted(map(show, tops)), sorted(map(show, want))))


def order(ctx, m, mgr):
    for c in m.mro(mgr):
        f = c.methods.get("__lt__")
        if f is None:
            continue
        o = ("param", f.params()[1])
        s = ("self", c.id)
        it = Interp(m, Client())
        ex = it.run(f, cls=c)
        ctx.analysed(it, f, ex)
        n = 0
        for x in ex:
            if x.kind != "return":
                continue
            v = x.value
            n += 1
            ok = False
            if v[0] == "cmp":
                l, r = strip(v[2]), strip(v[3])
                a, b = ("attr", s, "_priority"), ("attr", o, "_priority")
                ok = v[1] == "Lt" and (l, r) == (a, b) or v[1] == "Gt" and (l, r) == (b, a)
            ctx.ob("order", "%s.__lt__" % c.name, ok, L.where(f), "orders by %s" % show(v), x.st.path())
        ctx.ob("order", "%s.__lt__" % c.name, n > 0, L.where(f), "never returns")


def init(ctx, m, mgr, par):
    """the manager stores the parent and priority it is given"""
    f = m.find_method(mgr, "__init__")
    names = f.params()
    it = Interp(m, Rec(lambda st, ev: (ev.name, strip(ev.value)) if ev.kind == "store" and ev.name in ("_priority", "_parent") else None))
    ex = it.run(f, cls=mgr, ts=())
    ctx.analysed(it, f, ex)
    for x in ex:
        if x.kind == "return":
            d = dict(x.ts)
            ctx.ob("priority", "manager.__init__", d.get("_priority") == ("param", "priority") and d.get("_parent") == ("param", "parent"), L.where(f),
                   "stores %s" % {k: show(v) for k, v in d.items()}, x.st.path())
