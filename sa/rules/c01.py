"""Permit accounting over every path of acquire/release of each semaphore class (helpers inlined, coroutines
followed through their await, cancellation before and after the hand-over and closing injected at the wait):
V + granted - used + held_after - held_before must be 0 on each exit; nothing may be taken before the acquire
coroutine is awaited; the decorator and the modifier run the wrapped function only between acquire and release."""
from ..lib import *
from .. import locks as L

ASSUMPTIONS = [
    "asyncio futures and task cancellation behave as documented (a task cancelled while its future is pending has that future cancelled; cancelled after the future completed, the CancelledError is delivered with the future done)",
    "private state (_Semaphore__value, _Semaphore__waiters) is only touched by the analysed package (checked for the package itself)",
]


def check(ctx):
    m = ctx.model
    ctx.rule("conserve", "free + handed over + held permits is unchanged by every path of acquire/release", 8)
    ctx.rule("lazy", "calling acquire() without awaiting it changes neither permits nor waiters", 2)
    ctx.rule("guard", "a permit is only taken where one is known to be free", 4)
    ctx.rule("held", "a decorated function runs only while a permit is held, and the permit is returned on every exit", 2)
    ctx.rule("owner", "only the semaphore classes write the permit counter", 1)
    ctx.rule("init", "a new semaphore starts with exactly the configured number of permits", 1)
    for debug in (False, True):
        for mod, name, cl in ((L.SEM, "Semaphore", L.Sem), (L.SEM, "ThreadsafeSemaphore", L.Sem),
                              (L.PRIO, "_PrioritySemaphoreContextManager", L.Prio)):
            c = L.klass(m, mod, name)
            for op, before, after in (("acquire", 0, 1), ("__aenter__", 0, 1), ("release", 1, 0), ("__aexit__", 1, 0)):
                client = cl(debug=debug, noinline=("c_getitem",) if cl is L.Prio else ())
                f, sync, out = L.run_api(ctx, c, op, client, True)
                pr = L.judge(ctx, None, c, op, f, out, before, after, prio=cl is L.Prio)
                con = "%s.%s" % (name, op)
                for rule in ("conserve", "guard"):
                    p = pr.get(rule) or (pr.get("step") if rule == "conserve" else None)
                    ctx.ob(rule, con, p is None, L.where(f), p[0] if p else "", p[1].st.path() if p else ())
                if not out or not any(x.kind == "return" for x in out):
                    ctx.ob("conserve", con, False, L.where(f), "never returns")
                if op == "acquire":
                    for x in sync:
                        ok = x.kind == "raise" or (L.balance(x.st) == 0 and L.tsget(x.st, "fut") is None and x.value[0] in ("coro", "call", "new"))
                        ctx.ob("lazy", con, ok, L.where(f), "acquire() takes a permit or queues a waiter before it is awaited: an acquire that never starts leaks it",
                               x.st.path())
                    if not sync:
                        ctx.ob("lazy", con, True, L.where(f))
    # priority semaphore: every way in goes through one manager acquire, every way out through one release
    p = L.klass(m, L.PRIO, "PrioritySemaphore")
    for op, want in (("acquire", ("in",)), ("__aenter__", ("in",)), ("__aexit__", ("out",)), ("release", ("out",))):
        acq = {"c_acquire", "acquire", "__aenter__"}
        rel = {"c_release", "release", "__aexit__"}

        def sel(st, ev):
            if ev.kind == "call" and callee_attr(ev) in rel:
                if ev.target is not None and ev.interp.client.inline(ev.target) is False:
                    return "out"
            if ev.kind == "store" and ev.name == L.VALUE:
                return "out" if L.linear(ev.value)[1] > 0 else "in"
            if ev.kind == "await":
                v = ev.value
                if v[0] in ("coro", "call") and callee_attr(v) in acq:
                    return "in"
            return None
        f = m.find_method(p, op)
        c = Rec(sel, inline=lambda g: default_inline(g) and not (g.cls is not None and g.cls.name.endswith("ContextManager") and g.name in acq | rel)
                and g.name not in ("_c_wake_up_next", "_wake_up_next"))
        ex = ctx.run(f, c, cls=p, ts=())
        for x in ex:
            if x.kind == "return":
                s = x.ts
                if x.value[0] == "coro" and callee_attr(x.value) in acq:
                    s += ("in",)
                ctx.ob("conserve", "PrioritySemaphore." + op, s == want, L.where(f), "%s performs %s instead of one %s" % (op, list(s), want[0]), x.st.path())
    # decorator, modifier
    decorated(ctx)
    # who may write the counter
    n = 0
    fam = {k.id for k in all_classes(m) if any(b.name == "Semaphore" for b in m.mro(k))}
    for f in m.all_funcs():
        for node in own_nodes(f.node):
            t = None
            if isinstance(node, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for tt in (node.targets if isinstance(node, ast.Assign) else [node.target]):
                    for y in ast.walk(tt):
                        if isinstance(y, ast.Attribute) and mangle(f.cls.name if f.cls else "", y.attr) == L.VALUE:
                            t = y
            if t is None:
                continue
            n += 1
            ok = f.cls is not None and f.cls.id in fam
            ctx.ob("owner", "%s writes the permit counter" % f.qual, ok, "%s:%d" % (f.module.rel, node.lineno), "written outside the semaphore classes")
    # initial value
    c = L.klass(m, L.SEM, "Semaphore")
    f = m.find_method(c, "__init__")
    ex = ctx.run(f, Rec(lambda st, ev: (ev.value,) if ev.kind == "store" and ev.name == L.VALUE else None), cls=c, ts=())
    for x in ex:
        if x.kind == "return":
            ok = x.ts and x.ts[-1] == (("param", "value"),)
            ctx.ob("init", "Semaphore.__init__", ok, L.where(f), "permits start as %s" % [show(y[0]) for y in x.ts], x.st.path())


def all_classes(m):
    for mo in m.modules.values():
        yield from mo.classes.values()


class Hold(Client):
    """typestate: is the semaphore held while user code runs?"""
    branches = False

    def __init__(self, semv, fn):
        self.semv, self.fn = semv, fn

    def inline(self, f):
        return default_inline(f) and f.name not in ("acquire", "c_acquire", "release", "c_release", "__aenter__", "__aexit__")

    def event(self, st, ev):
        h = L.tsget(st, "held", 0)
        k = ev.kind
        if k in ("entered", "exit") and self.is_sem(ev.cm):
            return L.tsput(st, held=h + (1 if k == "entered" else -1), user=False if k == "exit" else L.tsget(st, "user", False)).note("%s %s semaphore" % (ev.loc, k))
        if k == "resumed" and ev.value[0] in ("coro", "call") and callee_attr(ev.value) in ("acquire", "c_acquire", "__aenter__") and self.is_sem(callee_base(ev.value)):
            return L.tsput(st, held=h + 1)
        if k == "call" and callee_attr(ev) in ("release", "c_release") and self.is_sem(callee_base(ev)):
            return L.tsput(st, held=h - 1)
        if k == "resumed" and ev.value[0] in ("coro", "call") and callee_attr(ev.value) == "__aexit__":
            return L.tsput(st, held=h - 1)
        if k == "call" and ev.callee == self.fn:
            n = L.tsget(st, "calls", 0)
            st = L.tsput(st, calls=min(n + 1, 3))
            if ev.args != (("star", ("param", "*args")),) or ev.kw != ((None, ("param", "**kwargs")),):
                st = L.tsput(st, badargs=show_args(ev.args, ev.kw))
            return st.note("%s wrapped function called" % ev.loc)
        if k == "await" and self.is_user(ev.value):
            if h < 1:
                return L.err(st, ev, "held", "the wrapped function runs without a permit")
            return st
        return None

    def is_sem(self, v):
        return v == self.semv or nos(v) == nos(self.semv)

    def is_user(self, v):
        return v[0] in ("call", "coro") and v[2] == self.fn

    def raises(self, st, ev):
        if ev.kind == "await":
            if self.is_user(ev.value):
                return [("exc", "CancelledError", ev.loc), ("exc", "Exception?", ev.loc)]
            if ev.value[0] in ("coro", "call") and callee_attr(ev.value) == "__aexit__" and self.is_sem(callee_base(ev.value)):
                return []
            return [("exc", "CancelledError", ev.loc)]
        if ev.kind == "enter":
            return [("exc", "CancelledError", ev.loc)]
        return ()


def nos(v):
    return L.nosite(v)


def decorated(ctx):
    m = ctx.model
    sem = L.klass(m, L.SEM, "Semaphore")
    fn = ("param", "fn")
    todo = []
    f = m.find_method(sem, "decorate")
    todo.append(("Semaphore.decorate", f, sem, ("self", sem.id), fn, {}))
    f2 = m.find_method(sem, "__call__")
    todo.append(("Semaphore.__call__", f2, sem, ("self", sem.id), fn, {}))
    mm = L.mods(m, "a_sync.a_sync.modifiers.semaphores")
    g = m.func("a_sync.a_sync.modifiers.semaphores", "apply_semaphore")
    cf, sv = ("param", g.params()[0]), ("param", g.params()[1] if len(g.params()) > 1 else "semaphore")
    todo.append(("apply_semaphore", g, None, sv, cf, {}))
    for name, f, cls, semv, fn, kw in todo:
        cl = Hold(semv, fn)
        it = Interp(m, cl)
        ex = it.run(f, cls=cls, ts=())
        n = 0
        ex = list(ex)
        for x in list(ex):      # a decorator factory: apply the decorator to the function
            if x.kind == "return" and x.value[0] == "fn" and not m_func(it, x.value).is_async:
                ex.remove(x)
                it.stack = [f]
                ex += [Exit("return", v, s) for s, v in it.apply(x.st, x.value, [fn], [], None, [])]
        for x in ex:
            if x.kind != "return" or x.value[0] != "fn":
                continue
            # the semaphore captured by the wrapper may be a fresh one built from an int
            n += 1
            cands = [semv] + sorted({v for k, v in x.value[2] if k in ("semaphore", "self", "sem")} - {semv}, key=repr)
            runs = []
            wf = m_func(it, x.value)
            for sv2 in cands:
                cl2 = Hold(sv2, fn)
                it2 = Interp(m, cl2)
                it2.stack = [f]
                R = []
                outs = it2.apply(x.st.but(ts=()), x.value, [("star", ("param", "*args"))], [(None, ("param", "**kwargs"))], wf.node, R)
                outs2 = []
                for s, v in outs:
                    outs2 += [(s2, "return", v2) for s2, v2 in it2.do_await(s, v, wf.node, R)]
                outs2 += [(s, "raise", e) for s, e in R]
                runs.append((it2, outs2))
            # the semaphore captured by the wrapper may be a fresh one built from an int
            used = [r for r in runs if any(L.tsget(s, "held") is not None for s, _, _ in r[1])] or runs[:1]
            for it2, outs2 in used:
                ctx.analysed(it2, f, outs2)
                for s, kind, v in outs2:
                    errs = L.tsget(s, "errs", ())
                    msg = errs[0][1] if errs else ""
                    if not msg and L.tsget(s, "held", 0) != 0:
                        msg = "the permit is not given back exactly once (%s %s)" % (kind, show(v))
                    if not msg and L.tsget(s, "calls", 0) != 1 and kind == "return":
                        msg = "the wrapped function is called %d times" % L.tsget(s, "calls", 0)
                    if not msg and L.tsget(s, "badargs"):
                        msg = "the wrapped function is called with %s" % L.tsget(s, "badargs")
                    if not msg and kind == "return" and not (v[0] == "awaited" and v[1][0] in ("call", "coro") and v[1][2] == fn):
                        msg = "the wrapper returns %s, not the awaited result" % show(v)
                    ctx.ob("held", name, not msg, L.where(f), msg, s.path())
        if not n:
            ok = any(x.kind == "return" and x.value[0] in ("call",) for x in ex)
            if not ok:
                raise AnalysisError("%s: no wrapper found" % name)


def m_func(it, v):
    return it.func_by_id(v[1])
