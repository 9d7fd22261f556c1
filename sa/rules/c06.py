"""Loop binding and thread separation: decision table of the loop getter, origin of every future the primitives park
a waiter on, no loop lookup at construction, and the object every ThreadsafeSemaphore operation acts on."""
from ..lib import *
from .. import locks as L

ASSUMPTIONS = ["python >= 3.10 (the loop parameter no longer exists)", "threading.current_thread identifies the calling thread"]
DBG = "a_sync.primitives._debug"
GETTERS = {"_c_get_loop", "_get_loop", "get_running_loop"}
RUNNING = {"asyncio.get_running_loop", "asyncio._get_running_loop", "asyncio.events._get_running_loop", "asyncio.events.get_running_loop"}
LOCKMODS = ("a_sync.primitives.locks.semaphore", "a_sync.primitives.locks.event", "a_sync.primitives.locks.counter",
            "a_sync.primitives.locks.prio_semaphore", DBG, "a_sync.primitives.queue", "a_sync.primitives._loggable")


def check(ctx):
    m = ctx.model
    ctx.rule("getter", "the loop getter returns the running loop, binds the first one and refuses any other", 3)
    ctx.rule("running", "the running loop is the one asyncio reports for the calling thread", 1)
    ctx.rule("park", "every waiter's future is created on the loop the getter returns", 3)
    ctx.rule("construct", "constructing a primitive neither looks up nor binds a loop", 3)
    ctx.rule("thread", "every ThreadsafeSemaphore operation acts on the calling thread's own semaphore", 6)
    ctx.rule("limit", "each thread's semaphore is built with the configured limit", 1)
    getter(ctx, m)
    park(ctx, m)
    construct(ctx, m)
    threads(ctx, m)


def getter(ctx, m):
    c = L.klass(m, DBG, "_LoopBoundMixin")
    f = m.find_method(c, "_c_get_loop") or m.find_method(c, "_get_loop")
    s = ("self", c.id)

    def is_running(v):
        return v[0] == "call" and (callee_attr(v) == "_get_running_loop" or v[2][0] == "func" and "_get_running_loop" in v[2][1] or v[2][0] == "ext" and v[2][1] in RUNNING)

    class Cl(Client):
        def inline(self, g):
            return g.name not in ("_get_running_loop", "get_event_loop", "get_logger")

        def event(self, st, ev):
            if ev.kind == "entered":        # taking a lock may block: other threads run
                return ev.interp.suspend(st)
            if ev.kind == "store" and ev.name.endswith("__loop"):
                if not is_running(ev.value):
                    return L.err(st, ev, "getter", "binds %s" % show(ev.value))
                cur = ("attr", ev.base, ev.name)
                if st.facts.get(("is", cur, NONE)) is not True and st.facts.get(("truthy", cur)) is not False:
                    return L.err(st, ev, "getter", "a bound primitive is bound again")
                return L.tsput(st, bound=True)
            return None
    it = Interp(m, Cl())
    ex = it.run(f, cls=c, ts=())
    ctx.analysed(it, f, ex)
    kinds = set()
    for x in ex:
        st = x.st
        for r, msg in L.tsget(st, "errs", ()):
            ctx.ob("getter", "_c_get_loop", False, L.where(f), msg, st.path())
        # facts about the running loop
        none = None
        for k, b in st.facts.items():
            if k[0] == "is" and is_running(k[1]) and k[2] == NONE:
                none = b
            if k[0] == "truthy" and is_running(k[1]):
                none = not b
        same = None
        for k, b in st.facts.items():
            if k[0] in ("is", "eq") and (is_running(k[1]) and k[2] != NONE or is_running(k[2])):
                same = b
        bound = L.tsget(st, "bound")
        if bound and same is None:
            same = True
        if x.kind == "raise":
            kinds.add("refuse")
            ctx.ob("getter", "_c_get_loop refuses", none is False and same is False, L.where(f), "refuses the loop it is bound to, or outside any loop", st.path())
            continue
        v = x.value
        if none is True:
            kinds.add("none")
            ctx.ob("getter", "_c_get_loop idle", v[0] == "call" and callee_attr(v) == "get_event_loop" or v[0] == "call" and "get_event_loop" in str(v[2]), L.where(f), "outside a loop returns %s" % show(v), st.path())
        else:
            kinds.add("run")
            ok = is_running(v) or (same and v[0] == "attr" and v[2].endswith("__loop"))
            ctx.ob("getter", "_c_get_loop returns", ok, L.where(f), "inside a loop returns %s" % show(v), st.path())
            ctx.ob("getter", "_c_get_loop checks", same is True, L.where(f), "a running loop is used without being compared with the bound one", st.path())
    ctx.ob("getter", "_c_get_loop", {"refuse", "run"} <= kinds, L.where(f), "never %s" % ({"refuse", "run"} - kinds))
    g = m.func(DBG, "_get_running_loop")
    if g is None:
        used = any(isinstance(n, ast.Attribute) and n.attr in ("get_running_loop", "_get_running_loop") for n in own_nodes(f.node))
        ctx.ob("running", "_get_running_loop", used, L.where(f), "the running loop is not asked from asyncio")
    else:
        it = Interp(m, Client())
        ex = it.run(g)
        ctx.analysed(it, g, ex)
        for x in ex:
            if x.kind != "return" or x.value == NONE:
                continue
            v = x.value
            ok = v[0] == "call" and v[2][0] == "ext" and v[2][1] in RUNNING
            pid = v[0] == "item" and v[1] == ("ext", "asyncio.events._running_loop.loop_pid") and v[2] == const(0)
            ctx.ob("running", "_get_running_loop reads loop_pid" if pid else "_get_running_loop", ok, L.where(g), "the loop comes from %s, which the C implementation of asyncio never sets" % show(v), x.st.path())
        if not any(x.kind == "return" and x.value != NONE for x in ex):
            ctx.ob("running", "_get_running_loop", False, L.where(g), "always answers that no loop is running")


def park(ctx, m):
    """every create_future() in the lock modules"""
    n = 0
    for c in [k for mod in LOCKMODS[:5] for k in L.mods(m, mod).classes.values()]:
        for f in list(c.methods.values()):
            if not any(isinstance(x, ast.Attribute) and x.attr == "create_future" or isinstance(x, ast.Name) and x.id == "create_future"
                       for x in ast.walk(f.node)):
                continue

            def sel(st, ev):
                if ev.kind == "call" and callee_attr(ev) == "create_future":
                    return ("fut", callee_base(ev))
                if ev.kind == "call" and ev.callee[0] in ("class", "ext") and str(ev.callee[1]).endswith("Future") and not ev.callee[1].startswith("?"):
                    return ("raw", ev.callee)
                return None
            cl = Rec(sel, inline=lambda g: g.name not in GETTERS and default_inline(g))
            it = Interp(m, cl)
            ex = it.run(f, cls=c, ts=())
            ctx.analysed(it, f, ex)
            seen = {t for x in ex for t in x.ts}
            for t in sorted(seen, key=repr):
                n += 1
                b = t[1]
                ok = t[0] == "fut" and b[0] == "call" and (callee_attr(b) in GETTERS or b[2][0] in ("ext", "func") and b[2][1].split("#")[0].split(":")[-1].split(".")[-1] in GETTERS)
                ctx.ob("park", f.qual, ok, L.where(f), "a waiter's future is created on %s" % show(b))


def construct(ctx, m):
    for mod, names in ((L.SEM, ("Semaphore", "ThreadsafeSemaphore", "DummySemaphore")), (L.PRIO, ("PrioritySemaphore", "_PrioritySemaphoreContextManager")),
                       ("a_sync.primitives.locks.event", ("CythonEvent",)), ("a_sync.primitives.locks.counter", ("CounterLock",))):
        for name in names:
            c = L.klass(m, mod, name)
            for meth in ("__cinit__", "__init__"):
                f = m.find_method(c, meth)
                if f is None:
                    continue

                class Cl(Client):
                    def inline(self, g):
                        return g.name not in ("get_event_loop", "_get_running_loop", "get_logger")

                    def event(self, st, ev):
                        if ev.kind == "call":
                            t = callee_attr(ev) or (ev.callee[1].split("#")[0].split(".")[-1].split(":")[-1] if ev.callee[0] in ("ext", "func") else "")
                            if t in ("get_event_loop", "get_running_loop", "_get_running_loop", "create_future", "new_event_loop"):
                                return L.err(st, ev, "construct", "calls %s" % t)
                        return None

                    def model(self, st, ev):
                        return None
                it = Interp(m, Cl())
                ver = ("ext", "sys.version_info")
                facts = {}
                for a in ((3, 10),):
                    t = ("tuple", (const(3), const(10)))
                    facts[("lt", ver, t)] = False
                ex = it.run(f, cls=c, ts=(), facts=facts)
                ctx.analysed(it, f, ex)
                bad = next((x for x in ex if L.tsget(x.st, "errs")), None)
                ctx.ob("construct", "%s.%s" % (name, meth), bad is None, L.where(f), "construction %s" % (L.tsget(bad.st, "errs")[0][1] if bad else ""), bad.st.path() if bad else ())


OPS = {"acquire": ("acq",), "c_acquire": ("acq",), "release": ("rel",), "c_release": ("rel",), "__aenter__": ("acq",), "__aexit__": ("rel",),
       "locked": ("locked",), "c_locked": ("locked",)}
KIND = {"acquire": "acq", "c_acquire": "acq", "__aenter__": "acq", "release": "rel", "c_release": "rel", "__aexit__": "rel", "locked": "locked", "c_locked": "locked"}


def threads(ctx, m):
    c = L.klass(m, L.SEM, "ThreadsafeSemaphore")
    s = ("self", c.id)

    def own(v):
        """the calling thread's semaphore, or the dummy"""
        if v == ("attr", s, "dummy"):
            return True
        def cur(k):
            return k[0] == "call" and k[2][0] == "ext" and k[2][1] in ("threading.current_thread", "threading.get_ident", "threading.currentThread") and not k[3]
        if v[0] == "item" and v[1] == ("attr", s, "semaphores"):
            return cur(v[2])
        if v[0] == "call" and callee_attr(v) in ("get", "setdefault", "__getitem__") and callee_base(v) == ("attr", s, "semaphores"):
            return cur(v[3][0])
        return False

    class Cl(Client):
        def inline(self, f):
            return default_inline(f)

        def event(self, st, ev):
            if ev.kind in ("store",) and ev.base == s and ev.name in (L.VALUE, L.WAITERS):
                return L.err(st, ev, "thread", "the shared base state is changed")
            if ev.kind == "call" and callee_base(ev) == ("attr", s, L.WAITERS):
                return L.err(st, ev, "thread", "the shared waiter queue is used")
            if ev.kind in ("enter", "exit") and ev.cm != s:
                return self.rec(st, ev, "acq" if ev.kind == "enter" else "rel", ev.cm)
            return None

        def rec(self, st, ev, kind, base):
            ops = L.tsget(st, "ops", ())
            st = L.tsput(st, ops=(ops + (kind,))[:4])
            if not own(base):
                st = L.err(st, ev, "thread", "acts on %s" % show(base))
            return st.note("%s %s on %s" % (ev.loc, kind, show(base)))

        def model(self, st, ev):
            if ev.kind == "call":
                a, b = callee_attr(ev), callee_base(ev)
                if a in KIND and b is not None and b != s and b[0] != "super" and not (b[0] == "attr" and b[2] in ("semaphores",)):
                    st = self.rec(st, ev, KIND[a], b)
                    return [(st, ("call", "op", ("attr", b, a), (), ()))]
            return None
    for op, want in OPS.items():
        f = m.find_method(c, op)
        if f is None:
            continue
        cl = Cl()
        it = Interp(m, cl)
        ex = it.run(f, cls=c, ts=())
        out = []
        for x in ex:
            if x.kind == "return" and x.value[0] == "coro":
                R = []
                it.stack = [f]
                out += [Exit("return", v, st) for st, v in it.do_await(x.st, x.value, f.node, R)] + [Exit("raise", e, st) for st, e in R]
            else:
                out.append(x)
        ctx.analysed(it, f, out)
        for x in out:
            errs = L.tsget(x.st, "errs", ())
            ops = L.tsget(x.st, "ops", ())
            ctx.ob("thread", "ThreadsafeSemaphore.%s" % op, not errs and ops == want, L.where(f),
                   errs[0][1] if errs else "performs %s on the thread's semaphore" % (list(ops) or "nothing"), x.st.path())
    f = m.find_method(c, "semaphore")
    if f is not None:
        for x in ctx.run(f, Client(), cls=c):
            ctx.ob("thread", "ThreadsafeSemaphore.semaphore", x.kind == "return" and own(x.value), L.where(f), "is %s" % show(x.value), x.st.path())
    # construction
    f = m.find_method(c, "__init__")
    p = f.params()[1]
    for n in (0, 1, 3):
        it = Interp(m, Rec(lambda st, ev: (ev.name, ev.value) if ev.kind == "store" and ev.name == "semaphores" else None))
        ex = it.run(f, cls=c, ts=(), args={p: const(n)})
        ctx.analysed(it, f, ex)
        for x in ex:
            if x.kind != "return":
                continue
            d = dict(x.ts)
            v = d.get("semaphores")
            ok, made = False, None
            if v is not None and v[0] == "call" and v[2] == ("ext", "collections.defaultdict") and v[3]:
                cl = Rec(lambda st, ev: "made" if ev.kind == "call" and ev.callee[0] == "class" and ev.callee[1].endswith(":Semaphore") else None)
                it2 = Interp(m, cl)
                it2.stack = [f]
                for st, r in it2.apply(x.st.but(ts=()), v[3][0], [], [], None, []):
                    made = r
                    if r[0] == "new" and r[2].endswith(":Semaphore") and "made" in st.ts:
                        a = r[3][0] if r[3] else dict(r[4]).get("value")
                        ok = a == const(n)
            ctx.ob("limit", "ThreadsafeSemaphore(%d)" % n, ok, L.where(f), "a thread's semaphore is %s" % (show(made) if made else "the dummy" if v and v[0] == "dict" else "not built on demand"), x.st.path())
