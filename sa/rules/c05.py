"""Counter lock: set and wait_for are interpreted on every small history: waits for targets below, at and above the counter are parked on their
events by the real wait_for, the counter is moved by the real set, and at every step the events which are set are compared with the targets the
counter has reached; a wait is also cancelled or closed.  The cluster waits for all members."""
import heapq
import itertools

from ..lib import *
from .. import locks as L
from . import c20

MOD = "a_sync.primitives.locks.counter"
ASSUMPTIONS = ["heapq keeps the smallest element first", "CythonEvent satisfies C04"]
HEAP, EVENTS, VAL = "_heap", "_events", "_value"
START = 5
CANCEL, CLOSE = ("exc", "CancelledError", "of the waiting task"), ("exc", "GeneratorExit", "of the waiting coroutine")


class Cnt(Client):
    """events: ("env", "event", i) -> times set"""
    kd = True
    distinct = True
    model_raises = True
    recursion = 6

    def __init__(self, m, cls, debug, script=(), end=None):
        self.m, self.cls, self.debug, self.script, self.end = m, cls, debug, script, end
        self.me = ("self", cls.id)
        self.park = None
        self.waited = False

    def inline(self, f):
        return default_inline(f) and "debug_daemon" not in f.name

    def glob(self, mod, name):
        return ("ext", "Event") if name in ("CythonEvent", "Event") else None

    def truthy(self, v):
        return True if v[1] in ("event", "daemon") else None

    def start(self):
        return {("attr", self.me, VAL): const(START), ("attr", self.me, HEAP): ("kl", "heap"), ("attr", self.me, EVENTS): ("kd", "events"),
                ("kd", "heap", ""): ("klc", (), "list"), ("kd", "events", ""): ("kdc", (), ()), ("env", "events", ""): 0, ("env", "waits", ""): ()}

    def env(self, st, name, value=None):
        if value is None:
            return st.heap[("env", name, "")]
        h = dict(st.heap)
        h[("env", name, "")] = value
        return st.but(heap=h)

    def is_set(self, st, v):
        return st.heap.get(("env", "event", v[2]), 0)

    def value(self, st):
        return st.heap.get(("attr", self.me, VAL))

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[:2] == ("tok", "waiting"):
                if self.is_set(st, v[2]):
                    return [(st, TRUE)]
                if self.park is not None:
                    self.park.append((st, v[2]))
                    return []
                return self.suspended(st, v[2])
            return None
        if ev.kind != "call":
            return None
        n, b, a = c20.simple(ev.callee), callee_base(ev), ev.args
        if "debug_daemon" in (n or ""):
            return [(st, ("tok", "daemon"))]
        if ev.callee == ("ext", "Event"):
            i = self.env(st, "events")
            return [(self.env(st, "events", i + 1), ("tok", "event", i))]
        if b is not None and b[:2] == ("tok", "event"):
            if n in ("wait", "c_wait"):
                return [(st, ("tok", "waiting", b))]
            if n in ("set", "c_set"):
                h = dict(st.heap)
                h[("env", "event", b[2])] = 1
                return [(st.but(heap=h).note("event %d set" % b[2]), NONE)]
            if n == "is_set":
                return [(st, const(bool(self.is_set(st, b))))]
            if n in ("clear", "c_clear"):
                h = dict(st.heap)
                h[("env", "event", b[2])] = 0
                return [(st.but(heap=h), NONE)]
        if ev.callee[0] == "ext" and ev.callee[1].startswith("heapq.") and a and a[0][0] == "kl":
            c = self.it.kl_get(st, a[0])
            if c is None or not all(is_const(x) for x in c[1] + tuple(a[1:])):
                return None
            xs = [cval(x) for x in c[1]]
            try:
                r = getattr(heapq, n)(xs, *[cval(x) for x in a[1:]])
            except IndexError:
                return [(st, ("exc", "IndexError", "empty heap"), "raise")]
            return [(self.it.kl_new(st, a[0][1], c[2], tuple(const(x) for x in xs))[0], const(r) if not isinstance(r, list) else ("list", tuple(const(x) for x in r)))]
        return None

    def do(self, st, op, x):
        """one operation of another task: [(state, exception or None)]"""
        st = st.note("%s(%s)" % (op, x))
        keep, self.park = self.park, []
        f = self.m.find_method(self.cls, {"wait": "wait_for", "set": "set"}[op])
        env, out = st.env, []
        for e in self.it.call_value(st.but(env={}), ("bound", self.it.fid(f), self.me), (const(x),), (), func=self.it.func):
            got = [e]
            if e.kind == "return" and e.value[0] in ("coro", "call"):
                got = self.it.await_value(e.st, e.value, f)
            for y in got:
                out.append((y.st.but(env=env), y.value if y.kind == "raise" else None))
        for s, w in self.park:
            out.append((self.env(s.but(env=env), "waits", self.env(s, "waits") + ((x, w),)), None))
        self.park = keep
        return out

    def play(self, st, ops):
        """[(state, what is wrong or None)]"""
        states = [(st, None)]
        for op, x in ops:
            nxt = []
            for s, bad in states:
                if bad:
                    nxt.append((s, bad))
                    continue
                before = self.value(s)
                got = self.do(s, op, x)
                if not got:
                    nxt.append((s, "%s(%d) never ends" % (op, x)))
                for s2, exc in got:
                    nxt.append((s2, self.wrong(before, s2, op, x, exc)))
            states = nxt
        return states

    def wrong(self, before, st, op, x, exc):
        v = self.value(st)
        if not is_const(v) or not is_const(before):
            raise AnalysisError("the value of the counter is not known: %s" % show(v))
        if op == "set":
            low = x < cval(before)
            if low and exc is None:
                return "[raise] set(%d) is accepted though the counter is at %s" % (x, show(before))
            if not low and exc is not None:
                return "[raise] set(%d) raises %s though the counter is at %s" % (x, show(exc), show(before))
            if low and not is_value_error(exc):
                return "[raise] set(%d) raises %s" % (x, show(exc))
            if cval(v) != max(x, cval(before)):
                return "[value] the counter is at %s after set(%d), and was at %s" % (show(v), x, show(before))
        elif exc is not None:
            return "[wait] wait_for(%d) raises %s" % (x, show(exc))
        elif v != before:
            return "[value] wait_for(%d) changes the counter to %s" % (x, show(v))
        if op == "wait":
            parked = self.env(st, "waits")
            if x > cval(v) and not (parked and parked[-1][0] == x):
                return "[wait] wait_for(%d) does not wait though the counter is at %s" % (x, show(v))
        return self.check(st)

    def check(self, st):
        """every parked wait is released iff the counter has reached its target"""
        v = cval(self.value(st))
        for x, w in self.env(st, "waits"):
            if x <= v and not self.is_set(st, w):
                return "[release] a task waiting for %d is not released though the counter is at %d" % (x, v)
            if x > v and self.is_set(st, w):
                return "[release] a task waiting for %d is released though the counter is at %d" % (x, v)
        return None

    def suspended(self, st, w):
        self.waited = True
        out = []
        for s, bad in self.play(st, self.script):
            if bad:
                self.bad.append((bad, s))
                continue
            s = s.note("then %s" % (self.end or "goes on"))
            if self.end:
                out.append((s, CANCEL if self.end == "cancel" else CLOSE, "raise"))
            elif self.is_set(s, w):
                out.append((s, TRUE))
            else:
                self.blocked.append(s)
        return out


def is_value_error(x):
    return x[0] == "exc" and x[1].split(":")[-1] == "ValueError" or x[0] == "call" and x[2] == ("ext", "builtins.ValueError") or x[0] == "new" and "ValueError" in x[2]


def histories(tier):
    """(operations before, target, operations while it waits, end)"""
    W, S = (lambda x: ("wait", x)), (lambda x: ("set", x))
    if tier == "thorough":
        ops = (W(6), W(8), S(6), S(7), S(8))
        pre = [p for n in range(4) for p in itertools.product(ops, repeat=n)]
        mid = [p for n in range(3) for p in itertools.product(ops + (S(5), S(9)), repeat=n)]
    else:
        pre = [(), (W(6),), (W(8),), (W(6), W(8)), (W(8), W(6)), (W(8), W(8)), (W(7), W(6), W(8)), (S(6),), (W(6), S(6)), (W(8), S(6)), (W(6), W(8), S(7)), (W(8), W(7), W(9), W(6))]
        mid = [(), (S(6),), (S(7),), (S(8),), (S(6), S(8)), (W(6), S(8)), (W(8), S(6)), (W(8), S(8)), (W(9), S(8)), (S(5),), (S(9),)]
    for p in pre:
        for x in (4, 5, 6, 7, 8):
            for q in mid:
                for end in (None, "cancel", "close"):
                    yield p, x, q, end


def check(ctx):
    m = ctx.model
    ctx.rule("raise", "an attempt to decrease the counter raises before anything changes; nothing else is refused", 4)
    ctx.rule("value", "set(v) stores exactly v; the value read back is the stored one; only set and construction store it", 2)
    ctx.rule("release", "every waiting task whose target is not above the new value is released; no other is", 20)
    ctx.rule("wait", "wait_for(v) returns at once iff the counter is at least v, else goes on exactly when it is; it may be cancelled", 40)
    ctx.rule("cluster", "a cluster waits for every member with the value asked for", 2)
    c = L.klass(m, MOD, "CounterLock")
    for debug in (False, True):
        d = ", debug logging" if debug else ""
        # set, also through the property
        for op in ("set", "value="):
            f = m.find_method(c, "set") if op == "set" else m.find_setter(c, "value")
            if f is None:
                raise AnalysisError("CounterLock.%s vanished" % op)
            for pre in ((), (6,), (8, 6), (7, 7), (9, 6, 8, 7)):
                for x in (-3, 3, 4, 5, 6, 7, 8, 10):
                    cl = Cnt(m, c, debug)
                    it = cl.it = Interp(m, cl, keep_heap_on_await=True, max_inline=8)
                    it.stack = [f]
                    first = cl.play(St({}, (), {}, cl.start(), (), None), tuple(("wait", w) for w in pre))
                    bad = next((b for b in first if b[1]), None)
                    for s, _ in first:
                        if bad:
                            break
                        ex = it.run(f, cls=c, args={f.params()[1]: const(x)}, heap=s.heap)
                        ctx.analysed(it, f, ex)
                        if not ex:
                            bad = (s, "never ends")
                        for e in ex:
                            w = cl.wrong(const(START), e.st, "set", x, e.value if e.kind == "raise" else None)
                            bad = bad or (w and (e.st, w))
                            if not w:
                                s2 = e.st.but(env={})
                                for s3, w2 in cl.play(s2, (("set", 100),)):
                                    bad = bad or (w2 and (s3, w2 + " (later)"))
                    verdict(ctx, "release", "CounterLock.%s %d: waiting for %s%s" % (op, x, list(pre) or "nothing", d), f, bad)
        # wait_for
        f = m.find_method(c, "wait_for")
        for pre, x, mid, end in histories(ctx.tier):
            if debug and (len(pre) > 1 or len(mid) > 1):
                continue
            cl = Cnt(m, c, debug, mid, end)
            cl.bad, cl.blocked = [], []
            it = cl.it = Interp(m, cl, keep_heap_on_await=True, max_inline=8)
            it.stack = [f]
            first = cl.play(St({}, (), {}, cl.start(), (), None), pre)
            bad = next(((s, b) for s, b in first if b), None)
            for s, _ in first:
                if bad:
                    break
                before = cval(cl.value(s))
                cl.waited, cl.bad, cl.blocked = False, [], []
                ex = it.run(f, cls=c, args={f.params()[1]: const(x)}, heap=s.heap)
                ctx.analysed(it, f, ex)
                bad = judge_wait(cl, ex, before, x, mid, end, s)
            verdict(ctx, "wait", "CounterLock.wait_for %d: %s; meanwhile %s%s%s" % (x, ops(pre), ops(mid), ", then %s" % end if end else "", d), f, bad)
    # is_ready / value
    for name in ("is_ready", "c_is_ready"):
        f = m.find_method(c, name)
        if f is None:
            continue
        for x in (4, 5, 6):
            cl = Cnt(m, c, False)
            it = cl.it = Interp(m, cl)
            ex = it.run(f, cls=c, args={f.params()[1]: const(x)}, heap=cl.start())
            ctx.analysed(it, f, ex)
            for e in ex:
                ctx.ob("wait", "CounterLock.%s" % name, e.kind == "return" and it.decide(e.st, e.value) is (x <= START), L.where(f), "answers %s for %d when the counter is at %d" % (show(e.value), x, START), e.st.path())
    f = m.find_method(c, "value")
    cl = Cnt(m, c, False)
    it = cl.it = Interp(m, cl)
    for x in it.run(f, cls=c, heap=cl.start()):
        ctx.ob("value", "CounterLock.value", x.kind == "return" and x.value == const(START), L.where(f), "reads %s when the counter is at %d" % (show(x.value), START))
    f = m.find_method(c, "__init__")
    it = Interp(m, Rec(lambda st, ev: (ev.value,) if ev.kind == "store" and ev.name == VAL else None))
    ex = it.run(f, cls=c, ts=())
    ctx.analysed(it, f, ex)
    for x in ex:
        if x.kind == "return":
            ctx.ob("value", "CounterLock.__init__", bool(x.ts) and x.ts[-1] == (("param", f.params()[1]),), L.where(f), "the counter starts as %s" % [show(t[0]) for t in x.ts], x.st.path())
    cluster(ctx, m)


def ops(xs):
    return ", ".join("%s(%d)" % x for x in xs) or "nothing"


def verdict(ctx, rule, what, f, bad):
    """bad: (state, "[rule] text") or None"""
    text = bad[1] if bad else ""
    r = rule
    if text.startswith("["):
        r, text = text[1:].split("] ", 1)
    if bad is None:
        ctx.ob("raise" if rule == "release" else rule, what, True, L.where(f))
        ctx.ob(rule, what, True, L.where(f))
    else:
        ctx.ob(r, what, False, L.where(f), text, bad[0].path())


def judge_wait(cl, ex, before, x, mid, end, s0):
    if cl.bad:
        return cl.bad[0][1], cl.bad[0][0]
    if before >= x:
        if cl.waited:
            return s0, "[wait] waits for %d though the counter is at %d" % (x, before)
        if not ex:
            return s0, "[wait] never ends though the counter is at %d" % before
    elif not cl.waited:
        return (ex[0].st if ex else s0), "[wait] does not wait for %d though the counter is at %d" % (x, before)
    value = max([before] + [y for op, y in mid if op == "set"])
    if before < x and not end:
        if value < x and ex:
            return ex[0].st, "[wait] goes on though the counter is only at %d" % value
        if value >= x and (cl.blocked or not ex):
            return (cl.blocked[0] if cl.blocked else s0), "[release] is not released though the counter is at %d" % value
    for e in ex:
        if end and before < x:
            if e.kind != "raise" or e.value not in (CANCEL, CLOSE):
                return e.st, "[wait] a wait which is cancelled ends with %s" % show(e.value)
        elif e.kind != "return" or e.value != TRUE:
            return e.st, "[wait] gives %s" % show(e.value)
        # whoever else waits is not disturbed
        w = cl.check(e.st)
        if w:
            return e.st, w
        for s, w in cl.play(e.st.but(env={}), (("wait", x), ("wait", 50), ("set", 100)) if before < x else (("set", 100),)):
            if w:
                return s, w + " (later)"
    return None


class Members(Client):
    kd = True
    iter_objects = True
    distinct = True
    model_raises = True

    def truthy(self, v):
        return True

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[:2] == ("tok", "waits"):
                for w in v[2]:
                    st = st.but(ts=st.ts + (w,))
                return [(st, ("list", tuple(TRUE for _ in v[2])))]
            if v[:2] == ("tok", "wait"):
                return [(st.but(ts=st.ts + (v,)), TRUE)]
            return None
        if ev.kind != "call":
            return None
        n, b = c20.simple(ev.callee), callee_base(ev)
        if b is not None and b[:2] == ("tok", "lock") and n == "wait_for":
            a = ev.args + tuple(v for _, v in ev.kw)
            return [(st, ("tok", "wait", b[2], a[0] if a else NONE))]
        if n in ("create_task", "ensure_future") and ev.args:
            return [(st, ev.args[0])]
        if n in ("gather", "cgather", "wait") and ev.callee[0] in ("ext", "func"):
            xs = []
            for x in ev.args:
                if x[0] == "star":
                    xs += self.it.kd_literal(st, x[1]) or [x]
                else:
                    xs += [x]
            if n == "wait":
                xs = self.it.kd_literal(st, ev.args[0]) or xs
                if any("FIRST" in show(v) for k, v in ev.kw):
                    xs = ()
            return [(st, ("tok", "waits", tuple(xs)))]
        return None


def cluster(ctx, m):
    k = L.klass(m, MOD, "CounterLockCluster")
    init, f = m.find_method(k, "__init__"), m.find_method(k, "wait_for")
    for n in (0, 1, 2, 3):
        for how in ("list", "iter"):
            locks = tuple(("tok", "lock", i) for i in range(n))
            cl = Members()
            it = cl.it = Interp(m, cl, keep_heap_on_await=True)
            h = {("kd", "given", ""): ("klc", locks, how)}
            bad = None
            some = False
            for e in it.run(init, cls=k, args={init.params()[1]: ("kl", "given")}, heap=h):
                if e.kind != "return":
                    bad = (e.st, "the constructor raises %s" % show(e.value))
                    continue
                for turn in (0, 1):     # a cluster can be waited for again
                    ex = it.run(f, cls=k, args={f.params()[1]: const(7)}, heap=e.st.heap, ts=())
                    ctx.analysed(it, f, ex)
                    for x in ex:
                        some = True
                        got = [t[2] for t in x.st.ts if t[:2] == ("tok", "wait") and t[3] == const(7)]
                        if x.kind != "return":
                            bad = bad or (x.st, "raises %s" % show(x.value))
                        elif sorted(got) != list(range(n)):
                            bad = bad or (x.st, "waits for the members %s of %d" % (got, n))
                        e = x
            ctx.ob("cluster", "CounterLockCluster.wait_for: %d members%s" % (n, ", given as an iterator" if how == "iter" else ""), some and bad is None, L.where(f), bad[1] if bad else "never ends", bad[0].path() if bad else ())
