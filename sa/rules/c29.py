"""Resolution of lazy futures and the `future` decorator.  A future is constructed abstractly; awaiting it, reading its result and converting
it are then interpreted in sequences, and with another reader running to its end at every suspension point.  Each execution of the
underlying awaitable and what each reader gets are compared.  The decorator is interpreted for functions, methods and option sets."""
import itertools

from ..lib import *
from .. import locks as L
from .. import modes as M
from . import c20

ASSUMPTIONS = ["`create_task(x)` schedules x once; awaiting the task any number of times gives x's outcome", "`concurrent.futures.Future.set_result` raises InvalidStateError on a finished future; `result()` gives its outcome",
               "`loop.run_until_complete(x)` gives the outcome of awaiting x"]
MOD = "a_sync.future"
LOOP = ("tok", "loop")
AW, VAL, ERR = ("tok", "the awaitable"), ("tok", "the value"), ("exc", "ValueError", "of the awaitable")
OUT = ("tok", "a value set from outside")
CANCEL = ("exc", "concurrent.futures.CancelledError", "of the future")


def both(exits):
    return [(e.st, e.value) if e.kind == "return" else (e.st, e.value, "raise") for e in exits]


class Fut(Client):
    data = ('the value', 'a value set from outside')
    kd = True
    debug = False
    model_raises = True
    recursion = 3

    def __init__(self, m, cid, fails=False, outside=None, depth=0):
        self.m, self.cid, self.fails, self.outside, self.depth = m, cid, fails, outside, depth
        self.fut = ("self", cid)

    def add(self, st, x):
        if len(st.ts) >= 24:
            return []
        return st.but(ts=st.ts + (x,)).note(" ".join(show(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else str(y) for y in x)[:120])

    def inline_property(self, f):
        return True

    def outcome(self, st):
        """('pending',) | ('value', v) | ('error', e)"""
        l = [x for x in st.ts if x[0] == "set"]
        return l[0][1:] if l else ("pending",)

    def method(self, ev):
        fv, a = ev.callee, ev.args
        b = callee_base(ev)
        if fv[0] == "ext" and ".Future." in fv[1] and a and a[0] == self.fut:
            return fv[1].rsplit(".", 1)[1], a[1:]
        if b is not None and b[0] == "super":
            b = b[1]
        if b == self.fut:
            return callee_attr(ev), a
        return None, a

    def model_attr(self, st, base, name):
        if base == self.fut:
            o = self.outcome(st)
            if name == "_result":
                return o[1] if o[0] == "value" else NONE
            if name == "_exception":
                return o[1] if o[0] == "error" else NONE
            if name == "_state":
                return const("PENDING" if o[0] == "pending" else "FINISHED")
        return Client.model_attr(self, st, base, name)

    def event(self, st, ev):
        if ev.kind == "await" and ev.value == AW:
            return self.add(st, ("run", "awaited"))
        if ev.kind == "call":
            n, a = self.method(ev)
            if n == "result" and self.outcome(st) == ("pending",):
                return self.add(st, ("blocks",))
            if n == "set_exception" and a and self.outcome(st) == ("pending",):
                return self.add(st, ("set", "error", a[0]))
            if n == "set_result" and a and self.outcome(st) == ("pending",):
                return self.add(st, ("set", "value", a[0]))
            if n in ("set_result", "set_exception"):
                return self.add(st, ("invalid",))
        if ev.kind == "store" and ev.base == self.fut and ev.name == "_result":
            return self.add(st, ("set", "value", ev.value))
        return None

    def raises(self, st, ev):
        if ev.kind == "await":
            v = ev.value
            if v == AW and self.fails:
                return (ERR,)
        if ev.kind == "call":
            n, a = self.method(ev)
            if n in ("set_result", "set_exception") and ("invalid",) in st.ts:
                return (("exc", "InvalidStateError", n),)
            if n == "result" and self.outcome(st)[0] == "error":
                return (self.outcome(st)[1],)
        return ()

    def task(self, st, v):
        """what awaiting a task gives: the awaitable's outcome, after anything another reader did meanwhile"""
        out = []
        sts = [st]
        if self.depth < 1:
            # ... another reader comes, and finishes, while this one waits
            self.depth += 1
            for e in self.it.await_value(self.add(st, ("another reader",)), self.fut):
                sts.append(e.st.but(ts=e.st.ts + (("read", e.kind, e.value),)))
            self.depth -= 1
            if self.outside is not None and self.outcome(st) == ("pending",):
                sts.append(self.add(st, ("set",) + self.outside))
        for s in sts:
            out.append(Exit("raise", ERR, s) if self.fails else Exit("return", VAL, s))
        return out

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[0] == "tok" and v[1] == "task":
                return both(self.task(st, v))
            if v == AW:
                return [] if self.fails else [(st, VAL)]
            return None
        if ev.kind != "call":
            return None
        fv, a = ev.callee, ev.args
        n = c20.simple(fv)
        b = callee_base(ev)
        if n in ("get_event_loop", "get_running_loop"):
            return [(st, LOOP)]
        if n == "is_running" and b == LOOP:
            return [(st, FALSE)]
        if n == "run_until_complete" and b == LOOP:
            return both(self.it.await_value(st, a[0]))
        if n in ("create_task", "ensure_future") and a:
            if a[0] == AW or a[0][0] == "coro":
                s = self.add(st, ("run", "task"))
                return [(s, ("tok", "task", sum(1 for x in s.ts if x[0] == "run")))]
            return [(st, a[0])]
        if n == "hasattr" and len(a) == 2:
            return [(st, FALSE)]
        n, a2 = self.method(ev)
        if n is not None:
            o = self.outcome(st)
            if n == "done":
                return [(st, const(o[0] != "pending"))]
            if n == "cancelled":
                return [(st, const(o == ("error", CANCEL)))]
            if n in ("set_result", "set_exception") and a2:
                return [(st, NONE)] if ("invalid",) not in st.ts else []
            if n == "result":
                return [(st, o[1])] if o[0] == "value" else []
            if n == "exception":
                return [(st, o[1] if o[0] == "error" else NONE)]
        return None

    def truthy(self, v):
        return None if v in (VAL, OUT) else True


class Deco(Client):
    data = ('x', 'y')
    kd = True
    debug = False

    def __init__(self, m, cid):
        self.m, self.cid = m, cid

    def inline_property(self, f):
        return True

    def inline(self, f):
        return f.module.name == MOD

    def glob(self, mod, name):
        if name == "a_sync" or name == "ASyncFuture":
            return ("ext", "the " + name)
        return None

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, tuple(ev.args), tuple(sorted(ev.kw))
        if fv == ("ext", "the a_sync") or fv[0] == "func" and ":a_sync#" in fv[1]:
            return [(st, ("tok", "dual", a, kw))]
        if fv[0] == "tok" and fv[1] == "dual":
            return [(st, ("tok", "called", fv, a, kw))]
        if fv == ("ext", "the ASyncFuture"):
            return [(st, ("tok", "future", a[0] if a else dict(kw).get("awaitable")))]
        if c20.simple(fv) == "wraps":
            return [(st, ("tok", "wraps"))]
        if fv == ("tok", "wraps") and a:
            return [(st, a[0])]
        if c20.simple(fv) == "partial" and a:
            return [(st, ("tok", "partial", a, kw))]
        if fv[0] == "tok" and fv[1] == "partial":
            return both(self.it.call_value(st, fv[2][0], tuple(fv[2][1:]) + a, fv[3] + kw))
        return None

    def truthy(self, v):
        return None if v[1] in ("x", "y", "an instance") else True


def check(ctx):
    m = ctx.model
    cls = L.klass(m, MOD, "ASyncFuture")
    dec = m.func(MOD, "future")
    if cls is None or dec is None:
        raise AnalysisError("ASyncFuture or future vanished")
    cid = "%s:ASyncFuture" % cls.module.rel
    SELF = ("self", cid)
    ctx.rule("once", "the awaitable is executed at most once, however often and concurrently the future is read", 8)
    ctx.rule("same", "every reader gets the awaitable's outcome", 8)
    ctx.rule("outside", "a result, failure or cancellation set on the future itself reaches those waiting and those who come later", 6)
    ctx.rule("lazy", "constructing a future executes nothing", 1)
    init = m.find_method(cls, "__init__")
    aw = m.find_method(cls, "__await__")
    res = m.find_method(cls, "result")
    for want, n in ((init, "__init__"), (aw, "__await__"), (res, "result")):
        if want is None:
            raise AnalysisError("ASyncFuture.%s vanished" % n)

    def read(it, cl, st, how):
        if how == "await":
            return it.await_value(st, SELF, func=aw)
        R = []
        f = res
        if how == "result":
            keep, it.stack = it.stack, [f]
            outs = it.getattr(st, SELF, "result", res.node, R)
            it.stack = keep
            out = [Exit("raise", e, s) for s, e in R]
            for s, v in outs:
                out += it.call_value(s, v, func=res)
            return out
        g = m.find_method(cls, how)
        return it.call_value(st, ("bound", it.fid(g), SELF), func=g)

    for fails in (False, True):
        for outside in (None, ("value", OUT), ("error", CANCEL)):
            for seq in itertools.product(("await", "result", "__int__"), repeat=2):
                cl = Fut(m, cid, fails, outside)
                it = Interp(m, cl, max_inline=14, keep_heap_on_await=True)
                cl.it = it
                ps = init.params()[1:]
                ex = it.run(init, cls=cls, args=dict({ps[0]: AW}, **({ps[1]: ("list", ())} if len(ps) > 1 else {})))
                ctx.analysed(it, init, ex)
                if seq == ("await", "await") and outside is None:
                    bad = [e for e in ex if e.kind == "raise" or any(x[0] == "run" for x in e.st.ts)]
                    ctx.ob("lazy", "construction%s" % (", failing awaitable" if fails else ""), ex and not bad, L.where(init), "raises or executes the awaitable" if bad else "", bad[0].st.path() if bad else ())
                cur = [e.st.but(env={}, ts=()) for e in ex if e.kind == "return"]
                what = "the awaitable %s, %s" % ("fails" if fails else "succeeds", "nothing set" if outside is None else "a value set meanwhile" if outside[0] == "value" else "cancelled meanwhile")
                for i, how in enumerate(seq):
                    nxt, once, same = [], None, None
                    for s in cur:
                        for e in read(it, cl, s, how):
                            runs = [x for x in e.st.ts if x[0] == "run"]
                            if len(runs) > 1:
                                once = ("the awaitable is executed %d times" % len(runs), e)
                            if ("blocks",) in e.st.ts:
                                same = ("waits without running the loop", e)
                            reads = [x[1:] for x in e.st.ts if x[0] == "read"] + [(e.kind, e.value)]
                            sets = [x[1:] for x in e.st.ts if x[0] == "set"]
                            own = ("raise", ERR) if fails else ("return", VAL)
                            ok = [own]
                            if outside is not None and outside in sets:
                                # set before this reader got its result: the future's own outcome counts; a failure of the awaitable may come first
                                ok = [("return", OUT) if outside[0] == "value" else ("raise", CANCEL)] + ([own] if fails and ("set",) + outside not in s.ts else [])
                            last = reads[-1]
                            v = last[1]
                            if how == "__int__" and last[0] == "return" and v[0] == "call":
                                v = v[3][0] if v[3] else v
                            if (last[0], v) not in ok:
                                same = ("gives %s %s" % (last[0], show(v)), e)
                            for k, v in reads[:-1]:
                                if (k, v) != own and not (outside is not None and outside in sets):
                                    same = ("gives another reader %s %s" % (k, show(v)), e)
                            nxt.append(e.st.but(env={}, ts=tuple(x for x in e.st.ts if x[0] in ("run", "set"))))
                    if not nxt:
                        same = ("never ends", None)
                    con = "%s: read %d (%s)" % (what, i + 1, " then ".join(seq[:i + 1]))
                    ctx.ob("once", con, once is None, L.where(aw), once[0] if once else "", once[1].st.path() if once else ())
                    ctx.ob("outside" if outside else "same", con, same is None, L.where(aw), same[0] if same else "", same[1].st.path() if same and same[1] else ())
                    cur = nxt
    decorator(ctx, m, cid, dec)


def decorator(ctx, m, cid, dec):
    ctx.rule("decorator", "a decorated function starts the decorated call with the given arguments and gives it as a future", 6)
    ctx.rule("options", "the modifiers given to the decorator reach the function, which is asynchronous", 6)
    ctx.rule("methods", "a decorated method gets its instance, read from the class it is a plain function", 3)
    FN, X, Y, I, O = ("tok", "fn"), ("tok", "x"), ("tok", "y"), ("tok", "an instance"), ("tok", "its class")
    p = dec.params()[0]
    kwa = dec.node.args.kwarg.arg
    for given in (True, False):
        for opts in ((), (("semaphore", ("tok", "a semaphore")), ("cache_type", const("memory")))):
            for pos, kw in (((), ()), ((X,), ()), ((X, Y), (("k", Y),)), ((), (("k", X), ("l", Y)))):
                cl = Deco(m, cid)
                it = Interp(m, cl, max_inline=10, inline_new=True)
                cl.it = it
                heap = {("kd", "opts", ""): ("kdc", tuple((const(k), v) for k, v in opts), ())}
                ex = it.run(dec, args={p: FN if given else NONE, kwa: ("kd", "opts")}, heap=heap)
                ctx.analysed(it, dec, ex)
                cur, bad, ob = [], None, None
                for e in ex:
                    if e.kind == "raise":
                        bad = ("raises %s" % show(e.value), e)
                    elif given:
                        cur.append(e)
                    else:
                        for e2 in it.call_value(e.st, e.value, (FN,), func=dec):
                            if e2.kind == "raise":
                                bad = ("raises %s when it is given the function" % show(e2.value), e2)
                            else:
                                cur.append(e2)
                lab = "%s%s, called with %d and %d arguments" % ("future(fn)" if given else "future()(fn)", " and options" if opts else "", len(pos), len(kw))
                n = 0
                for e in cur:
                    uses = [("function", it.call_value(e.st, e.value, pos, kw, func=dec), pos)]
                    c = it.typeof(e.st, e.value)
                    g = m.find_method(c, "__get__") if c is not None else None
                    if g is not None and given and not opts:
                        for who, inst in (("method", I), ("class", NONE)):
                            outs = []
                            for e2 in it.call_value(e.st, ("bound", it.fid(g), e.value), (inst, O), func=dec):
                                outs += it.call_value(e2.st, e2.value, pos, kw, func=dec) if e2.kind == "return" else [e2]
                            uses.append((who, outs, ((I,) if who == "method" else ()) + pos))
                    for who, outs, want in uses:
                        w = None
                        for e2 in outs:
                            n += 1
                            v = e2.value
                            if e2.kind == "raise":
                                w = ("raises %s" % show(v), e2)
                            elif v[0] != "tok" or v[1] != "future" or v[2][0] != "tok" or v[2][1] != "called":
                                w = ("gives %s" % show(v), e2)
                            else:
                                _, _, dual, a, k = v[2]
                                k = dict(k)
                                if k.pop("sync", None) != FALSE and dict(dual[3]).get("default") != const("async"):
                                    w = ("the function is not called asynchronously", e2)
                                if tuple(a) != tuple(want) or k != dict(kw):
                                    w = ("the function is called with %s, %s" % ([show(x) for x in a], sorted(k)), e2)
                                dk = dict(dual[3])
                                dflt = dk.pop("default", NONE)
                                if tuple(dual[2]) != (FN,) or dk != dict(opts) or dflt not in (const("async"), NONE):
                                    ob = ("decorates %s with %s" % ([show(x) for x in dual[2]], {q: show(z) for q, z in dual[3]}), e2)
                        if not outs:
                            w = ("never ends", None)
                        ctx.ob("methods" if who != "function" else "decorator", "%s, as a %s" % (lab, who), w is None, L.where(dec), w[0] if w else "", w[1].st.path() if w and w[1] else ())
                if not n and not bad:
                    bad = ("gives nothing that can be called", None)
                if bad:
                    ctx.ob("decorator", lab, False, L.where(dec), bad[0], bad[1].st.path() if bad[1] else ())
                ctx.ob("options", lab, ob is None, L.where(dec), ob[0] if ob else "", ob[1].st.path() if ob else ())
