"""Merging of async iterators.  The readers are interpreted over sources which give scripted items and end or fail; the merge generator is
interpreted as the consumer of a known queue which an abstract environment fills in every possible portioning, with the populating task
succeeding, failing and being cancelled, and the consumer going on, leaving, failing and being cancelled at every point."""
import itertools

from ..lib import *
from .. import locks as L
from .. import modes as M
from . import c20
from .c28 import both

ASSUMPTIONS = ["the library's queue delivers what was put, in order (C08)", "`asyncio.gather(*xs, return_exceptions=True)` awaits every x and gives outcomes in order",
               "a task that is done has run or scheduled its done callbacks; cancelling the populating task cancels the readers it gathers"]
MOD = "a_sync.utils.iterators"
QUEUE, TASK = ("tok", "queue"), ("tok", "populating task")
CANCEL = ("exc", "asyncio.CancelledError", "delivered")
SELFCANCEL = ("exc", "asyncio.CancelledError", "of a source")
ERR = ("exc", "ValueError", "of a source")
KEYERR = ("exc", "KeyError", "of a source")
THROWN = ("exc", "ZeroDivisionError", "of the consumer")
EXIT = ("exc", "GeneratorExit", "consumer left")


def source(i):
    return ("tok", "source", i)


def item(i, j):
    return ("tok", "item", i, j)


class Base(Client):
    data = ('item',)
    kd = True
    model_raises = True
    recursion = 1

    def __init__(self, m, debug=False):
        self.m, self.debug = m, debug

    def add(self, st, x):
        if len(st.ts) >= 40:
            return []
        return st.but(ts=st.ts + (x,)).note(" ".join(show(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else str(y) for y in x)[:100])

    def inline_property(self, f):
        return f.module.name == MOD

    def glob(self, mod, name):
        return ("ext", "the Queue") if name in ("Queue", "ProcessingQueue") else None

    def truthy(self, v):
        return None if v[1] == "item" else True

    def model_attr(self, st, base, name):
        if base in (QUEUE, TASK) and not name.startswith("_"):
            return ("tok", "method", name, base)
        return Client.model_attr(self, st, base, name)

    def common(self, st, ev):
        fv, a, kw = ev.callee, ev.args, dict(ev.kw)
        n = c20.simple(fv)
        b = callee_base(ev)
        if n == "with_traceback" and b is not None and len(a) == 1:
            return [(st, b)]
        if fv[0] == "ext" and fv[1].endswith("Error") and n[0].isupper():
            return [(st, ("exc", fv[1], "made"))]
        if n == "isinstance" and len(a) == 2:
            v, t = a
            if v[0] == "tok":
                return [(st, FALSE)]
            if v[0] == "exc":
                ts = t[1] if t[0] == "tuple" else (t,)
                names = [x[1].rsplit(".", 1)[-1] for x in ts if x[0] in ("ext", "class")]
                base = ["BaseException"] + ["Exception"] * (v[1] in ("ValueError", "KeyError")) + [v[1].rsplit(".", 1)[-1]]
                return [(st, const(any(x in base for x in names)))]
        if n in ("iscoroutine", "isawaitable") and a:
            return [(st, const(a[0][0] == "coro"))]
        return None


class Readers(Base):
    """exhaust_iterator / exhaust_iterators"""

    def __init__(self, m, script, debug=False):
        Base.__init__(self, m, debug)
        self.script = script        # {source: ([items], None or exception)}

    def step(self, st, it, is_async):
        if it not in self.script:
            return None
        pos = st.heap.get(("env", it[2], "pos"), 0)
        items, end = self.script[it]
        if not is_async:
            return [(st, "raise", ("exc", "TypeError", "not iterable"))]
        if pos > len(items):
            return [(st, "end", None)]
        s = st.but(heap=dict(st.heap, **{}))
        h = dict(st.heap)
        h[("env", it[2], "pos")] = pos + 1
        s = st.but(heap=h)
        if pos < len(items):
            return [(s, "item", items[pos])]
        return [(s, "end", None)] if end is None else [(s, "raise", end)]

    def event(self, st, ev):
        if ev.kind == "await" and ev.value == ("tok", "join"):
            return self.add(st, ("joined",))
        return None

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[0] == "tok" and v[1] == "gathered":
                return [(st, v[2])] if v[2][0] != "exc" else [(st, v[2], "raise")]
            if v[0] == "tok" and v[1] in ("join", "put"):
                return [(st, NONE)]
            if v[0] == "tok" and v[1] == "anext":
                out = []
                for s, what, x in self.step(st, v[2], True):
                    out.append((s, x) if what == "item" else (s, x, "raise") if what == "raise" else (s, ("exc", "StopAsyncIteration", "end"), "raise"))
                return out
            return None
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, ev.args, dict(ev.kw)
        n, b = c20.simple(fv), callee_base(ev)
        if b == QUEUE:
            if n in ("put_nowait", "put") and a:
                s = self.add(st, ("put", a[0]))
                return [(s, NONE if n == "put_nowait" else ("tok", "put"))] if s else []
            if n == "join":
                return [(st, ("tok", "join"))]
        if n in ("__aiter__", "aiter") and (b in self.script or a and a[0] in self.script):
            return [(st, b if b in self.script else a[0])]
        if n in ("__anext__", "anext") and (b in self.script or a and a[0] in self.script):
            return [(st, ("tok", "anext", b if b in self.script else a[0]))]
        if n == "gather":
            rx = kw.get("return_exceptions", FALSE) == TRUE
            cur, out = [(st, ())], []
            for x in a:
                nxt = []
                for s, acc in cur:
                    for e in self.it.await_value(s, x):
                        if e.kind == "return" or rx:
                            nxt.append((e.st, acc + (e.value,)))
                        else:
                            out.append((e.st, ("tok", "gathered", e.value)))
                cur = nxt
            return out + [(s, ("tok", "gathered", ("list", acc))) for s, acc in cur]
        if n in ("create_task", "ensure_future") and a and a[0][0] == "coro":
            return [(st, a[0])]
        return self.common(st, ev)


class Merge(Base):
    """as_yielded.  The environment lives in the heap: what is queued, how many items were put, the task's state."""

    def __init__(self, m, items, outcome, marker, leave=None):
        Base.__init__(self, m)
        self.items, self.outcome, self.marker, self.leave = items, outcome, marker, leave

    def env(self, st):
        return st.heap.get(("env", "merge", ""), ((), 0, 0, "running", False))     # queued, put, fetched, task, callback run

    def with_env(self, st, e):
        h = dict(st.heap)
        h[("env", "merge", "")] = e
        return st.but(heap=h)

    def settle(self, st):
        """the task's done callbacks run: they may put markers"""
        q, p, g, t, cb = self.env(st)
        if cb or t in ("running", "finishing"):
            return [st]
        s0 = self.with_env(st, (q, p, g, t, True))
        cbs = [x[1] for x in st.ts if x[0] == "callback"]
        cur = [s0]
        for f in cbs:
            nxt = []
            for s in cur:
                for e in self.it.call_value(s.but(env={}), f, (TASK,), func=self.f):
                    x = e.st.but(env=s.env)
                    nxt.append(x if e.kind == "return" else x.but(ts=x.ts + (("callback fails", e.value),)))
            cur = nxt
        return cur

    def advance(self, st, must=False):
        """other tasks run: the readers put any number of items more, end, fail; callbacks of a finished task run"""
        out = [] if must else [st]
        q, p, g, t, cb = self.env(st)
        if t == "running" and ("cancel",) in st.ts:
            return out + self.settle(self.with_env(st, (q, p, g, "cancelled", False)))
        if t == "running":
            for k in range(p + 1, len(self.items) + 1):
                out.append(self.with_env(st, (q + tuple(self.items[p:k]), k, g, "running", cb)))
            rest = q + tuple(self.items[p:])
            n = len(self.items)
            if self.outcome is None:
                out.append(self.with_env(st, (rest + (self.marker,), n, g, "finishing", cb)))
            else:
                s = self.with_env(st, (rest, n, g, "cancelled" if self.outcome == SELFCANCEL else "failed", cb))
                if not must:
                    out.append(s)
                out += self.settle(s)
        elif t == "finishing":
            # it waits for the queue to be joined
            if ("cancel",) in st.ts:
                out += self.settle(self.with_env(st, (q, p, g, "cancelled", False)))
            elif not q and sum(1 for x in st.ts if x == ("task_done",)) >= len(self.items) + 1:
                out.append(self.with_env(st, (q, p, g, "finished", True)))
        elif not cb:
            out += self.settle(st)
        return out

    def event(self, st, ev):
        if ev.kind == "yield":
            s = self.add(st, ("yield", ev.value))
            return self.advance(s) if s else []
        if ev.kind == "call":
            n, b = callee_attr(ev), callee_base(ev)
            if n == "cancel" and b == TASK:
                return self.add(st, ("cancel",))
        return None

    def raises(self, st, ev):
        if ev.kind == "yield":
            return {"leaves": (EXIT,), "throws": (THROWN,)}.get(self.leave, ())
        if ev.kind == "await" and self.leave == "cancelled" and ev.value != TASK:
            return (CANCEL,)
        return ()

    def get(self, st, n, wait):
        q, p, g, t, cb = self.env(st)
        take = len(q) if n.startswith("get_all") else 1
        s = self.with_env(st, (q[take:], p, g + take, t, cb))
        return s, ("list", tuple(q[:take])) if n.startswith("get_all") else q[0]

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[0] == "tok" and v[1] == "get":
                out = []
                seen = []
                todo = [st]
                while todo:
                    s = todo.pop()
                    if s.heap in seen:
                        continue
                    seen.append(s.heap)
                    if self.env(s)[0]:
                        out.append(self.get(s, v[2], True))
                    else:
                        nxt = self.advance(s, must=True)
                        if not nxt:
                            out.append((s.but(ts=s.ts + (("hangs",),)), ("exc", "HANG", "nothing will come"), "raise"))
                        todo += nxt
                if self.env(st)[0]:
                    # more may come first when several are fetched at once
                    for s in self.advance(st, must=True):
                        if self.env(s)[0]:
                            out.append(self.get(s, v[2], True))
                return out
            if v == TASK:
                t = self.env(st)[3]
                if t in ("running", "finishing"):
                    out = []
                    for s in self.advance(st, must=True):
                        t = self.env(s)[3]
                        if t in ("running", "finishing"):
                            s2 = s
                            out.append((s2.but(ts=s2.ts + (("hangs",),)), ("exc", "HANG", "waits for the task without reading the queue"), "raise"))
                        else:
                            out += self.task_outcome(s, t)
                    return out or [(st.but(ts=st.ts + (("hangs",),)), ("exc", "HANG", "the task never ends"), "raise")]
                return self.task_outcome(st, t)
            return None
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, ev.args, dict(ev.kw)
        n, b = c20.simple(fv), callee_base(ev)
        if fv == ("ext", "the Queue"):
            return [(st, QUEUE)]
        if n == "create_task" and (a or "coro" in kw):
            return [(self.add(st, ("task", a[0] if a else kw["coro"])), TASK)]
        if n == "ensure_future" and a:
            return [(self.add(st, ("task", a[0])), TASK)]
        if b == TASK:
            q, p, g, t, cb = self.env(st)
            if n == "add_done_callback":
                return [(self.add(st, ("callback", a[0])), NONE)]
            if n == "done":
                return [(st, const(t not in ("running", "finishing")))]
            if n == "cancelled":
                return [(st, const(t == "cancelled"))]
            if n == "exception":
                return [(st, self.outcome if t == "failed" else NONE)] if t != "cancelled" else [(st, SELFCANCEL, "raise")]
            if n == "result":
                return self.task_outcome(st, t)
            if n == "cancel":
                return [(st, TRUE)]
        if b == QUEUE:
            q, p, g, t, cb = self.env(st)
            if n in ("get", "get_all"):
                return [(st, ("tok", "get", n))]
            if n in ("get_nowait", "get_all_nowait"):
                return [self.get(st, n, False)] if q else [(st, ("exc", "asyncio.QueueEmpty", n), "raise")]
            if n in ("empty",):
                return [(st, const(not q))]
            if n in ("qsize", "__len__"):
                return [(st, const(len(q)))]
            if n == "task_done":
                return [(self.add(st, ("task_done",)), NONE)]
            if n in ("put_nowait", "put") and a:
                return [(self.with_env(st, (q + (a[0],), p, g, t, cb)), NONE)]
        return self.common(st, ev)

    def task_outcome(self, st, t):
        if t == "failed":
            return [(st, self.outcome, "raise")]
        if t == "cancelled":
            return [(st, SELFCANCEL, "raise")]
        return [(st, NONE)]


def name(m, v):
    return (M.excname(m, v) or "").rsplit(".", 1)[-1]


def check(ctx):
    m = ctx.model
    one, many, merge = (m.func(MOD, n) for n in ("exhaust_iterator", "exhaust_iterators", "as_yielded"))
    if None in (one, many, merge):
        raise AnalysisError("exhaust_iterator(s) or as_yielded vanished")
    ctx.rule("reader", "a reader queues every item of its iterator once, in order, with and without logging, and ends or fails as it does", 10)
    ctx.rule("readers", "every iterator is read once; the end is marked and joined after all of them, a failure of any is raised", 20)
    ctx.rule("merged", "every item queued is yielded once, in order, an internal marker never, and the merge ends after the last", 3)
    ctx.rule("failure", "a failure or cancellation of the readers reaches the consumer", 6)
    ctx.rule("cleanup", "when the consumer leaves, fails or is cancelled the readers are cancelled, and nothing fails then", 6)
    S0, S1 = source(0), source(1)
    for debug in (False, True):
        for k in (0, 1, 3):
            for end in (None, ERR, SELFCANCEL):
                for q in (QUEUE, NONE):
                    items = [item(0, j) for j in range(k)]
                    cl = Readers(m, {S0: (items, end)}, debug)
                    it = cl.it = Interp(m, cl, max_inline=8, keep_heap_on_await=True)
                    ex = it.run(one, args={one.params()[0]: S0, "queue": q})
                    ctx.analysed(it, one, ex)
                    bad = None
                    for e in ex:
                        puts = [x[1] for x in e.st.ts if x[0] == "put"]
                        if puts != (items if q == QUEUE else []):
                            bad = ("queues %s" % [show(x) for x in puts], e)
                        if end is None and e.kind == "raise" or end is not None and (e.kind, e.value) != ("raise", end):
                            bad = ("%s %s" % ("raises" if e.kind == "raise" else "gives", show(e.value)), e)
                        if e.st.heap.get(("env", 0, "pos"), 0) != k + 1:
                            bad = ("does not read the iterator to its end", e)
                    ctx.ob("reader", "%d items, %s, %s, logging %s" % (k, "ends" if end is None else "raises %s" % end[1], "queue" if q == QUEUE else "no queue", debug), ex and bad is None, L.where(one),
                           bad[0] if bad else "", bad[1].st.path() if bad else ())
    marker = None
    for ends in itertools.product((None, ERR, SELFCANCEL), repeat=2):
        for q, join in ((QUEUE, True), (QUEUE, False), (NONE, False)):
            for sources in ((S0, S1), (S0,), ()):
                sc = {s: ([item(i, 0), item(i, 1)], x) for (i, s), x in zip(enumerate(sources), ends)}
                if any(ends[len(sources):]):
                    continue
                cl = Readers(m, sc)
                it = cl.it = Interp(m, cl, max_inline=8, keep_heap_on_await=True, inline_new=True)
                ex = it.run(many, args={many.params()[0]: ("tuple", tuple(sources)), "queue": q, "join": const(join)})
                ctx.analysed(it, many, ex)
                bad = None
                fails = [x for _, x in sc.values() if x]
                for e in ex:
                    puts = [x[1] for x in e.st.ts if x[0] == "put"]
                    its = [x for x in puts if x[0] == "tok" and x[1] == "item"]
                    other = [x for x in puts if x not in its]
                    for s in sources:
                        if e.st.heap.get(("env", s[2], "pos"), 0) != 3:
                            bad = ("iterator %d is not read to its end" % s[2], e)
                    if q == QUEUE and sorted(its) != sorted(x for v, _ in sc.values() for x in v):
                        bad = ("queues %s" % [show(x) for x in its], e)
                    if fails:
                        if e.kind != "raise" or e.value not in fails:
                            bad = ("%s %s although an iterator fails" % ("raises" if e.kind == "raise" else "gives", show(e.value)), e)
                        if other:
                            bad = ("marks the end although an iterator fails", e)
                    elif e.kind == "raise":
                        bad = ("raises %s" % show(e.value), e)
                    elif q == QUEUE:
                        if len(other) != 1 or puts[-1] != other[0]:
                            bad = ("marks the end %d times, after %d of %d items" % (len(other), puts.index(other[0]) if other else 0, len(its)), e)
                        elif not marker and other:
                            marker = (other[0], {h: v for h, v in e.st.heap.items() if h[1] == other[0]})
                        if (("joined",) in e.st.ts) != join:
                            bad = ("does not wait for the queue to be joined" if join else "waits for the queue to be joined", e)
                ctx.ob("readers", "%d iterators, ends %s, %s%s" % (len(sources), [x[1] if x else None for x in ends[:len(sources)]], "queue" if q == QUEUE else "no queue", ", join" if join else ""), ex and bad is None, L.where(many),
                       bad[0] if bad else "", bad[1].st.path() if bad else ())
    if marker is None:
        ctx.ob("merged", "end marker", False, L.where(many), "the end of the iterators is never marked")
        return
    va = merge.node.args.vararg
    for outcome in (None, ERR, SELFCANCEL):
        for k in (0, 1, 2):
            for leave in (None, "leaves", "throws", "cancelled"):
                if leave in ("leaves", "throws") and not k:
                    continue
                items = [item(0, j) for j in range(k)]
                cl = Merge(m, items, outcome, marker[0], leave)
                it = cl.it = Interp(m, cl, max_inline=8, keep_heap_on_await=True, inline_new=True)
                cl.f = merge
                ex = it.run(merge, args={va.arg: ("vararg", (S0, S1))} if va else {}, heap=marker[1])
                ctx.analysed(it, merge, ex)
                bad, clean = None, None
                for e in ex:
                    ys = [x[1] for x in e.st.ts if x[0] == "yield"]
                    q, p, g, t, cb = cl.env(e.st)
                    left = e.kind == "raise" and e.value in (EXIT, THROWN, CANCEL)
                    if ("hangs",) in e.st.ts:
                        bad = ("waits for ever after %d items" % len(ys), e)
                        continue
                    if any(x[0] != "tok" or x[1] != "item" for x in ys):
                        bad = ("an internal marker is yielded", e)
                    elif ys != items[:len(ys)]:
                        bad = ("yields %s" % [show(x) for x in ys], e)
                    made = [x[1] for x in e.st.ts if x[0] == "task"]
                    if not left:
                        if outcome is None and (e.kind == "raise" or ys != items):
                            bad = ("%s after %d of %d items" % ("raises %s" % show(e.value) if e.kind == "raise" else "ends", len(ys), k), e)
                        if outcome is not None and (e.kind != "raise" or name(m, e.value) != name(m, outcome)):
                            bad = ("%s although a reader fails" % ("raises %s" % show(e.value) if e.kind == "raise" else "ends"), e)
                    if left and t in ("running", "finishing") and ("cancel",) not in e.st.ts:
                        clean = ("the readers go on when the consumer is gone", e)
                    if not left and t == "running" and ("cancel",) not in e.st.ts:
                        clean = ("the readers go on when the merge has ended", e)
                    if not left and t == "finishing" and ("cancel",) not in e.st.ts and sum(1 for x in e.st.ts if x == ("task_done",)) != k + 1:
                        clean = ("the populating task waits for ever for the queue to be joined", e)
                    for x in e.st.ts:
                        if x[0] == "callback fails":
                            clean = ("the task's callback raises %s" % show(x[1]), e)
                    # the cancelled task's callbacks run afterwards
                    if left and ("cancel",) in e.st.ts and t == "running":
                        for s in cl.advance(e.st, must=True):
                            for x in s.ts:
                                if x[0] == "callback fails":
                                    clean = ("the cancelled task's callback raises %s" % show(x[1]), e)
                    if e.kind == "raise" and e.value[0] == "new" and "Assertion" in e.value[2]:
                        bad = ("an assertion fails", e)
                    if made and (len(made) != 1 or made[0][0] != "coro"):
                        bad = ("%d populating tasks" % len(made), e)
                    if made and made[0][0] == "coro":
                        fargs = dict(made[0][4])
                        f, _, _ = it.target(made[0][2])
                        if f is many:
                            src = made[0][3][0] if made[0][3] else fargs.get(many.params()[0])
                            src = it.kd_literal(e.st, src) if src is not None else None
                            if src != [S0, S1] and src != (S0, S1):
                                bad = ("the readers get %s" % (src,), e)
                            if fargs.get("queue") != QUEUE:
                                bad = ("the readers get another queue", e)
                lab = "%d items, the readers %s, the consumer %s" % (k, "end" if outcome is None else "raise %s" % outcome[1], leave or "goes on")
                ctx.ob("merged" if outcome is None and not leave else "failure", lab, ex and bad is None, L.where(merge), bad[0] if bad else "", bad[1].st.path() if bad else ())
                ctx.ob("cleanup", lab, ex and clean is None, L.where(merge), clean[0] if clean else "", clean[1].st.path() if clean else ())
