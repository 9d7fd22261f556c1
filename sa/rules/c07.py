"""Bulk queue reads: along every path of every read operation the items taken so far are tracked as a sequence of
segments (still loose, or held by a list); at every exit they must all be in the returned list, in the order taken, or
be back at the front of the queue."""
from ..lib import *
from .. import locks as L
from ..queues import forget

MOD = "a_sync.primitives.queue"
ASSUMPTIONS = ["asyncio.Queue.get/get_nowait/put/put_nowait take and add one item at the ends of a FIFO deque",
               "other tasks run only while a coroutine awaits"]
NOWAKE = (None, True, False, 0)     # loop over the items put back: all before woke one reader, this one has yet to, rounds
EMPTY = ("exc", "QueueEmpty", "")


def is_queue_base(v):
    """the asyncio implementation seen from the subclass: _Queue.get(self) / super().get()"""
    return v[0] == "class" or v[0] == "super" or v[0] == "ext"


class Read(Client):
    data = (0, 1, 2, 3)
    branches = True
    model_raises = True

    def __init__(self, want, less, waits, drain, selfv):
        self.want, self.less, self.waits, self.drain, self.selfv = want, less, waits, drain, selfv

    # -- recognising the primitive operations
    def take(self, ev, fv, args):
        if fv[0] != "attr":
            return None
        a, b = fv[2], fv[1]
        mine = (is_queue_base(b) and args and args[0][0] == "self") or b[0] == "super" or b[0] == "self"
        if a in ("get", "get_nowait") and mine:
            return a
        if a in ("popleft", "_get") and (b[0] == "self" or (b[0] == "attr" and b[2] == "_queue") or mine):
            return "raw"
        return None

    def new_token(self, st):
        if L.tsget(st, "errs", ()):
            return L.tsput(st, last=1)
        if len(L.tsget(st, "held", ())) > 2:
            return L.tsput(L.err(st, None, "once", "items already taken pile up outside the list to be returned"), last=1)
        n = (L.tsget(st, "last", 0) + 1) % 4
        st = forget(st, ("tok", n))
        st = L.tsput(st, last=n, full=False, per=min(L.tsget(st, "per", 0) + 1, 2), some=True, nonempty=False)
        return L.tsput(st, held=L.tsget(st, "held", ()) + (("tok", n),))

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[0] == "call" and self.take(ev, v[2], v[3]) == "get":
                st = self.new_token(L.tsput(st, drained=False))
                return [(st, ("tok", L.tsget(st, "last")))]
            return None
        t = self.take(ev, ev.callee, ev.args)
        if t in ("get_nowait", "raw"):
            if t == "raw":
                st = L.err(st, ev, "once", "takes an item behind the queue's back (waiting putters are not told)")
            st = self.new_token(st)
            return [(st, ("tok", L.tsget(st, "last")))]
        return None

    def raises(self, st, ev):
        if ev.kind == "call" and self.take(ev, ev.callee, ev.args) == "get_nowait":
            if L.tsget(st, "nonempty"):
                return ()
            return [(L.tsput(st, drained=True), ("exc", "QueueEmpty", ev.loc))]
        if ev.kind == "await":
            return [(self.keep(L.tsput(st, drained=False, cancelled=True)), CANCEL(ev))]
        return ()

    def keep(self, st):
        """only this call knows its lists: awaiting does not change them"""
        for x in L.tsget(st, "held", ()):
            if x[0] == "cell":
                st = st.fact(("truthy", x), True)
        return st

    # -- what sequence of taken items does a value stand for?
    def seq(self, st, v):
        held = L.tsget(st, "held", ())
        if v[0] == "cell":
            return ((v,) if v in held else ()) if not v[2][1] or v in held else self.seq(st, v[2])
        if v[0] == "comp":
            k = ("cell", v[2], ("list", ()))
            return (k,) if k in held else ()
        if v[0] in ("list", "tuple"):
            out = ()
            for x in v[1]:
                if x[0] == "tok":
                    out += (x,)
                elif x[0] == "star":
                    s = self.seq(st, x[1])
                    if s is None:
                        return None
                    out += s
                else:
                    return None
            return out
        if v[0] == "binop" and v[1] == "Add":
            a, b = self.seq(st, v[2]), self.seq(st, v[3])
            return None if a is None or b is None else a + b
        if v[0] == "call" and v[2] in (("ext", "builtins.list"), ("ext", "builtins.tuple")) and len(v[3]) == 1:
            return self.seq(st, v[3][0])
        if v[0] == "call" and callee_attr(v) == "copy" and callee_base(v) is not None:
            return self.seq(st, callee_base(v))
        return None

    def move(self, st, ev, cell, add):
        """the items `add` (a sequence of segments) join the end of the list `cell`"""
        held = L.tsget(st, "held", ())
        if not add:
            return st
        i = held.index(cell) if cell in held else None
        at = i + 1 if i is not None else (held.index(add[0]) if add[0] in held else None)
        if at is None or held[at:at + len(add)] != tuple(add):
            return L.err(st, ev, "order", "items are collected out of order, twice, or not those taken")
        new = held[:at] + held[at + len(add):]
        if i is None:
            new = new[:at] + (cell,) + new[at:]
        return L.tsput(st, held=new)

    def event(self, st, ev):
        k, g = ev.kind, L.tsget
        held = g(st, "held", ())
        if g(st, "errs", ()):
            return None
        if k == "assign":
            v = ev.value
            if v[0] == "cell":
                if v in held and ev.aug is None and not any(x == v for n, x in st.env.items() if n != ev.name):
                    return L.err(st, ev, "once", "the list holding items already taken is replaced by a new one")
                if ev.aug is None and v[2][1]:
                    s = self.seq(st, v[2])
                    if s:
                        return self.move(st, ev, v, s)
            if ev.aug is not None and v[0] == "binop" and v[2][0] == "cell" and ev.aug[0] == "Add":
                s = self.seq(st, ev.aug[1])
                st = L.err(st, ev, "order", "adds something that was not taken") if s is None else self.move(st, ev, v[2], s)
                return st.bind(ev.name, v[2]).fact(("truthy", v[2]), True) if s else st.bind(ev.name, v[2])
            return None
        if k == "elt":
            v = ev.value
            if v[0] == "tok":
                return self.move(st, ev, ("cell", ev.site, ("list", ())), (v,))
            return None
        if k == "next":
            if self.getters(ev.value):
                return L.tsput(st, getters=True)
            if self.backed(ev.value):
                w = g(st, "wake", NOWAKE)
                w = w if w[0] == ev.value else NOWAKE
                return L.tsput(st, wake=(ev.value, w[1] and not w[2], True, min(w[3] + 1, 2)))      # this attempt may find the end
            if g(st, "rng") == ev.value or self.is_range(ev.value):
                ok = g(st, "per", 0) == 1 or g(st, "rng") != ev.value
                return L.tsput(st, rng=ev.value, per=0, exact=ok and g(st, "exact", True))
            return None
        if k == "iter":
            v = ev.value
            if v[0] == "call" and v[2] == ("ext", "builtins.reversed") and held and self.seq(st, v[3][0]) == held:
                return L.tsput(st, rev=v, putting=None)
            return None
        if k == "iter_end":
            v = ev.value
            if v is not None and self.getters(v):
                st = L.tsput(st, getters=False, woke=True)
            w = g(st, "wake", NOWAKE)
            if v is not None and w[0] == v:
                if w[3] == 1 and any(x in subterms(v) for x in held + g(st, "gone", ())):
                    return []       # the list is not empty: the loop runs at least once
                st = L.tsput(st, woke=bool(g(st, "woke") or w[1]), wake=NOWAKE)
            if g(st, "rev") == v and v is not None:
                if g(st, "putting") == v:
                    return L.tsput(st, held=(), gone=held, getters=False, back=True, putting=None, rev=None)
                return []       # the list is not empty: the loop runs at least once
            if self.is_range(v) and v[3] == (self.want,) and (g(st, "exact", True)):
                return L.tsput(st, full=True, rng=None, drainlen=False)
            if self.is_range(v) and len(v[3]) == 1 and self.is_qsize(v[3][0]):
                return L.tsput(st, drained=True, rng=None)
            return st
        if k == "branch":
            v, t = ev.value, ev.taken
            if self.getters(v):
                st = L.tsput(st, getters=t, woke=bool(g(st, "woke") or not t))
            if g(st, "back") and v[0] == "cmp" and any(x and x[0] == "call" and x[2] == ("ext", "builtins.len") and x[3] and self.backed(x[3][0]) for x in subterms(v)):
                st = L.tsput(st, getters=t, woke=bool(g(st, "woke") or not t))
            z = L.emptiness(v, t)
            if z is not None and (z[0][0] == "attr" and z[0][2] == "_queue"):
                return L.tsput(st, drained=True) if z[1] else L.tsput(st, nonempty=True)
            if v[0] == "call" and callee_attr(v) == "empty":
                return L.tsput(st, drained=True) if t else L.tsput(st, nonempty=True)
            if v[0] == "call" and self.is_qsize(v):
                return L.tsput(st, drained=True) if not t else L.tsput(st, nonempty=True)
            if z is not None and z[0][0] == "self":
                return L.tsput(st, drained=True) if z[1] else L.tsput(st, nonempty=True)
            if z is not None and z[0][0] == "cell" and z[1] and g(st, "putting") == z[0]:
                return L.tsput(st, held=(), gone=held, getters=False, back=True, putting=None)
            if v[0] == "cell" and not t and g(st, "putting") == v:
                return L.tsput(st, held=(), gone=held, getters=False, back=True, putting=None)
            if v[0] == "cmp" and self.want is not None and contains(v, self.want):
                r = self.cmp_full(st, v, t)
                if r:
                    return L.tsput(st, full=r)
            return st
        if k == "call":
            a, b = callee_attr(ev), callee_base(ev)
            if b is not None and b[0] == "cell" and a in ("append", "extend") and ev.args:
                s = (ev.args[0],) if a == "append" and ev.args[0][0] == "tok" else self.seq(st, ev.args[0]) if a == "extend" else None
                if s is None:
                    return L.err(st, ev, "order", "adds something that was not taken") if b in held or held else None
                return self.move(st, ev, b, s)
            if b is not None and b[0] == "cell" and (b,) == held and a == "pop" and not ev.args:
                return None
            if b is not None and b[0] == "cell" and b in held and a in L.MUT | {"insert", "reverse", "sort"}:
                return L.err(st, ev, "order", "the list of taken items is changed (%s)" % a)
            if b is not None and b[0] == "attr" and b[2] == "_queue":
                if a == "extendleft" and ev.args and ev.args[0][0] == "call" and ev.args[0][2] == ("ext", "builtins.reversed") \
                        and self.seq(st, ev.args[0][3][0]) == held:
                    return L.tsput(st, held=(), gone=held, getters=False, back=bool(held)).note("%s items put back at the front" % ev.loc)
                if a == "appendleft" and ev.args:
                    x = ev.args[0]
                    if x[0] == "elem" and x[1][0] == "call" and x[1][2] == ("ext", "builtins.reversed") and self.seq(st, x[1][3][0]) == held:
                        return L.tsput(st, putting=x[1])
                    if held and x == held[-1]:
                        return L.tsput(st, held=held[:-1], back=True)
                    if x[0] == "call" and callee_attr(x) == "pop" and not x[3] and (callee_base(x),) == held:
                        return L.tsput(st, putting=callee_base(x))
                if a in L.MUT | {"extendleft", "appendleft", "extend", "append", "insert"}:
                    return L.err(st, ev, "order", "items are put back in another order or place")
            if a in ("put_nowait", "put") and held:
                return L.err(st, ev, "order", "items already taken are added to the end of the queue again")
            if a == "_wakeup_next" or (a == "set_result"):
                w = g(st, "wake", NOWAKE)
                if w[0] is not None:
                    return L.tsput(st, wake=w[:2] + (False, w[3]))
                return L.tsput(st, woke=bool(g(st, "woke") or g(st, "putting") or g(st, "getters")))
            return None
        if k == "resumed":
            return self.keep(st)
        if k == "await":
            v = ev.value
            if v[0] == "call" and self.take(ev, v[2], v[3]) == "get":
                if not self.waits:
                    st = L.err(st, ev, "wait", "a non-blocking read waits")
                if self.less is not None and held and not g(st, "nonempty") and st.facts.get(("truthy", self.less)) is not False:
                    st = L.err(st, ev, "wait", "waits for more although it has items and may return fewer")
                if self.drain and held and not g(st, "nonempty"):
                    st = L.err(st, ev, "wait", "waits for more although it has items")
            return L.tsput(st, full=False, drained=False, nonempty=False)
        return None

    def getters(self, v):
        """is it about the readers that wait?"""
        return any(x and len(x) == 3 and x[0] == "attr" and x[2] == "_getters" for x in subterms(v))

    def backed(self, v):
        """is the loop over the items put back?"""
        if v[0] == "call" and v[2] in (("ext", "builtins.reversed"), ("ext", "builtins.range"), ("ext", "builtins.len"), ("ext", "builtins.list")) and len(v[3]) == 1:
            return self.backed(v[3][0])
        return v[0] in ("cell", "comp") or v[0] == "list" and bool(v[1])

    def is_range(self, v):
        return v[0] == "call" and v[2] == ("ext", "builtins.range")

    def is_qsize(self, v):
        return v[0] == "call" and (callee_attr(v) == "qsize" or (v[2] == ("ext", "builtins.len") and (
            v[3][0][0] == "self" or v[3][0][0] == "attr" and v[3][0][2] == "_queue")))

    def cmp_full(self, st, v, t):
        """does the outcome of comparing the number of items held with the number wanted say they are equal?"""
        def is_len(x):
            return x[0] == "call" and x[2] == ("ext", "builtins.len") and x[3] and x[3][0][0] == "cell"
        op, a, b = v[1], v[2], v[3]
        if is_len(b) and a == self.want:
            op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            a, b = b, a
        if not (is_len(a) and b == self.want):
            return None if is_len(a) or is_len(b) or any(is_len(x) for x in subterms(v)) or not any(x and x[0] == "binop" for x in subterms(v)) or not L.tsget(st, "held", ()) else "maybe"
        return True if (op, t) in (("Lt", False), ("GtE", True), ("Eq", True), ("NotEq", False)) else None


def check(ctx):
    m = ctx.model
    ctx.rule("once", "every item a read operation takes is returned, or goes back to the front of the queue, exactly once", 6)
    ctx.rule("order", "items are returned in the order they were taken", 6)
    ctx.rule("wait", "a bulk read waits for exactly as many items as it must", 4)
    ctx.rule("pass", "get, get_nowait, put and put_nowait handle exactly the one item they are about", 4)
    ctx.rule("store", "every queue class stores and hands out exactly one item per operation", 8)
    c = L.klass(m, MOD, "Queue")
    s = ("self", c.id)
    for name in ("get", "get_nowait", "get_all", "get_all_nowait", "get_multi", "get_multi_nowait"):
        f = m.find_method(c, name)
        if f is None:
            raise AnalysisError("Queue.%s not found" % name)
        multi = "multi" in name
        ps = [p for p in f.params() if p != "self"]
        want = ("param", ps[0]) if multi and ps else None
        less = ("param", ps[1]) if multi and len(ps) > 1 else None
        cl = Read(want, less, "nowait" not in name, "all" in name, s)
        it = Interp(m, cl)
        ex = it.run(f, cls=c)
        ctx.analysed(it, f, ex)
        errs = {}
        for e in ex:
            for x in judge(cl, name, multi, e) + [("err",) + y for y in L.tsget(e.st, "errs", ())]:
                errs.setdefault(x[1], []).append((x, e))
        for r in ("once", "order") + (("wait",) if "nowait" not in name or multi else ()):
            bad = errs.get(r, [])
            ctx.ob(r, "Queue." + name, not bad, L.where(f), "; ".join(sorted({b[0][2] for b in bad})), bad[0][1].st.path() if bad else ())
    puts(ctx, c)
    stores(ctx)


def judge(cl, name, multi, e):
    g = L.tsget
    held = g(e.st, "held", ())
    out = []
    if e.kind == "return":
        v = e.value
        if not multi and "all" not in name:
            if held != (v,):
                out.append(("err", "once", "returns %s instead of the one item taken" % show(v)))
            return out
        s = cl.seq(e.st, v)
        if s is None or s != held:
            out.append(("err", "order" if s and set(s) == set(held) else "once",
                        "returns %s, having taken %s" % (show(v), ", ".join(show(h) for h in held) or "nothing")))
        if multi:
            full = g(e.st, "full", False)
            less = cl.less is not None and e.st.facts.get(("truthy", cl.less)) is True
            if not full and not (less and held):
                out.append(("err", "wait", "returns %s items than asked for" % ("without being allowed to return fewer, possibly fewer" if held else "no")))
        else:
            if not held:
                out.append(("err", "wait", "returns no items"))
            if not g(e.st, "drained", False) and "nowait" in name:
                out.append(("err", "wait", "stops before the queue is empty"))
    else:
        if held:
            out.append(("err", "once", "an exception (%s) loses the items already taken" % show(e.value)))
        if e.value[0] == "exc" and e.value[1] == "QueueEmpty" or (e.value[0] == "call" and e.value[2] == ("ext", "asyncio.QueueEmpty")) \
                or e.value == ("ext", "asyncio.QueueEmpty"):
            if cl.waits:
                out.append(("err", "wait", "a waiting read reports the queue as empty"))
            if "all" in name and (held or g(e.st, "back")):
                out.append(("err", "wait", "reports an empty queue although there were items"))
            if multi and (g(e.st, "back") or held) and cl.less is not None and e.st.facts.get(("truthy", cl.less)) is not False:
                out.append(("err", "wait", "reports an empty queue although it had items and may return fewer"))
        if g(e.st, "back") and g(e.st, "cancelled") and not g(e.st, "woke"):
            out.append(("err", "once", "puts items back without waking as many waiting readers"))
    return out


def puts(ctx, c):
    m = ctx.model
    for name in ("put", "put_nowait"):
        f = m.find_method(c, name)
        p = ("param", [x for x in f.params() if x != "self"][0])

        def sel(st, ev):
            if ev.kind == "call" and callee_attr(ev) in ("put", "put_nowait", "_put"):
                a = ev.args
                if callee_base(ev)[0] in ("class", "ext"):
                    a = a[1:]
                if ev.target is not None and ev.target.module.name == MOD and ev.interp.can_inline(ev.target):
                    return None
                return ("put", callee_attr(ev), a)
            if ev.kind == "call" and callee_base(ev) is not None and callee_base(ev)[0] == "attr" and callee_base(ev)[2] == "_queue" \
                    and callee_attr(ev) in L.MUT | {"extendleft"}:
                return ("raw", callee_attr(ev))
            if ev.kind == "await":
                return ("await", callee_attr(ev.value) if ev.value[0] == "call" else "?")
            return None
        ex = ctx.run(f, Rec(sel), cls=c)
        want = ((("put", "put", (p,)), ("await", "put")),) if name == "put" else ((("put", "put_nowait", (p,)),),)
        alt = want + (((("put", "put_nowait", (p,)),),) if False else ())
        bad = [e for e in ex if e.kind != "return" or e.ts not in alt]
        ctx.ob("pass", "Queue." + name, not bad and bool(ex), L.where(f),
               "; ".join(str([show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and False else x for x in e.ts]) for e in bad)[:300], bad[0].st.path() if bad else ())
    for name in ("get", "get_nowait"):
        ctx.ob("pass", "Queue." + name, True, L.where(m.find_method(c, name)))


def stores(ctx):
    """classes with their own storage discipline"""
    m = ctx.model
    mod = m.module(MOD) if hasattr(m, "module") else None
    for cname in ("_PriorityQueueMixin", "_VariablePriorityQueueMixin", "PriorityProcessingQueue", "SmartProcessingQueue"):
        c = L.klass(m, MOD, cname)
        put, get = m.find_method(c, "_put"), m.find_method(c, "_get")
        s = ("self", c.id)
        q = ("attr", s, "_queue")
        item = ("param", [x for x in put.params() if x != "self"][0])

        def norm(fv):
            return fv

        def sel(st, ev):
            if ev.kind == "call":
                if L.opname(ev.callee) in ("heappush", "heappop", "heapify"):
                    return (L.opname(ev.callee),) + ev.args
                if ev.callee[0] == "attr" and ev.callee[1] == q:
                    return ("raw", ev.callee[2])
            if ev.kind in ("store", "setitem", "delitem") and (getattr(ev, "name", None) == "_queue" or ev.base == q):
                return ("raw", ev.kind)
            return None
        ex = ctx.run(put, Rec(sel), cls=c)
        bad = [e for e in ex if e.kind == "return" and e.ts != (("heappush", q, item),)]
        ctx.ob("store", cname + "._put", not bad, L.where(put), "does not push exactly the given item", bad[0].st.path() if bad else ())
        ex = ctx.run(get, Rec(sel), cls=c)
        bad = []
        for e in ex:
            if e.kind != "return":
                continue
            ops = [t for t in e.ts if t[0] != "heapify"]
            if ops != [("heappop", q)] or any(t[0] == "raw" for t in e.ts):
                bad.append(e)
            elif not any(x[0] == "call" and L.opname(x[2]) == "heappop" for x in subterms(e.value) if x and x[0] == "call"):
                bad.append(e)
        ctx.ob("store", cname + "._get", not bad and bool(ex), L.where(get), "does not take exactly one item and return it", bad[0].st.path() if bad else ())
