"""Smart queue: put is interpreted for the three states an equal request can be in (none, in flight, finished); the
done-callback of a smart future must drop exactly its own table entry; waiters are counted from await to completion
and the request with most waiters leaves the heap first."""
from ..lib import *
from .. import locks as L
from .. import queues as Q

SM = "a_sync._smart"
EX = ("tok", "existing")
ASSUMPTIONS = ["C08 (the worker resolves the future it was given)", "a WeakValueDictionary drops entries of dead futures only",
               "no other task runs between two statements without an await"]


class Join(Q.Put):
    def model(self, st, ev):
        if ev.kind == "call":
            fv = ev.callee
            if fv[0] == "attr" and fv[2] == "get" and fv[1][0] == "attr" and fv[1][2] == "_futs":
                st = st.but(ts=(st.ts + (("lookup", ev.args[0] if ev.args else None),))[:12])
                return [(st.but(ts=st.ts + (("none",),)), NONE), (st, EX)]
            if fv[0] == "attr" and fv[1] == EX and fv[2] == "done":
                return [(st.but(ts=st.ts + (("alive",),)), FALSE), (st.but(ts=st.ts + (("finished",),)), TRUE)]
        return Q.Put.model(self, st, ev)

    def event(self, st, ev):
        if ev.kind == "await":
            return st.but(ts=(st.ts + (("await",),))[:12])
        return Q.Put.event(self, st, ev)


class Counted(Client):
    """futures whose numbers of waiters are known"""
    kd = True

    def __init__(self, n):
        self.n = n

    def model_attr(self, st, base, name):
        return self.n.get(base) if name == "num_waiters" else None


class Waiters(Client):
    """a future with known waiters: plain tasks, and smart tasks which have waiters themselves"""
    kd = True
    distinct = True

    def __init__(self, done):
        self.done = done

    def model_attr(self, st, base, name):
        if name == "num_waiters" and base[:2] == ("tok", "smart task"):
            return const(base[2])
        return None

    def lacks(self, st, base, name):
        return base[:2] == ("tok", "task") and name == "num_waiters"

    def model(self, st, ev):
        if ev.kind == "call":
            n = callee_attr(ev) or L.opname(ev.callee)
            if n == "done" and not ev.args:
                return [(st, const(self.done))]
            if n == "hasattr" and ev.args and ev.args[0][0] == "tok":
                return [(st, const(ev.args[0][1] == "smart task"))]
            if n == "isinstance" and ev.args and ev.args[0][0] == "tok":
                return [(st, const(ev.args[0][1] == "smart task"))] if "Smart" in show(ev.args[1]) else None
        return None


def check(ctx):
    m = ctx.model
    ctx.rule("join", "an equal request in flight is joined, otherwise a new future is registered, enqueued and returned", 3)
    ctx.rule("key", "requests are equal iff their positional and keyword arguments are equal", 1)
    ctx.rule("finish", "a finished request leaves the table of requests in flight, and only itself", 2)
    ctx.rule("waiters", "every task awaiting a request counts as its waiter from the await until the request or the task is done", 4)
    ctx.rule("order", "of the waiting requests the one with most waiters is served first", 3)
    c = L.klass(m, Q.MOD, "SmartProcessingQueue")
    s = ("self", c.id)
    keys = set()
    for name, f in Q.entries(m, c):
        cl = Join()
        it = Interp(m, cl, attr_stable=Q.STABLE)
        ex = it.run(f, cls=c, facts={**Q.no_futs(c, False), ("truthy", ("attr", s, "_closed")): False})
        ctx.analysed(it, f, ex)
        bad, msg, joined, made = [], "", 0, 0
        for e in ex:
            if e.kind != "return":
                continue
            kinds = [t[0] for t in e.ts]
            err = None
            looked = [t[1] for t in e.ts if t[0] == "lookup"]
            if not looked:
                err = "does not look for an equal request in flight"
            elif len(set(looked)) != 1:
                err = "looks for two different keys"
            elif "await" in kinds:
                err = "lets other tasks run between looking for an equal request and registering the new one"
            elif e.value == EX:
                joined += 1
                if "alive" not in kinds or "finished" in kinds:
                    err = "joins a request that may have finished"
                if [k for k in kinds if k in ("put", "register", "newfut", "rawput", "badput", "futs")]:
                    err = "joins a request and still changes the queue"
            else:
                made += 1
                k = Q.star_normal(looked[0])
                keys.add(k)
                reg = [t for t in e.ts if t[0] == "register"]
                if "alive" in kinds:
                    err = "does not join an equal request in flight"
                elif "none" not in kinds and "finished" not in kinds:
                    err = "does not tell whether an equal request is in flight"
                elif kinds.count("put") != 1 or kinds.count("newfut") != 1 or len(reg) != 1 or e.value != Q.FUT:
                    err = "makes %d futures, registers %d and enqueues %d for one new request" % (kinds.count("newfut"), len(reg), kinds.count("put"))
                elif reg[0][2] != Q.FUT or Q.star_normal(reg[0][1]) != k:
                    err = "registers another future or another key than the one looked for"
                elif not contains([t for t in e.ts if t[0] == "put"][0][1], Q.FUT):
                    err = "enqueues another future than the one registered"
                elif "futs" in kinds:
                    err = "drops other requests"
                else:
                    for t in e.ts:
                        if t[0] == "futargs" and (t[1] != s or Q.star_normal(t[2] or NONE) != k):
                            err = "the future does not know its queue and key, so it would not leave the table"
            if err:
                bad.append(e)
                msg = err
        if not bad and not (joined and made):
            msg = "never %s" % ("joins" if not joined else "enqueues")
        ctx.ob("join", "SmartProcessingQueue." + name, not bad and joined and made, L.where(f), msg, bad[0].st.path() if bad else ())
    for k in keys:
        ok, msg = key_ok(k)
        ctx.ob("key", "SmartProcessingQueue._get_key", ok, "a_sync/primitives/queue.py", msg)
    finish(ctx)
    waiters(ctx)
    order(ctx, c)


def key_ok(k):
    args, kw = ("param", "*args"), ("param", "**kwargs")
    if not contains(k, args) or not contains(k, kw):
        return False, "the key ignores some of the arguments"
    # anything between the key and the arguments must keep all of them
    for x in subterms(k):
        if not x or not isinstance(x, tuple):
            continue
        if x[0] == "item" and x[1] == args or (x[0] == "call" and callee_attr(x) in ("get", "values", "pop") and callee_base(x) == kw) \
                or (x[0] == "call" and x[2] in (("ext", "builtins.len"), ("ext", "builtins.repr"), ("ext", "builtins.str"), ("ext", "builtins.hash"), ("ext", "builtins.id"), ("ext", "builtins.set"), ("ext", "builtins.sum"))):
            return False, "the key keeps only part of the arguments: %s" % show(x)
        if x[0] == "comp" and any(x[4:]) and x[-1]:
            return False, "the key leaves out some keyword arguments"
        if x[0] == "comp":
            elt = x[3]
            e = [y for y in subterms(elt) if y and y[0] in ("elem", "key", "val")]
            item = [y for y in subterms(elt) if y and y[0] == "item" and y[1] == kw]
            pairs = [y for y in subterms(x) if y and y[0] == "call" and callee_attr(y) == "items" and callee_base(y) == kw]
            if not item and not pairs:
                return False, "the key leaves out the values of the keyword arguments"
            if not pairs and isinstance(elt, tuple) and not outside(elt, kw):
                return False, "the key leaves out the names of the keyword arguments"
            if pairs and not item:
                idx = {y[2] for y in subterms(elt) if y and y[0] == "item" and y[1] and y[1][0] == "elem"}
                if idx in ({const(0)}, {const(1)}):
                    return False, "the key keeps only names or only values of the keyword arguments"
    flat = flatten(k)
    for a, b in zip(flat, flat[1:]):
        if a[0] == b[0] == "all" and contains(a[1], args) != contains(b[1], args) and contains(a[1], kw) != contains(b[1], kw):
            return False, "positional and keyword arguments run together in the key, so different requests share one"
    if not any(x and x[0] == "comp" for x in subterms(k)):
        if not any(x and x[0] == "call" and callee_attr(x) == "items" for x in subterms(k)):
            return False, "the key leaves out the values of the keyword arguments"
    if not any(x and x[0] == "call" and x[2] in (("ext", "builtins.sorted"), ("ext", "builtins.frozenset")) for x in subterms(k)):
        return False, "the key depends on the order of the keyword arguments"
    return True, ""


def flatten(v):
    """the pieces of a tuple: ("all", x) for the elements of x, ("one", x) for an element"""
    if v[0] == "tuple":
        out = []
        for x in v[1]:
            out += flatten(x[1]) if x[0] == "star" else [("one", x)]
        return out
    if v[0] == "binop" and v[1] == "Add":
        return flatten(v[2]) + flatten(v[3])
    return [("all", v)]


def outside(v, kw):
    """`v` mentions an element of the iteration other than as the index into `kw`"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == "item" and v[1] == kw:
        return False
    if v[0] in ("elem", "key"):
        return True
    return any(outside(x, kw) for x in v if isinstance(x, tuple))


class Fin(Client):
    branches = True

    def __init__(self, me, other):
        self.me, self.other = me, other

    def model(self, st, ev):
        if ev.kind == "call":
            fv = ev.callee
            if fv[0] == "attr" and fv[2] == "get" and fv[1][0] == "attr" and fv[1][2] == "_futs":
                return [(st.but(ts=st.ts + ("mine",)), self.me), (st.but(ts=st.ts + ("other",)), self.other), (st.but(ts=st.ts + ("gone",)), NONE)]
        return None

    def event(self, st, ev):
        def drop(k):
            return st.but(ts=st.ts + (("drop", k),)).note("%s entry dropped" % ev.loc)
        if ev.kind == "call" and callee_base(ev) is not None and callee_base(ev)[0] == "attr" and callee_base(ev)[2] == "_futs":
            if callee_attr(ev) in ("pop", "popitem", "clear", "__delitem__"):
                return drop(ev.args[0] if ev.args else None)
        if ev.kind == "delitem" and ev.base[0] == "attr" and ev.base[2] == "_futs":
            return drop(ev.index)
        return None


def finish(ctx):
    m = ctx.model
    c = L.klass(m, SM, "SmartFuture")
    s = ("self", c.id)
    init = m.find_method(c, "__init__")
    cbs, stores = [], {}

    def sel(st, ev):
        if ev.kind == "call" and callee_attr(ev) == "add_done_callback" and ev.args:
            return ("cb", ev.args[0])
        if ev.kind == "store" and ev.base == s and ev.name in ("_key", "_queue"):
            return ("store", ev.name, ev.value)
        return None
    q, k = ("param", "queue"), ("param", "key")
    ex = ctx.run(init, Rec(sel), cls=c, facts={("truthy", q): True, ("truthy", k): True, ("is", q, NONE): False, ("is", k, NONE): False})
    ok, msg = bool(ex), ""
    for e in ex:
        if e.kind != "return":
            continue
        st = {t[1]: t[2] for t in e.ts if t[0] == "store"}
        if st.get("_key") != k or not (st.get("_queue") == q or contains(st.get("_queue", NONE), q)):
            ok, msg = False, "a smart future does not remember its queue and key"
        for t in e.ts:
            if t[0] == "cb":
                cbs.append(t[1])
        if not any(t[0] == "cb" for t in e.ts):
            ok, msg = False, "no done-callback is registered"
    ctx.ob("finish", "SmartFuture.__init__", ok, L.where(init), msg)
    if not ok:
        return
    good = False
    for cb in {x for x in cbs}:
        f = None
        it0 = Interp(m, Client())
        if cb[0] in ("func", "bound"):
            f = it0.func_by_id(cb[1])
        elif cb[0] == "attr":
            f = m.find_method(c, cb[2])
        elif cb[0] == "fn":
            f = it0.func_by_id(cb[1])
        if f is None:
            continue
        me, other = s, ("tok", "other")
        cl = Fin(me, other)
        it = Interp(m, cl)
        first = f.params()[0] if f.params() else None
        args = {} if f.cls is not None else {first: s}
        ex = it.run(f, cls=c, facts={("truthy", ("attr", s, "_queue")): True, ("is", ("attr", s, "_queue"), NONE): False, ("is", s, other): False, ("is", other, s): False}, args=args or None)
        ctx.analysed(it, f, ex)
        bad, msg, drops = [], "", 0
        for e in ex:
            d = [t for t in e.ts if isinstance(t, tuple) and t[0] == "drop"]
            drops += len(d)
            if e.kind != "return":
                continue
            st = [t for t in e.ts if isinstance(t, str)]
            if any(x[1] != ("attr", s, "_key") for x in d):
                bad.append(e)
                msg = "drops an entry other than its own"
            elif st[-1:] == ["mine"] and not d:
                bad.append(e)
                msg = "keeps its entry although it is done"
            elif st[-1:] in (["other"],) and d:
                bad.append(e)
                msg = "drops the entry of a newer equal request"
            elif not st and d:
                bad.append(e)
                msg = "drops the entry under its key without checking that it is its own"
        if drops or bad:
            good = True
            ctx.ob("finish", "SmartFuture done-callback", not bad, L.where(f), msg, bad[0].st.path() if bad else ())
    if not good:
        ctx.ob("finish", "SmartFuture done-callback", False, L.where(init), "nothing drops a finished request from the table of requests in flight")


def waiters(ctx):
    m = ctx.model
    for cname in ("SmartFuture", "SmartTask"):
        c = L.klass(m, SM, cname)
        s = ("self", c.id)
        f = m.find_method(c, "__await__")
        w = ("attr", s, "_waiters")
        cur = []

        def sel(st, ev):
            if ev.kind == "call" and callee_base(ev) == w and callee_attr(ev) in ("add", "discard", "remove", "clear"):
                return (callee_attr(ev),) + tuple(ev.args)
            if ev.kind == "call" and callee_attr(ev) == "add_done_callback":
                return ("cb", callee_base(ev), ev.args[0])
            if ev.kind == "yield":
                return ("yield", ev.value)
            return None

        def model(st, ev):
            if ev.kind == "call":
                if L.opname(ev.callee) == "current_task" or callee_attr(ev) == "current_task":
                    return [(st.fact(("truthy", ("tok", "task")), True), ("tok", "task")), (st.but(ts=st.ts + ("notask",)), NONE)]
                if ev.callee == ("attr", s, "done"):
                    return [(st.but(ts=st.ts + ("done",)), TRUE), (st.but(ts=st.ts + ("pending",)), FALSE)]
            return None
        ex = ctx.run(f, Rec(sel, model=model), cls=c)
        task = ("tok", "task")
        bad, msg, cb = [], "", None
        for e in ex:
            ts = list(e.ts)
            ys = [t for t in ts if t[0] == "yield"]
            if "pending" in ts and "notask" not in ts and ts.index("pending") == 0 and ys:
                i = ts.index(ys[0])
                if ("add", task) not in ts[:i]:
                    bad.append(e)
                    msg = "waits without counting the waiting task"
                elif not any(t[0] == "cb" and t[1] == task for t in ts[:i]):
                    bad.append(e)
                    msg = "a waiter that is done is never dropped"
                for t in ts[:i]:
                    if t[0] == "cb" and t[1] == task:
                        cb = t[2]
            if e.kind == "return" and ts[:1] == ["pending"] and not ys:
                bad.append(e)
                msg = "does not wait for a pending request"
            if e.kind == "return" and not (e.value[0] == "call" and callee_attr(e.value) == "result" and callee_base(e.value) == s):
                bad.append(e)
                msg = "returns %s instead of the result" % show(e.value)
        f2 = None
        if cb is not None and cb[0] in ("func", "bound"):
            f2 = Interp(m, Client()).func_by_id(cb[1])
        elif cb is not None and cb[0] == "attr":
            f2 = m.find_method(c, cb[2])
        if f2 is not None and not bad:
            p = ("param", [x for x in f2.params() if x != "self"][-1])
            ex2 = ctx.run(f2, Rec(sel, model=model), cls=c)
            for e in ex2:
                if e.kind == "return" and "done" not in e.ts and not any(t in (("remove", p), ("discard", p)) for t in e.ts):
                    bad.append(e)
                    msg = "a waiter that is done still counts"
        ctx.ob("waiters", cname + ".__await__", not bad and bool(ex), L.where(f), msg, bad[0].st.path() if bad else ())
        f = m.find_method(c, "num_waiters")

        bad, msg, ex = [], "", []
        T1, T2, S0, S2 = ("tok", "task", 1), ("tok", "task", 2), ("tok", "smart task", 0), ("tok", "smart task", 2)
        for waiters in ((), (T1,), (T1, T2), (S2,), (S0, T1), (S2, S0, T1)):
            for done in (False, True):
                cl = Waiters(done)
                it = Interp(m, cl)
                cl.it = it
                n = [sum((x[2] or 1) if x[1] == "smart task" else 1 for x in waiters), len(waiters)]
                r = it.run(f, cls=c, heap={w: ("kl", "waiters"), ("kd", "waiters", ""): ("klc", waiters, "set")})
                ctx.analysed(it, f, r)
                ex += r
                for e in r:
                    if e.kind != "return":
                        bad.append(e)
                        msg = "raises %s" % show(e.value)
                    elif done and e.value != const(0):
                        bad.append(e)
                        msg = "counts %s waiters once it is done" % show(e.value)
                    elif not done and is_const(e.value) and cval(e.value) not in n:
                        bad.append(e)
                        msg = "the number of waiters is %s with the waiters [%s]" % (show(e.value), ", ".join(map(show, waiters)))
                    elif not done and not is_const(e.value):
                        bad.append(e)
                        msg = "the number of waiters is %s" % show(e.value)
        ctx.ob("waiters", cname + ".num_waiters", not bad and bool(ex), L.where(f), msg, bad[0].st.path() if bad else ())


def order(ctx, c):
    m = ctx.model
    sf = L.klass(m, SM, "SmartFuture")
    s = ("self", sf.id)
    f = m.find_method(sf, "__lt__")
    o = ("param", [p for p in f.params() if p != "self"][0])
    bad, msg, n = [], "", 0
    for x in (0, 1, 2):
        for y in (0, 1, 2):
            if x == y:
                continue
            cl = Counted({s: const(x), o: const(y)})
            cl.it = it = Interp(m, cl)
            ex = it.run(f, cls=sf)
            ctx.analysed(it, f, ex)
            n += len(ex)
            for e in ex:
                v = e.value if e.kind != "return" or is_const(e.value) else {True: TRUE, False: FALSE}.get(it.decide(e.st, e.value), e.value)
                if e.kind != "return" or v != const(x > y):
                    bad.append(e)
                    msg = "a request with %d waiters %s before one with %d" % (x, "is not served" if x > y else "is served", y)
    ctx.ob("order", "SmartFuture.__lt__", not bad and n > 0, L.where(f), msg, bad[0].st.path() if bad else ())
    rf = L.klass(m, Q.MOD, "_SmartFutureRef")
    f = m.find_method(rf, "__lt__")
    if f is None:
        ctx.ob("order", "_SmartFutureRef.__lt__", False, "a_sync/primitives/queue.py", "the entries of the heap define no order")
        return
    rs = ("self", rf.id)
    ro = ("param", [p for p in f.params() if p != "self"][0])
    A, B = ("tok", "a"), ("tok", "b")

    def model(st, ev):
        if ev.kind == "call" and ev.callee == rs:
            return [(st.but(ts=st.ts + ("selfdead",)), NONE), (st.but(ts=st.ts + ("selflive",)), A)]
        if ev.kind == "call" and ev.callee == ro:
            return [(st.but(ts=st.ts + ("otherdead",)), NONE), (st.but(ts=st.ts + ("otherlive",)), B)]
        return None
    ex = ctx.run(f, Rec(lambda st, ev: None, model=model), cls=rf)
    bad, msg = [], ""
    for e in ex:
        v = e.value
        if e.kind != "return":
            bad.append(e)
            msg = "raises"
        elif "selflive" in e.ts and "otherlive" in e.ts and not (v in (("cmp", "Lt", A, B), ("cmp", "Gt", B, A)) or (v[0] == "call" and callee_attr(v) == "__lt__" and callee_base(v) == A)):
            bad.append(e)
            msg = "two live requests compare as %s" % show(v)
        elif any(x and (x[0] == "cmp" and x[1] in ("Lt", "Gt", "LtE", "GtE") and NONE in x[2:] or x[0] == "call" and NONE in x[3] + (callee_base(x),)) for x in subterms(v)):
            bad.append(e)
            msg = "an abandoned request is compared, which raises and ends the worker taking the next one"
        elif is_const(v) and "selflive" in e.ts and "otherdead" not in e.ts:
            bad.append(e)
            msg = "a live request is placed without looking at the other one"
    ctx.ob("order", "_SmartFutureRef.__lt__", not bad and bool(ex), L.where(f), msg, bad[0].st.path() if bad else ())
    get = m.find_method(c, "_get")
    q = ("attr", ("self", c.id), "_queue")

    def sel(st, ev):
        if ev.kind == "call" and L.opname(ev.callee) in ("heapify", "heappop"):
            return (L.opname(ev.callee),) + tuple(ev.args)
        return None
    ex = ctx.run(get, Rec(sel), cls=c)
    bad = [e for e in ex if e.kind == "return" and e.ts != (("heapify", q), ("heappop", q))]
    ctx.ob("order", "SmartProcessingQueue._get", not bad and bool(ex), L.where(get),
           "takes a request without ordering the heap by the current number of waiters", bad[0].st.path() if bad else ())
