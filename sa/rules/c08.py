"""Processing queues: what put enqueues is followed through the queue's _get into the loop its workers run; every path
of that loop must call the function once with the arguments given, hand the outcome to the future that put returned,
count the item done once, and go on."""
from ..lib import *
from .. import locks as L
from .. import queues as Q

ASSUMPTIONS = ["asyncio.Queue hands out each item put exactly once", "logging calls and repr() do not raise",
               "the worker function may return, raise any Exception, or be cancelled at its await"]


def check(ctx):
    m = ctx.model
    ctx.rule("accept", "every way of adding work enqueues exactly one item holding the arguments and the future returned", 15)
    ctx.rule("once", "a worker calls the function exactly once per item with the arguments given", 5)
    ctx.rule("future", "the outcome of that call reaches the future put returned, whatever state the future is in", 3)
    ctx.rule("count", "task_done() is called exactly once per item", 5)
    ctx.rule("survive", "nothing but its own cancellation ends a worker", 5)
    ctx.rule("ties", "items of a priority queue are ordered without comparing futures or arguments", 2)
    ctx.rule("start", "the workers asked for are started before work is accepted, each running the worker loop", 3)
    for cname in Q.CLASSES:
        c = L.klass(m, Q.MOD, cname)
        for flag in Q.modes(c):
            one(ctx, c, flag)
        start(ctx, c)


def one(ctx, c, flag):
    m = ctx.model
    label = c.name + (" without results" if flag else "")
    for name, f in Q.entries(m, c):
        it = Interp(m, Q.Put(), attr_stable=Q.STABLE)
        ex = it.run(f, cls=c, facts=Q.no_futs(c, flag))
        ctx.analysed(it, f, ex)
        bad, msg = [], ""
        n = 0
        for e in ex:
            if e.kind != "return":
                if any(t[0] in ("put", "rawput", "badput") for t in e.ts):
                    bad.append(e)
                    msg = "raises after enqueueing"
                continue
            puts = [t for t in e.ts if t[0] == "put"]
            odd = [t for t in e.ts if t[0] in ("rawput", "badput")]
            joined = c.name.startswith("Smart") and not puts and e.value[0] == "call" and callee_attr(e.value) == "get"
            joined = joined or (c.name.startswith("Smart") and not puts and e.value[0] == "item" and e.value[1][0] == "attr" and e.value[1][2] == "_futs")
            if odd or (len(puts) != 1 and not joined):
                bad.append(e)
                msg = "enqueues %d items" % len(puts) if not odd else "enqueues through %s, which does not hand over the item as it is" % (odd[0],)
            elif puts:
                n += 1
                p = Q.star_normal(puts[0][1])
                has = lambda x: contains(p, x)
                if not (has(("param", "*args")) and has(("param", "**kwargs"))):
                    bad.append(e)
                    msg = "the item enqueued lacks arguments"
                elif not flag and not has(e.value):
                    bad.append(e)
                    msg = "returns a future that is not the one enqueued"
                elif not flag and is_const(e.value):
                    bad.append(e)
                    msg = "returns no future"
                elif e.ts.index(puts[0]) < (e.ts.index(("workers",)) if ("workers",) in e.ts else 99):
                    bad.append(e)
                    msg = "accepts work without workers"
        ctx.ob("accept", "%s.%s" % (label, name), not bad and n > 0, L.where(f), msg or "never enqueues", bad[0].st.path() if bad else ())
    f, ex, pay = Q.payloads(ctx, c, flag)
    if not pay:
        for r in ("once", "count", "survive"):
            ctx.ob(r, label, False, L.where(f), "nothing is enqueued")
        return
    shapes = []
    for p, fut in pay:
        t = Q.to_tokens(p, fut, flag)
        if t not in shapes:
            shapes.append(t)
    errs, where = {}, "a_sync/primitives/queue.py"
    for t in shapes:
        cl, rets, R = Q.run_worker(ctx, c, flag, t)
        if not cl.gets:
            raise AnalysisError("%s: the worker loop never takes an item" % label)
        for s, v in rets:
            errs.setdefault("survive", []).append(("the worker ends by returning", s))
            for x in L.tsget(s, "errs", ()):
                errs.setdefault(x[0], []).append((x[1], s))
        for s, e in R:
            g = L.tsget
            for x in g(s, "errs", ()):
                errs.setdefault(x[0], []).append((x[1], s))
            if g(s, "errs", ()):
                continue
            if not (e[0] == "exc" and e[1] == "CancelledError"):
                errs.setdefault("survive", []).append(("%s ends the worker" % show(e), s))
                continue
            s2 = cl.settle(s, None)
            for x in g(s2, "errs", ()):
                errs.setdefault(x[0], []).append(("when the worker is cancelled: " + x[1], s))
            if not g(s, "atget") and not cancel_checked(s):
                errs.setdefault("survive", []).append(("a cancelled call ends the worker as if the worker itself were cancelled", s))
        if c.name.startswith("P") and "Priority" in c.name:
            ties(ctx, c, label, t, f)
    for r in ("once", "count", "survive") + (() if flag else ("future",)):
        bad = errs.get(r, [])
        ctx.ob(r, label, not bad, where, "; ".join(sorted({b[0] for b in bad}))[:500], bad[0][1].path() if bad else ())
    if c.name.startswith("Smart"):
        for t in shapes:
            ties(ctx, c, label, t, f)
            break


def cancel_checked(s):
    """did the path establish that the worker task itself is being cancelled (or that this cannot be told)?"""
    for k, b in s.facts.items():
        txt = repr(k)
        if "cancelling" in txt or "version_info" in txt or "_must_cancel" in txt:
            return True
    return any("cancelling" in p or "version_info" in p or "_worker_is_cancelled" in p for p in s.path())


def ties(ctx, c, label, t, f):
    ok, msg = True, ""
    if t[0] == "tuple":
        for x in t[1]:
            if x in (Q.ARGS, Q.KW, Q.FUT) or (x[0] == "tuple" and any(contains(x, y) for y in (Q.ARGS, Q.KW, Q.FUT))):
                ok, msg = False, "equal priorities compare %s of the items" % show(x)
                break
            if x[0] == "new" and x[2].endswith(":_SmartFutureRef"):
                break
            if x[0] == "call" and x[2] == ("ext", "builtins.next"):
                break
            if x[0] == "call" and x[2] in (("ext", "builtins.id"),):
                break
    ctx.ob("ties", label, ok, L.where(f), msg)


def start(ctx, c):
    m = ctx.model
    f = m.find_method(c, "_workers")
    selfv = ("self", c.id)
    made, ranges = [], []

    def sel(st, ev):
        if ev.kind == "iter" and is_call_to(ev.value, "builtins.range"):
            ranges.append(ev.value)
        if ev.kind == "call" and ev.callee[0] in ("func", "ext") and L.callname(ev.callee).endswith("create_task"):
            co = ev.args[0] if ev.args else dict(ev.kw).get("coro", NONE)
            made.append((co, ev))
            return ("task", co)
        return None
    ex = ctx.run(f, Rec(sel, inline=lambda g: default_inline(g) and g.name != "create_task", cap=3), cls=c, attr_stable=Q.STABLE)
    loops = [co for co, ev in made if co[0] in ("call", "coro") and contains(co, ("attr", selfv, "_worker_coro"))]
    ok = bool(loops)
    msg = "no task runs the worker loop"
    n = ("attr", selfv, "num_workers")
    counts = {r[3] for r in ranges if any(contains(x, n) for x in r[3])}
    if ok and counts and counts != {(n,)}:
        ok, msg = False, "starts a number of workers other than num_workers: %s" % "; ".join(show_args(x, ()) for x in sorted(counts, key=repr))
    if ok and not counts:
        ok, msg = False, "the number of workers started is not num_workers"
    ctx.ob("start", c.name, ok, L.where(f), msg)
