"""Priority queues: what every way of adding work enqueues must compare by the priority given and then by arrival, and
each priority queue class may reach its storage only through heap operations on it: push what it was given, pop the
smallest, ordering it anew first where the order of waiting items can change."""
import ast

from ..lib import *
from .. import locks as L
from .. import queues as Q

ASSUMPTIONS = ["heapq keeps a heap a heap", "priorities have a total order that does not change, except in the variable priority queues"]
HEAP = {"heappush", "heappop", "heapify", "heappushpop", "heapreplace", "nsmallest", "nlargest"}


def check(ctx):
    m = ctx.model
    ctx.rule("priority", "an item is placed by the priority the caller gave, unchanged", 2)
    ctx.rule("arrival", "items of equal priority are placed by their arrival", 2)
    ctx.rule("heap", "a priority queue changes its storage only through heap operations", 10)
    ctx.rule("smallest", "the item handed out is the smallest, by the order of the moment", 5)
    c = L.klass(m, Q.MOD, "PriorityProcessingQueue")
    for flag in Q.modes(c):
        for name, f in Q.entries(m, c):
            if name == "__call__" and "priority" not in f.params():
                pass        # forwards everything to put_nowait; interpreted all the same
            it = Interp(m, Q.Put(), attr_stable=Q.STABLE)
            ex = it.run(f, cls=c, facts=Q.no_futs(c, flag))
            ctx.analysed(it, f, ex)
            puts = [(t[1], e) for e in ex if e.kind == "return" for t in e.ts if t[0] == "put"]
            first = ("param", [p for p in f.params() if p != "self"][0]) if [p for p in f.params() if p != "self"] else None
            err = {"priority": [], "arrival": []}
            for p, e in puts:
                r = placed(ctx, c, p, first)
                if r:
                    err[r[0]].append((r[1], e))
            for r in err:
                ctx.ob(r, "%s.%s%s" % (c.name, name, " without results" if flag else ""), not err[r] and bool(puts), L.where(f),
                       err[r][0][0] if err[r] else "nothing is enqueued", err[r][0][1].st.path() if err[r] else ())
    for cname in ("_PriorityQueueMixin", "PriorityProcessingQueue", "VariablePriorityQueue", "_VariablePriorityQueueMixin", "SmartProcessingQueue"):
        storage(ctx, L.klass(m, Q.MOD, cname))


def placed(ctx, c, p, first):
    """what is wrong with the place of an item that stands for (priority, ...)?"""
    if p[0] != "tuple":
        if p[0] == "new":
            return None     # compares by a method of its own: not followed
        return "priority", "the item enqueued is %s, which does not start with its priority" % show(p)
    if not p[1] or p[1][0] != first and not (first is None and contains(p[1][0], ("param", "*args"))):
        return "priority", "an item is placed by %s instead of the priority given" % (show(p[1][0]) if p[1] else "nothing")
    if len(p[1]) < 2:
        return "arrival", "nothing places items of equal priority"
    x = p[1][1]
    if x[0] == "call" and x[2] == ("ext", "builtins.next") and len(x[3]) == 1:
        return None if rising(ctx, c, x[3][0]) is not False else ("arrival", "the numbers placing items of equal priority do not rise")
    if x[0] in ("param", "tok", "const", "vararg", "kw", "tuple", "dict", "list") or x[0] == "unary" or x[0] == "binop" and x[1] in ("Sub", "Mult", "Mod"):
        return "arrival", "items of equal priority are placed by %s, not by arrival" % show(x)
    if x[0] == "call" and x[2] in (("ext", "builtins.id"), ("ext", "builtins.hash"), ("ext", "builtins.len")):
        return "arrival", "items of equal priority are placed by %s, not by arrival" % show(x)
    if x[0] == "call" and (L.opname(x[2]) in ("time", "random") or callee_attr(x) in ("time", "random", "qsize", "__len__")):
        return "arrival", "items of equal priority are placed by %s, which may repeat" % show(x)
    return None


def rising(ctx, c, v):
    """does the iterator count up? None: not known"""
    e = None
    if v[0] == "glob":
        mod = ctx.model.modules.get(v[1])
        e = mod.assigns.get(v[2]) if mod is not None else None
    elif v[0] == "attr" and v[1][0] == "self":
        for k in ctx.model.mro(c):
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Attribute) and t.attr == v[2]:
                                e = n.value
    if not isinstance(e, ast.Call) or not (getattr(e.func, "attr", None) == "count" or getattr(e.func, "id", None) == "count"):
        return None
    step = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "step"), None)
    if step is None:
        return True
    try:
        return ast.literal_eval(step) > 0
    except Exception:
        return None


def storage(ctx, c):
    m = ctx.model
    s = ("self", c.id)
    q = ("attr", s, "_queue")
    variable = any(k.name == "_VariablePriorityQueueMixin" for k in m.mro(c))

    def sel(st, ev):
        if ev.kind == "call":
            if L.opname(ev.callee) in HEAP and q in ev.args[:1]:
                return (L.opname(ev.callee), tuple(ev.args[1:]))
            if ev.callee[0] == "attr" and ev.callee[1] == q:
                return ("raw", ev.callee[2])
        if ev.kind in ("setitem", "delitem") and ev.base == q or ev.kind in ("store", "delattr") and ev.base == s and ev.name == "_queue":
            return ("raw", ev.kind)
        return None
    for name in ("_put", "_get"):
        f = m.find_method(c, name)
        if f is None or not f.module.name.startswith("a_sync"):
            if name == "_get" and not variable or name == "_put":
                ctx.ob("heap", "%s.%s" % (c.name, name), True, "a_sync/primitives/queue.py", "inherited from asyncio.PriorityQueue")
                continue
            ctx.ob("heap", "%s.%s" % (c.name, name), False, "a_sync/primitives/queue.py", "no %s of its own" % name)
            continue
        ex = ctx.run(f, Rec(sel), cls=c)
        ok = [e for e in ex if e.kind == "return"]
        raw = [e for e in ok if any(t[0] == "raw" and t[1] not in ("__len__", "copy", "count", "index") for t in e.ts)]
        ctx.ob("heap", "%s.%s" % (c.name, name), bool(ok) and not raw, L.where(f), "changes the storage other than through the heap: %s" % (
            ", ".join(sorted({t[1] for e in raw for t in e.ts if t[0] == "raw"}))), raw[0].st.path() if raw else ())
        if name == "_put":
            item = ("param", [p for p in f.params() if p != "self"][0])
            bad = [e for e in ok if [t for t in e.ts if t[0] != "raw"] != [("heappush", (item,))]]
            ctx.ob("heap", "%s.%s pushes" % (c.name, name), bool(ok) and not bad, L.where(f), "does not push the item it was given onto the heap", bad[0].st.path() if bad else ())
        else:
            want = (["heapify", "heappop"],) if variable else (["heappop"], ["heapify", "heappop"])
            bad = [e for e in ok if [t[0] for t in e.ts if t[0] != "raw"] not in want]
            ctx.ob("smallest", "%s.%s" % (c.name, name), bool(ok) and not bad, L.where(f),
                   "hands out an item without ordering the waiting ones anew" if variable else "does not hand out the smallest item", bad[0].st.path() if bad else ())
