"""Blocking in a running loop: every way of running a coroutine to completion synchronously is interpreted with a loop
that refuses (already running), with a coroutine that raises the same RuntimeError text itself, with one that raises
another RuntimeError and with one that raises its own exception."""
import ast

from ..lib import *
from .. import locks as L
from .. import modes as M
from ..model import own_nodes

ASSUMPTIONS = ["run_until_complete refuses before it starts the coroutine when the loop is running, with asyncio's message",
               "is_running() tells whether the loop is running"]
FAILS = (("refused", None), (None, "user"), (None, "other"), (None, "call"))


def sites(m):
    out = []
    for f in m.all_funcs():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == "run_until_complete" or ast.unparse(n.func) == "asyncio.run"):
                out.append((f, n))
    return out


def judge(m, row, exits):
    """(state, message) for every exit that is not what the row asks for.  exits: [(kind, value, state)]"""
    for kind, v, st in exits:
        ran = [x[1] for x in st.ts if x[0] == "ruc"]
        n = M.excname(m, v) if kind == "raise" else None
        if row.running == "refused":
            left = [x for x in made(st) if not closed(st, x)]
            if n != "SyncModeInAsyncContextError":
                yield st, "in a running loop the caller gets %s" % (show(v) if kind == "raise" else "a value: %s" % show(v))
            elif left:
                yield st, "a coroutine it created is left un-awaited"
        elif not ran:
            continue        # did not get as far as blocking
        elif row.fail == "call" and any(a[0] == "excmatch" and a[1] == M.UERR and t and ends_only(a[2]) for a, t in st.facts.items()):
            continue        # the end of the iteration, not an error
        elif kind != "raise":
            yield st, "the error of the coroutine is swallowed"
        elif row.fail in ("user", "other"):
            if v != ("exc", "RuntimeError", row.fail):
                yield st, "a RuntimeError of the coroutine (%s) reaches the caller as %s" % (
                    "with asyncio's text" if row.fail == "user" else "with another text", show(v))
        elif v != M.UERR:
            yield st, "an exception of the coroutine reaches the caller as %s" % show(v)


def ends_only(t):
    ts = t[1] if t[0] == "tuple" else (t,)
    return all(x[0] == "ext" and x[1].endswith("StopAsyncIteration") for x in ts)


def made(st):
    """callees of the coroutines created on this path"""
    out = [M.WRAPPED] if any(x[0] == "user" for x in st.ts) else []
    return out + [x[1] for x in st.ts if x[0] == "made"]


def closed(st, callee):
    mine = lambda v: isinstance(v, tuple) and v and v[0] in ("call", "coro") and v[2] == callee
    if any(x[0] == "close" and mine(x[1]) for x in st.ts):
        return True
    return any(a[0] == "truthy" and t is False and is_iscoro(a[1]) and any(mine(x) for x in a[1][3]) for a, t in st.facts.items())


def is_iscoro(v):
    return isinstance(v, tuple) and v and v[0] == "call" and v[2][0] == "ext" and v[2][1].endswith("iscoroutine")


def label(row):
    return {"refused": "loop already running", None: {"user": "coroutine raises the same text", "other": "coroutine raises another RuntimeError",
                                                      "call": "coroutine raises its own exception"}[row.fail] if row.fail else ""}[row.running]


def check(ctx):
    m = ctx.model
    ctx.rule("function", "a synchronous call of a coroutine function refuses cleanly in a running loop and passes other errors on", 16)
    ctx.rule("property", "a synchronous property access refuses cleanly in a running loop and passes other errors on", 4)
    ctx.rule("iteration", "synchronous iteration refuses cleanly in a running loop and passes other errors on", 4)
    ctx.rule("site", "every place that blocks on a coroutine is covered", 3)
    seen = set()
    for c, kind in M.entry_points(m):
        insts = (None,) if kind == "function" else ("sync", "plain")
        for run, fail in FAILS:
            bad = None
            n = 0
            for inst in insts:
                for fl in ((("sync", True),), (("asynchronous", False),)):
                    row = M.Row(fl, None, True, inst, running=run, fail=fail)
                    f, res, it = drive(ctx, c, row)
                    seen |= visited(it)
                    ex = [(("raise" if r.mode in ("error",) else "return"), r.value, r.st) for r in res]
                    n += len([1 for k, v, st in ex if run or any(x[0] == "ruc" for x in st.ts)])
                    for st, msg in judge(m, row, ex):
                        bad = bad or (st, msg)
            ctx.ob("function", "%s %s" % (c.name, label(row)), bad is None and n > 0, L.where(f), bad[1] if bad else "never blocks on the coroutine", bad[0].path() if bad else ())
    base = L.klass(m, "a_sync.a_sync.property", "_ASyncPropertyDescriptorBase")
    from .c11 import Prop
    for run, fail in FAILS:
        bad, n = None, 0
        for c in [base] + m.subclasses(base):
            f = m.find_method(c, "__get__")
            row = M.Row((), "sync", True, "sync", running=run, fail=fail)
            it = Interp(m, Prop(m, row), attr_stable=("default", "modifiers"), max_inline=14)
            ex = it.run(f, cls=c, args={f.params()[1]: M.INST})
            ctx.analysed(it, f, ex)
            seen |= visited(it)
            ex = [(e.kind, e.value, e.st) for e in ex]
            n += len([1 for k, v, st in ex if run or any(x[0] == "ruc" for x in st.ts)])
            for st, msg in judge(m, row, ex):
                bad = bad or (st, "%s: %s" % (c.name, msg))
        ctx.ob("property", label(row), bad is None and n > 0, L.where(f), bad[1] if bad else "never blocks on the getter", bad[0].path() if bad else ())
    # synchronous iteration
    roots = []
    for c in M.classes(m):
        if m.is_subclass(c, "Future"):
            continue        # lazy futures: "site" below and C29
        for n in ("__next__", "__iter__"):
            f = c.methods.get(n)
            if f is not None:
                roots.append((c, f))
    blocking = set()
    for run, fail in FAILS[1:] + FAILS[:1]:
        for c, f in roots:
            row = M.Row((), None, True, None, running=run, fail=fail)
            cl = M.Mode(m, row)
            it = Interp(m, cl, max_inline=10)
            try:
                ex = it.run(f, cls=c)
            except AnalysisError:
                continue
            ctx.analysed(it, f, ex)
            seen |= visited(it)
            ex = [(e.kind, e.value, e.st) for e in ex]
            if not it.client.ruc_sites and (c.id, f.name) not in blocking:
                continue
            blocking.add((c.id, f.name))
            bad = next(iter(judge(m, row, ex)), None)
            ctx.ob("iteration", "%s.%s %s" % (c.name, f.name, label(row)), bad is None, L.where(f), bad[1] if bad else "", bad[0].path() if bad else ())
    # anything not reached above: the function with the call itself
    for f, n in sites(m):
        k = (f.module.rel, n.lineno, n.col_offset)
        bad = None
        if k not in seen:
            for run, fail in FAILS:
                row = M.Row((), None, True, None, running=run, fail=fail)
                it = Interp(m, M.Mode(m, row), max_inline=10)
                ex = it.run(f, cls=f.cls)
                ctx.analysed(it, f, ex)
                for st, msg in judge2(m, row, ex):
                    bad = bad or (st, "%s: %s" % (label(row), msg))
        ctx.ob("site", "%s %s" % (f.id, ast.unparse(n.func)), bad is None, L.where(f), bad[1] if bad else "", bad[0].path() if bad else ())


def judge2(m, row, ex):
    """an internal blocking site (lazy futures): refused with a RuntimeError of the library, other errors unchanged"""
    for e in ex:
        ran = [x for x in e.st.ts if x[0] == "ruc"]
        if not ran:
            continue
        if row.running == "refused":
            if e.kind != "raise" or M.excname(m, e.value) not in ("RuntimeError", "SyncModeInAsyncContextError", "ASyncRuntimeError"):
                yield e.st, "in a running loop the caller gets %s" % show(e.value)
        elif e.kind != "raise":
            yield e.st, "the error of the coroutine is swallowed"
        elif e.value != (M.UERR if row.fail == "call" else ("exc", "RuntimeError", row.fail)):
            yield e.st, "an error of the coroutine reaches the caller as %s" % show(e.value)


def visited(it):
    return set(it.client.ruc_sites)


def drive(ctx, c, row):
    f, res = M.drive(ctx, c, row)
    return f, res, M.last
