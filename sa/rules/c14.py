"""Transparent wrapping: for every public entry point and every row (flag x default x definition x instance) each path
must call the wrapped function exactly once, with the caller's arguments minus the flag, and hand its result or
exception to the caller unchanged."""
from ..lib import *
from .. import locks as L
from .. import modes as M

ASSUMPTIONS = ["executors call the function they are given with the arguments they are given (C32)",
               "cache, rate limit and semaphore wrappers keep arguments, result and error (C01, C03, C20)"]


def check(ctx):
    m = ctx.model
    ctx.rule("once", "each call runs the wrapped function exactly once", 7)
    ctx.rule("arguments", "the wrapped function gets the caller's arguments without the mode flag", 7)
    ctx.rule("result", "the wrapped function's result reaches the caller unchanged", 7)
    ctx.rule("error", "the wrapped function's exception reaches the caller unchanged", 7)
    ctx.rule("property", "a property calls its getter once with the instance and gives its result", 3)
    for c, kind in M.entry_points(m):
        f = m.find_method(c, "__call__")
        bad, n = {}, 0
        head = (M.INST,) if kind == "bound" else ()
        for row in M.rows(kind, c, m):
            f, res = M.drive(ctx, c, row)
            for r in res:
                if r.mode in ("error", "async-error"):
                    bad.setdefault("result", (r, "%s: fails with %s" % (row.label(), show(r.value))))
                    continue
                n += 1
                if len(r.calls) != 1:
                    bad.setdefault("once", (r, "%s: the wrapped function is called %d times" % (row.label(), len(r.calls))))
                    continue
                if not M.args_ok(r.calls[0], head):
                    bad.setdefault("arguments", (r, "%s: the wrapped function is called with %s" % (row.label(), show_args(*r.calls[0]))))
                if not M.value_ok(row, r):
                    bad.setdefault("result", (r, "%s: the caller gets %s" % (row.label(), show(r.value))))
        for rule in ("once", "arguments", "result"):
            b = bad.get(rule)
            ctx.ob(rule, c.name, b is None and n > 0, L.where(f), b[1] if b else "", b[0].path if b else ())
        b, n = None, 0
        for row in M.rows(kind, c, m, fail="call"):
            f, res = M.drive(ctx, c, row)
            for r in res:
                if not r.calls:
                    continue
                n += 1
                x, how = M.peel(r.value)
                if r.mode in ("error", "async-error"):
                    if r.value != M.UERR:
                        b = b or (r, "%s: the function's exception reaches the caller as %s" % (row.label(), show(r.value)))
                    elif len(r.calls) != 1:
                        b = b or (r, "%s: the function is called %d times" % (row.label(), len(r.calls)))
                elif not M.value_ok(row, r) or (not row.coro and not M.pooled(x)):     # else: a path on which it does not fail
                    b = b or (r, "%s: the function raised, the caller gets %s" % (row.label(), show(r.value)))
        ctx.ob("error", c.name, b is None and n > 0, L.where(f), b[1] if b else "", b[0].path if b else ())
    from .c11 import Prop
    base = L.klass(m, "a_sync.a_sync.property", "_ASyncPropertyDescriptorBase")
    for c in [base] + m.subclasses(base):
        f = m.find_method(c, "__get__")
        b, n = None, 0
        for inst in ("sync", "async"):
            for d in (None, "sync", "async"):
                row = M.Row((), d, True, inst)
                it = Interp(m, Prop(m, row), attr_stable=("default", "modifiers"), max_inline=14)
                ex = it.run(f, cls=c, args={f.params()[1]: M.INST})
                ctx.analysed(it, f, ex)
                for r in M.outcomes(it, row, ex, f):
                    if r.mode in ("sync", "async"):
                        n += 1
                        x, how = M.peel(r.value)
                        if not (is_wrapped_call_of_inst(x) and len(how) <= 1):
                            b = b or (r, "the caller gets %s" % show(r.value))
        ctx.ob("property", c.name, b is None and n > 0, L.where(f), b[1] if b else "", b[0].path if b else ())


def is_wrapped_call_of_inst(x):
    return x is not None and x[0] == "call" and x[2] == M.WRAPPED and tuple(x[3]) == (M.INST,) and not x[4]
