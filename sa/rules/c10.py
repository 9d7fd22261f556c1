"""Closing a processing queue: every way of adding work is interpreted with the queue closed (must raise before it
changes anything) and open (must accept); close() may only set the flag; the worker loop must not end or skip items
because of it."""
import ast

from ..lib import *
from .. import locks as L
from .. import queues as Q

ASSUMPTIONS = ["workers that died (BaseException, cancelled by the user) are outside this property"]


class Open(Q.Put):
    def model(self, st, ev):
        fv = ev.callee if ev.kind == "call" else ("",)
        if fv[0] == "attr" and fv[2] in ("done", "cancelled") and deep(fv[1], "_workers"):
            return [(st, FALSE)]
        return Q.Put.model(self, st, ev)


def deep(v, name):
    return any(x and x[0] == "attr" and x[2] == name for x in subterms(v))


def check(ctx):
    m = ctx.model
    ctx.rule("refuse", "after close() every way of adding work raises before anything is enqueued, registered or started", 15)
    ctx.rule("open", "before close() no work is refused", 15)
    ctx.rule("flag", "only close() marks a queue closed, and close() does nothing else", 3)
    ctx.rule("finish", "workers of a closed queue keep serving the items accepted before", 5)
    for cname in Q.CLASSES:
        c = L.klass(m, Q.MOD, cname)
        closed = ("attr", ("self", c.id), "_closed")
        for flag in Q.modes(c):
            label = c.name + (" without results" if flag else "")
            for name, f in Q.entries(m, c):
                it = Interp(m, Q.Put(), attr_stable=Q.STABLE)
                ex = it.run(f, cls=c, facts={**Q.no_futs(c, flag), ("truthy", closed): True})
                ctx.analysed(it, f, ex)
                bad, msg = [], ""
                for e in ex:
                    did = [t[0] for t in e.ts if t[0] in ("put", "rawput", "badput", "register", "workers", "futs")]
                    if e.kind == "return" or did:
                        bad.append(e)
                        msg = "a closed queue %s" % ("accepts work" if "put" in did or "rawput" in did or "badput" in did else
                                                     "does not refuse work" if e.kind == "return" else "is changed (%s) before work is refused" % did[0])
                    elif not refusal(m, e.value):
                        bad.append(e)
                        msg = "a closed queue answers with %s" % show(e.value)
                ctx.ob("refuse", "%s.%s" % (label, name), not bad and bool(ex), L.where(f), msg, bad[0].st.path() if bad else ())
                it = Interp(m, Open(), attr_stable=Q.STABLE)
                ex = it.run(f, cls=c, facts={**Q.no_futs(c, flag), ("truthy", closed): False})
                ctx.analysed(it, f, ex)
                bad = [e for e in ex if e.kind == "raise"]
                ctx.ob("open", "%s.%s" % (label, name), not bad and bool(ex), L.where(f),
                       "an open queue raises %s" % show(bad[0].value) if bad else "", bad[0].st.path() if bad else ())
            f, ex, pay = Q.payloads(ctx, c, flag)
            bad, n = [], 0
            for p, fut in pay:
                cl, rets, R = Q.run_worker(ctx, c, flag, Q.to_tokens(p, fut, flag), {("truthy", closed): True})
                n += cl.gets
                bad += [(s, "ends by returning") for s, v in rets]
                for s, e in R:
                    if L.tsget(s, "errs", ()):
                        bad.append((s, L.tsget(s, "errs")[0][1]))
                    elif not (e[0] == "exc" and e[1] == "CancelledError"):
                        bad.append((s, "ends with %s" % show(e)))
            ctx.ob("finish", label, not bad and n > 0, "a_sync/primitives/queue.py", "a worker of a closed queue: %s" % (bad[0][1] if bad else "never takes an item"),
                   bad[0][0].path() if bad else ())
        f = m.find_method(c, "close")

        def sel(st, ev):
            if ev.kind == "store":
                return ("store", ev.name, ev.value)
            if ev.kind == "call" and ev.target is None and not (callee_base(ev) is not None and "logger" in show(callee_base(ev))):
                return ("call", show(ev.callee))
            if ev.kind == "await":
                return ("await",)
            return None
        ex = ctx.run(f, Rec(sel), cls=c)
        bad = [e for e in ex if e.kind != "return" or [t for t in e.ts if t != ("store", "_closed", TRUE)] or ("store", "_closed", TRUE) not in e.ts]
        ctx.ob("flag", cname + ".close", not bad and bool(ex), L.where(f), "close() does more or less than marking the queue closed: %s" % (
            [t[:2] for t in bad[0].ts] if bad else ""), bad[0].st.path() if bad else ())
    # nobody else writes the flag
    for f in m.all_funcs():
        if f.module.name != Q.MOD:
            continue
        for node in own_nodes(f.node):
            if isinstance(node, ast.Attribute) and node.attr == "_closed" and not isinstance(node.ctx, ast.Load):
                inside = f.name == "close" or stored_false(f, node)
                ctx.ob("flag", "%s writes _closed" % f.qual, inside or helper_of_close(m, f), L.where(f), "the closed flag is written outside close()")


def helper_of_close(m, f):
    """only close() calls it"""
    callers = [g for g in m.all_funcs() if g is not f and any(isinstance(n, ast.Attribute) and n.attr == f.name for n in own_nodes(g.node))]
    return bool(callers) and all(g.name == "close" for g in callers)


def stored_false(f, node):
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and any(t is node for t in n.targets) and isinstance(n.value, ast.Constant) and n.value.value is False:
            return f.name == "__init__"
    return False


def refusal(m, v):
    if v[0] in ("call",) and v[2] == ("ext", "builtins.RuntimeError") or v == ("ext", "builtins.RuntimeError"):
        return True
    if v[0] == "new":
        return v[2].split(":")[0].startswith("a_sync")
    return False
