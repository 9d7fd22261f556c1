"""as_completed.  `as_completed` is interpreted for every option set over lists and known mappings; asyncio's and tqdm's
as_completed are summarised as giving the awaitables they were handed, in one or the other finish order.  What comes back is iterated
to its end and the outcomes compared with the documented ones; the timeout and progress options that reached the
underlying call are compared with the caller's."""
import itertools

from ..lib import *
from .. import locks as L
from .. import modes as M
from .c25 import Agg, aw, res, err, mapping

ASSUMPTIONS = ["`asyncio.as_completed(xs, timeout=t)` and tqdm's give one awaitable per x in finish order and apply t", "ASyncIterator(g) gives the items of g (C30)"]
MOD = "a_sync.asyncio.as_completed"
TIMEOUTS = [NONE, const(0), const(5), const(0.5), ("tok", "the caller's timeout")]


def key(i):
    return ("tok", "key", i)


def casts(model):
    """narrowing of a timeout by a typed parameter or variable: found by the interpreter as `ccast`/typed parameters"""


class Done(Agg):
    def event(self, st, ev):
        if ev.kind == "ccast" and ev.ctype not in ("bint",):
            return self.add(st, ("narrowed", ev.ctype, ev.value))
        return Agg.event(self, st, ev)


INTS = ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "Py_ssize_t", "size_t", "short", "uint16_t", "uint32_t", "uint64_t", "char", "unsigned char", "int64_t", "int32_t")


def check(ctx):
    m = ctx.model
    f = m.func(MOD, "as_completed")
    if f is None:
        raise AnalysisError("as_completed vanished")
    ctx.rule("once", "every awaitable's outcome comes exactly once, in finish order, whatever the source, form and options", 40)
    ctx.rule("paired", "over a mapping each outcome is paired with its own key", 20)
    ctx.rule("failures", "a failure is raised where it is reached, or delivered in place when exceptions were asked for", 20)
    ctx.rule("timeout", "the timeout of the caller is the one applied, also zero and fractions of a second", 20)
    ctx.rule("progress", "progress options reach the progress bar when it is asked for, and nothing else", 20)
    ps = f.params()
    kwa = f.node.args.kwarg.arg if f.node.args.kwarg else None
    BAR = ((const("desc"), ("tok", "a description")),)
    for is_map, n in [(False, 0), (False, 2), (False, 3), (True, 0), (True, 3)]:
        for fails in ((), (1,), (0, 2)):
            if any(i >= n for i in fails):
                continue
            for aiter, rx, tqdm, reverse in itertools.product((False, True), repeat=4):
                if reverse and n < 2:
                    continue
                for t in TIMEOUTS if not fails and not reverse else [NONE]:
                    cl = Done(m, fails, (), reverse)
                    it = cl.it = Interp(m, cl, max_inline=8, keep_heap_on_await=True)
                    heap = {}
                    if is_map:
                        src, heap = mapping(n)
                    else:
                        src = ("list", tuple(aw(i) for i in range(n)))
                    args = {ps[0]: src, "timeout": t, "return_exceptions": const(rx), "aiter": const(aiter), "tqdm": const(tqdm)}
                    if kwa:
                        heap[("kd", "bar", "")] = ("kdc", BAR if tqdm else (), ())
                        args[kwa] = ("kd", "bar")
                    ex = it.run(f, args=args, heap=heap)
                    ctx.analysed(it, f, ex)
                    lab = "%s of %d, failing %s, aiter=%s, return_exceptions=%s, tqdm=%s, timeout=%s%s" % (
                        "mapping" if is_map else "list", n, list(fails) or "none", aiter, rx, tqdm, show(t), ", finishing in reverse" if reverse else "")
                    order = list(range(n))[::-1] if reverse else list(range(n))
                    want = [err(i) if i in fails else res(i) for i in order]
                    if is_map:
                        want = [("tuple", (key(i), w)) for i, w in zip(order, want)]
                    bad = tb = pb = None
                    for e in ex:
                        if e.kind == "raise":
                            bad = ("raises %s" % M.excname(m, e.value), e.st)
                            continue
                        try:
                            ends = drive(it, e.st, e.value, m.func("a_sync.asyncio.gather", "gather"), aiter)
                        except AnalysisError as x:
                            bad = (str(x), e.st)
                            continue
                        for got, exc, st in ends:
                            if aiter and fails and not rx:
                                k = min(order.index(i) for i in fails)
                                if exc != err(order[k]):
                                    bad = ("the failure of awaitable %d is not raised: %s after %d items" % (order[k], show(exc) if exc else "ends", len(got)), st)
                                elif got != want[:k]:
                                    bad = ("gives %s before the failure" % [show(x) for x in got], st)
                                continue
                            if exc is not None:
                                bad = ("raises %s" % show(exc), st)
                                continue
                            w = want
                            if fails and not rx:
                                w = [("raise", err(i)) if i in fails else x for i, x in zip(order, want)]
                            if got != w:
                                bad = ("gives %s" % [show(x) if x[0] != "raise" else x for x in got], st)
                            aws = [x[1] for x in st.ts if x[0] == "awaited"]
                            if sorted(aws) != list(range(n)):
                                bad = ("awaits %s" % aws, st)
                            used = [x for x in st.ts if x[0] == "as_completed"]
                            if len(used) != 1:
                                tb = ("%d underlying as_completed calls" % len(used), st)
                            for x in used:
                                if (x[1] == "tqdm") != tqdm:
                                    pb = ("as_completed of %s is used" % x[1], st)
                                if x[3] != ((("desc", ("tok", "a description")),) if tqdm else ()):
                                    pb = ("as_completed gets the options %s" % (x[3],), st)
                                if x[2] != t:
                                    tb = ("a timeout of %s is applied" % show(x[2]), st)
                            for x in st.ts:
                                if x[0] == "narrowed" and x[2] == t and t not in (NONE,):
                                    tb = ("the timeout is converted to %s" % x[1], st)
                    if not ex:
                        bad = ("never ends", None)
                    rule = "failures" if fails else "paired" if is_map else "once"
                    ctx.ob(rule, lab, bad is None, L.where(f), bad[0] if bad else "", bad[1].path() if bad and bad[1] else ())
                    if not fails:
                        ctx.ob("timeout", lab, tb is None, L.where(f), tb[0] if tb else "", tb[1].path() if tb else ())
                        ctx.ob("progress", lab, pb is None, L.where(f), pb[0] if pb else "", pb[1].path() if pb else ())
    # a C integer parameter or variable on the way of the timeout truncates it
    for name, mod in sorted(m.modules.items()):
        if name not in (MOD, "a_sync.asyncio.gather"):
            continue
        for g in m.all_funcs():
            if g.module is not mod:
                continue
            ts = {x.arg: getattr(x, "cy_type", None) for x in g.node.args.posonlyargs + g.node.args.args + g.node.args.kwonlyargs}
            for p, ty in ts.items():
                if "timeout" in p:
                    ctx.ob("timeout", "%s(%s)" % (g.name, p), ty not in INTS, L.where(g), "the timeout is received as %s: fractions are cut off" % ty if ty in INTS else "")


def drive(it, st, v, f, aiter):
    """[(items, exception or None, state)]"""
    if aiter:
        return [(it.collected(e), e.value if e.kind == "raise" else None, e.st) for e in it.collect(st, v, f, True)]
    xs = it.kd_literal(st, v)
    if xs is None:
        out = []
        for e in it.collect(st, v, f, False):
            out += [(it.collected(e), e.value, e.st)] if e.kind == "raise" else drive(it, e.st, e.value, f, False)
        return out
    cur = [([], st)]
    for x in xs:
        nxt = []
        for got, s in cur:
            for e in it.await_value(s, x, f):
                nxt.append((got + [e.value if e.kind == "return" else ("raise", e.value)], e.st))
        cur = nxt
    return [(g, None, s) for g, s in cur]
