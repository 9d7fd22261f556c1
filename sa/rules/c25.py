"""gather.  `gather` is interpreted for every option set over positional awaitables and over a known mapping, with every pattern
of successes and failures; asyncio's and tqdm's gather are summarised as awaiting what they are given, in order, and
as_completed in both finish orders.  The result is compared, value by value, with the documented list or dict."""
import itertools

from ..lib import *
from .. import modes as M
from . import c20

ASSUMPTIONS = ["`asyncio.gather(*xs, return_exceptions=r)` and tqdm's `gather(*xs)` give the results of xs in order", "`as_completed(xs)` gives one awaitable per x in finish order"]
MOD = "a_sync.asyncio.gather"
EXCL = ("tok", "exclusion predicate")


def aw(i):
    return ("tok", "aw", i)


def res(i):
    return ("tok", "res", i)


def err(i):
    return ("exc", ("ValueError", "ZeroDivisionError", "KeyError")[i % 3], "of %d" % i)


class Agg(Client):
    data = ('res', 'key')
    kd = True
    debug = False
    recursion = 1
    distinct = True

    def __init__(self, m, fails=(), select=(), reverse=False):
        self.m, self.fails, self.select, self.reverse = m, fails, select, reverse

    def add(self, st, x):
        if len(st.ts) >= 40:
            return []
        return st.but(ts=st.ts + (x,)).note(x[0])

    def glob(self, mod, name):
        return ("ext", "tqdm.asyncio." + name) if name.startswith("tqdm") else ("ext", name) if name == "ASyncIterator" else None

    def event(self, st, ev):
        if ev.kind == "await" and ev.value[0] == "tok" and ev.value[1] == "aw":
            return self.add(st, ("awaited", ev.value[2]))
        return None

    def raises(self, st, ev):
        if ev.kind == "await":
            v = ev.value
            if v[0] == "tok" and v[1] == "aw" and v[2] in self.fails:
                return (err(v[2]),)
            if v[0] == "tok" and v[1] == "gathered" and v[2] == "raise":
                return (v[3],)
        return ()

    def source(self, fv):
        """'asyncio' | 'tqdm' | None: whose function is called"""
        t = repr(fv)
        if "tqdm" in t:
            return "tqdm"
        if fv[0] == "ext" and fv[1].startswith("asyncio."):
            return "asyncio"
        return None

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[0] == "tok" and v[1] == "aw":
                return [(st, res(v[2]))] if v[2] not in self.fails else []
            if v[0] == "tok" and v[1] == "gathered":
                return [(st, v[3])] if v[2] == "value" else []
            return None
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, ev.args, dict(ev.kw)
        n = c20.simple(fv)
        src = self.source(fv)
        if n == "gather" and src:
            st = self.add(st, ("gather", src, tuple(sorted((k, v) for k, v in kw.items() if k not in ("return_exceptions",)))))
            cur = [(st, ())]
            out = []
            for x in a:
                nxt = []
                for s, acc in cur:
                    for e in self.it.await_value(s, x):
                        if e.kind == "return":
                            nxt.append((e.st, acc + (e.value,)))
                        elif src == "asyncio" and kw.get("return_exceptions", FALSE) == TRUE:
                            nxt.append((e.st, acc + (e.value,)))
                        else:
                            out.append((e.st, ("tok", "gathered", "raise", e.value)))
                cur = nxt
            return out + [(s, ("tok", "gathered", "value", ("list", acc))) for s, acc in cur]
        if n == "as_completed" and src and a:
            xs = self.it.kd_literal(st, a[0])
            if xs is not None:
                t = kw.pop("timeout", NONE)
                st = self.add(st, ("as_completed", src, t, tuple(sorted((k, v) for k, v in kw.items()))))
                return [(st, ("list", tuple(xs[::-1] if self.reverse else xs)))]
        if n == "ASyncIterator" and len(a) == 1 and not kw:
            return [(st, a[0])]
        if n in ("ensure_future", "create_task") and a and src == "asyncio":
            return [(st, a[0])]
        if n == "isinstance" and len(a) == 2:
            if "dict" in repr(a[1]) and "Mapping" not in repr(a[1]) and a[0][0] == "kd" and a[0][1] == "given":
                return [(st, TRUE), (st, FALSE)]        # the mapping need not be a dict
            if "Mapping" in repr(a[1]) or "dict" in repr(a[1]):
                return [(st, const(a[0][0] == "kd"))]
            if a[0][0] == "exc":
                return [(st, const("xception" in repr(a[1]) or a[0][1] in repr(a[1])))]
            if a[0][0] == "tok" and "xception" in repr(a[1]):
                return [(st, FALSE)]
        if fv == EXCL and len(a) == 1:
            return [(st, const(a[0] in self.select))]
        return None

    def truthy(self, v):
        return None if v[1] in ("aw", "res") else True


def mapping(n):
    """a known mapping of n awaitables"""
    return ("kd", "given"), {("kd", "given", ""): ("kdc", tuple((("tok", "key", i), aw(i)) for i in range(n)), ())}


def known_dict(st, v):
    if v[0] == "kd":
        c = st.heap.get(("kd", v[1], ""))
        return list(c[1]) if c is not None and not c[2] else None
    if v[0] == "dict":
        return [tuple(x) for x in v[1]]
    return None


def check(ctx):
    m = ctx.model
    f = m.func(MOD, "gather")
    if f is None:
        raise AnalysisError("gather vanished")
    ctx.rule("positional", "over positional awaitables: their results, in argument order", 10)
    ctx.rule("mapping", "over a mapping: a dict from each of its keys to that key's result, in the mapping's order", 10)
    ctx.rule("failures", "without return_exceptions a failure is raised, with it the exception takes the place of the result", 20)
    ctx.rule("excluded", "exclude_if removes exactly the results it selects and nothing else", 20)
    ctx.rule("progress", "progress options reach the progress bar when it is asked for, and nothing else changes", 8)
    va = f.node.args.vararg.arg
    kwa = f.node.args.kwarg.arg if f.node.args.kwarg else None
    BAR = ((const("desc"), ("tok", "a description")),)
    for n, is_map in [(0, False), (1, False), (3, False), (1, True), (3, True), (0, True)]:
        for fails in ((), (1,), (0, 2)):
            if any(i >= n for i in fails):
                continue
            for rx, tqdm in itertools.product((False, True), repeat=2):
                outcomes = [err(i) if i in fails else res(i) for i in range(n)]
                for select in (None, (), (1,), (0, 2), tuple(range(n))):
                    if select and any(i >= n for i in select):
                        continue
                    for reverse in ((False, True) if is_map and n > 1 else (False,)):
                        cl = Agg(m, fails, [outcomes[i] for i in select or ()], reverse)
                        it = Interp(m, cl, max_inline=8, keep_heap_on_await=True)
                        cl.it, heap = it, {}
                        if is_map:
                            g, heap = mapping(n)
                            args = {va: ("vararg", (g,))}
                        else:
                            args = {va: ("vararg", tuple(aw(i) for i in range(n)))}
                        if kwa:
                            heap[("kd", "bar", "")] = ("kdc", BAR if tqdm else (), ())
                            args[kwa] = ("kd", "bar")
                        args.update({"return_exceptions": const(rx), "exclude_if": NONE if select is None else EXCL, "tqdm": const(tqdm)})
                        ex = it.run(f, args=args, heap=heap)
                        ctx.analysed(it, f, ex)
                        lab = "%d %s, failing %s, return_exceptions=%s, tqdm=%s, exclude_if %s%s" % (
                            n, "keys" if is_map else "awaitables", list(fails) or "none", rx, tqdm, "not given" if select is None else "selects %s" % list(select), ", finishing in reverse" if reverse else "")
                        bad = None
                        keep = [i for i in range(n) if i not in (select or ())]
                        for e in ex:
                            if fails and not rx:
                                if e.kind != "raise":
                                    bad = ("gives %s instead of raising" % show(e.value), e)
                                elif e.value not in [err(i) for i in fails]:
                                    bad = ("raises %s instead of the failure" % show(e.value), e)
                                continue
                            if e.kind == "raise":
                                bad = ("raises %s" % M.excname(m, e.value), e)
                                continue
                            if is_map:
                                got = known_dict(e.st, e.value)
                                want = [(("tok", "key", i), outcomes[i]) for i in keep]
                            else:
                                got = it.kd_literal(e.st, e.value) if e.value[0] in ("list", "kl") else None
                                want = [outcomes[i] for i in keep]
                            if got != want:
                                bad = ("gives %s" % (got if got is None else [tuple(show(y) for y in x) if is_map else show(x) for x in got] if got is not None else show(e.value)), e)
                            aws = [x[1] for x in e.st.ts if x[0] == "awaited"]
                            if sorted(aws) != list(range(n)):
                                bad = ("awaits %s" % aws, e)
                        if not ex:
                            bad = ("never ends", None)
                        rule = "failures" if fails else "excluded" if select is not None else "mapping" if is_map else "positional"
                        ctx.ob(rule, lab, bad is None, L_where(f), bad[0] if bad else "", bad[1].st.path() if bad and bad[1] else ())
                        if select is None and not fails:
                            pb = None
                            for e in ex:
                                used = [x for x in e.st.ts if x[0] in ("gather", "as_completed")]
                                for x in used:
                                    if (x[1] == "tqdm") != tqdm:
                                        pb = ("%s of %s is used" % (x[0], x[1]), e)
                                    want = (("desc", ("tok", "a description")),) if tqdm else ()
                                    if x[-1] != want:
                                        pb = ("%s gets the options %s" % (x[0], x[-1]), e)
                                    if x[0] == "as_completed" and x[2] != NONE:
                                        pb = ("as_completed gets a timeout: %s" % show(x[2]), e)
                            ctx.ob("progress", lab, pb is None, L_where(f), pb[0] if pb else "", pb[1].st.path() if pb else ())


def L_where(f):
    from .. import locks
    return locks.where(f)
