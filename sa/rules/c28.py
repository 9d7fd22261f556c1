"""Operators of lazy futures.  Every operator method of `ASyncFuture` is interpreted with a future, a plain value, another awaitable and
the future itself as its operand; the future it gives is then awaited (or was materialised) and the value is compared, as a term, with
the operator applied to the operands' results in the written order.  Each failing operand is tried as well."""
from ..lib import *
from .. import locks as L
from .. import modes as M
from . import c20, c25

ASSUMPTIONS = ["awaiting a lazy future gives its awaitable's outcome (C29)", "`asyncio.gather(*xs)` gives the results of xs in order or raises a failure",
               "`loop.run_until_complete(x)` gives the outcome of awaiting x and may not be called while the loop runs"]
MOD = "a_sync.future"
LOOP = ("tok", "loop")
PLAIN = ("tok", "plain value")
OTHER, AWT = ("tok", "aw", 1), ("tok", "aw", 2)
BIN = {"add": "Add", "sub": "Sub", "mul": "Mult", "pow": "Pow", "truediv": "Div", "floordiv": "FloorDiv"}
MORE = {"mod": "Mod", "lshift": "LShift", "rshift": "RShift", "and": "BitAnd", "or": "BitOr", "xor": "BitXor", "matmul": "MatMult"}
CMP = {"eq": "Eq", "gt": "Gt", "ge": "GtE", "lt": "Lt", "le": "LtE"}
MORECMP = {"ne": "NotEq"}
UNARY = {"neg": "USub", "pos": "UAdd", "invert": "Invert"}
OPER = {"and_": "BitAnd", "or_": "BitOr"}
OPER.update({k: v for d in (BIN, MORE) for k, v in d.items()})


def both(exits):
    return [(e.st, e.value) if e.kind == "return" else (e.st, e.value, "raise") for e in exits]


class Ops(c25.Agg):
    data = ('res', 'plain value', 'a key', 'x')
    model_raises = True

    def __init__(self, m, self_v, cls, fails=(), running=False, done=False):
        c25.Agg.__init__(self, m, fails)
        self.self_v, self.cls, self.running, self.was_done = self_v, cls, running, done

    def glob(self, mod, name):
        return None

    def inline(self, f):
        return f.name != "__await__"

    def index(self, v):
        return 0 if v == self.self_v else v[2] if v[0] == "tok" and v[1] == "aw" else None

    def is_future(self, v):
        return v == self.self_v or v == OTHER or v[0] == "new" and v[2] == self.cls

    def inner(self, v):
        return v[3][0] if v[3] else dict(v[4]).get("awaitable")

    def fut_method(self, ev):
        """(method, future, other arguments) of a call of a method the future inherits from concurrent.futures.Future"""
        fv, a = ev.callee, ev.args
        b = callee_base(ev)
        if fv[0] == "ext" and ".Future." in fv[1] and a and self.is_future(a[0]):
            return fv[1].rsplit(".", 1)[1], a[0], a[1:]
        if b is not None and b[0] == "super":
            b = b[1]
        if b is not None and self.is_future(b):
            return callee_attr(ev), b, a
        return None, None, a

    def model_attr(self, st, base, name):
        i = self.index(base) if self.is_future(base) else None
        if name == "_result" and i is not None and i not in self.fails and (i == 0 and self.was_done or ("awaited", i) in st.ts):
            return c25.res(i)
        return c25.Agg.model_attr(self, st, base, name)

    def event(self, st, ev):
        if ev.kind == "await" and self.index(ev.value) is not None:
            return self.add(st, ("awaited", self.index(ev.value)))
        if ev.kind == "call" and callee_attr(ev) == "run_until_complete":
            return self.add(st, ("blocked",))
        return None

    def raises(self, st, ev):
        if ev.kind == "await" and self.index(ev.value) in self.fails:
            return (c25.err(self.index(ev.value)),)
        if ev.kind == "call":
            n, b, _ = self.fut_method(ev)
            if n == "result" and b is not None and self.index(b) in self.fails:
                return (c25.err(self.index(b)),)
        return c25.Agg.raises(self, st, ev)

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            i = self.index(v)
            if i is not None:
                return [(st, c25.res(i))] if i not in self.fails else []
            if v[0] == "new" and v[2] == self.cls:
                return both(self.it.await_value(st, self.inner(v)))
            return c25.Agg.model(self, st, ev)
        if ev.kind != "call":
            return None
        fv, a = ev.callee, ev.args
        n = c20.simple(fv)
        b = callee_base(ev)
        if n == "get_event_loop" or n == "get_running_loop" and self.running:
            return [(st, LOOP)]
        if n == "is_running" and b == LOOP:
            return [(st, const(self.running))]
        if n == "run_until_complete" and b == LOOP:
            return [(st, ("exc", "RuntimeError", "the loop is running"), "raise")] if self.running else both(self.it.await_value(st, a[0]))
        if n == "isawaitable" and len(a) == 1:
            return [(st, const(self.is_future(a[0]) or a[0] == AWT or a[0][0] == "coro"))]
        if n == "isinstance" and len(a) == 2 and a[1] == ("class", self.cls):
            return [(st, const(self.is_future(a[0])))]
        if n == "isinstance" and len(a) == 2 and "Awaitable" in repr(a[1]):
            return [(st, const(self.is_future(a[0]) or a[0] == AWT or a[0][0] == "coro"))]
        n2, b2, a2 = self.fut_method(ev)
        if b2 is not None and not a2:
            n, i = n2, self.index(b2)
            d = i == 0 and self.was_done or ("awaited", i) in st.ts
            if n == "done":
                return [(st, const(d))]
            if n == "cancelled" or n == "running":
                return [(st, FALSE)]
            if n == "result" and d:
                return [(st, c25.res(i))] if i not in self.fails else []
        t = fv[1] if fv[0] == "ext" else ""
        if t.startswith(("operator.", "_operator.")):
            k = t.split(".")[1]
            if k in OPER and len(a) == 2:
                return [(st, ("binop", OPER[k], a[0], a[1]))]
            if (k in CMP or k in MORECMP) and len(a) == 2:
                return [(st, ("cmp", (CMP.get(k) or MORECMP[k]), a[0], a[1]))]
            if k == "contains" and len(a) == 2:
                return [(st, ("cmp", "In", a[1], a[0]))]
            if k == "getitem" and len(a) == 2:
                return [(st, ("item", a[0], a[1]))]
        if t.startswith("builtins.") and a and a[0][0] == "tok" and a[0][1] == "res":
            return [(st, ("tok", "conv", t[9:], tuple(a)))]
        if b is not None and b[0] == "tok" and b[1] == "res" and n in ("__iter__", "__next__", "__enter__", "__exit__", "__getitem__", "__bool__", "__bytes__", "__str__", "__int__", "__float__", "__getattr__", "__getattribute__"):
            if n == "__getitem__":
                return [(st, ("item", b, a[0]))]
            return [(st, ("tok", "conv", "getattr" if n.startswith("__getattr") else n.strip("_"), (b,) + tuple(a)))]
        return c25.Agg.model(self, st, ev)

    def truthy(self, v):
        return None if v[1] in ("res", "plain value", "conv") else True


def norm(v):
    """a term in one spelling: comparisons as written, a negation of the opposite comparison as itself"""
    if v[0] == "attr":
        return ("tok", "conv", "getattr", (v[1], const(v[2])))
    if v[0] == "not" and v[1][0] == "not":
        return ("tok", "conv", "bool", (norm(v[1][1]),)) if v[1][1][0] == "tok" else norm(v[1][1])
    return v


def decided(it, e, want):
    """the path took one of two branches on the truth of the expected value and gives that truth"""
    if not (is_const(e.value) and isinstance(cval(e.value), bool)):
        return False
    if want[0] == "tok" and want[1:3] == ("conv", "bool"):
        want = want[3][0]
    elif want[0] != "cmp":
        return False
    return it.decide(e.st, want) is cval(e.value)


def evaluate(it, cl, e, cls):
    """exits of the value an operator method gave: a lazy future is awaited"""
    if e.kind == "raise":
        return [e]
    if e.value[0] == "new" and e.value[2] == cls:
        w = cl.inner(e.value)
        return it.await_value(e.st, w) if w is not None else [e]
    if e.value[0] == "coro":
        return [e]
    return [e]


def check(ctx):
    m = ctx.model
    cls = L.klass(m, MOD, "ASyncFuture")
    if cls is None:
        raise AnalysisError("ASyncFuture vanished")
    ctx.rule("arithmetic", "an arithmetic operator, plain or reflected, gives the operator on the awaited operands in the written order", 40)
    ctx.rule("comparison", "a comparison gives the comparison of the awaited operands", 15)
    ctx.rule("container", "containment, items, attributes, iteration and context management are those of the result", 8)
    ctx.rule("conversion", "bool, bytes, str, int and float convert the result", 5)
    ctx.rule("failures", "an operand's exception is raised", 30)
    ctx.rule("running", "an unresolved future is not resolved by blocking a running loop, a resolved one is used as it is", 10)
    ctx.rule("lazy", "arithmetic and ordering do nothing until the combined future is awaited", 12)
    A, B, C = c25.res(0), c25.res(1), c25.res(2)

    rows = []
    for table, more, rule in ((BIN, MORE, "arithmetic"), (CMP, MORECMP, "comparison")):
        for k, op in list(table.items()) + list(more.items()):
            for refl in ((False, True) if rule == "arithmetic" else (False,)):
                rows.append((rule, "__%s%s__" % ("r" if refl else "", k), "binop" if rule == "arithmetic" else "cmp", op, refl, k in table))
    cid = "%s:ASyncFuture" % cls.module.rel
    SELF = ("self", cid)
    for rule, name, kind, op, refl, needed in rows:
        f = m.find_method(cls, name)
        if f is None or f.cls is None:
            if needed:
                ctx.ob(rule, name, False, L.where(m.func(MOD, "future")), "ASyncFuture has no %s" % name)
            continue
        p = [x for x in f.params() if x][1]
        for lab, oth, rb in (("another future", OTHER, B), ("a plain value", PLAIN, PLAIN), ("an awaitable", AWT, C), ("the same future", SELF, A)):
            for fails in ((), (0,), (1,), (2,)):
                if fails and fails[0] and (fails[0] != 1 if oth == OTHER else fails[0] != 2 if oth == AWT else True):
                    continue
                for done in (False, True):
                    cl = Ops(m, SELF, cid, fails, False, done)
                    it = Interp(m, cl, max_inline=10, keep_heap_on_await=True)
                    cl.it = it
                    ex = it.run(f, cls=cls, args={p: oth}, facts={("type", OTHER): cid})
                    ctx.analysed(it, f, ex)
                    want = (kind, op, rb, A) if refl else (kind, op, A, rb)
                    con = "%s with %s%s%s" % (name, lab, ", %s fails" % ("it" if fails == (0,) else "the operand") if fails else "", ", resolved" if done else "")
                    bad, lazy = None, None
                    n = 0
                    for e0 in ex:
                        if e0.kind == "return" and e0.value[0] == "new":
                            if any(x[0] in ("awaited", "blocked") for x in e0.st.ts):
                                lazy = ("resolves operands before it is awaited", e0)
                        for e in evaluate(it, cl, e0, cid):
                            n += 1
                            if fails:
                                if e.kind != "raise" or e.value != c25.err(fails[0]):
                                    bad = ("gives %s instead of the operand's exception" % show(e.value), e)
                                continue
                            if e.kind == "raise":
                                bad = ("raises %s" % show(e.value), e)
                            elif norm(e.value) != want and not decided(it, e, want) and not (oth == SELF and kind == "cmp" and e.value == const(it.decide_cmp(e.st, want))):
                                bad = ("gives %s instead of %s" % (show(e.value), show(want)), e)
                            aws = [x[1] for x in e.st.ts if x[0] == "awaited"]
                            if aws.count(2) > 1:
                                bad = ("awaits the operand %d times" % aws.count(2), e)
                    if not n:
                        bad = ("never ends", None)
                    ctx.ob("failures" if fails else rule, con, bad is None, L.where(f), bad[0] if bad else "", bad[1].st.path() if bad and bad[1] else ())
                    if not fails and lab == "another future" and not done:
                        ctx.ob("lazy", name, lazy is None, L.where(f), lazy[0] if lazy else "", lazy[1].st.path() if lazy else ())
    KEY, KEYF = ("tok", "a key"), OTHER
    E = tuple(("tok", "exc info", i) for i in range(3))
    forms = [("container", "__getitem__", (KEY,), ("item", A, KEY)),
             ("container", "__contains__", (PLAIN,), ("cmp", "In", PLAIN, A)), ("container", "__contains__", (OTHER,), ("cmp", "In", B, A)), ("container", "__contains__", (AWT,), ("cmp", "In", C, A)),
             ("container", "__getattr__", (const("some_attribute"),), ("tok", "conv", "getattr", (A, const("some_attribute")))),
             ("container", "__iter__", (), ("tok", "conv", "iter", (A,))), ("container", "__next__", (), ("tok", "conv", "next", (A,))),
             ("container", "__enter__", (), ("tok", "conv", "enter", (A,))), ("container", "__exit__", E, ("tok", "conv", "exit", (A,) + E))]
    forms += [("conversion", "__%s__" % c, (), ("tok", "conv", c, (A,))) for c in ("bool", "bytes", "str", "int", "float")]
    forms += [("arithmetic", "__%s__" % u, (), ("unary", op, A)) for u, op in UNARY.items()]
    for rule, name, given, want in forms:
        f = m.find_method(cls, name)
        if f is None or f.cls is None:
            if rule != "arithmetic":
                ctx.ob(rule, name, False, L.where(m.func(MOD, "future")), "ASyncFuture has no %s" % name)
            continue
        for fails in ((), (0,)) + (((given[0][2],),) if given and given[0][0] == "tok" and given[0][1] == "aw" else ()):
            for running, done in ((False, False), (False, True), (True, True), (True, False)):
                cl = Ops(m, SELF, cid, fails, running, done)
                it = Interp(m, cl, max_inline=12, keep_heap_on_await=True)
                cl.it = it
                ps = [x for x in f.params() if x][1:]
                args = dict(zip(ps, given)) if len(ps) == len(given) and f.node.args.vararg is None else {}
                if f.node.args.vararg is not None:
                    args = {f.node.args.vararg.arg: ("vararg", given)}
                ex = it.run(f, cls=cls, args=args, facts={("type", OTHER): cid})
                ctx.analysed(it, f, ex)
                con = "%s%s%s%s%s" % (name, " of %s" % show(given[0]) if given and rule == "container" and name == "__contains__" else "",
                                      ", failing %d" % fails[0] if fails else "", ", resolved" if done else "", ", loop running" if running else "")
                needs_loop = not done or name == "__contains__"
                bad = None
                for e in ex:
                    if running and needs_loop:
                        if ("blocked",) in e.st.ts:
                            bad = ("blocks the running loop", e)
                        elif e.kind != "raise":
                            bad = ("gives %s" % show(e.value), e)
                        continue
                    if fails:
                        if e.kind != "raise" or e.value != c25.err(fails[0]):
                            bad = ("gives %s instead of the exception" % show(e.value), e)
                    elif e.kind == "raise":
                        bad = ("raises %s" % show(e.value), e)
                    elif norm(e.value) != want and not decided(it, e, want):
                        bad = ("gives %s instead of %s" % (show(e.value), show(want)), e)
                if not ex:
                    bad = ("never ends", None)
                ctx.ob("running" if running else "failures" if fails else rule, con, bad is None, L.where(f), bad[0] if bad else "", bad[1].st.path() if bad and bad[1] else ())
