"""Instance mode: the functions that resolve a class's default mode, the mode a construction will have and the mode
of an instance are interpreted once per row of (signature, class bodies along the MRO, instance attributes, flags
given); each exit must agree with the documented precedence."""
import ast

from ..lib import *
from .. import locks as L
from .. import modes as M
from . import c11

ASSUMPTIONS = ["`inspect.signature`, the MRO, `hasattr` and `getattr` behave as documented", "flag values are booleans"]
CLS = ("tok", "the user class")
SIG = ("tok", "signature")
EMPTY = ("ext", "inspect._empty")
ANC = [CLS, ("tok", "parent"), ("tok", "grandparent"), ("tok", "great-grandparent")]
NODEF = object()


class Resolve(Client):
    """sig: {flag: default}, bodies: list of {flag: value} for the class and its ancestors, inst: {flag: value}"""
    kd = True
    fresh_globals = True
    model_raises = True

    def __init__(self, m, sig=(), bodies=(), inst=(), cached=None, swap=False, debug=False):
        self.m, self.sig, self.inst, self.cached, self.swap, self.debug = m, dict(sig), dict(inst), cached, swap, debug
        self.bodies = [dict(b) for b in bodies] + [{}] * (4 - len(bodies))

    def heap(self):
        h = {("kd", "parameters", ""): ("kdc", ((const("self"), ("tok", "param self")),) + tuple((const(k), ("tok", "param", k)) for k in self.sig), ()),
             ("kd", "globals", ""): ("kdc", (), ())}
        for i, b in enumerate(self.bodies):
            h[("kd", "body%d" % i, "")] = ("kdc", ((const("__module__"), const("m")),) + tuple((const(k), const(v)) for k, v in b.items()), ())
        return h

    def inline(self, f):
        return f.name not in NOINLINE

    def inline_property(self, f):
        return True

    def value_of(self, name):
        if name in self.inst:
            return const(self.inst[name])
        for b in self.bodies:
            if name in b:
                return const(b[name])
        return None

    def model_attr(self, st, base, name):
        if base in ANC or base[0] == "self" and len(base) > 1 and name in ("__class__",):
            if name == "__class__":
                return CLS
            i = ANC.index(base)
            if name == "__dict__":
                return ("kd", "body%d" % i)
            if name == "__bases__":
                return ("tuple", tuple(ANC[i + 1:i + 2]))
            if name == "__mro__":
                return ("tuple", tuple(ANC[i:]))
            if name in ("__name__", "__qualname__", "__module__"):
                return const("UserClass")
            if name == "__a_sync_flag_value__":
                return ("tok", "flag value descriptor")
            v = None
            if i == 0 and name in M.FLAGS:
                for b in self.bodies:
                    if name in b:
                        v = const(b[name])
                        break
            return v
        if base == SIG and name == "parameters":
            return ("kd", "parameters")
        if base[0] == "tok" and base[1] == "param" and name == "default":
            v = self.sig[base[2]]
            return EMPTY if v is NODEF else const(v)
        if base[0] == "self" and name in M.FLAGS:
            return self.value_of(name)
        return Client.model_attr(self, st, base, name)

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        fv, a = ev.callee, ev.args
        n = callee_attr(ev)
        if fv[0] == "ext":
            d = fv[1].split(".")[-1]
            if d == "signature":
                return [(st, SIG)]
            if d == "hasattr" and len(a) == 2 and is_const(a[1]) and cval(a[1]) in M.FLAGS and (a[0][0] == "self" or a[0] == CLS):
                return [(st, const(self.value_of(cval(a[1])) is not None))]
            if d == "getattr" and len(a) >= 2 and is_const(a[1]) and a[0] == CLS and cval(a[1]) == "__a_sync_flag_value__":
                return [(st, ("tok", "flag value descriptor"))]
            if d == "isinstance" and len(a) == 2 and a[0] == ("tok", "flag value descriptor"):
                t = repr(a[1])
                return [(st, const(("property" in t and "cached" not in t) == self.swap if "property" in t else False))]
            if d == "isinstance" and len(a) == 2 and a[0][0] == "const" and a[1] == ("ext", "builtins.bool"):
                return [(st, const(type(cval(a[0])) is bool))]
            if d == "isinstance" and len(a) == 2 and a[0][0] == "const" and a[1] == ("ext", "builtins.str"):
                return [(st, const(type(cval(a[0])) is str))]
            if d == "type" and len(a) == 1 and a[0][0] == "self":
                return [(st, CLS)]
            if d == "getmro" and a == (CLS,):
                return [(st, ("tuple", tuple(ANC)))]
        if n == "mro" and callee_base(ev) == CLS:
            return [(st, ("tuple", tuple(ANC)))]
        if n == "isEnabledFor" and self.debug is not None:
            return [(st, const(self.debug))]
        if n == "__a_sync_default_mode__" and callee_base(ev) == CLS and self.cached is not None:
            return [(st, ("tok", "default mode"))]
        return None


def mro_flag(bodies):
    for b in bodies:
        if len(b) > 1:
            return "TooManyFlags", None
        if b:
            return next(iter(b.items()))
    return "NoFlagsFound", None


def sync(flag, v):
    return v if flag == "sync" else not v


def default_want(sig, bodies):
    if len(sig) > 1:
        return ("raise", "TooManyFlags")
    if sig:
        f, v = next(iter(sig.items()))
        return ("raise", None) if v is NODEF else ("return", sync(f, v))
    f, v = mro_flag(bodies)
    return ("raise", f) if v is None else ("return", sync(f, v))


def fl(d):
    return ",".join("%s%s" % (k, "" if v is NODEF else "=%s" % v) for k, v in d.items()) or "nothing"


def judge(ctx, exits, want):
    """None or (exit, message)"""
    n = 0
    for e in exits:
        n += 1
        if want[0] == "raise":
            if e.kind != "raise":
                return e, "gives %s, must fail%s" % (show(e.value), " with %s" % want[1] if want[1] else "")
            if want[1] and not named(ctx.model, e.value, want[1]):
                return e, "fails with %s, must be %s" % (show(e.value), want[1])
        elif e.kind == "raise":
            return e, "fails with %s, must give %s" % (show(e.value), want[1])
        elif is_const(e.value) and bool(cval(e.value)) != want[1]:
            return e, "gives %s, must give %s" % (show(e.value), want[1])
        elif not is_const(e.value) and not (e.value[0] == "tok" and e.value == want[1]):
            if want[1] not in (True, False) and e.value != want[1]:
                return e, "gives %s" % show(e.value)
            if want[1] in (True, False):
                return e, "gives %s, must give %s" % (show(e.value), want[1])
    return None if n else (None, "no path returns")


def named(m, v, name):
    return name in repr(v)


def check(ctx):
    m = ctx.model
    ctx.rule("default", "a class's default mode: its constructor's default argument, else the nearest class-level flag", 40)
    ctx.rule("construct", "the mode of a construction: the flag given (by keyword or position), else the class default; contradictory flags fail", 16)
    ctx.rule("instance", "an instance's mode is the value of its flag, resolved once", 30)
    ctx.rule("stays", "the remembered mode is the resolved one, is forgotten by nothing, and is not kept for hotswapping classes", 8)
    ctx.rule("follow", "methods and properties called without a flag follow their instance", 12)
    base = L.klass(m, "a_sync.a_sync.base", "ASyncGenericBase")
    abc = L.klass(m, "a_sync.a_sync.abstract", "ASyncABC")

    def run(f, c, client, args, more=()):
        it = Interp(m, client, attr_stable=(), max_inline=14)
        h = client.heap()
        h.update(more)
        ex = it.run(f, cls=c, args=args, heap=h)
        ctx.analysed(it, f, ex)
        return it, ex

    # -- default mode
    f = m.find_method(base, "__a_sync_default_mode__")
    sigs = [{}] + [{n: v} for n in M.FLAGS for v in (True, False, NODEF)] + [{"sync": False, "asynchronous": True}]
    one = [{n: v} for n in M.FLAGS for v in (True, False)]
    bodies = [[]] + [[{}] * i + [b] for b in one for i in (0, 1, 2, 3)] + [[a, b] for a in one for b in one if a != b][:6] + \
        [[{"sync": True, "asynchronous": False}], [{}, {"sync": True, "asynchronous": False}]]
    for s in sigs:
        for b in (bodies if not s else bodies[:2] + [[{"sync": False}]]):
            con = "__init__ takes %s; class bodies define %s" % (fl(s), " / ".join(fl(x) for x in b) or "nothing")
            bad = None
            for dbg in (False, True):
                cl = Resolve(m, s, b, debug=dbg)
                it, ex = run(f, base, cl, {f.params()[0]: CLS})
                bad = bad or judge(ctx, ex, default_want(s, b))
            ctx.ob("default", con, bad is None, L.where(f), bad[1] if bad else "", bad[0].st.path() if bad and bad[0] else ())

    # -- construction
    f = m.find_method(base, "__a_sync_instance_will_be_sync__")
    p = f.params()
    for given in [()] + [((n, v),) for n in M.FLAGS for v in (True, False)] + [(("sync", a), ("asynchronous", b)) for a in (True, False) for b in (True, False)]:
        want = ("return", ("tok", "default mode")) if not given else ("raise", "TooManyFlags") if len(given) > 1 else ("return", sync(*given[0]))
        bad = None
        for dbg in (False, True):
            for s in ({}, {"sync": True}, {"asynchronous": True}):
                cl = Resolve(m, s, [], cached=True, debug=dbg)
                it, ex = run(f, base, cl, {p[0]: CLS, p[1]: ("tuple", ()), p[2]: ("kd", "given")},
                             {("kd", "given", ""): ("kdc", tuple((const(n), const(v)) for n, v in given), ())}.items())
                bad = bad or judge(ctx, ex, want)
                for e in ex:
                    if e.st.heap.get(("kd", "given", ""))[1] != tuple((const(n), const(v)) for n, v in given):
                        bad = bad or (e, "changes the constructor's arguments")
        ctx.ob("construct", "constructing with %s" % (fl(dict(given))), bad is None, L.where(f), bad[1] if bad else "", bad[0].st.path() if bad and bad[0] else ())
    for n in M.FLAGS:
        for v in (True, False):
            for pos in (0, 1):
                bad = None
                sig = {"other": True, n: True} if pos else {n: True}
                vals = (const(1), const(v)) if pos else (const(v),)
                for dbg in (False, True):
                    cl = Resolve(m, sig, [], cached=True, debug=dbg)
                    it, ex = run(f, base, cl, {p[0]: CLS, p[1]: ("tuple", vals), p[2]: ("kd", "given")}, {("kd", "given", ""): ("kdc", (), ())}.items())
                    bad = bad or judge(ctx, ex, ("return", sync(n, v)))
                ctx.ob("construct", "constructing with %s=%s as positional argument %d" % (n, v, pos + 1), bad is None, L.where(f), bad[1] if bad else "",
                       bad[0].st.path() if bad and bad[0] else ())

    # -- instance
    CACHE = ("tok", "remembered mode")

    class Inst(Resolve):
        def model_attr(self, st, b, name):
            if b[0] == "self" and name == "__a_sync_should_await_cache__" and (b, name) not in st.heap:
                return CACHE
            if b == CACHE and (b, name) not in st.heap:
                if name == "is_cached":
                    return const(self.cached is not None)
                if name == "value":
                    return const(self.cached if self.cached is not None else False)
            return Resolve.model_attr(self, st, b, name)

        def event(self, st, ev):
            if ev.kind == "store" and ev.d.get("base") == CACHE:
                return st.but(ts=st.ts + (("remember", ev.name, ev.value),))
            if ev.kind == "store" and ev.d.get("base", ("",))[0] == "self" and ev.name == "__a_sync_should_await_cache__":
                return st.but(ts=st.ts + (("kept", ev.value),))
            return None
    targets = []
    for name, call in (("__a_sync_should_await__", True), ("__a_sync_instance_should_await__", False)):
        g = m.find_method(base, name)
        if g is None:
            raise AnalysisError("%s not found" % name)
        targets.append((g, call))
    rows = []
    for s in ({}, {"sync": True}, {"asynchronous": False}, {"sync": True, "asynchronous": True}):
        for i in [{n: v} for n in M.FLAGS for v in (True, False)] + [{}, {"sync": True, "asynchronous": True}]:
            for b in ([], [{"sync": True}], [{}, {}, {"asynchronous": True}]):
                if i and b and set(i) != set(b[-1]):
                    continue
                if len(s) == 1 and not (set(i) | set(b[-1] if b else ())) & set(s):
                    continue        # the constructor forgot to set its flag
                if len(s) == 1 and len(i) > 1:
                    continue
                rows.append((s, i, b))
    for s, i, b in rows:
        vals = {}
        for x in b[::-1] + [i]:
            vals.update(x)
        if len(s) == 1:
            k = next(iter(s))
            want = ("return", sync(k, vals[k]))
        elif len(vals) == 1:
            want = ("return", sync(*next(iter(vals.items()))))
        else:
            want = ("raise", "TooManyFlags" if vals else "NoFlagsFound")
        bad = None
        for g, call in targets:
            for dbg in (False, True):
                cl = Inst(m, s, b, i, debug=dbg)
                args = {g.params()[1]: ("kd", "given")} if call else {}
                it, ex = run(g, base, cl, args, {("kd", "given", ""): ("kdc", (), ())}.items())
                r = judge(ctx, ex, want)
                bad = bad or (r and (r[0], "%s %s" % (g.name, r[1])))
        ctx.ob("instance", "__init__ takes %s; instance has %s; class bodies define %s" % (fl(s), fl(i), " / ".join(fl(x) for x in b) or "nothing"),
               bad is None, L.where(targets[0][0]), bad[1] if bad else "", bad[0].st.path() if bad and bad[0] else ())
    for g, call in targets:
        for cached in (True, False):
            cl = Inst(m, {"sync": True}, [], {"sync": not cached}, cached=cached, debug=False)
            args = {g.params()[1]: ("kd", "given")} if call else {}
            it, ex = run(g, base, cl, args, {("kd", "given", ""): ("kdc", (), ())}.items())
            bad = judge(ctx, ex, ("return", cached))
            ctx.ob("stays", "%s once the mode %s is remembered" % (g.name, "sync" if cached else "async"), bad is None, L.where(g), bad[1] if bad else "",
                   bad[0].st.path() if bad and bad[0] else ())
        for swap in (False, True):
            for v in (True, False):
                cl = Inst(m, {"sync": True}, [], {"sync": v}, swap=swap, debug=False)
                it, ex = run(g, base, cl, args, {("kd", "given", ""): ("kdc", (), ())}.items())
                bad = judge(ctx, ex, ("return", v))
                for e in ex:
                    mem = {}
                    for x in e.st.ts:
                        if x[0] == "remember":
                            mem[x[1]] = x[2]
                    if swap and mem.get("is_cached") == TRUE:
                        bad = bad or (e, "remembers the mode although the class made its flag value a non-cached property")
                    if mem.get("is_cached", FALSE) != FALSE and mem.get("value") != const(v):
                        bad = bad or (e, "remembers %s instead of the resolved mode" % show(mem.get("value") or NONE))
                ctx.ob("stays", "%s resolving sync=%s%s" % (g.name, v, " of a hotswapping class" if swap else ""), bad is None, L.where(g), bad[1] if bad else "",
                       bad[0].st.path() if bad and bad[0] else ())
    # a fresh instance remembers nothing
    g = m.find_method(abc, "__init__")
    rec = Rec(lambda st, ev: ("is_cached", ev.value) if ev.kind == "store" and ev.name == "is_cached" else None)
    for e in ctx.run(g, rec, cls=abc):
        last = [x[1] for x in e.st.ts if x[0] == "is_cached"][-1:]
        ok = not last or last[0] == FALSE or last[0] == const(0)
        ctx.ob("stays", "a fresh instance", ok, L.where(g), "starts with a remembered mode", e.st.path())
    # a flag given in the call wins over the remembered mode and is taken out of the arguments
    g = targets[0][0]
    for n in M.FLAGS:
        for v in (True, False):
            for cached in (True, False):
                cl = Inst(m, {"sync": True}, [], {"sync": cached}, cached=cached, debug=False)
                it, ex = run(g, base, cl, {g.params()[1]: ("kd", "given")}, {("kd", "given", ""): ("kdc", ((const(n), const(v)), (const("x"), const(1))), ())}.items())
                bad = judge(ctx, ex, ("return", sync(n, v)))
                for e in ex:
                    if e.kind == "return" and e.st.heap.get(("kd", "given", ""))[1] != ((const("x"), const(1)),):
                        bad = bad or (e, "leaves %s in the arguments" % ", ".join(show(k) for k, _ in e.st.heap.get(("kd", "given", ""))[1]))
                ctx.ob("instance", "call flag %s=%s on a %s instance" % (n, v, "sync" if cached else "async"), bad is None, L.where(g), bad[1] if bad else "",
                       bad[0].st.path() if bad and bad[0] else ())
    follow(ctx)


def follow(ctx):
    m = ctx.model
    seen = {}
    for c, kind in M.entry_points(m):
        if kind != "bound":
            continue
        for row in M.rows(kind, c, m):
            if row.flags or row.default or row.inst == "plain":
                continue
            f, res = M.drive(ctx, c, row)
            if res is None:
                continue
            want = "sync" if M.want_sync(row) else "async"
            name = "bound method: %s" % row.label()
            for r in res:
                if r.mode in ("sync", "async") and r.mode != want or r.mode in ("error", "async-error"):
                    seen[name] = seen.get(name) or (f, r, "%s.__call__: %s, must be %s" % (c.name, r.mode, want))
            seen.setdefault(name, None)
    base = L.klass(m, "a_sync.a_sync.property", "_ASyncPropertyDescriptorBase")
    for c in [base] + m.subclasses(base):
        f = m.find_method(c, "__get__")
        if f is None:
            continue
        for inst, running in (("sync", None), ("async", None), ("plain", "refused"), ("plain", "free")):
            row = M.Row((), None, True, inst, running)
            it = Interp(m, c11.Prop(m, row), attr_stable=("default", "modifiers"), max_inline=14)
            ex = it.run(f, cls=c, args={f.params()[1]: M.INST})
            ctx.analysed(it, f, ex)
            name = "%s on a %s instance" % (c.name, inst) if inst != "plain" else \
                "%s on an object of another class, loop %s" % (c.name, "running" if running == "refused" else "not running")
            want = inst if inst != "plain" else "async" if running == "refused" else "sync"
            for r in M.outcomes(it, row, ex, f):
                if r.mode in ("sync", "async") and r.mode != want or r.mode == "error":
                    seen[name] = seen.get(name) or (f, r, "%s, must be %s" % (r.mode, want))
            seen.setdefault(name, None)
    for name, b in sorted(seen.items()):
        ctx.ob("follow", name, b is None, L.where(b[0]) if b else "", b[2] if b else "", b[1].path if b else ())
