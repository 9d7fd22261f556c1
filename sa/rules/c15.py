"""Class creation: the metaclass is interpreted once per (attribute name, kind of attribute, class modifiers, member
modifiers); the namespace it hands to `type.__new__` must hold exactly the dual-mode replacement the row asks for."""
from ..lib import *
from .. import locks as L
from .. import modes as M

ASSUMPTIONS = ["methods defined in a class body are functions; `inspect`/`callable`/`isinstance` classify them as documented"]
VALUE, SEM, LIM, HNAME, HDESC = ("tok", "the attribute"), ("tok", "class semaphore"), ("tok", "class limiter"), ("tok", "hidden name"), ("tok", "hidden method")
VALUE2 = ("tok", "the other attribute")
KINDS = {
    "def": set(), "async def": set(), "callable object": set(), "data": set(), "async generator": set(),
    "dual-mode function": {"_ModifiedMixin", "ASyncFunction"},
    "property": {"_ModifiedMixin", "ASyncDescriptor", "_ASyncPropertyDescriptorBase", "ASyncPropertyDescriptor", "property"},
    "cached property": {"_ModifiedMixin", "ASyncDescriptor", "_ASyncPropertyDescriptorBase", "ASyncCachedPropertyDescriptor", "cached_property"},
    "future function": {"_ASyncFutureWrappedFn"},
    "semaphore": {"Semaphore", "ThreadsafeSemaphore"},
}


class Meta(Client):
    kd = True
    debug = False

    def __init__(self, m, kind):
        self.m, self.kind = m, kind
        self.kinds = {VALUE: kind, VALUE2: "def"}

    def inline(self, f):
        return f.name not in NOINLINE and f.name != "_update_logger"

    def isinst(self, v, t):
        ts = t[1] if t[0] in ("tuple", "list", "set") else (t,)
        names = [x[1].split(":")[-1].split(".")[-1] for x in ts if x[0] in ("ext", "class")]
        if v in self.kinds:
            return any(n in KINDS[self.kinds[v]] for n in names)
        if v == SEM:
            return any(n in ("Semaphore", "ThreadsafeSemaphore") for n in names)
        if v == LIM:
            return any(n == "AsyncLimiter" for n in names)
        if v[0] == "kd":
            return "dict" in names
        if v == NONE:
            return False
        return None

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        fv, a = ev.callee, ev.args
        a0 = a[0] if a else None
        if fv[0] == "ext":
            n = fv[1].split(".")[-1]
            if n == "isinstance" and len(a) == 2:
                r = self.isinst(a0, a[1])
                return None if r is None else [(st, const(r))]
            if n == "issubclass" and len(a) == 2 and is_call_to(a0, "builtins.type"):
                r = self.isinst(a0[3][0], a[1])
                return None if r is None else [(st, const(r))]
            if n == "isasyncgenfunction":
                return [(st, const(self.kinds.get(a0) == "async generator"))]
            if n == "iscoroutinefunction":
                return [(st, const(self.kinds.get(a0) == "async def"))]
            if n in ("isfunction", "isroutine"):
                return [(st, const(self.kinds.get(a0) in ("def", "async def", "async generator")))]
            if n == "callable" and a0 in (VALUE, VALUE2, SEM, LIM):
                return [(st, const(a0 == SEM or self.kinds.get(a0, "data") not in ("data", "property", "cached property")))]
        if fv[0] == "class" and fv[1].endswith(":ModifierKwargs") and len(a) == 1 and not ev.kw:
            return [(st, a0)]
        return None

    def event(self, st, ev):
        if ev.kind == "call" and callee_attr(ev) == "__new__":
            for v in ev.args:
                c = st.heap.get(("kd", v[1], "")) if isinstance(v, tuple) and v and v[0] == "kd" else None
                if c is not None:
                    mem = st.heap.get(("kd", "member", ""))
                    return st.but(ts=st.ts + (("namespace", c[1], c[2], mem[1] if mem else ()),))
        return None

    def model_attr(self, st, base, name):
        if base == VALUE:
            if name in ("modifiers", "_bound_modifiers"):
                return ("kd", "member")
            if name == "hidden_method_name":
                return HNAME
            if name == "hidden_method_descriptor":
                return HDESC
        if base == ("kd", "member") and name == "_modifiers":
            return base
        return Client.model_attr(self, st, base, name)


def wrapped_as(v, cls):
    return v is not None and v[0] == "new" and v[2].split(":")[-1] == cls


def check(ctx):
    m = ctx.model
    ctx.rule("wrap", "public functions and properties of a class body become dual-mode", 8)
    ctx.rule("keep", "underscore names, excluded internals and plain attributes stay as written", 8)
    ctx.rule("modifiers", "class modifiers apply to each member unless the member declares its own", 6)
    ctx.rule("leak", "building one class changes neither the member's own modifiers nor anything shared", 6)
    c = L.klass(m, "a_sync.a_sync._meta", "ASyncMeta")
    f = m.find_method(c, "__new__")
    p = f.params()
    if len(p) < 4:
        raise AnalysisError("ASyncMeta.__new__ takes no namespace")

    def run(name, kind, classmods, own):
        items = [(const(k), v) for k, v in classmods] + [(const(name), VALUE)]
        it = Interp(m, Meta(m, kind), max_inline=10)
        heap = {("kd", "attrs", ""): ("kdc", tuple(items), ()), ("kd", "member", ""): ("kdc", tuple((const(k), v) for k, v in own), ())}
        ex = it.run(f, cls=c, args={p[1]: const("UserClass"), p[3]: ("kd", "attrs")}, heap=heap)
        ctx.analysed(it, f, ex)
        return ex
    OWN = ("tok", "own semaphore")
    R = ("tok", "own limiter")
    for kind in KINDS:
        for name in ("method", "get_method_2", "_method", "__method", "__method__"):
            public = not name.startswith("_")
            modified = "_ModifiedMixin" in KINDS[kind]
            for cm in ((), (("semaphore", SEM),), (("semaphore", SEM), ("runs_per_minute", LIM))):
                for own in ((), (("semaphore", OWN),), (("runs_per_minute", R),)) if modified and public else ((),):
                    con = "%s of kind %s%s%s" % (name, kind, " with class modifiers %s" % ",".join(k for k, _ in cm) if cm else "",
                                                 " and own %s" % ",".join(k for k, _ in own) if own else "")
                    ex = run(name, kind, cm, own)
                    rule = "wrap" if public and kind in ("def", "async def", "callable object", "async generator", "dual-mode function", "property", "cached property") else "keep"
                    bad = leak = mods = None
                    n = 0
                    for e in ex:
                        ns = [x for x in e.st.ts if x[0] == "namespace"]
                        if e.kind == "raise":
                            bad = bad or (e, "creating the class fails with %s" % show(e.value))
                            continue
                        if not ns:
                            bad = bad or (e, "the class is created without its namespace")
                            continue
                        n += 1
                        final = dict(ns[-1][1])
                        v = final.get(const(name))
                        if rule == "keep" or kind in ("property", "cached property"):
                            if v != VALUE and not (rule == "wrap" and v is not None and v[0] == "new"):
                                bad = bad or (e, "becomes %s" % (show(v) if v else "nothing: it is dropped"))
                        if rule == "wrap":
                            if kind in ("property", "cached property"):
                                if final.get(HNAME) != HDESC and not any(contains(k, HNAME) for k in final):
                                    bad = bad or (e, "the property's hidden method is not added")
                            elif kind == "async generator":
                                if not wrapped_as(v, "ASyncGeneratorFunction"):
                                    bad = bad or (e, "becomes %s" % show(v))
                            elif v is None or v[0] != "new" or not m.is_subclass(cls_of(m, v[2]), "ASyncMethodDescriptor") or VALUE not in v[3] + tuple(x for _, x in v[4]):
                                bad = bad or (e, "becomes %s" % show(v))
                        # the rest of the namespace is untouched
                        extra = [k for k in final if k not in (const(name), HNAME) and k not in [const(x) for x, _ in cm]]
                        if extra and not (rule == "wrap" and "property" in kind):
                            bad = bad or (e, "adds %s to the class" % ", ".join(show(x) for x in extra))
                        for k, x in cm:
                            if final.get(const(k)) != x:
                                bad = bad or (e, "changes the class attribute %s" % k)
                        if dict(ns[-1][3]) != {const(k): x for k, x in own}:
                            leak = leak or (e, "the member's own modifiers become %s" % ", ".join("%s=%s" % (show(k), show(x)) for k, x in ns[-1][3]))
                        if rule == "wrap" and kind != "async generator":
                            want = dict(cm)
                            want.update(own)
                            if kind in ("property", "cached property"):
                                got = None
                                if v is not None and v[0] == "new":
                                    got = {k: x for k, x in v[4] if k is not None}
                                elif dict(cm) != {} and set(dict(cm)) - set(dict(own)):
                                    mods = mods or (e, "the class's modifiers are not applied")
                                if got is not None and {k: got.get(k) for k in want} != want:
                                    mods = mods or (e, "gets modifiers %s" % got)
                            elif v is not None and v[0] == "new":
                                got = {k: x for k, x in v[4] if k is not None and k in ("semaphore", "runs_per_minute", "default")}
                                if not any(k is None for k, _ in v[4]) and got != want:
                                    mods = mods or (e, "gets modifiers %s, must be %s" % (fmt(got), fmt(want)))
                    b = bad
                    ctx.ob(rule, con, b is None and n > 0, L.where(f), b[1] if b else "no path creates the class", b[0].st.path() if b else ())
                    if rule == "wrap" and kind != "async generator" and (cm or own):
                        k2 = con if "property" not in kind else "class modifiers on a %s" % kind
                        ctx.ob("modifiers", k2, mods is None, L.where(f), mods[1] if mods else "", mods[0].st.path() if mods else ())
                    if modified and public:
                        ctx.ob("leak", con, leak is None, L.where(f), leak[1] if leak else "", leak[0].st.path() if leak else ())


    # one member's own modifiers do not reach its neighbours
    for kind in ("dual-mode function", "property", "cached property"):
        for cm in ((), (("runs_per_minute", LIM),)):
            for first in (True, False):
                pair = [(const("first"), VALUE), (const("second"), VALUE2)]
                items = [(const(k), v) for k, v in cm] + (pair if first else pair[::-1])
                it = Interp(m, Meta(m, kind), max_inline=10)
                heap = {("kd", "attrs", ""): ("kdc", tuple(items), ()), ("kd", "member", ""): ("kdc", ((const("semaphore"), OWN),), ())}
                ex = it.run(f, cls=c, args={p[1]: const("UserClass"), p[3]: ("kd", "attrs")}, heap=heap)
                ctx.analysed(it, f, ex)
                bad, n = None, 0
                for e in ex:
                    ns = [x for x in e.st.ts if x[0] == "namespace"]
                    if e.kind == "raise" or not ns:
                        continue
                    n += 1
                    v = dict(ns[-1][1]).get(const("second"))
                    got = {k: x for k, x in v[4] if k in ("semaphore", "runs_per_minute", "default")} if v is not None and v[0] == "new" else {}
                    if got != dict(cm) and v is not None and not (v[0] == "new" and any(k is None for k, _ in v[4])):
                        bad = bad or (e, "gets modifiers %s, must be %s" % (fmt(got), fmt(dict(cm))))
                ctx.ob("leak", "a member defined %s a %s with its own semaphore%s" % ("after" if first else "before", kind, ", class limiter" if cm else ""),
                       bad is None and n > 0, L.where(f), bad[1] if bad else "no path creates the class", bad[0].st.path() if bad else ())


def cls_of(m, cid):
    for c in M.classes(m):
        if c.id == cid:
            return c
    return None


def contains(v, x):
    return any(y == x for y in subterms(v))


def fmt(d):
    return "{%s}" % ", ".join("%s: %s" % (k, show(v)) for k, v in sorted(d.items()))
