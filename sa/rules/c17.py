"""Bound methods: every descriptor's `__get__` is interpreted for each state of the instance's binding cache; the
binding's constructor, `__self__`, weak reference callback and call are interpreted for live and dead instances."""
import ast

from ..lib import *
from .. import locks as L
from .. import modes as M

ASSUMPTIONS = ["attribute lookup, `weakref.ref` and the loop's `call_at`/`call_later`/`TimerHandle.cancel` behave as documented",
               "an instance has a `__dict__`"]
INST = ("tok", "the instance")
TYPE = ("tok", "type of the instance")
HERE, ELSE = ("tok", "binding of this instance"), ("tok", "binding of another instance")
OTHER = ("tok", "another instance")
NAME = const("method")
HANDLE = ("tok", "timer handle")
WEAK = {HERE: ("tok", "weak reference of this binding"), ELSE: ("tok", "weak reference of the other binding")}
FACTS = dict([(("truthy", x), True) for x in [HANDLE, HERE, ELSE] + list(WEAK.values())] + [(("is", x, NONE), False) for x in [HANDLE, HERE, ELSE] + list(WEAK.values())])


class Get(Client):
    data = ("another attribute's value", 'the override')
    kd = True
    fresh_globals = True
    debug = False

    def __init__(self, m, owns, mode=True, armed=True, handle=None):
        self.m, self.owns, self.mode, self.armed, self.handle = m, owns, mode, armed, handle

    def inline(self, f):
        return f.name not in NOINLINE and f.name != "__init__"

    def inline_property(self, f):
        return True

    def model_attr(self, st, base, name):
        if base == INST:
            if name == "__dict__":
                return ("kd", "idict")
            if name == "__class__":
                return TYPE
            if name in ("__a_sync_instance_should_await__", "__a_sync_instance_will_be_sync__"):
                return const(self.mode)
        if base == TYPE and name == cval(NAME):
            return self.me if self.owns else ("tok", "the override")
        if base[0] == "self" and name == "field_name":
            return NAME
        if base in (HERE, ELSE) or base[0] == "new" and "Bound" in str(base[2]):
            if name == "_cache_handle" and ("attr", base, name) not in st.heap:
                return HANDLE if self.armed and base == HERE else NONE
            if name == "__self__":
                return INST if base == HERE else OTHER if base == ELSE else None
            if name == "__weakself__" and base in WEAK:
                return WEAK[base]
        return Client.model_attr(self, st, base, name)

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        n, b = callee_attr(ev), callee_base(ev)
        fv = ev.callee
        if fv in (WEAK[HERE], WEAK[ELSE]) and not ev.args:
            return [(st, INST if fv == WEAK[HERE] else OTHER)]
        if fv[0] == "ext":
            d = fv[1].split(".")[-1]
            if d == "type" and tuple(ev.args) == (INST,):
                return [(st, TYPE)]
            if d in ("isinstance", "issubclass") and ev.args and ev.args[0] in (INST, TYPE):
                return [(st, const(self.mode is not None))]
            if d == "isinstance" and ev.args and ev.args[0] in (HERE, ELSE):
                return [(st, TRUE)]
        if n == "isEnabledFor":
            return [(st, FALSE)]
        if n in ("get_event_loop", "get_running_loop") or fv[0] == "func" and "get_event_loop" in fv[1]:
            return [(st, ("tok", "loop"))]
        return None

    def event(self, st, ev):
        if ev.kind == "call":
            n, b = callee_attr(ev), callee_base(ev)
            if n in ("call_at", "call_later", "call_soon") and b == ("tok", "loop"):
                return st.but(ts=st.ts + (("arm", n, tuple(ev.args)),)).note("a timer is armed: %s" % show_args(ev.args, ev.kw))
            if n == "cancel" and b == HANDLE:
                return st.but(ts=st.ts + (("cancel",),))
            if n in ("_run", "reschedule", "heapify", "update", "when") and b == HANDLE:
                return st.but(ts=st.ts + (("touch", n),))
        if ev.kind == "store" and ev.d.get("base") == HANDLE:
            return st.but(ts=st.ts + (("touch", ev.name),)).note("the armed timer's %s is changed" % ev.name)
        return None


def descriptors(m):
    base = L.klass(m, "a_sync.a_sync.method", "ASyncMethodDescriptor")
    gen = L.klass(m, "a_sync.iter", "ASyncGeneratorFunction")
    return [base] + m.subclasses(base) + [gen]


def check(ctx):
    m = ctx.model
    ctx.rule("bind", "accessing a method gives the instance's own cached binding, else a new binding of that instance, which is cached", 12)
    ctx.rule("super", "an overridden method reached with super() neither uses nor replaces the override's binding", 4)
    ctx.rule("idle", "each access re-arms one timer which drops only this entry, and disturbs no other timer", 4)
    ctx.rule("weak", "a method's binding and its timer keep no strong reference to the instance", 4)
    ctx.rule("dead", "a binding whose instance is gone raises ReferenceError instead of running", 8)
    ctx.rule("end", "when the instance dies its armed timer is cancelled, and an unarmed one is no error", 4)
    boundbase = L.klass(m, "a_sync.a_sync.method", "ASyncBoundMethod")
    genc = L.klass(m, "a_sync.iter", "ASyncGeneratorFunction")
    for c in descriptors(m):
        f = m.find_method(c, "__get__")
        isgen = c is genc
        p = f.params()
        kinds = [c.id] + [b.id for b in m.subclasses(c)] if isgen else [b.id for b in [boundbase] + m.subclasses(boundbase)]
        for owns in (True, False):
            for state in ("nothing", "its own binding", "a binding of another instance"):
                modes = (True, False, None) if not isgen else (True,)
                for mode in modes:
                    for armed in (True, False):
                        if armed and state != "its own binding":
                            continue
                        cl = Get(m, owns, mode, armed)
                        it = Interp(m, cl, max_inline=10, attr_stable=("_bound_modifiers", "modifiers", "__wrapped__", "default"))
                        other = (const("another attribute"), ("tok", "another attribute's value"))
                        have = {"nothing": (), "its own binding": ((NAME, HERE),), "a binding of another instance": ((NAME, ELSE),)}[state]
                        heap = {("kd", "idict", ""): ("kdc", (other,) + have, ())}
                        cl.me = ("self", c.id) if True else None
                        cl.me = self_value(it, f, c)
                        ex = it.run(f, cls=c, args={p[1]: INST}, heap=heap, facts=FACTS)
                        ctx.analysed(it, f, ex)
                        con = "%s, cache has %s%s%s" % (c.name, state, {True: "", False: ", async instance", None: ", other instance"}[mode], "" if armed or state != "its own binding" else ", not armed")
                        judge_get(ctx, it, f, c, ex, con, owns, state, armed, kinds, other, isgen)
    for c in [boundbase] + m.subclasses(boundbase) + [genc]:
        binding(ctx, c, c is genc)


def self_value(it, f, c):
    return ("self", c.id)


def judge_get(ctx, it, f, c, ex, con, owns, state, armed, kinds, other, isgen):
    bad = sup = idle = weak = None
    n = 0
    for e in ex:
        if e.kind == "raise":
            bad = bad or (e, "fails with %s" % show(e.value))
            continue
        n += 1
        v = e.value
        after = dict(e.st.heap[("kd", "idict", "")][1])
        before = {"nothing": None, "its own binding": HERE, "a binding of another instance": ELSE}[state]
        if after.get(other[0]) != other[1]:
            bad = bad or (e, "changes another attribute of the instance")
        fresh = v[0] == "new" and v[2] in kinds and any(x == INST for x in tuple(v[3]) + tuple(y for _, y in v[4]))
        if owns and state == "its own binding":
            if v != HERE:
                bad = bad or (e, "gives %s instead of the cached binding" % show(v))
            if after.get(NAME) != HERE:
                bad = bad or (e, "replaces the cached binding")
        elif not fresh:
            x = (e, "gives %s, must be a new binding of this instance" % show(v))
            if owns:
                bad = bad or x
            else:
                sup = sup or x
        elif owns and after.get(NAME) != v:
            bad = bad or (e, "does not cache the binding it gives")
        if not owns and after.get(NAME) != before:
            sup = sup or (e, "replaces the override's binding by %s" % show(after.get(NAME) or NONE))
        # timers
        arms = [x for x in e.st.ts if x[0] == "arm"]
        if any(x[0] == "touch" for x in e.st.ts):
            idle = idle or (e, "changes the armed timer in place")
        if owns:
            if len(arms) != 1:
                idle = idle or (e, "arms %d timers" % len(arms))
            if state == "its own binding" and armed and ("cancel",) not in e.st.ts:
                idle = idle or (e, "leaves the previous timer armed")
            kept = e.st.heap.get(("attr", v, "_cache_handle"))
            if len(arms) == 1 and (kept is None or kept[0] != "call" or callee_attr_of(kept) != arms[0][1]):
                idle = idle or (e, "does not keep the timer it armed, so that nothing can cancel it")
            for a in arms:
                if a[1] == "call_soon" or len(a[2]) < 2 or a[1] == "call_at" and not any(is_time(x) for x in subterms(a[2][0])) or a[2][0] in (const(0), const(0.0)) \
                        or a[1] == "call_at" and is_time(a[2][0]):
                    idle = idle or (e, "does not wait for the idle period: %s" % show_args(a[2][:1], ()))
                    continue
                msg = fires(it, e.st, a[2][1], a[2][2:], f, other)
                if msg:
                    idle = idle or (e, msg)
                if not isgen and any(holds(x) for x in a[2][1:]):
                    weak = weak or (e, "the timer holds the instance")
    for rule, b in (("bind", bad), ("super", sup), ("idle", idle), ("weak", weak)):
        if rule == "super" and owns or rule == "bind" and not owns and not bad or rule == "idle" and not owns and not idle or rule == "weak" and (isgen or not owns):
            continue
        ctx.ob(rule, con, b is None and (n > 0 or bad is not None), L.where(f), b[1] if b else "no path returns", b[0].st.path() if b else ())


def callee_attr_of(call):
    return call[2][2] if call[2][0] in ("attr", "bound") else None


def is_time(v):
    return isinstance(v, tuple) and v and v[0] == "call" and callee_attr(v) in ("time", "monotonic")


def holds(v):
    """a strong reference to the instance: the token itself outside of attribute reads"""
    if v == INST:
        return True
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ("attr",) and v[1] == INST:
        return False
    if v[0] == "bound":
        return holds(v[2])
    return any(holds(x) for x in v[1:] if isinstance(x, tuple))


def fires(it, st, cb, args, f, other):
    """interpret the timer's callback: it must drop the entry and nothing else"""
    if cb == ("ext", "builtins.delattr"):
        return None if tuple(args) == (INST, NAME) else "the timer deletes %s" % show_args(args, ())
    if cb[0] == "attr" and cb[1] == ("kd", "idict"):
        if cb[2] == "pop":
            return None if args[:1] == (NAME,) and len(args) == 2 else "the timer pops %s" % show_args(args, ())
        if cb[2] == "__delitem__":
            return None if args == (NAME,) else "the timer deletes %s" % show_args(args, ())
        return "the timer calls __dict__.%s" % cb[2]
    try:
        rs = it.call_value(st, cb, list(args), [], f)
    except Exception:
        return None
    for r in rs:
        s = r.st if hasattr(r, "st") else r[0]
        c = s.heap.get(("kd", "idict", ""))
        if c is None:
            continue
        d = dict(c[1])
        if NAME in d:
            return "the timer leaves the binding cached"
        if other[0] not in d:
            return "the timer drops another attribute"
    return None


class Life(Client):
    kd = True
    debug = False

    def __init__(self, m, alive=True, armed=True):
        self.m, self.alive, self.armed = m, alive, armed

    def inline(self, f):
        return f.name not in NOINLINE

    def inline_property(self, f):
        return True

    def model_attr(self, st, base, name):
        if base[0] == "self" and name == "_cache_handle" and ("attr", base, name) not in st.heap:
            return HANDLE if self.armed else NONE
        if name == "__wrapped__" and base[0] == "self":
            return M.WRAPPED
        if name in ("_is_async_def", "__is_async_def__"):
            return TRUE
        return Client.model_attr(self, st, base, name)

    def raises(self, st, ev):
        return [("exc", "AttributeError", ev.loc)] if ev.kind == "call" and callee_base(ev) == NONE else ()

    def model(self, st, ev):
        if ev.kind == "call" and callee_attr(ev) == "__weakself__" and not ev.args:
            return [(st, INST if self.alive else NONE)]
        return None

    def event(self, st, ev):
        if ev.kind == "store" and ev.d.get("base", ("",))[0] == "self" and holds_strong(ev.value):
            return st.but(ts=st.ts + (("strong", ev.name),)).note("%s keeps the instance alive" % ev.name)
        if ev.kind == "call" and callee_attr(ev) in ("__setattr__", "append", "add", "setdefault") and any(holds_strong(x) for x in ev.args):
            return st.but(ts=st.ts + (("strong", callee_attr(ev)),))
        if ev.kind == "call" and callee_attr(ev) == "cancel" and callee_base(ev) == HANDLE:
            return st.but(ts=st.ts + (("cancel",),))
        if ev.kind == "call" and ev.callee[0] == "ext" and ev.callee[1] in ("weakref.ref", "weakref.proxy") and ev.args[:1] == (INST,):
            return st.but(ts=st.ts + (("weakref", tuple(ev.args[1:])),))
        if ev.kind == "call" and M.WRAPPED in (ev.callee,) + tuple(ev.args[:1]):
            return st.but(ts=st.ts + (("user", tuple(ev.args)),))
        return None


def holds_strong(v):
    if v == INST:
        return True
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == "call" and v[2][0] == "ext" and v[2][1] in ("weakref.ref", "weakref.proxy", "builtins.type", "builtins.id"):
        return False
    if v[0] == "attr":
        return False
    return any(holds_strong(x) for x in v[1:] if isinstance(x, tuple))


def binding(ctx, c, isgen):
    m = ctx.model
    f = m.find_method(c, "__init__")
    names = f.params()
    inst = [x for x in names if x == "instance"][:1] or names[1:2]
    it = Interp(m, Life(m), max_inline=10)
    ex = it.run(f, cls=c, args={inst[0]: INST})
    ctx.analysed(it, f, ex)
    bad, cbs, n = None, set(), 0
    for e in ex:
        if e.kind == "raise":
            continue
        n += 1
        s = [x[1] for x in e.st.ts if x[0] == "strong"]
        if s:
            bad = bad or (e, "keeps the instance alive through %s" % s[0])
        w = [x[1] for x in e.st.ts if x[0] == "weakref"]
        if not w:
            bad = bad or (e, "takes no weak reference to the instance")
        cbs |= set(x[0] for x in w if x)
    ctx.ob("weak", "%s.__init__" % c.name, bad is None and n > 0, L.where(f), bad[1] if bad else "never returns", bad[0].st.path() if bad else ())
    # -- the weak reference's callback
    for armed in (True, False):
        bad = None
        for cb in sorted(cbs, key=repr):
            it = Interp(m, Life(m, False, armed), max_inline=10)
            h = None
            if cb[0] == "bound":
                h = it.target(cb)[0]
            if h is None:
                continue
            for e in it.run(h, cls=c, args={h.params()[1]: ("tok", "dead reference")}):
                if e.kind == "raise":
                    bad = bad or (e, h, "fails with %s" % show(e.value))
                elif armed and ("cancel",) not in e.st.ts:
                    bad = bad or (e, h, "leaves the timer armed")
            ctx.analysed(it, h, ())
        ctx.ob("end", "%s, timer %s" % (c.name, "armed" if armed else "not armed"), bad is None, L.where(bad[1]) if bad else "", bad[2] if bad else "", bad[0].st.path() if bad else ())
    # -- a dead instance
    f = m.find_method(c, "__self__")
    for alive in (True, False):
        it = Interp(m, Life(m, alive), max_inline=10)
        ex = it.run(f, cls=c)
        ctx.analysed(it, f, ex)
        bad = None
        for e in ex:
            if e.kind == "raise" and isinstance(e.value, tuple) and "TypeError" in repr(e.value) + repr(M.excname(m, e.value)) or e.kind == "raise" and "AttributeError" in repr(e.value):
                continue        # not bound at all
            if alive and (e.kind != "return" or e.value != INST):
                bad = bad or (e, "gives %s for a live instance" % show(e.value))
            if not alive and (e.kind != "raise" or "ReferenceError" not in repr(e.value)):
                bad = bad or (e, "gives %s although the instance is gone" % show(e.value))
        ctx.ob("dead", "%s.__self__ of a %s instance" % (c.name, "live" if alive else "dead"), bad is None and bool(ex), L.where(f), bad[1] if bad else "", bad[0].st.path() if bad else ())
    f = m.find_method(c, "__call__")
    for fl in M.flagsets() if not isgen else [()]:
        row = M.Row(fl, None, True, "sync")

        class Dead(M.Mode):
            def model(self, st, ev):
                if ev.kind == "call" and (callee_attr(ev) == "__weakself__" or ev.callee == ("tok", "weak reference")) and not ev.args:
                    return [(st, NONE)]
                return M.Mode.model(self, st, ev)

            def model_attr(self, st, base, name):
                if base[0] == "self" and name == "__weakself__":
                    return ("tok", "weak reference")
                return M.Mode.model_attr(self, st, base, name)
        cl = Dead(m, row)
        it = Interp(m, cl, attr_stable=("__wrapped__", "modifiers", "executor", "default"), max_inline=14)
        heap, uid = M.start(row)
        ex = it.run(f, cls=c, args={f.node.args.kwarg.arg: uid} if f.node.args.kwarg else {}, heap=heap)
        ctx.analysed(it, f, ex)
        bad, n = None, 0
        for e in ex:
            if any(x[0] == "user" for x in e.st.ts):
                bad = bad or (e, "runs the function")
            if e.kind == "raise" and "ReferenceError" in repr(e.value):
                n += 1
            elif e.kind == "raise":
                bad = bad or (e, "fails with %s" % show(e.value))
            elif e.value[0] == "coro":
                for r in it.await_value(e.st, e.value, f):
                    n += 1
                    if r.kind != "raise" or "ReferenceError" not in repr(r.value):
                        bad = bad or (e, "gives %s" % show(r.value))
            else:
                bad = bad or (e, "gives %s" % show(e.value))
        ctx.ob("dead", "calling a %s of a dead instance with %s" % (c.name, ",".join("%s=%s" % x for x in fl) or "no flag"), bad is None and n > 0, L.where(f),
               bad[1] if bad else "no path", bad[0].st.path() if bad else ())
