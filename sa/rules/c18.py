"""Singletons: the metaclass call is interpreted from every state of the class's instance table, with other threads
free to construct the same class until its lock is held; class creation must give each class its own table and lock."""
from ..lib import *
from .. import locks as L

ASSUMPTIONS = ["`threading.Lock`, dict operations and `type.__call__` behave as documented",
               "other threads run the same `__call__` (so they store only while holding the class's lock)"]
MINE, OTHERS, MODE2 = ("tok", "the new instance"), ("tok", "the instance another thread made"), ("tok", "the other mode's instance")
LOCK = ("tok", "the class's lock")
TABLE = ("kd", "instances")
ARGS, KW = ("param", "*args"), ("param", "**kwargs")


class Birth(Client):
    """what class creation puts on the new class"""
    kd = True
    debug = False

    def inline(self, f):
        return f.name not in NOINLINE and f.name != "_update_logger" and f.name != "__new__"

    def event(self, st, ev):
        if ev.kind == "store" and ev.d.get("base", ("",))[0] in ("self", "param"):
            v = ev.value
            t = None
            if v[0] in ("kd", "dict") or is_call_to(v, "builtins.dict"):
                t = "table"
            elif v[0] == "call" and v[2] in (("ext", "threading.Lock"), ("ext", "threading.RLock"), ("ext", "_thread.allocate_lock"), ("ext", "_thread.RLock")):
                t = "lock"
            return st.but(ts=st.ts + ((ev.name, t, v),))
        return None


class Build(Client):
    kd = True
    fresh_globals = True
    debug = False
    model_raises = True

    def __init__(self, m, table, locks, sync, fails):
        self.m, self.table, self.locks, self.sync, self.fails = m, table, locks, sync, fails
        self.key = const(sync)

    def inline(self, f):
        return f.name not in NOINLINE and f.name != "__a_sync_instance_will_be_sync__"

    def inline_property(self, f):
        return True

    def model_attr(self, st, base, name):
        if base[0] == "self":
            if name in self.table:
                return TABLE
            if name in self.locks:
                return LOCK
        return Client.model_attr(self, st, base, name)

    def is_create(self, ev):
        fv = ev.callee
        if fv[0] == "attr" and fv[2] == "__call__" and fv[1][0] == "super" or fv[0] == "bound" and fv[1].endswith("type.__call__"):
            return True
        return fv[0] == "super" or "__call__" in repr(fv) and ("super" in repr(fv) or "builtins.type" in repr(fv))

    def raises(self, st, ev):
        if self.fails and ev.kind == "call" and self.is_create(ev):
            return [("exc", "UserError", ev.loc)]
        return ()

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        if callee_attr(ev) == "__a_sync_instance_will_be_sync__":
            ok = ARGS in tuple(subterms(tuple(ev.args))) and KW in tuple(subterms(tuple(ev.args)))
            return [(st if ok else st.but(ts=st.ts + (("mode",),)).note("the mode is decided from %s" % show_args(ev.args, ev.kw)), self.key)]
        if self.is_create(ev):
            held = any(x == ("held",) for x in st.ts)
            have = dict(st.heap[("kd", "instances", "")][1])
            full = ARGS in tuple(subterms(tuple(ev.args))) and any(k in ("**", None) or KW in tuple(subterms(v)) for k, v in ev.kw)
            return [(st.but(ts=st.ts + (("create", held, self.key in have, full),)).note("an instance is constructed"), MINE)]
        return None

    def others(self, st):
        e = st.heap[("kd", "instances", "")]
        if self.key in dict(e[1]):
            return [st]
        h = dict(st.heap)
        h[("kd", "instances", "")] = (e[0], e[1] + ((self.key, OTHERS),), e[2])
        return [st, st.but(heap=h).note("meanwhile another thread constructed the instance")]

    def acquire(self, st):
        return [s.but(ts=s.ts + (("held",),)) for s in self.others(st)]

    def release(self, st):
        return [st.but(ts=tuple(x for x in st.ts if x != ("held",)))]

    def event(self, st, ev):
        if ev.kind == "entered" and ev.d.get("cm") == LOCK:
            return self.acquire(st)
        if ev.kind == "exit" and ev.d.get("cm") == LOCK:
            return self.release(st)
        if ev.kind == "call" and callee_base(ev) == LOCK:
            if callee_attr(ev) in ("acquire", "__enter__"):
                return self.acquire(st)
            if callee_attr(ev) in ("release", "__exit__"):
                return self.release(st)
        if ev.kind == "setitem" and ev.d.get("base") == TABLE and ("held",) not in st.ts:
            return st.but(ts=st.ts + (("bare store",),)).note("the instance table is written without the lock")
        if ev.kind in ("call",) and callee_base(ev) == TABLE and callee_attr(ev) in ("setdefault", "update", "__setitem__") and ("held",) not in st.ts:
            return st.but(ts=st.ts + (("bare store",),))
        return None


def check(ctx):
    m = ctx.model
    ctx.rule("own", "every singleton class gets its own instance table and its own lock when it is created", 2)
    ctx.rule("once", "an instance is constructed only while the lock is held and the table has none for that mode", 4)
    ctx.rule("same", "every construction returns the table's instance of the requested mode", 4)
    ctx.rule("fail", "a failed construction raises, stores nothing and releases the lock", 2)
    meta = L.klass(m, "a_sync.a_sync._meta", "ASyncSingletonMeta")
    # -- creation of the class
    table, locks = set(), set()
    f = None
    for name in ("__init__", "__new__"):
        x = m.find_method(meta, name)
        if x is None or x.cls is not meta and x.cls != meta and getattr(x.cls, "id", None) != meta.id:
            continue
        f = x
        it = Interp(m, Birth(), max_inline=8)
        ex = it.run(f, cls=meta)
        ctx.analysed(it, f, ex)
        rets = [e for e in ex if e.kind == "return"]
        for kind, out in (("table", table), ("lock", locks)):
            names = [set(x[0] for x in e.st.ts if x[1] == kind) for e in rets]
            if names:
                out |= set.intersection(*names)
    ctx.ob("own", "instance table", bool(table), L.where(f) if f else L.where(m.find_method(meta, "__call__")), "a new singleton class does not get its own instance table")
    ctx.ob("own", "lock", bool(locks), L.where(f) if f else L.where(m.find_method(meta, "__call__")), "a new singleton class does not get its own lock")
    f = m.find_method(meta, "__call__")
    if not table or not locks:
        # nothing is per class: the rest is judged against whatever the call uses
        table = table or {x.attr for x in own_attrs(f) if "instance" in x.attr}
        locks = locks or {x.attr for x in own_attrs(f) if "lock" in x.attr}
    for sync in (True, False):
        for first in ("empty", "other mode", "present"):
            for fails in (False, True):
                if fails and first == "present":
                    continue
                cl = Build(m, table, locks, sync, fails)
                it = Interp(m, cl, max_inline=8)
                items = {"empty": (), "other mode": ((const(not sync), MODE2),), "present": ((const(not sync), MODE2), (const(sync), OTHERS))}[first]
                p = f.params()
                a = {}
                if f.node.args.vararg:
                    a["*" + f.node.args.vararg.arg] = ARGS
                ex = it.run(f, cls=meta, heap={("kd", "instances", ""): ("kdc", items, ())})
                ctx.analysed(it, f, ex)
                judge(ctx, f, cl, ex, "%s instance, table %s" % ("synchronous" if sync else "asynchronous", {"empty": "empty", "other mode": "has the other mode's", "present": "has it"}[first]), first, fails)


def own_attrs(f):
    import ast
    from ..model import own_nodes
    return [x for x in own_nodes(f.node) if isinstance(x, ast.Attribute)]


def judge(ctx, f, cl, ex, con, first, fails):
    once = same = fail = None
    n = 0
    for e in ex:
        after = dict(e.st.heap[("kd", "instances", "")][1])
        made = [x for x in e.st.ts if x[0] == "create"]
        if ("held",) in e.st.ts:
            fail = fail or (e, "leaves the lock held")
        if len(made) > 1:
            once = once or (e, "constructs %d instances" % len(made))
        for x in made:
            if not x[1]:
                once = once or (e, "constructs without holding the lock")
            elif x[2]:
                once = once or (e, "constructs although another thread has made the instance")
            if not x[3]:
                once = once or (e, "does not construct with the given arguments")
        if ("bare store",) in e.st.ts:
            once = once or (e, "stores the instance without holding the lock")
        if ("mode",) in e.st.ts:
            same = same or (e, "the mode is not decided from all given arguments")
        if first == "present" and made:
            once = once or (e, "constructs a second instance")
        if e.kind == "raise":
            if not (fails and made == [] or fails):
                same = same or (e, "fails with %s" % show(e.value))
            elif "UserError" not in repr(e.value):
                fail = fail or (e, "raises %s instead of the constructor's error" % show(e.value))
            elif cl.key in after:
                fail = fail or (e, "leaves an entry although the construction failed")
            continue
        n += 1
        want = MINE if made else OTHERS
        if after.get(cl.key) != want:
            same = same or (e, "does not store the constructed instance")
        if e.value != want:
            same = same or (e, "returns %s, must be %s" % (show(e.value), show(want)))
        if first != "empty" and after.get(const(not cl.sync)) != MODE2:
            same = same or (e, "changes the other mode's entry")
    if fails and first != "present" and not any(e.kind == "raise" for e in ex):
        fail = fail or (ex[0], "swallows the constructor's error")
    for r, b in (("once", once), ("same", same), ("fail", fail)):
        if (r == "fail") != fails:
            if b is None:
                continue
        ctx.ob(r, con + (", constructor fails" if fails else ""), b is None and (n > 0 or fails), L.where(f), b[1] if b else "no path returns", b[0].st.path() if b else ())
