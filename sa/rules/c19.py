"""Cached properties: the loader of an un-loaded value is interpreted once per state of (value cache, pending task) and
per outcome of the wait, with other requests free to finish in between; the per-instance state and the hidden getter
are interpreted for owned and overridden names."""
from ..lib import *
from .. import locks as L
from .. import modes as M

ASSUMPTIONS = ["async_property's descriptor keeps values in `get_instance_state(instance).cache` by field name and calls the loader only when the value is missing",
               "an asyncio task runs its coroutine once; `shield` does not cancel what it shields"]
INST, OWNER = ("tok", "the instance"), ("tok", "the owner")
TYPE = ("tok", "type of the instance")
NAME, OTHERNAME = const("prop"), const("another property")
STATE = ("tok", "state of the instance")
CACHE, LOCKS = ("kd", "cache"), ("kd", "locks")
VALUE, THEIRS, OTHERVALUE, OLD = ("tok", "the computed value"), ("tok", "the value another request stored"), ("tok", "another property's value"), ("tok", "the cached value")
RETRY = ("tok", "the task of a later request")
TASK, NEW, OTHERTASK = ("tok", "the remembered task"), ("tok", "the new task"), ("tok", "another property's task")
GETTER = ("tok", "the getter")
UERR = ("exc", "UserError", "getter")
LOCKOBJ = ("tok", "an asyncio.Lock")
FACTS = dict([(("truthy", x), True) for x in (TASK, NEW, RETRY, OTHERTASK, STATE, LOCKOBJ)] + [(("is", x, NONE), False) for x in (TASK, NEW, RETRY, OTHERTASK, STATE, LOCKOBJ, VALUE, THEIRS, OLD)])


class Load(Client):
    data = ('the cached value', 'the computed value', 'the value another request stored', 'the override', "another property's value")
    kd = True
    debug = False
    model_raises = True

    def __init__(self, m, task, outcome):
        self.m, self.task, self.outcome = m, task, outcome

    def inline(self, f):
        return f.name not in NOINLINE and f.name not in ("shield", "get_instance_state") and "create_task" not in f.name

    def inline_property(self, f):
        return True

    def kd_missing(self, st, v, k):
        return LOCKOBJ if v == LOCKS else None

    def model_attr(self, st, base, name):
        if base == STATE:
            return {"cache": CACHE, "lock": LOCKS}.get(name)
        if base[0] == "self":
            if name == "field_name":
                return NAME
            if name == "_fget":
                return GETTER
            if name in ("_fset", "_fdel"):
                return ("tok", "the user's setter")
        return Client.model_attr(self, st, base, name)

    def status(self, t):
        return "pending" if t == NEW else self.task

    def awaits_task(self, v):
        """the task a wait is for, and whether cancelling the wait leaves the task alone"""
        if v in (TASK, NEW):
            return v, False
        if v[0] == "call" and (callee_name(v) in ("shield", "wait")):
            for x in v[3]:
                for y in ([x] if x in (TASK, NEW) else list(x[1]) if x[0] in ("list", "tuple", "set") else []):
                    if y in (TASK, NEW):
                        return y, True
        return None, False

    def model(self, st, ev):
        if ev.kind == "awaitval":
            t, _ = self.awaits_task(ev.value)
            if t is None or ev.value[0] == "call" and callee_name(ev.value) == "wait":
                return None
            # a wait for a task that is over, or whose outcome is bad, gives no value
            if self.status(t) in ("failed", "cancelled") or self.status(t) == "pending" and self.outcome in ("fails", "task cancelled"):
                return []
            return [(st, VALUE)]
        if ev.kind != "call":
            return None
        fv, a = ev.callee, ev.args
        n, b = callee_attr(ev), callee_base(ev)
        if fv[0] == "func":
            n = fv[1].split("#")[0].split(":")[-1].split(".")[-1]
        if n == "get_instance_state" and INST in a:
            return [(st, STATE)]
        if n == "get_cache" and INST in a:
            return [(st, CACHE)]
        if n in ("has_cache_value", "get_cache_value", "set_cache_value", "del_cache_value") and a[:1] == (INST,):
            e = st.heap[("kd", "cache", "")]
            have = dict(e[1])
            if n == "has_cache_value":
                return [(st, const(NAME in have))]
            if n == "get_cache_value":
                return [(st, have[NAME])] if NAME in have else []
            items = [x for x in e[1] if x[0] != NAME] + ([(NAME, a[1])] if n == "set_cache_value" else [])
            h = dict(st.heap)
            h[("kd", "cache", "")] = (e[0], tuple(items), e[2])
            return [(st.but(heap=h), NONE)]
        if n == "__set__" and len(a) >= 2 and a[-2] == INST:
            e = st.heap[("kd", "cache", "")]
            h = dict(st.heap)
            h[("kd", "cache", "")] = (e[0], tuple(x for x in e[1] if x[0] != NAME) + ((NAME, a[-1]),), e[2])
            return [(st.but(heap=h, ts=st.ts + (("set", a[-1]),)).note("the property is set to %s" % show(a[-1])), NONE)]
        if n and "create_task" in n or n == "ensure_future":
            if a and a[0][0] == "call" and a[0][2] == GETTER:
                ok = a[0][3] == (INST,) and not a[0][4]
                return [(st.but(ts=st.ts + (("compute", ok),)).note("the getter is started: %s" % show(a[0])), NEW)]
        if b == RETRY and not a and n in ("done", "cancelled"):
            return [(st, FALSE)]
        if b in (TASK, NEW) and not a:
            s = self.status(b)
            if n == "done":
                return [(st, const(s != "pending"))]
            if n == "cancelled":
                return [(st, const(s == "cancelled"))]
            if n == "exception":
                return [] if s in ("cancelled", "pending") else [(st, UERR if s == "failed" else NONE)]
            if n == "result" and s in ("value", "failed"):
                return [] if s == "failed" else [(st, VALUE)]
        if fv[0] == "ext" and fv[1].endswith("isinstance") and len(a) == 2 and a[0] in (TASK, NEW, LOCKOBJ):
            t = repr(a[1])
            return [(st, const(("Lock" in t) == (a[0] == LOCKOBJ)))]
        if n == "_owns_field":
            return [(st, TRUE)]
        return None

    def raises(self, st, ev):
        if ev.kind == "await":
            t, safe = self.awaits_task(ev.value)
            s = st if safe or t is None else st.but(ts=st.ts + (("bare",),)).note("cancelling this wait cancels the task all requests share")
            out = [(s, ("exc", "CancelledError", "this request"))] if self.outcome == "this request cancelled" else []
            h = dict(s.heap)
            l = h[("kd", "locks", "")]
            if t is not None and self.status(t) == "pending" and dict(l[1]).get(NAME) == t and self.outcome in ("fails", "task cancelled"):
                # by now another request that was told so may have started the getter anew
                h[("kd", "locks", "")] = (l[0], tuple(x for x in l[1] if x[0] != NAME) + ((NAME, RETRY),), l[2])
                out.append((s.but(heap=h, ts=s.ts + (("retry",),)).note("another request was told first and has started the getter anew"),
                            UERR if self.outcome == "fails" else ("exc", "CancelledError", "task")))
            if t is not None:
                if self.status(t) == "failed" or self.status(t) == "pending" and self.outcome == "fails":
                    out.append((s, UERR))
                if self.status(t) == "cancelled" or self.status(t) == "pending" and self.outcome == "task cancelled":
                    out.append((s, ("exc", "CancelledError", "task")))
            return out
        if ev.kind == "call":
            b, n = callee_base(ev), callee_attr(ev)
            if b in (TASK, NEW) and n in ("exception", "result") and self.status(b) == "cancelled":
                return [("exc", "CancelledError", "task")]
            if b in (TASK, NEW) and n in ("exception", "result") and self.status(b) == "pending":
                return [("exc", "InvalidStateError", "task")]
            if b in (TASK, NEW) and n == "result" and self.status(b) == "failed":
                return [UERR]
        return ()

    def event(self, st, ev):
        if ev.kind == "await":
            t, safe = self.awaits_task(ev.value)
            if t is not None:
                kept = dict(st.heap[("kd", "locks", "")][1]).get(NAME)
                st = st.but(ts=st.ts + (("wait", t, safe, kept == t),))
            elif ev.value[0] == "call" and ev.value[2] == GETTER:
                st = st.but(ts=st.ts + (("compute", ev.value[3] == (INST,)), ("alone",)))
            return st
        if ev.kind == "resumed" and self.awaits_task(ev.value)[0] is not None:
            # another request for the same task resumed first
            h = dict(st.heap)
            e, l = h[("kd", "cache", "")], h[("kd", "locks", "")]
            if NAME in dict(e[1]):
                return None
            h[("kd", "cache", "")] = (e[0], e[1] + ((NAME, THEIRS),), e[2])
            h[("kd", "locks", "")] = (l[0], tuple(x for x in l[1] if x[0] != NAME), l[2])
            return [st, st.but(heap=h, ts=st.ts + (("theirs",),)).note("another request resumed first and stored the value")]
        if ev.kind == "call" and callee_attr(ev) == "cancel" and callee_base(ev) in (TASK, NEW):
            return st.but(ts=st.ts + (("cancel",),)).note("the shared task is cancelled")
        return None


def callee_name(v):
    fv = v[2]
    if fv[0] == "attr":
        return fv[2]
    if fv[0] == "func":
        return fv[1].split("#")[0].split(":")[-1].split(".")[-1]
    if fv[0] == "ext":
        return fv[1].split(".")[-1]
    if fv[0] == "bound":
        return fv[1].split("#")[0].split(".")[-1]
    return None


class State(Client):
    """the external base's state is per instance; the override must separate overridden names"""
    data = ('the cached value', 'the computed value', 'the value another request stored', 'the override', "another property's value")
    kd = True
    debug = False

    def __init__(self, m, owns):
        self.m, self.owns = m, owns

    def inline(self, f):
        return f.name not in NOINLINE

    def inline_property(self, f):
        return True

    def model_attr(self, st, base, name):
        if base == STATE:
            return {"cache": CACHE, "lock": LOCKS}.get(name)
        if base == INST and name == "__class__":
            return TYPE
        if base == TYPE and name == "prop":
            return self.me if self.owns else ("tok", "the override")
        if base[0] == "self" and name == "field_name":
            return NAME
        return Client.model_attr(self, st, base, name)

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        n = callee_attr(ev)
        if n == "get_instance_state" and INST in ev.args and ("super" in repr(ev.callee) or ev.callee[0] in ("ext", "attr")):
            return [(st, STATE)]
        if ev.callee == ("ext", "builtins.type") and tuple(ev.args) == (INST,):
            return [(st, TYPE)]
        return None


def check(ctx):
    m = ctx.model
    ctx.rule("once", "an un-loaded value is computed by one task that all concurrent requests share; a loaded or pending one is not computed again", 12)
    ctx.rule("value", "every request gets the computed (or already stored) value, which is stored under this property only", 12)
    ctx.rule("fails", "a failed or cancelled computation reaches the requests waiting for it and no later one; cancelling one request cancels nothing else", 8)
    ctx.rule("state", "an overridden cached property reached with super() has a state of its own, the same on each access", 2)
    ctx.rule("plain", "each access to a property starts from its descriptor anew, and remembers nothing itself", 4)
    ctx.rule("hidden", "the hidden getter gives the property's own value and is named after it", 2)
    base = L.klass(m, "a_sync.a_sync.property", "_ASyncPropertyDescriptorBase")
    cached = L.klass(m, "a_sync.a_sync.property", "ASyncCachedPropertyDescriptor")
    for c in [cached] + m.subclasses(cached):
        f = m.find_method(c, "get_loader")
        if f is None:
            raise AnalysisError("%s.get_loader not found" % c.name)
        if c is not cached and f is m.find_method(cached, "get_loader") and m.find_method(c, "get_lock") is m.find_method(cached, "get_lock"):
            continue
        loader(ctx, c, f)
        state(ctx, c)
    for c in [base] + m.subclasses(base):
        plain(ctx, c)
    hidden(ctx, base)


def loader(ctx, c, f):
    m = ctx.model
    for stored in (False, True):
        for task in ("none", "pending", "value", "failed", "cancelled"):
            if stored and task != "none":
                continue
            for outcome in ("gives a value", "fails", "task cancelled", "this request cancelled"):
                if stored and outcome != "gives a value":
                    continue
                cl = Load(m, task, outcome)
                it = Interp(m, cl, max_inline=10)
                p = f.params()
                cache = ((OTHERNAME, OTHERVALUE),) + (((NAME, OLD),) if stored else ())
                locks = ((OTHERNAME, OTHERTASK),) + (((NAME, TASK),) if task != "none" else ())
                heap = {("kd", "cache", ""): ("kdc", cache, ()), ("kd", "locks", ""): ("kdc", locks, ())}
                ends = []
                for e in it.run(f, cls=c, args={p[1]: INST}, heap=heap, facts=FACTS):
                    if e.kind == "raise":
                        ends.append(e)
                        continue
                    for r in it.call_value(e.st, e.value, [], [], f):
                        if r.kind == "raise":
                            ends.append(r)
                            continue
                        ends += it.await_value(r.st, r.value, f)
                ctx.analysed(it, f, ends)
                con = "%s: %s%s, %s" % (c.name, "value stored" if stored else "no value", "" if task == "none" else ", a task that %s" % {"pending": "is running", "value": "has finished", "failed": "has failed", "cancelled": "was cancelled"}[task], outcome)
                judge(ctx, f, cl, ends, con, stored, task, outcome)


def judge(ctx, f, cl, ends, con, stored, task, outcome):
    once = value = fails = None
    n = bad_n = 0
    usable = task in ("pending", "value")
    for e in ends:
        ts = e.st.ts
        made = [x for x in ts if x[0] == "compute"]
        waits = [x for x in ts if x[0] == "wait"]
        cache, locks = dict(e.st.heap[("kd", "cache", "")][1]), dict(e.st.heap[("kd", "locks", "")][1])
        if any(not x[1] for x in made):
            value = value or (e, "the getter is not called with the instance alone")
        if ("alone",) in ts:
            once = once or (e, "runs the getter in this request, where no other request can share it")
        if stored and (made or waits):
            once = once or (e, "computes although the value is stored")
        if usable and made:
            once = once or (e, "computes although another request's task %s" % ("is running" if task == "pending" else "has finished"))
        if len(made) > 1:
            once = once or (e, "starts the getter %d times" % len(made))
        for x in waits:
            if not x[3]:
                once = once or (e, "waits for a task that other requests cannot find")
            if not x[2]:
                fails = fails or (e, "waits for the shared task without shielding it")
        if ("cancel",) in ts:
            fails = fails or (e, "cancels the shared task")
        if task in ("failed", "cancelled") and not made and not stored:
            fails = fails or (e, "answers with the task that %s before this request" % ("failed" if task == "failed" else "was cancelled"))
        if cache.get(OTHERNAME) != OTHERVALUE or locks.get(OTHERNAME) != OTHERTASK or set(cache) - {NAME, OTHERNAME} or set(locks) - {NAME, OTHERNAME}:
            value = value or (e, "changes another property's entry")
        if ("retry",) in ts and locks.get(NAME) != RETRY:
            once = once or (e, "forgets the task another request has started since")
        if e.kind == "raise" and outcome == "this request cancelled" and ("theirs",) not in ts and not stored and waits \
                and (waits[-1][1] == NEW or task == "pending") and locks.get(NAME) != waits[-1][1]:
            once = once or (e, "forgets the task that is still running for other requests")
        if e.kind == "raise":
            bad_n += 1
            v = e.value
            if outcome == "gives a value" or task == "value" and outcome != "this request cancelled":
                if task not in ("failed", "cancelled"):
                    value = value or (e, "fails with %s" % show(v))
                elif made:
                    fails = fails or (e, "fails with %s" % show(v))
            else:
                want = {"fails": UERR[1], "task cancelled": "CancelledError", "this request cancelled": "CancelledError"}[outcome]
                if want not in repr(v) and not (task in ("failed", "cancelled") and not made):
                    fails = fails or (e, "gives %s instead of the %s" % (show(v), "getter's error" if outcome == "fails" else "cancellation"))
                if NAME in cache and ("theirs",) not in ts:
                    fails = fails or (e, "stores %s although there is no value" % show(cache[NAME]))
            continue
        n += 1
        want = OLD if stored else VALUE
        if e.value != want and not (("theirs",) in ts and e.value == THEIRS):
            value = value or (e, "gives %s, must be %s" % (show(e.value), show(want)))
        if outcome in ("fails", "task cancelled") and not (stored or task == "value"):
            fails = fails or (e, "gives %s although the computation %s" % (show(e.value), "failed" if outcome == "fails" else "was cancelled"))
            continue
        theirs = ("theirs",) in ts
        sets = [x for x in ts if x[0] == "set"]
        if cache.get(NAME) != (want if not theirs else THEIRS) and not (theirs and cache.get(NAME) == VALUE and not sets):
            value = value or (e, "stores %s" % (show(cache[NAME]) if NAME in cache else "nothing"))
        if theirs and sets:
            value = value or (e, "sets the property again after another request has")
        if not stored and not theirs and len(sets) > 1:
            value = value or (e, "sets the property %d times" % len(sets))
        if NAME in locks and locks[NAME] in (TASK, NEW):
            value = value or (e, "keeps the finished task, so that a deleted value is never computed again")
    ctx.ob("once", con, once is None, L.where(f), once[1] if once else "", once[0].st.path() if once else ())
    ctx.ob("value", con, value is None and (n > 0 or outcome != "gives a value"), L.where(f), value[1] if value else "never gives a value", value[0].st.path() if value else ())
    if outcome != "gives a value" or fails or task in ("failed", "cancelled"):
        ctx.ob("fails", con, fails is None, L.where(f), fails[1] if fails else "", fails[0].st.path() if fails else ())


def state(ctx, c):
    m = ctx.model
    f = m.find_method(c, "get_instance_state")
    res = {}
    for owns in (True, False):
        bad = None
        if f is None:
            # the external base: one state per instance and name
            ctx.ob("state", "%s, %s" % (c.name, "own name" if owns else "overridden"), owns, L.where(m.find_method(c, "get_loader")), "shares the override's value and waits for the override's task forever")
            continue
        cl = State(m, owns)
        cl.me = ("self", c.id)
        it = Interp(m, cl, max_inline=8)
        heap = {("kd", "cache", ""): ("kdc", ((NAME, OLD),), ()), ("kd", "locks", ""): ("kdc", (), ())}
        ex = it.run(f, cls=c, args={f.params()[1]: INST}, heap=heap)
        ctx.analysed(it, f, ex)
        for e in ex:
            cache = dict(e.st.heap[("kd", "cache", "")][1])
            if e.kind == "raise":
                bad = bad or (e, "fails with %s" % show(e.value))
            elif owns and e.value != STATE:
                bad = bad or (e, "gives %s instead of the instance's state" % show(e.value))
            elif not owns and e.value == STATE:
                bad = bad or (e, "shares the override's value and its task")
            elif cache.get(NAME) != OLD:
                bad = bad or (e, "changes the property's value")
            elif not owns:
                # the same state next time
                if not any(e.value in tuple(subterms(x)) for x in e.st.heap.values() if isinstance(x, tuple)):
                    bad = bad or (e, "does not keep the state it gives")
                for r in it.run(f, cls=c, args={f.params()[1]: INST}, heap=dict(e.st.heap)):
                    if r.kind == "raise" or r.value != e.value:
                        bad = bad or (r, "gives another state on the next access")
                keys = [k for k, v in cache.items() if v == e.value]
                if keys and any(is_const(k) and cval(k) == "prop" for k in keys):
                    bad = bad or (e, "keeps the state under the override's name")
        ctx.ob("state", "%s, %s" % (c.name, "own name" if owns else "overridden"), bad is None and bool(ex), L.where(f), bad[1] if bad else "no path returns", bad[0].st.path() if bad else ())


class Plain(Client):
    data = ('the cached value', 'the computed value', 'the value another request stored', 'the override', "another property's value")
    kd = True
    debug = False

    def inline(self, f):
        return f.name not in NOINLINE and f.name not in ("_await", "_is_a_sync_instance")

    def model(self, st, ev):
        if ev.kind == "call" and callee_attr(ev) == "isEnabledFor":
            return [(st, FALSE)]
        return None

    def event(self, st, ev):
        if ev.kind == "call" and callee_attr(ev) in ("__get__", "not_loaded", "already_loaded", "awaitable_only") and INST in ev.args:
            return st.but(ts=st.ts + (("get", tuple(ev.args)),))
        if ev.kind in ("store", "setitem", "delitem", "delattr"):
            return st.but(ts=st.ts + (("write", ev.kind, ev.name if ev.kind == "store" else show(ev.d.get("base") or NONE)),))
        return None


def plain(ctx, c):
    m = ctx.model
    f = m.find_method(c, "__get__")
    if f is None:
        return
    it = Interp(m, Plain(), max_inline=8)
    p = f.params()
    ex = it.run(f, cls=c, args={p[1]: INST, p[2]: OWNER}, facts={("is", INST, NONE): False, ("truthy", INST): True})
    ctx.analysed(it, f, ex)
    bad, n = None, 0
    for e in ex:
        if e.kind == "raise":
            bad = bad or (e, "fails with %s" % show(e.value))
            continue
        n += 1
        gets = [x for x in e.st.ts if x[0] == "get"]
        if len(gets) != 1:
            bad = bad or (e, "asks the underlying descriptor %d times" % len(gets))
        elif gets[0][1][:1] != (INST,) and INST not in gets[0][1]:
            bad = bad or (e, "asks for another instance")
        w = [x for x in e.st.ts if x[0] == "write"]
        if w:
            bad = bad or (e, "remembers something: writes %s" % w[0][2])
        if not any(is_get(x) for x in subterms(e.value)):
            bad = bad or (e, "gives %s, which is not the underlying descriptor's answer" % show(e.value))
    ctx.ob("plain", c.name, bad is None and n > 0, L.where(f), bad[1] if bad else "no path returns", bad[0].st.path() if bad else ())


def is_get(x):
    return isinstance(x, tuple) and x and x[0] == "call" and callee_name(x) in ("__get__", "not_loaded", "already_loaded", "awaitable_only") and INST in x[3]


class Hid(Client):
    data = ('the cached value', 'the computed value', 'the value another request stored', 'the override', "another property's value")
    kd = True
    debug = False

    def inline(self, f):
        return f.name not in NOINLINE

    def event(self, st, ev):
        if ev.kind == "store" and ev.d.get("base", ("",))[0] == "self":
            return st.but(ts=st.ts + ((ev.name, ev.value),))
        return None


def hidden(ctx, base):
    m = ctx.model
    f = m.find_method(base, "get")
    p = f.params()
    it = Interp(m, Plain(), max_inline=8)
    ex = it.run(f, cls=base, args={p[1]: INST, p[2]: OWNER} if len(p) > 2 else {p[1]: INST})
    ctx.analysed(it, f, ex)
    bad, n = None, 0
    for e in ex:
        if e.kind == "raise":
            bad = bad or (e, "fails with %s" % show(e.value))
            continue
        n += 1
        v = e.value
        gets = [x for x in e.st.ts if x[0] == "get"]
        if len(gets) != 1 or INST not in gets[0][1]:
            bad = bad or (e, "does not ask the property for this instance once")
        if v[0] != "awaited" or not any(is_get(x) for x in subterms(v)):
            bad = bad or (e, "gives %s, must be the property's awaited value" % show(v))
    ctx.ob("hidden", "get", bad is None and n > 0, L.where(f), bad[1] if bad else "no path returns", bad[0].st.path() if bad else ())
    f = m.find_method(base, "__init__")
    it = Interp(m, Hid(), max_inline=1)
    ex = it.run(f, cls=base, args={"field_name": NAME})
    ctx.analysed(it, f, ex)
    bad, n = None, 0
    for e in ex:
        if e.kind == "raise":
            continue
        n += 1
        d = dict(x for x in e.st.ts if len(x) == 2)
        desc, name = d.get("hidden_method_descriptor"), d.get("hidden_method_name")
        if desc is None or name is None:
            bad = bad or (e, "has no hidden method")
            continue
        if desc[0] != "new" or not desc[2].endswith("HiddenMethodDescriptor"):
            bad = bad or (e, "the hidden method is %s" % show(desc))
            continue
        a = tuple(desc[3])
        if not a or not (a[0][0] == "bound" and a[0][1].split("#")[0].endswith(".get") or a[0][0] == "attr" and a[0][2] == "get"):
            bad = bad or (e, "the hidden method calls %s, must call the property's getter" % (show(a[0]) if a else "nothing"))
        if name not in a + tuple(v for k, v in desc[4]):
            bad = bad or (e, "the hidden method is not named after the property")
        if name != const("__prop__"):
            bad = bad or (e, "the hidden name is %s" % show(name))
    ctx.ob("hidden", "__init__", bad is None and n > 0, L.where(f), bad[1] if bad else "no path returns", bad[0].st.path() if bad else ())
