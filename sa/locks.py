"""Ghost accounting for the semaphore family: value, waiter queue and hand-off protocol.

One analysis serves C01 (conservation), C02 (order, no lost wake-up) and C03 (priority): every path of
acquire/release (helpers inlined) is interpreted with the ghost quantities

    V        change of the free-permit counter (`_Semaphore__value`)
    granted  permits attached to a waiter's future by set_result
    used     1 when this task consumed the permit attached to its own future
    scans    walks over the waiter queue: order, which waiters were skipped, whether it was exhausted

A permit is conserved on a path iff  V + granted - used + held_after - held_before == 0.
"""
from .lib import *
from .absint import trim

VALUE, WAITERS = "_Semaphore__value", "_Semaphore__waiters"


def tsget(st, k, d=None):
    for a, b in st.ts:
        if a == k:
            return b
    return d


def tsput(st, **kw):
    d = dict(st.ts)
    d.update(kw)
    return st.but(ts=tuple(sorted(d.items(), key=lambda x: x[0])))


def err(st, ev, rule, msg):
    e = tsget(st, "errs", ())
    x = (rule, msg)
    if x in e:
        return st
    loc = "%s:%s" % (ev.func.module.rel, getattr(ev.node, "lineno", "?")) if ev is not None and ev.node is not None else ""
    return tsput(st, errs=e + (x,), where=loc or tsget(st, "where", "")).note("!! %s %s" % (loc, msg))


def linear(v):
    """value -> (base term, integer offset)"""
    if v[0] == "binop" and v[1] in ("Add", "Sub"):
        if is_const(v[3]) and isinstance(cval(v[3]), int):
            b, k = linear(v[2])
            return b, k + (cval(v[3]) if v[1] == "Add" else -cval(v[3]))
        if v[1] == "Add" and is_const(v[2]) and isinstance(cval(v[2]), int):
            b, k = linear(v[3])
            return b, k + cval(v[2])
    if is_const(v) and isinstance(cval(v), int):
        return None, cval(v)
    return v, 0


def nosite(v):
    """Structural identity without allocation/call sites."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] in ("call", "coro", "gen", "new", "elem") and len(v) >= 3:
        if v[0] == "elem":
            return ("elem", nosite(v[1]))
        return (v[0],) + tuple(nosite(x) for x in v[2:])
    return tuple(nosite(x) for x in v)


def is_waiters(v):
    """the attribute holding a queue of waiters -> owner, else None"""
    while v[0] == "call" and v[2][0] in ("ext",) and v[2][1] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(v[3]) == 1:
        v = v[3][0]
    if v[0] == "call" and v[2][0] == "attr" and v[2][2] == "copy":
        v = v[2][1]
    if v[0] == "attr" and v[2] == WAITERS:
        return v[1]
    return None


class Sem(Client):
    """see module docstring; `prio`: waiters live in managers kept in a heap on the parent"""
    branches = True

    def __init__(self, prio=False, debug=None, exc=("cancel", "close"), noinline=()):
        self.prio, self.debug, self.exc = prio, debug, exc
        self.noinline = set(noinline)

    def inline(self, f):
        return default_inline(f) and f.name not in self.noinline

    def between(self, st):
        return tsput(st, avail=0, exhausted=False, cur=None, scanning=False, popped=False)

    # ---- helpers
    def scan_done(self, st, ev):
        """a scanned waiter was left behind: allowed only when verified done/cancelled or granted"""
        if tsget(st, "cur") is not None and not tsget(st, "verified") and not tsget(st, "cur_granted"):
            st = err(st, ev, "scan", "a waiter not known to be finished is passed over")
        return st

    def event(self, st, ev):
        k = ev.kind
        if k == "assign" and ev.value == tsget(st, "cur") and tsget(st, "cur") is not None:
            return st.fact(("is", ev.value, NONE), False).fact(("truthy", ev.value), True)     # a waiter is a future, never None
        if k == "store" and ev.name == VALUE:
            base = ev.base
            cur = st.heap.get(("attr", base, VALUE), ("attr", base, VALUE))
            b1, k1 = linear(ev.value)
            b0, k0 = linear(cur)
            owners = tsget(st, "owners", ())
            if nosite(base) not in owners:
                owners += (nosite(base),)
                st = tsput(st, owners=owners)
            if b1 is None or b1 != b0:
                return err(st, ev, "step", "the permit counter is overwritten instead of stepped")
            d = k1 - k0
            if d == 0:
                return st
            avail = tsget(st, "avail", 0)
            if d < 0:
                if avail < -d and not (avail + (1 if positive(st, cur) is True or (avail == 0 and k0 == 0 and positive(st, b0) is True) else 0)) >= -d:
                    st = err(st, ev, "guard", "a permit is taken without knowing one is free")
                st = tsput(st, V=max(-4, tsget(st, "V", 0) + d), avail=max(0, avail + d), exhausted_at_take=tsget(st, "exhausted", False),
                           pred_at_take=tsget(st, "pred"))
            else:
                st = tsput(st, V=min(4, tsget(st, "V", 0) + d), avail=min(3, avail + d), exhausted=False, inc_unscanned=True)
            return st.note("%s permit counter %+d" % (ev.loc, d))
        if k == "store" and ev.name == WAITERS:
            v = ev.value
            fresh = v[0] in ("call", "list", "new") and (v[0] == "list" and not v[1] or is_call_to(v, "collections.deque") and not v[3])
            if not fresh or positive(st, ev.base) is not None:
                return err(st, ev, "queue", "the waiter queue is replaced")
            cur = st.heap.get(("attr", ev.base, WAITERS), ("attr", ev.base, WAITERS))
            if st.facts.get(("is", cur, NONE)) is not True and st.facts.get(("truthy", cur)) is not False:
                return err(st, ev, "queue", "the waiter queue is replaced")
            return None
        if k == "call":
            a, b = callee_attr(ev), callee_base(ev)
            if a in ("append", "appendleft", "insert", "extend", "add", "appendright") and b is not None and is_waiters(b) is not None and b[0] == "attr":
                if a != "append" or len(ev.args) != 1:
                    return err(st, ev, "fifo", "a waiter is not queued at the tail (%s)" % a)
                if tsget(st, "fut") is not None:
                    st = err(st, ev, "queue", "a second waiter is queued by one acquire")
                return tsput(st, fut=ev.args[0], fstate="pending", inq=True, qowner=nosite(is_waiters(b))).note("%s waiter queued" % ev.loc)
            if a in ("remove", "discard") and b is not None and is_waiters(b) is not None and b[0] == "attr":
                if len(ev.args) == 1 and ev.args[0] == tsget(st, "fut"):
                    if not tsget(st, "inq"):
                        st = err(st, ev, "queue", "the waiter is removed twice")
                    return tsput(st, inq=False).note("%s own waiter removed" % ev.loc)
                return None
            if a in ("clear", "rotate", "reverse", "sort") and b is not None and is_waiters(b) is not None and b[0] == "attr":
                return err(st, ev, "queue", "the waiter queue is %sed" % a)
            if a in ("popleft", "pop") and b is not None and is_waiters(b) is not None and b[0] == "attr":
                st = self.scan_done(st, ev)
                if a == "pop" and not (len(ev.args) == 1 and ev.args[0] == const(0)):
                    st = err(st, ev, "fifo", "the newest waiter is taken first")
                elem = trim(("call", ev.interp.site(ev.node), ev.callee, tuple(ev.args), tuple(ev.kw)))
                return tsput(st, cur=elem, verified=False, cur_granted=False, pending=False, exhausted=False, popped=True)
            if a == "set_result" and b is not None:
                if b == tsget(st, "fut"):
                    return None
                return self.grant(st, ev, b)
            return None
        if k == "iter":
            it = ev.value
            if it[0] == "call" and it[2] in (("ext", "builtins.reversed"), ("ext", "builtins.sorted")) and it[3] and is_waiters(it[3][0]) is not None:
                return err(st, ev, "fifo", "waiters are not walked in arrival order")
            if is_waiters(it) is not None and not (self.prio and nosite(is_waiters(it)) in self.heap_owners(st)):
                return tsput(st, scanning=True, cur=None, verified=False, cur_granted=False, pending=False, popped=False, pred="done")
            return None
        if k == "next" and is_waiters(ev.value) is not None:
            if tsget(st, "scanning"):
                st = self.scan_done(st, ev)
                return tsput(st, cur=ev.elem, verified=False, cur_granted=False, pending=False)
            return None
        if k == "iter_end" and is_waiters(ev.value) is not None:
            # the last element handed out by "next" is the one this exit follows
            if tsget(st, "scanning"):
                return tsput(st, cur=None, verified=False, scanning=False, exhausted=True, inc_unscanned=False)
            return None
        if k == "branch":
            v, taken = ev.value, ev.taken
            if v[0] == "call" and v[2][0] == "attr" and v[2][2] in ("done", "cancelled") and v[2][1] == tsget(st, "cur"):
                if taken:
                    st = tsput(st, verified=True)
                    if v[2][2] == "cancelled":
                        st = tsput(st, pred="cancelled")
                    return st
                return tsput(st, pending=True) if v[2][2] == "done" else None
            own = is_waiters(v)
            if own is not None and v[0] == "attr" and taken is False:
                if tsget(st, "popped"):
                    st = self.scan_done(st, ev)
                return tsput(st, exhausted=True, inc_unscanned=False, cur=None, popped=False, pred=tsget(st, "pred") or "done")
            if v[0] == "cmp" or (v[0] == "call" and is_call_to(v, "builtins.len")):
                x = v
                if v[0] == "cmp":
                    _, op, l, r = v
                    x = l if is_const(r) else r
                    c = r if is_const(r) else l
                    if not is_const(c):
                        return None
                    zero = (cval(c) == 0 and ((op in ("Eq", "LtE") and taken) or (op in ("NotEq", "Gt") and not taken) or (op == "Lt" and not taken and x is r))) \
                        or (cval(c) == 1 and ((op == "Lt" and taken) or (op == "GtE" and not taken)))
                else:
                    zero = not taken
                if is_call_to(x, "builtins.len") and x[3] and is_waiters(x[3][0]) is not None and zero:
                    return tsput(st, exhausted=True, inc_unscanned=False, cur=None, pred="done")
            return None
        if k == "await":
            if ev.value == tsget(st, "fut"):
                return tsput(st, waited=True)
            return None
        if k == "resumed":
            st = tsput(st, avail=0, exhausted=False, cur=None, scanning=False, popped=False)
            if ev.value == tsget(st, "fut"):
                return tsput(st, fstate="handed", used=tsget(st, "used", 0) + 1).note("%s woken: permit handed over" % ev.loc)
            return st
        return None

    def heap_owners(self, st):
        return ()

    def grant(self, st, ev, fut):
        if fut != tsget(st, "cur"):
            st = err(st, ev, "fifo", "a future is completed that was not found by walking the waiters")
        st = self.before_grant(st, ev, fut)
        if not tsget(st, "pending"):
            st = err(st, ev, "scan", "a waiter is completed without knowing it is still pending")
        return tsput(st, granted=min(3, tsget(st, "granted", 0) + 1), cur_granted=True, inc_unscanned=False, exhausted=True).note("%s permit handed to waiter" % ev.loc)

    def before_grant(self, st, ev, fut):
        return st

    # ---- the waiting task may be resumed with an exception
    def raises(self, st, ev):
        if ev.kind == "await" and ev.value == tsget(st, "fut"):
            out = []
            base = tsput(st, avail=0, exhausted=False, cur=None, scanning=False, popped=False)
            if "cancel" in self.exc:
                out.append((tsput(base, fstate="cancelled", kill="cancelled while waiting").note("cancelled while waiting"), ("exc", "CancelledError", ev.loc)))
                out.append((tsput(base, fstate="handed", used=tsget(st, "used", 0) + 1, kill="cancelled after the permit was handed over").note(
                    "cancelled after the permit was handed over"), ("exc", "CancelledError", ev.loc)))
            if "close" in self.exc:
                out.append((tsput(base, fstate="pending", kill="closed while waiting").note("closed while waiting"), ("exc", "GeneratorExit", ev.loc)))
            return out
        if ev.kind == "await" and "cancel" in self.exc and ev.value[0] != "coro":
            # any other suspension may be where the task is cancelled
            return [(tsput(st, kill="cancelled at %s" % ev.loc).note("cancelled at %s" % ev.loc), ("exc", "CancelledError", ev.loc))]
        return ()

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        a, b = callee_attr(ev), callee_base(ev)
        if b is not None and b == tsget(st, "fut"):
            f = tsget(st, "fstate")
            if a == "cancelled":
                return [(st, const(f == "cancelled"))]
            if a == "done":
                return [(st, const(f in ("handed", "cancelled")))]
            if a == "cancel":
                if f == "pending":
                    return [(tsput(st, fstate="cancelled"), TRUE)]
                return [(st, FALSE)]
            if a == "exception":
                return [(st, NONE)]
        return None


def fresh_ts(**kw):
    d = dict(kw)
    return tuple(sorted(d.items()))


def balance(st):
    return tsget(st, "V", 0) + tsget(st, "granted", 0) - tsget(st, "used", 0)


def run_api(ctx, cls, name, client, awaited, args=()):
    """Call method `name` of `cls` and, when it hands back a coroutine, await it. -> (sync exits, final exits)"""
    f = ctx.model.find_method(cls, name)
    if f is None:
        raise AnalysisError("%s has no method %s" % (cls.id, name))
    it = Interp(ctx.model, client)
    a = {}
    ex = it.run(f, cls=cls, ts=())
    out = []
    sync = ex if not f.is_async else []
    if f.is_async:
        out = ex
    else:
        for x in ex:
            if x.kind == "return" and awaited and x.value[0] in ("coro", "call"):
                it.stack = [f]
                R = []
                # the coroutine may start later: whatever the synchronous part saw can have changed
                res = it.do_await(client.between(it.suspend(x.st)), x.value, f.node, R)
                out += [Exit("return", v, s) for s, v in res] + [Exit("raise", e, s) for s, e in R]
            else:
                out.append(x)
    ctx.analysed(it, f, out)
    return f, sync, out


def where(f):
    return "%s:%d" % (f.module.rel, f.node.lineno)


def judge(ctx, rules, cls, what, f, exits, held_before, held_after, prio=False):
    """Turn the exits of one API operation into obligations. rules: names for conserve/wake/fifo/queue/errors."""
    con = "%s.%s" % (cls.name, what)
    probs = {}

    def bad(rule, msg, x):
        probs.setdefault(rule, (msg, x))
    for x in exits:
        st = x.st
        for r, m in tsget(st, "errs", ()):
            bad(r, m, x)
        held = held_after if x.kind == "return" else (0 if held_before == 0 else held_before - 1)
        b = balance(st) + held - held_before
        kill = tsget(st, "kill")
        how = "returns" if x.kind == "return" else "ends with %s%s" % (show(x.value), (" (%s)" % kill) if kill else "")
        if b != 0:
            bad("conserve", "%s: permits are %s (free %+d, handed on %+d, own grant used %d, held afterwards %d)" % (
                how, "created" if b > 0 else "lost", tsget(st, "V", 0), tsget(st, "granted", 0), tsget(st, "used", 0), held), x)
        if tsget(st, "inc_unscanned"):
            bad("wake", "%s: a permit was freed but the waiters are not looked at afterwards" % how, x)
        if tsget(st, "popped") and tsget(st, "cur") is not None and not tsget(st, "verified") and not tsget(st, "cur_granted"):
            bad("scan", "%s: a waiter was taken out of the queue without being woken" % how, x)
        if held_before == 0:
            if x.kind == "return" and not tsget(st, "used") and tsget(st, "V", 0) < 0:
                if not tsget(st, "exhausted_at_take"):
                    bad("barge", "%s: a permit is taken without checking that nobody is waiting" % how, x)
            if tsget(st, "fut") is not None and not prio:
                if tsget(st, "inq"):
                    bad("queue", "%s: the waiter stays in the queue" % how, x)
            if tsget(st, "fut") is not None and tsget(st, "inq") and tsget(st, "fstate") == "pending":
                bad("queue", "%s: a live waiter nobody awaits stays in the queue" % how, x)
            if x.kind == "return" and tsget(st, "used") and not prio and not tsget(st, "granted"):
                # permits may have been freed while waiters were not eligible (granted ones still queued)
                v = ("attr", None, VALUE)
                zero = any(k[0] in ("eq", "lt", "truthy") and mentions(k, VALUE) and positive_fact(k, b) is False for k, b in st.facts.items())
                if not zero and not tsget(st, "exhausted") and ctx.__dict__.get("granted_blocks", True):
                    bad("wake", "%s after a hand-over: permits freed meanwhile are not offered to the waiters behind" % how, x)
    return probs


def mentions(t, name):
    return isinstance(t, tuple) and any((isinstance(x, tuple) and len(x) == 3 and x[0] == "attr" and x[2] == name) for x in subterms(t))


def positive_fact(k, b):
    """fact (k -> b): does it say the mentioned counter is zero (False) or positive (True)?"""
    zero = const(0)
    if k[0] == "truthy":
        return b
    if k[0] == "eq" and k[2] == zero:
        return not b
    if k[0] == "lt" and k[1] == zero:
        return b
    if k[0] == "lt" and k[2] == const(1):
        return not b
    return None


def mods(model, name):
    m = model.modules.get(name)
    if m is None:
        raise AnalysisError("module %s vanished" % name)
    return m


def klass(model, mod, name):
    c = mods(model, mod).classes.get(name)
    if c is None:
        raise AnalysisError("class %s.%s vanished" % (mod, name))
    return c


SEM = "a_sync.primitives.locks.semaphore"
MUT = {"append", "pop", "remove", "insert", "clear", "sort", "reverse", "extend", "popleft", "appendleft"}
PRIO = "a_sync.primitives.locks.prio_semaphore"


class Prio(Sem):
    """The priority semaphore: managers (one queue per priority) in a heap on the parent."""

    def __init__(self, **kw):
        super().__init__(prio=True, **kw)

    def is_heap(self, v):
        """attribute holding the heap of managers -> True"""
        if v[0] == "attr" and v[2] == WAITERS:
            return self.is_parent(v[1])
        return False

    def is_parent(self, v):
        return v == ("self", self.parent_id) or (v[0] == "attr" and v[2] == "_parent")

    parent_id = None

    def settle(self, st, ev):
        """leaving a manager popped from the heap: re-queued if it may still have waiters, else deregistered"""
        m = tsget(st, "mgr")
        if m is None:
            return st
        pushed, dropped = tsget(st, "mgr_pushed"), tsget(st, "mgr_dropped")
        empty = tsget(st, "mgr_empty")
        if pushed and dropped:
            st = err(st, ev, "heap", "a manager is put back into the heap and deregistered")
        elif not pushed and not dropped:
            st = err(st, ev, "heap", "a manager taken from the heap is neither put back nor deregistered: its later waiters are never found")
        elif dropped and not empty:
            st = err(st, ev, "heap", "a manager that may still have waiters is deregistered")
        return tsput(st, mgr=None)

    def event(self, st, ev):
        k = ev.kind
        if k == "call":
            fv, args = ev.callee, ev.args
            name = fv[1] if fv[0] == "ext" else None
            a, b = callee_attr(ev), callee_base(ev)
            if name in ("heapq.heappop",) and args and self.is_heap(args[0]):
                st = self.settle(st, ev)
                m = trim(("call", ev.interp.site(ev.node), fv, tuple(args), tuple(ev.kw)))
                return tsput(st, mgr=m, mgr_pushed=False, mgr_dropped=False, mgr_empty=False, cur=None, popped=False, exhausted=False)
            if b is not None and self.is_heap(b) and a in ("pop", "popleft", "remove", "append", "insert", "sort", "clear", "reverse"):
                return err(st, ev, "heap", "the heap of managers is changed without keeping its order (%s)" % a)
            if name == "heapq.heappush" and args and self.is_heap(args[0]):
                if len(args) > 1 and args[1] == tsget(st, "mgr"):
                    return tsput(st, mgr_pushed=True)
                return tsput(st, new_pushed=(tsget(st, "new_pushed", ()) + (args[1] if len(args) > 1 else None,))[:2])
            if name in ("heapq.heapreplace", "heapq.heappushpop") and args and self.is_heap(args[0]):
                return err(st, ev, "heap", "heap operation %s not understood" % name)
            if a in ("pop", "__delitem__") and b is not None and b[0] == "attr" and b[2] == "_context_managers" and args:
                if args[0] == ("attr", tsget(st, "mgr"), "_priority"):
                    return tsput(st, mgr_dropped=True)
                return err(st, ev, "heap", "a manager other than the one taken from the heap is deregistered")
            lost = b is not None and b[0] == "attr" and b[2] == "_potential_lost_waiters"
            if lost and a == "append" and args and args[0] == tsget(st, "fut"):
                return tsput(st, tracked=tsget(st, "tracked", ()) + ("_potential_lost_waiters",))
            if lost and a == "remove":
                st = tsput(st, needs=tuple(sorted(set(tsget(st, "needs", ()) + ("_potential_lost_waiters",)))))
                return st
            if lost and a in ("pop", "popleft"):
                st = self.settle(st, ev)
                elem = trim(("call", ev.interp.site(ev.node), ev.callee, tuple(ev.args), tuple(ev.kw)))
                if a == "pop" and not (len(args) == 1 and args[0] == const(0)):
                    st = err(st, ev, "fifo", "the newest forgotten waiter is taken first")
                return tsput(st, cur=elem, verified=False, cur_granted=False, pending=False, exhausted=False, popped=True)
            if a in ("append",) and b is not None and is_waiters(b) is not None and b[0] == "attr" and not self.is_heap(b):
                own = is_waiters(b)
                st = tsput(st, reg=registered(st, own))
        if k == "delitem" and ev.base[0] == "attr" and ev.base[2] == "_context_managers":
            if ev.index == ("attr", tsget(st, "mgr"), "_priority"):
                return tsput(st, mgr_dropped=True)
            return err(st, ev, "heap", "a manager other than the one taken from the heap is deregistered")
        if k == "setitem" and ev.base[0] == "attr" and ev.base[2] == "_context_managers":
            return tsput(st, new_reg=(tsget(st, "new_reg", ()) + ((ev.index, ev.value),))[:2])
        if k == "branch":
            v, taken = ev.value, ev.taken
            m = tsget(st, "mgr")
            if m is not None:
                z = emptiness(v, taken)
                if z is not None and z[0] == ("attr", m, WAITERS):
                    if z[1]:
                        if tsget(st, "popped"):
                            st = self.scan_done(st, ev)
                        return tsput(st, mgr_empty=True, popped=False, cur=None)
                    return tsput(st, mgr_empty=False)
            z = emptiness(v, taken)
            if z is not None and z[1] and (self.is_heap(z[0]) or (z[0][0] == "attr" and z[0][2] == "_potential_lost_waiters")):
                st = self.settle(st, ev)
                if tsget(st, "popped"):
                    st = self.scan_done(st, ev)
                return tsput(st, exhausted=True, inc_unscanned=False, cur=None, popped=False, heap_empty=True)
            if z is not None and z[1] and z[0][0] == "attr" and z[0][2] == "_context_managers":
                return tsput(st, exhausted=True, pred="done")
            if z is not None and z[0][0] == "attr" and z[0][2] == WAITERS and z[1] and tsget(st, "walk") is not None:
                return tsput(st, walk_ok=True)
        if k == "iter" and cms_values(ev.value):
            return tsput(st, walk="start", walk_ok=True)
        if k == "next" and cms_values(ev.value):
            if tsget(st, "walk") is not None and not tsget(st, "walk_ok"):
                st = err(st, ev, "scan", "a priority with live waiters is passed over")
            return tsput(st, walk=ev.elem, walk_ok=False)
        if k == "iter_end" and cms_values(ev.value):
            return tsput(st, walk=None, exhausted=True, inc_unscanned=False, scanning=False)
        if k == "iter_end" and is_waiters(ev.value) is not None and tsget(st, "walk") is not None and tsget(st, "scanning"):
            st = super().event(st, ev) or st
            return tsput(st, walk_ok=True, exhausted=False)
        return super().event(st, ev)

    def heap_owners(self, st):
        return (nosite(("self", self.parent_id)),)


def cms_values(v):
    while v[0] == "call" and v[2][0] == "ext" and v[2][1] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(v[3]) == 1:
        v = v[3][0]
    if v[0] == "call" and v[2][0] == "attr" and v[2][2] == "values" and v[2][1][0] == "attr" and v[2][1][2] == "_context_managers":
        return True
    return v[0] == "attr" and v[2] == WAITERS and v[1][0] == "attr" and v[1][2] == "_parent"


def emptiness(v, taken):
    """branch on the emptiness of a container -> (container, is_empty) or None"""
    if v[0] == "attr":
        return v, not taken
    if is_call_to(v, "builtins.len") and v[3]:
        return v[3][0], not taken
    if v[0] == "cmp":
        _, op, l, r = v
        flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
        if is_const(l) and not is_const(r):
            l, r, op = r, l, flip.get(op, op)
        if is_const(r) and is_call_to(l, "builtins.len") and l[3]:
            c = cval(r)
            if c == 0:
                t = {"Eq": True, "LtE": True, "NotEq": False, "Gt": False}.get(op)
            elif c == 1:
                t = {"Lt": True, "GtE": False}.get(op)
            else:
                t = None
            if t is not None:
                return l[3][0], taken == t
    return None


def registered(st, mgr):
    """is `mgr` known to be the manager registered with the parent right now?"""
    if mgr[0] == "call" and callee_attr(mgr) in ("c_getitem", "__getitem__"):
        return True
    if mgr[0] == "item" and mgr[1][0] == "attr" and mgr[1][2] == "_context_managers":
        return True
    for (a, *r), b in st.facts.items():
        if a == "in" and b is True and r[1][0] == "attr" and r[1][2] == "_context_managers":
            return True
    return False


def opname(fv):
    """last part of the name of a function value that may reach us through a default argument"""
    return fv[-1].split(".")[-1] if fv[0] in ("ext", "param", "default") else None


def callname(fv):
    """dotted-ish name of a function value"""
    if fv[0] in ("func", "bound", "class"):
        return fv[1].split(":")[-1].split("#")[0]
    if fv[0] in ("ext", "param", "fn"):
        return str(fv[1]).split("#")[0]
    if fv[0] == "attr":
        return fv[2]
    return ""
