"""The event flag and its waiters: set, clear and wait are interpreted with every small list of waiters (pending, woken, cancelled) and, while a
wait is suspended, with every short sequence of what may happen meanwhile (the real set and clear, other waiters coming and going, cancellation,
closing); the flag, the outcome of each waiter's future and what is left in the list are compared with those of an event."""
import itertools

from ..lib import *
from .. import locks as L
from . import c20

MOD = "a_sync.primitives.locks.event"
ASSUMPTIONS = ["asyncio futures and task cancellation behave as documented",
               "no code outside the package touches the private waiter list"]
FLAG, WAIT = "_value", "_waiters"
LIST = ("kl", "waiters")
LOOP = ("tok", "loop")
CANCEL, CLOSE = ("exc", "CancelledError", "of the waiting task"), ("exc", "GeneratorExit", "of the waiting coroutine")
STATES = ("pending", "done", "cancelled")


def fut(i):
    return ("tok", "fut", i)


class Evt(Client):
    """futures: ("env", "fut", i) -> (state, times completed)"""
    kd = True
    distinct = True
    model_raises = True
    recursion = 6

    def __init__(self, m, cls, debug, script=()):
        self.m, self.cls, self.debug, self.script = m, cls, debug, script
        self.me = ("self", cls.id)

    def inline(self, f):
        return default_inline(f) and "debug_daemon" not in f.name and f.name not in ("_c_get_loop", "_get_loop", "get_event_loop", "_get_running_loop")

    def truthy(self, v):
        return True if v[1] in ("fut", "loop") else None

    def start(self, flag, states):
        h = {("attr", self.me, FLAG): const(flag), ("attr", self.me, WAIT): LIST, ("kd", "waiters", ""): ("klc", tuple(fut(i) for i in range(len(states))), "list"),
             ("env", "fut", "n"): len(states)}
        for i, s in enumerate(states):
            h[("env", "fut", i)] = (s, 0)
        return h

    def put(self, st, **kw):
        h = dict(st.heap)
        for k, v in kw.items():
            h[("env", "fut", int(k[1:]) if k[1:].isdigit() else k)] = v
        return st.but(heap=h)

    def state(self, st, i):
        return st.heap[("env", "fut", i)]

    def new(self, st):
        n = st.heap[("env", "fut", "n")]
        return self.put(st, n=n + 1, **{"f%d" % n: ("pending", 0)}), fut(n)

    def complete(self, st, b):
        s, n = self.state(st, b[2])
        if s != "pending":
            return [(st, ("exc", "asyncio.InvalidStateError", "completed before"), "raise")]
        return [(self.put(st, **{"f%d" % b[2]: ("done", n + 1)}).note("waiter %d completed" % b[2]), NONE)]

    def model(self, st, ev):
        if ev.kind == "awaitval":
            if ev.value[:2] == ("tok", "fut"):
                return self.suspended(st, ev.value)
            return None
        if ev.kind == "load" or ev.kind != "call":
            return None
        n, b, a = c20.simple(ev.callee), callee_base(ev), ev.args
        if "debug_daemon" in (n or ""):
            return [(st, ("tok", "daemon"))]
        if n in ("_c_get_loop", "_get_loop", "get_event_loop", "get_running_loop", "_get_running_loop"):
            return [(st, LOOP)]
        if n == "create_future" or n == "Future" and ev.callee[0] == "ext":
            s, f = self.new(st)
            return [(s, f)]
        if b is not None and b[:2] == ("tok", "fut"):
            s = self.state(st, b[2])[0]
            if n == "done":
                return [(st, const(s != "pending"))]
            if n == "cancelled":
                return [(st, const(s == "cancelled"))]
            if n == "set_result":
                return self.complete(st, b)
            if n == "cancel":
                return [(self.put(st, **{"f%d" % b[2]: ("cancelled", 0)}) if s == "pending" else st, const(s == "pending"))]
            if n == "set_exception":
                return [(self.put(st, **{"f%d" % b[2]: ("failed", 0)}), NONE)]
        return None

    def call(self, st, name):
        """the event's own operation, run by another task"""
        f = self.m.find_method(self.cls, name)
        out = []
        for e in self.it.call_value(st.but(env={}), ("bound", self.it.fid(f), self.me), (), (), func=self.it.func):
            if e.kind == "return":
                out.append(e.st.but(env=st.env))
            else:
                out.append(self.put(e.st.but(env=st.env), broken=show(e.value)))
        return out

    def other(self, st, what):
        """another waiter joins or leaves"""
        xs = self.it.kl_get(st, LIST)
        if xs is None:
            raise AnalysisError("%s: the waiters of the event are not known" % self.it.func.id)
        elems = xs[1]
        h = dict(st.heap)
        if what == "joins":
            s, f = self.new(st)
            h = dict(s.heap)
            h[("kd", "waiters", "")] = ("klc", elems + (f,), "list")
        elif what == "leaves":
            go = [x for x in elems if x[2] < st.heap[("env", "fut", "others")]] if ("env", "fut", "others") in st.heap else []
            if not go:
                return []
            h[("kd", "waiters", "")] = ("klc", tuple(x for x in elems if x != go[0]), "list")
        return [st.but(heap=h)]

    def play(self, st, actions, f=None):
        states = [st]
        for x in actions:
            nxt = []
            for s in states:
                if x in ("set", "clear"):
                    nxt += self.call(s, x)
                elif x in ("joins", "leaves"):
                    nxt += self.other(s, x)
            states = nxt
        return states

    def suspended(self, st, f):
        """the waiting task goes on after the script, once its future is done or it is cancelled"""
        if self.state(st, f[2])[0] == "done":
            return [(st, TRUE)]
        if st.heap.get(("env", "fut", "waited")):
            return []       # waits once more
        h = self.put(st, waited=True, own=f[2])
        out = []
        end = self.script[-1] if self.script else None
        for s in self.play(h, [x for x in self.script if x not in ("cancel", "close")]):
            s = s.note("meanwhile: %s" % ", ".join(self.script))
            if end == "cancel":
                if self.state(s, f[2])[0] == "pending":
                    s = self.put(s, **{"f%d" % f[2]: ("cancelled", 0)})
                out.append((s, CANCEL, "raise"))
            elif end == "close":
                out.append((s, CLOSE, "raise"))
            elif self.state(s, f[2])[0] == "done":
                out.append((s, TRUE))
            elif self.state(s, f[2])[0] in ("cancelled", "failed"):
                out.append((s, CANCEL, "raise"))
        return out


def drive(ctx, cl, op, flag, states):
    f = cl.m.find_method(cl.cls, op)
    it = Interp(cl.m, cl, keep_heap_on_await=True, max_inline=8)
    cl.it = it
    ex = it.run(f, cls=cl.cls, heap=cl.start(flag, states))
    ctx.analysed(it, f, ex)
    return f, ex


def waiters(cl, st):
    v = st.heap.get(("attr", cl.me, WAIT))
    xs = cl.it.kd_literal(st, v) if v is not None else None
    if xs is None:
        raise AnalysisError("the waiters of the event are not known: %s" % show(v))
    return list(xs)


def flag(cl, st):
    return st.heap.get(("attr", cl.me, FLAG))


SCRIPTS = [(), ("set",), ("set", "clear"), ("set", "clear", "set"), ("clear",), ("clear", "set"), ("joins", "set"), ("leaves", "set"), ("leaves", "joins", "set"), ("cancel",), ("close",),
           ("set", "cancel"), ("set", "clear", "cancel"), ("joins", "cancel"), ("leaves", "cancel"), ("leaves", "close"), ("joins", "close")]


def check(ctx):
    m = ctx.model
    ctx.rule("set", "set() raises the flag and completes every pending waiter exactly once", 20)
    ctx.rule("wait", "wait() on a set event never blocks; on an unset event it goes on exactly when set() is called", 20)
    ctx.rule("list", "a wait leaves nothing in the list on any exit and disturbs no other waiter; one never awaited registers nothing", 20)
    ctx.rule("clear", "clear() lowers the flag and disturbs no waiter", 4)
    ctx.rule("flag", "the flag starts false, only set/clear write it, and is_set reports it", 2)
    c = L.klass(m, MOD, "CythonEvent")
    top = 4 if ctx.tier == "thorough" else 3
    scripts = SCRIPTS
    if ctx.tier == "thorough":
        acts = ("set", "clear", "joins", "leaves")
        scripts = [a + e for n in range(4) for a in itertools.product(acts, repeat=n) for e in ((), ("cancel",), ("close",))]
    for debug in (False, True):
        d = ", debug logging" if debug else ""
        for n in range(top + 1):
            for states in itertools.product(STATES, repeat=n):
                for on in (False, True):
                    if on and "pending" in states:
                        continue        # nobody waits while the event is set
                    for op in ("set", "c_set", "clear", "c_clear"):
                        if m.find_method(c, op) is None:
                            continue
                        cl = Evt(m, c, debug)
                        f, ex = drive(ctx, cl, op, on, states)
                        bad = judge_set(cl, ex, on, states) if "set" in op else judge_clear(cl, ex, states)
                        ctx.ob("set" if "set" in op else "clear", "CythonEvent.%s: %s, waiters %s%s" % (op.replace("c_", ""), "set" if on else "unset", ", ".join(states) or "none", d), bad is None, L.where(f),
                               bad[0] if bad else "", bad[1].st.path() if bad and bad[1] else ())
        f = m.find_method(c, "wait")
        for on in (False, True):
            for before in ((), ("set",), ("clear",)):
                for states in ((), ("pending",), ("done", "pending"), ("cancelled",)):
                    if on and "pending" in states:
                        continue
                    for script in scripts:
                        cl = Evt(m, c, debug, script)
                        f, ex = drive(ctx, cl, "wait", on, states)
                        bad = judge_wait(cl, f, ex, on, before, states, script)
                        where = "%s, then %s; waiters %s; meanwhile %s%s" % ("set" if on else "unset", before or "nothing", ", ".join(states) or "none", ", ".join(script) or "nothing", d)
                        ctx.ob("wait", "CythonEvent.wait: " + where, bad is None or bad[2] != "wait", L.where(f), bad[0] if bad else "", bad[1].st.path() if bad and bad[1] else ())
                        ctx.ob("list", "CythonEvent.wait: " + where, bad is None or bad[2] != "list", L.where(f), bad[0] if bad else "", bad[1].st.path() if bad and bad[1] else ())
    # a new event
    f = m.find_method(c, "__init__")
    # who writes the flag / list
    for g in m.all_funcs():
        if g.module.name != MOD or g.is_lambda:
            continue
        for n in own_nodes(g.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute) and t.attr == FLAG:
                        v = n.value.value if isinstance(n.value, ast.Constant) else None
                        reach = reached_from(m, c, g)
                        ok = reach <= {"set", "c_set", "clear", "c_clear"} or (v is False and reach <= {"clear", "c_clear", "__init__", "__cinit__"})
                        ctx.ob("flag", "%s writes the flag" % g.qual, ok, "%s:%d" % (g.module.rel, n.lineno), "flag = %s in code reached from %s" % (ast.unparse(n.value) if n.value else "?", sorted(reach)))
    for on in (False, True):
        cl = Evt(m, c, False)
        f, ex = drive(ctx, cl, "is_set", on, ())
        for x in ex:
            ctx.ob("flag", "CythonEvent.is_set", x.kind == "return" and x.value == const(on), L.where(f), "returns %s" % show(x.value), x.st.path())


def judge_set(cl, ex, on, states):
    if not ex:
        return "never ends", None
    for e in ex:
        if e.kind != "return":
            return "set() raises %s" % show(e.value), e
        if flag(cl, e.st) != TRUE:
            return "the flag is %s after set()" % show(flag(cl, e.st)), e
        for i, s in enumerate(states):
            want = ("done", 1) if s == "pending" else (s, 0)
            if cl.state(e.st, i) != want:
                return "a waiter which was %s is %s" % (s, "%s, completed %d times" % cl.state(e.st, i)), e
    return None


def judge_clear(cl, ex, states):
    if not ex:
        return "never ends", None
    for e in ex:
        if e.kind != "return":
            return "clear() raises %s" % show(e.value), e
        if flag(cl, e.st) != FALSE:
            return "the flag is %s after clear()" % show(flag(cl, e.st)), e
        if any(cl.state(e.st, i) != (s, 0) for i, s in enumerate(states)) or waiters(cl, e.st) != [fut(i) for i in range(len(states))]:
            return "a waiter is touched", e
    return None


def judge_wait(cl, f, ex, on, before, states, script):
    """None or (what is wrong, exit, rule)"""
    n = len(states)
    others = [fut(i) for i in range(n)]
    outs = []
    early = on          # the event was set at the call: the wait may complete at once
    for e in ex:
        if e.kind != "return":
            return "calling wait() raises %s" % show(e.value), e, "wait"
        if e.value[0] not in ("coro", "call", "tok"):
            return "wait() gives %s" % show(e.value), e, "wait"
        if not f.is_async and (waiters(cl, e.st) != others):
            return "wait() registers a waiter before it is awaited", e, "list"
        for s in cl.play(e.st, before):
            s = cl.put(s, others=n)
            now = flag(cl, s) == TRUE
            got = [x for x in cl.it.await_value(s, e.value, f)]
            outs += [(now, x) for x in got]
            end = script[-1] if script else None
            if not got and now:
                return "wait() on a set event blocks", e, "wait"
            if not got and not now and (end in ("cancel", "close")):
                if not (("leaves" in script) and not n):
                    return "a wait which is cancelled never ends", e, "wait"
            if not got and not now and "set" in script and not ("leaves" in script and not n):
                return "the wait goes on although the event was set meanwhile", e, "wait"
    for now, x in outs:
        st = x.st
        waited = st.heap.get(("env", "fut", "waited"))
        if ("env", "fut", "broken") in st.heap:
            return "set() raises %s while a task waits" % st.heap[("env", "fut", "broken")], x, "wait"
        if x.kind == "raise":
            if x.value not in (CANCEL, CLOSE) or not waited or script[-1:] not in (("cancel",), ("close",)):
                return "wait() raises %s" % show(x.value), x, "list" if "ValueError" in show(x.value) else "wait"
        else:
            if x.value != TRUE:
                return "wait() returns %s" % show(x.value), x, "wait"
            if not waited and not now and not early:
                return "a wait ends without waiting though the event is not set", x, "wait"
            if waited and "set" not in script:
                return "a wait ends though the event was not set", x, "wait"
            if script[-1:] in (("cancel",), ("close",)) and waited:
                return "the cancellation of a wait is swallowed", x, "wait"
        own = st.heap.get(("env", "fut", "own"))
        left = waiters(cl, st)
        if own is not None and fut(own) in left:
            return "the waiter stays in the list (%s %s)" % (x.kind, show(x.value)), x, "list"
        total = st.heap[("env", "fut", "n")]
        want = [fut(i) for i in range(total) if i != own]
        if waited and "leaves" in script:
            want = [w for w in want if w in left or w[2] >= n] if len([w for w in want if w not in left]) <= script.count("leaves") else want
        if [w for w in want if w not in left and ("set" not in script or cl.state(st, w[2])[0] == "pending")]:
            return "another waiter is removed from the list", x, "list"
        if any(w not in want for w in left):
            return "the list keeps %s" % show([w for w in left if w not in want][0]), x, "list"
        for i in range(total):
            if i == own or i < n and states[i] != "pending":
                continue
            s = cl.state(st, i)
            if s[0] in ("cancelled", "failed") or s[0] == "done" and "set" not in script and "set" not in before:
                return "another waiter is %s" % s[0], x, "list"
    return None


def reached_from(m, c, g):
    """public operations of the class that reach g (g itself when public)"""
    calls = {}
    for name, f in c.methods.items():
        s = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute):
                s.add(n.attr)
        calls[name] = s
    out, work, seen = set(), [g.name], set()
    roots = {"set", "clear", "wait", "is_set", "c_set", "c_clear", "c_wait", "__init__", "__cinit__", "__repr__"}
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in roots:
            out.add(n)
            continue
        work += [k for k, s in calls.items() if n in s]
    return out or {g.name}
