"""Shielding and loop plumbing.  `shield` is interpreted over an inner future and its callbacks are run through every order in which the
inner future finishes and the outer one is cancelled; the task helpers are interpreted for every option set and what reaches the loop is
compared with what the caller gave; the option rules of gather (C25) and as_completed (C26) are decided here too."""
import itertools

from ..lib import *
from .. import locks as L
from .. import modes as M
from . import c20, c25, c26
from .c28 import both

ASSUMPTIONS = ["`asyncio.ensure_future(x)` gives x, or a new task for it", "done callbacks run once, after the future is done, in the order added", "a module-level set keeps what is in it alive"]
MOD, CT = "a_sync._smart", "a_sync.asyncio.create_task"
INNER, OUTER, ARG, LOOP, OTHER = ("tok", "inner"), ("tok", "outer"), ("tok", "the awaitable"), ("tok", "loop of inner"), ("tok", "loop given")
VAL, ERR = ("tok", "the value"), ("exc", "ValueError", "of inner")
CANCELLED = ("exc", "asyncio.CancelledError", "cancelled")
STATES = {"value": VAL, "error": ERR, "cancelled": CANCELLED}


class Shield(Client):
    data = ('the value',)
    kd = True
    debug = False
    model_raises = True

    def __init__(self, m, initial="pending", smart=False):
        self.m, self.initial, self.smart = m, initial, smart

    def add(self, st, x):
        if len(st.ts) >= 24:
            return []
        return st.but(ts=st.ts + (x,)).note(" ".join(show(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else str(y) for y in x)[:100])

    def truthy(self, v):
        return None if v == VAL else True

    def glob(self, mod, name):
        return ("ext", name) if name in ("create_future", "SmartFuture") else None

    # -- futures
    def state(self, st, f):
        return st.heap.get(("env", f, "state"), self.initial if f == INNER else "pending")

    def put(self, st, f, what, v):
        h = dict(st.heap)
        h[("env", f, what)] = v
        return st.but(heap=h)

    def cbs(self, st, f):
        return st.heap.get(("env", f, "cbs"), ())

    def model_attr(self, st, base, name):
        if base in (INNER, OUTER):
            if name == "_waiters":
                return ("tok", "waiters") if self.smart else NONE
            if name in ("_loop",):
                return LOOP
            if name == "_state":
                return const({"pending": "PENDING", "cancelled": "CANCELLED"}.get(self.state(st, base), "FINISHED"))
            return ("tok", "method", name, base)
        return Client.model_attr(self, st, base, name)

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, tuple(ev.args), dict(ev.kw)
        n, b = c20.simple(fv), callee_base(ev)
        if n in ("ensure_future",) and a:
            return [(self.add(st, ("task for", a[0], kw.get("loop", NONE))), INNER)]
        if n in ("create_future", "SmartFuture", "Future"):
            return [(self.put(self.add(st, ("outer in", kw.get("loop", b if b is not None else NONE))), OUTER, "made", True), OUTER)]
        if n in ("_get_loop", "get_loop"):
            return [(st, LOOP)]
        if n == "hasattr" and len(a) == 2 and a[0] in (INNER, OUTER):
            return [(st, const(self.smart or cval(a[1]) != "_waiters"))]
        if b in (INNER, OUTER):
            s = self.state(st, b)
            if n == "done":
                return [(st, const(s != "pending"))]
            if n == "cancelled":
                return [(st, const(s == "cancelled"))]
            if n in ("exception", "result"):
                if s == "pending":
                    return [(st, ("exc", "asyncio.InvalidStateError", n), "raise")]
                if s == "cancelled" or s == "error" and n == "result":
                    return [(st, STATES[s], "raise")]
                return [(st, STATES[s] if (s == "error") == (n == "exception") else NONE)]
            if n == "cancel":
                if b == INNER:
                    st = self.add(st, ("inner cancelled",))
                if s != "pending":
                    return [(st, FALSE)]
                return [(self.put(st, b, "state", "cancelled"), TRUE)]
            if n in ("set_result", "set_exception") and a:
                if s != "pending":
                    return [(st, ("exc", "asyncio.InvalidStateError", n), "raise")]
                st = self.put(st, b, "state", "value" if n == "set_result" else "error")
                return [(self.put(st, b, "outcome", a[0]), NONE)]
            if n == "add_done_callback" and a:
                return [(self.put(st, b, "cbs", self.cbs(st, b) + (a[0],)), NONE)]
            if n == "remove_done_callback" and a:
                return [(self.put(st, b, "cbs", tuple(c for c in self.cbs(st, b) if c != a[0])), const(1))]
        return None

    def fire(self, st, f, done, func):
        """the loop runs the callbacks `done` of f -> [Exit]"""
        cur = [Exit("return", NONE, st)]
        for cb in done:
            nxt = []
            for e in cur:
                if e.kind == "raise":
                    nxt.append(e)
                else:
                    nxt += self.it.call_value(e.st, cb, (f,), func=func)
            cur = nxt
        return cur


def check(ctx):
    m = ctx.model
    sh = m.func(MOD, "shield")
    if sh is None:
        raise AnalysisError("shield vanished")
    ctx.rule("protected", "no path of shield or its callbacks cancels the inner future", 10)
    ctx.rule("outcome", "the outer future gets the inner one's outcome, also when it was already finished; once cancelled it is left alone", 10)
    ctx.rule("started", "what is shielded is started once, in the loop given", 2)
    shielded(ctx, m, sh)
    tasks(ctx, m)
    smart(ctx, m)
    c25.check(Part(ctx, {"failures": "gather_return_exceptions", "progress": "gather_progress"}))
    c26.check(Part(ctx, {"failures": "as_completed_return_exceptions", "progress": "as_completed_progress", "timeout": "as_completed_timeout"}))


ORDERS = [[("inner", r)] for r in STATES] + [[("outer",), ("inner", r)] for r in STATES] + [[("inner late", r), ("outer",), ("run",)] for r in STATES] + [[("outer",)]]


def shielded(ctx, m, sh):
    ps = sh.params()
    for smart in (False, True):
        for initial in ("pending", "value", "error", "cancelled"):
            for order in (ORDERS if initial == "pending" else [[]]):
                for lp in (NONE, OTHER):
                    cl = Shield(m, initial, smart)
                    it = Interp(m, cl, max_inline=8)
                    cl.it = it
                    ex = it.run(sh, args={ps[0]: ARG, "loop": lp})
                    ctx.analysed(it, sh, ex)
                    lab = "%sinner %s%s" % ("smart " if smart else "", initial if initial == "pending" else "already finished (%s)" % initial,
                                            "".join(", " + " ".join(o) for o in order))
                    bad = badp = None
                    for e in ex:
                        if e.kind == "raise":
                            bad = ("raises %s" % show(e.value), e)
                    if lp is OTHER and order and order[0][0] == "outer" and len(order) == 1 or lp is NONE and order == [("inner", "value")]:
                        w = [e for e in ex if [t for t in e.st.ts if t[0] == "task for"] != [("task for", ARG, lp)] or e.value == OUTER and ("outer in", LOOP) not in e.st.ts]
                        ctx.ob("started", "%sloop %s" % ("smart " if smart else "", "not given" if lp is NONE else "given"), ex and not w, L.where(sh),
                               "not started once in the right loop: %s" % (w[0].st.ts,) if w else "", w[0].st.path() if w else ())
                    if lp is OTHER:
                        continue
                    cur = [e for e in ex if e.kind == "return"]
                    fut = {id(e): e.value for e in cur}
                    runs = [(e, e.value) for e in cur]
                    for o in order:
                        nxt = []
                        for e, v in runs:
                            st = e.st
                            outs = []
                            if o[0] == "outer":
                                if v != OUTER:
                                    badp = ("gives the inner future itself while it is pending", e)
                                    continue
                                pend = cl.state(st, OUTER) == "pending"
                                st = cl.put(st, OUTER, "state", "cancelled") if pend else st
                                cbs = cl.cbs(st, OUTER)
                                outs = cl.fire(st, OUTER, cbs, sh) if not ("inner late" in (x[0] for x in order)) else [Exit("return", NONE, st)]
                            elif o[0] == "inner":
                                st = cl.put(st, INNER, "state", o[1])
                                outs = cl.fire(st, INNER, cl.cbs(st, INNER), sh)
                            elif o[0] == "inner late":
                                outs = [Exit("return", NONE, cl.put(cl.put(st, INNER, "state", o[1]), INNER, "due", cl.cbs(st, INNER)))]
                            else:
                                for e2 in cl.fire(st, INNER, st.heap[("env", INNER, "due")], sh):
                                    outs += cl.fire(e2.st, OUTER, cl.cbs(e2.st, OUTER), sh) if e2.kind == "return" else [e2]
                            for e2 in outs:
                                if e2.kind == "raise":
                                    bad = ("a callback raises %s" % show(e2.value), e2)
                                nxt.append((e2, v))
                        runs = nxt
                    for e, v in runs:
                        if ("inner cancelled",) in e.st.ts:
                            badp = ("cancels the inner future", e)
                        s = cl.state(e.st, v)
                        want = initial if not order else "cancelled" if ("outer",) in order else order[-1][1]
                        if s != want:
                            bad = ("the future given is %s, not %s" % (s, want), e)
                        elif v == OUTER and s in ("value", "error") and e.st.heap.get(("env", OUTER, "outcome")) != STATES[s]:
                            bad = ("the future given gets %s" % show(e.st.heap.get(("env", OUTER, "outcome"), NONE)), e)
                        elif v not in (OUTER, INNER):
                            bad = ("gives %s" % show(v), e)
                    ctx.ob("protected", lab, badp is None, L.where(sh), badp[0] if badp else "", badp[1].st.path() if badp else ())
                    ctx.ob("outcome", lab, bad is None, L.where(sh), bad[0] if bad else "", bad[1].st.path() if bad else ())


# ------------------------------------------------------------------ create_task
CORO = ("tok", "coroutine")
KEPT = [("tok", "kept", s) for s in ("pending", "value", "cancelled", "error")]
PERR = ("exc", "PersistedTaskException", "of a kept task")


class Tasks(Client):
    data = ('the value',)
    kd = True
    debug = False
    model_raises = True

    def __init__(self, m, sets, outcome=None, supports_name=True):
        self.m, self.sets, self.outcome = m, sets, outcome

    add = Shield.add

    def truthy(self, v):
        return None if v == VAL else True

    def inline_property(self, f):
        return False

    def glob(self, mod, name):
        return ("kl", "kept tasks") if name in self.sets else None

    def model_attr(self, st, base, name):
        if base[:2] == ("tok", "task") and name in ("set_name", "add_done_callback", "done", "cancelled", "exception", "result", "cancel"):
            return ("tok", "method", name, base)
        if base == LOOP and name == "create_task":
            return ("tok", "method", name, base)
        return Client.model_attr(self, st, base, name)

    def event(self, st, ev):
        if ev.kind == "store" and ev.base[:2] == ("tok", "task"):
            return self.add(st, ("store", ev.base, ev.name, ev.value))
        return None

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v in (ARG, CORO) or v[:2] == ("tok", "task"):
                s = self.add(st, ("awaited", v))
                return [(s, VAL)] if self.outcome is None else [(s, self.outcome, "raise")]
            return None
        if ev.kind != "call":
            return None
        fv, a, kw = ev.callee, tuple(ev.args), dict(ev.kw)
        n, b = c20.simple(fv), callee_base(ev)
        if n == "iscoroutine" and a:
            return [(st, const(a[0] == CORO or a[0][0] == "coro"))]
        if n in ("get_running_loop", "get_event_loop"):
            return [(st, LOOP)]
        if n == "create_task" and a and (b == LOOP or fv[0] == "ext" and fv[1].startswith("asyncio.")):
            t = ("tok", "task", sum(1 for x in st.ts if x[0] == "task"), a[0])
            return [(self.add(st, ("task", t, tuple(ev.kw))), t)]
        if n == "isinstance" and a and a[0][0] == "tok":
            return [(st, FALSE)]
        if b is not None and b[:2] == ("tok", "task"):
            if n == "set_name":
                return [(self.add(st, ("name", b, a[0])), NONE)]
            if n == "add_done_callback":
                return [(self.add(st, ("callback", b, a[0])), NONE)]
            if n == "done":
                return [(st, FALSE)]
        if b is not None and b[:2] == ("tok", "kept"):
            s = b[2]
            if n == "done":
                return [(st, const(s != "pending"))]
            if n == "cancelled":
                return [(st, const(s == "cancelled"))]
            if n == "exception":
                if s in ("pending", "cancelled"):
                    return [(st, CANCELLED if s == "cancelled" else ("exc", "asyncio.InvalidStateError", n), "raise")]
                return [(st, PERR if s == "error" else NONE)]
        if n == "call_exception_handler":
            return [(self.add(st, ("reported",)), NONE)]
        return None


def tasks(ctx, m):
    ctx.rule("task", "create_task starts the coroutine, or one which gives the awaitable's outcome, in one task and returns that task", 6)
    ctx.rule("name", "the task gets the name given", 4)
    ctx.rule("log", "log_destroy_pending reaches the task", 4)
    ctx.rule("kept", "a task which must not be collected is referenced until it is done; no other is dropped early", 4)
    f = m.func(CT, "create_task")
    mod = m.modules.get(CT)
    if f is None or mod is None:
        raise AnalysisError("create_task vanished")
    sets = {n for n, v in mod.assigns.items() if isinstance(v, (ast.Call, ast.List, ast.Set)) and (not isinstance(v, ast.Call) or ast.unparse(v.func) in ("set", "list"))}
    p = f.params()[0]
    for what, name, skip, log in itertools.product((CORO, ARG), ("", "a name"), (False, True), (False, True)):
        cl = Tasks(m, sets)
        it = Interp(m, cl, max_inline=10, keep_heap_on_await=True)
        cl.it = it
        heap = {("kd", "kept tasks", ""): ("klc", tuple(KEPT), "set")}
        ex = it.run(f, args={p: what, "name": const(name), "skip_gc_until_done": const(skip), "log_destroy_pending": const(log)}, heap=heap)
        ctx.analysed(it, f, ex)
        lab = "%s%s%s%s" % ("coroutine" if what == CORO else "other awaitable", ", named" if name else "", ", kept" if skip else "", "" if log else ", no log")
        w = {"task": None, "name": None, "log": None, "kept": None}
        if not ex:
            w["task"] = ("never returns", None)
        for e in ex:
            if e.kind == "raise":
                w["task"] = ("raises %s" % show(e.value), e)
                continue
            t = e.value
            if t[:2] != ("tok", "task"):
                w["task"] = ("gives %s" % show(t), e)
                continue
            made = [x[1] for x in e.st.ts if x[0] == "task"]
            running = []
            for x in made:
                c = x[3]
                if c == CORO:
                    running.append(x)
                elif c[0] == "coro":
                    for out, exc in ((None, None), (ERR, ERR), (CANCELLED, CANCELLED), (("exc", "KeyError", "of the awaitable"),) * 2):
                        cl.outcome = out
                        for e2 in it.await_value(e.st.but(ts=()), c, func=f):
                            aw = [y[1] for y in e2.st.ts if y[0] == "awaited"]
                            if x == t:
                                if aw != [what]:
                                    w["task"] = ("the task awaits %s" % show(("list", tuple(aw))), e2)
                                elif (e2.kind, e2.value) != (("return", VAL) if exc is None else ("raise", exc)):
                                    w["task"] = ("the task gives %s %s" % (e2.kind, show(e2.value)), e2)
                                elif out is None:
                                    running.append(x)
                            elif what in aw:
                                running.append(x)
                    cl.outcome = None
            if running != [t]:
                w["task"] = ("runs the coroutine in %d tasks" % len(running), e)
            if name:
                n = [dict(x[2]).get("name") for x in e.st.ts if x[0] == "task" and x[1] == t and "name" in dict(x[2])] + [x[2] for x in e.st.ts if x[0] == "name" and x[1] == t]
                if n[-1:] != [const(name)]:
                    w["name"] = ("the task is named %s" % (show(n[-1]) if n else "by default"), e)
            lg = [x[3] for x in e.st.ts if x[0] == "store" and x[1] == t and x[2] == "_log_destroy_pending"]
            if (lg[-1:] == [FALSE]) != (not log):
                w["log"] = ("the task's log_destroy_pending is %s" % (show(lg[-1]) if lg else "the default"), e)
            held = it.kl_get(e.st, ("kl", "kept tasks"))
            held = list(held[1]) if held else []
            if KEPT[0] not in held:
                w["kept"] = ("drops a pending task", e)
            mine = []
            for x in held:
                if x == t:
                    mine.append(x)
                elif x[:2] == ("tok", "task") and x[3][0] == "coro":
                    outs = it.await_value(e.st.but(ts=()), x[3], func=f)
                    if outs and all(("awaited", t) in e2.st.ts for e2 in outs):
                        mine.append(x)
            if skip and not mine:
                w["kept"] = ("nothing keeps the task alive", e)
            if skip:
                for x in mine:
                    if x == t:
                        continue
                    for out in (CANCELLED, ERR):
                        cl.outcome = out
                        for e2 in it.await_value(e.st.but(ts=()), x[3], func=f):
                            nm = M.excname(m, e2.value) if e2.kind == "raise" else ""
                            if e2.kind != "raise" or (nm.rsplit(".", 1)[-1] != "CancelledError") == (out is CANCELLED):
                                w["kept"] = ("the keeper gives %s %s when the task is %s" % (e2.kind, show(e2.value), "cancelled" if out is CANCELLED else "failed"), e2)
                    cl.outcome = None
        for r in w:
            if r == "kept" and not skip and name:
                continue
            ctx.ob(r, lab, w[r] is None, L.where(f), w[r][0] if w[r] else "", w[r][1].st.path() if w[r] and w[r][1] else ())


# ------------------------------------------------------------------ smart futures and tasks
class Smart(Client):
    data = ('the value',)
    kd = True
    debug = False

    def __init__(self, m):
        self.m = m

    add = Shield.add

    def truthy(self, v):
        return None if v == VAL else True

    def glob(self, mod, name):
        return None

    def event(self, st, ev):
        if ev.kind == "call":
            b = callee_base(ev)
            n = c20.simple(ev.callee)
            if n == "__init__" and (b is not None and b[0] == "super" or ev.callee[0] == "ext"):
                a = tuple(x for x in ev.args if x[0] != "self" and x[0] != "new")
                return self.add(st, ("base", a, tuple(sorted(ev.kw, key=lambda x: str(x[0])))))
            if n == "set_task_factory":
                return self.add(st, ("factory", b, ev.args[0] if ev.args else None))
        return None

    def model(self, st, ev):
        if ev.kind == "call":
            n = c20.simple(ev.callee)
            if n in ("get_event_loop", "get_running_loop"):
                return [(st, LOOP)]
            if n in ("proxy", "WeakSet"):
                return [(st, ("tok", n))]
        return None


def smart(ctx, m):
    ctx.rule("factory", "the smart task factory passes the coroutine, the loop and every option of the loop to the task", 3)
    ctx.rule("future", "a smart future belongs to the loop given, or to the current one", 2)
    fac, st_, cf, setf = (m.func(MOD, n) for n in ("smart_task_factory", "set_smart_task_factory", "create_future", "set_smart_task_factory"))
    if fac is None or cf is None or setf is None:
        raise AnalysisError("smart_task_factory, set_smart_task_factory or create_future vanished")
    for kw in ((), (("context", ("tok", "a context")),)):
        cl = Smart(m)
        it = Interp(m, cl, max_inline=8, inline_new=True)
        cl.it = it
        ex = it.call_value(St({}, (), {}, {}, (), None), ("func", it.fid(fac)), (OTHER, CORO), kw, func=cf)
        ctx.analysed(it, fac, ex)
        why = x = None
        for e in ex:
            base = [t for t in e.st.ts if t[0] == "base"]
            got = dict(base[0][2]) if base else {}
            got = {k: v for k, v in got.items() if v != NONE or k != "name"}
            if e.kind == "raise":
                why, x = "raises %s" % show(e.value), e
            elif len(base) != 1 or (base[0][1] + (got.pop("coro", None),))[0] != CORO or got != dict(kw, loop=OTHER):
                why, x = "the task gets %s" % (base,), e
            elif e.value[0] != "new":
                why, x = "gives %s" % show(e.value), e
        ctx.ob("factory", "options %s" % (", ".join(k for k, v in kw) or "none"), ex and why is None, L.where(fac), why or ("cannot be called with them" if not ex else ""), x.st.path() if x else ())
    for lp in (NONE, OTHER):
        cl = Smart(m)
        it = Interp(m, cl, max_inline=8, inline_new=True)
        cl.it = it
        ex = it.run(setf, args={setf.params()[0]: lp})
        ctx.analysed(it, setf, ex)
        want = ("factory", OTHER if lp == OTHER else LOOP, ("func", it.fid(fac)))
        bad = [e for e in ex if e.kind == "raise" or [t for t in e.st.ts if t[0] == "factory"] != [want]]
        ctx.ob("factory", "set, loop %s" % ("not given" if lp == NONE else "given"), ex and not bad, L.where(setf), "sets %s" % (bad[0].st.ts,) if bad else "", bad[0].st.path() if bad else ())
        cl = Smart(m)
        it = Interp(m, cl, max_inline=8, inline_new=True)
        cl.it = it
        ex = it.run(cf, args={"queue": NONE, "key": NONE, "loop": lp})
        ctx.analysed(it, cf, ex)
        bad = [e for e in ex if e.kind == "raise" or [dict(t[2]).get("loop") for t in e.st.ts if t[0] == "base"] != [OTHER if lp == OTHER else LOOP]]
        ctx.ob("future", "loop %s" % ("not given" if lp == NONE else "given"), ex and not bad, L.where(cf), "the future gets %s" % (bad[0].st.ts,) if bad else "", bad[0].st.path() if bad else ())
