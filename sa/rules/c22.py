"""Persisted background tasks.  `create_task` is interpreted for every option set with the registry as a known container: which
task is made, named, returned and held.  What holds it is then awaited with the task succeeding, failing (any
exception) and being cancelled, and `create_task` is interpreted again with tasks of each outcome in the registry."""
import ast

from ..lib import *
from .. import locks as L
from .. import modes as M
from . import c20

ASSUMPTIONS = ["asyncio holds a task strongly only while it is running or scheduled", "`loop.call_exception_handler` reports and never raises",
               "an asyncio task that raised something has that as `exception()`, a cancelled one raises CancelledError from it"]
MOD = "a_sync.asyncio.create_task"
CORO, AWT = ("tok", "a coroutine"), ("tok", "an awaitable")
LOOP, NEWLOOP = ("tok", "running loop"), ("tok", "another loop")
CANCEL = "asyncio.CancelledError"
FAILS = ("Exception", "ValueError", "RuntimeError", "NotImplementedError", "TimeoutError", "OSError", "StopAsyncIteration", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "BaseException")


class Tasks(Client):
    data = ('result',)
    kd = True
    debug = False
    model_raises = True

    def __init__(self, m, outcome=None):
        self.m = m
        self.outcome = outcome      # of the returned task: None (value), or an exception name
        self.names = self.registries(m)

    @staticmethod
    def registries(m):
        mod = m.modules.get(MOD)
        if mod is None:
            raise AnalysisError("create_task module vanished")
        out = {}
        for n, e in mod.assigns.items():
            t = ast.unparse(e) if isinstance(e, ast.AST) else ""
            if t in ("set()", "[]", "list()", "{}", "dict()"):
                out[n] = "dict" if t in ("{}", "dict()") else "list" if t in ("[]", "list()") else "set"
        return out

    def glob(self, mod, name):
        if mod == MOD and name in self.names:
            return ("kd" if self.names[name] == "dict" else "kl", "registry " + name)
        return None

    def inline_property(self, f):
        return True

    def truthy(self, v):
        return True if v[0] == "tok" else None

    def model_attr(self, st, base, name):
        if base[0] == "tok" and base[1] in ("task", "held"):
            if name == "_loop":
                return LOOP
            if name == "_source_traceback":
                return NONE
            if name in ("set_name", "get_name"):
                return ("tok", "method", name, base)
        return Client.model_attr(self, st, base, name)

    def add(self, st, x):
        if len(st.ts) >= 12:
            return []
        return st.but(ts=st.ts + (x,)).note(" ".join(show(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else str(y) for y in x)[:120])

    def event(self, st, ev):
        if ev.kind == "call":
            b, n = callee_base(ev), callee_attr(ev)
            if ev.callee[0] == "tok" and ev.callee[1] == "method":
                n, b = ev.callee[2:]
            if n == "set_name" and b is not None and b[0] == "tok" and b[1] == "task" and ev.args:
                return self.add(st, ("name", b, ev.args[0]))
            if n == "call_exception_handler" and ev.args:
                c = st.heap.get(("kd", ev.args[0][1], "")) if ev.args[0][0] == "kd" else None
                d = dict(c[1]) if c else dict(ev.args[0][1]) if ev.args[0][0] == "dict" else {}
                return self.add(st, ("report", d.get(const("exception")), d.get(const("future"), d.get(const("task")))))
            if n in ("error", "exception", "critical", "warning") and b is not None and "logger" in repr(b).lower():
                x = [a for a in tuple(ev.args) + tuple(v for _, v in ev.kw) if a[0] == "tok" and a[1] == "failure"]
                return self.add(st, ("report", x[0] if x else None, None))
            if n == "cancel" and b is not None and b[0] == "tok":
                return self.add(st, ("cancel", b))
        if ev.kind == "store" and ev.base[0] == "tok" and ev.base[1] == "task" and ev.name == "_log_destroy_pending":
            return self.add(st, ("quiet", ev.base, ev.value))
        return None

    def model(self, st, ev):
        if ev.kind == "awaitval":
            v = ev.value
            if v[0] == "tok" and v[1] == "task":
                return [(st, ("tok", "result"))] if self.outcome is None else []
            if v == AWT:
                return [(st, ("tok", "result"))] if self.outcome is None else []
            return None
        if ev.kind != "call":
            return None
        fv, a = ev.callee, ev.args
        n = c20.simple(fv)
        b = callee_base(ev)
        if n in ("get_running_loop", "get_event_loop") and fv[0] == "ext" and not a:
            return [(st, LOOP)]
        if n == "new_event_loop":
            return [(st, NEWLOOP)]
        if n in ("create_task", "ensure_future") and a and (fv[0] == "ext" or b == LOOP or b == NEWLOOP):
            t = ("tok", "task", sum(1 for x in st.ts if x[0] == "made"), a[0])
            s = self.add(st, ("made", t, dict(ev.kw).get("loop", b if b in (LOOP, NEWLOOP) else LOOP)))
            nm = dict(ev.kw).get("name")
            if s and nm is not None and nm != NONE:
                s = self.add(s, ("name", t, nm))
            return [(s, t)] if s else []
        if n in ("iscoroutine", "isawaitable", "iscoroutinefunction") and a and fv[0] == "ext":
            return [(st, const(n == "isawaitable" or n == "iscoroutine" and (a[0] == CORO or a[0][0] == "coro")))]
        if b is not None and b[0] == "tok" and b[1] in ("held", "task") and not a:
            o = b[2] if b[1] == "held" else "pending"
            if n == "done":
                return [(st, const(o != "pending"))]
            if n == "cancelled":
                return [(st, const(o == "cancelled"))]
            if n == "exception":
                return [(st, ("tok", "failure", o) if o not in ("ok", "cancelled", "pending") else NONE)] if o not in ("cancelled", "pending") else []
            if n == "result":
                return [(st, ("tok", "result"))] if o == "ok" else []
        if n == "isinstance" and len(a) == 2 and a[0][0] == "tok":
            t = repr(a[1])
            if a[0][1] == "failure":
                nm = a[0][2].split(".")[-1]
                if nm in t or "BaseException" in t:
                    return [(st, TRUE)]
                return [(st, const("'builtins.Exception'" in t and nm not in ("BaseException", "KeyboardInterrupt", "SystemExit", "GeneratorExit")))]
            return [(st, FALSE)] if a[0] != CORO else None
        return None

    def raises(self, st, ev):
        if ev.kind == "await":
            v = ev.value
            if v[0] == "tok" and v[1] == "task" or v == AWT:
                return (("exc", self.outcome),) if self.outcome else ()
        if ev.kind == "call":
            b, n = callee_base(ev), callee_attr(ev)
            if b is not None and b[0] == "tok" and b[1] in ("held", "task"):
                o = b[2] if b[1] == "held" else "pending"
                if n in ("exception", "result"):
                    x = CANCEL if o == "cancelled" else "asyncio.InvalidStateError" if o == "pending" else o if n == "result" and o != "ok" else None
                    return (("exc", x),) if x else ()
        return ()


def held(cl, st):
    out = []
    for n, k in cl.names.items():
        c = st.heap.get(("kd", "registry " + n, ""))
        if c is None:
            out.append(None)
        elif c[0] == "klc":
            out += list(c[1])
        else:
            out += [x for kv in c[1] for x in kv if x[0] == "tok" and x[1] in ("task", "held")]
    return out


def heap0(cl, items=()):
    h = {}
    for n, k in cl.names.items():
        h[("kd", "registry " + n, "")] = ("kdc", tuple((x, x) for x in items), ()) if k == "dict" else ("klc", tuple(items), k)
    return h


def go(ctx, f, cl, what, name, keep, quiet, items=()):
    m = ctx.model
    it = Interp(m, cl, max_inline=6, keep_heap_on_await=True)
    ps = f.params()
    args = {ps[0]: what, "name": const(name), "skip_gc_until_done": const(keep), "log_destroy_pending": const(quiet)}
    ex = it.run(f, args=args, heap=heap0(cl, items))
    ctx.analysed(it, f, ex)
    return it, ex


def runs_what(it, e, t, what, cl):
    """does the task run exactly the given awaitable?  None or what is wrong"""
    c = t[3]
    if c == what:
        return None
    if what == CORO:
        return "the task runs %s instead of the coroutine" % show(c)
    for o in [None] + list(FAILS) + [CANCEL]:
        cl.outcome = o
        res = it.await_value(e.st.but(ts=()), c)
        cl.outcome = None
        if not res:
            return "a task for an awaitable that %s ends in no way" % (o or "succeeds")
        for r in res:
            if o is None and (r.kind != "return" or r.value != ("tok", "result")):
                return "an awaitable that succeeds gives %s %s" % (r.kind, show(r.value))
            if o is not None and r.kind != "raise":
                return "an awaitable raising %s gives %s" % (o, show(r.value))
            if o is not None:
                n = M.excname(cl.m, r.value)
                if n.split(".")[-1].rstrip("?") != o.split(".")[-1] and not (n.split(".")[-1] == "RuntimeError" and o in ("RuntimeError", "NotImplementedError")):
                    return "an awaitable raising %s raises %s" % (o, n)
    return None


def check(ctx):
    m = ctx.model
    f = m.func(MOD, "create_task")
    if f is None:
        raise AnalysisError("create_task vanished")
    ctx.rule("created", "one task running exactly the given awaitable on the running loop, with the given name, is returned; destruction warnings are silenced only on request", 16)
    ctx.rule("held", "with skip_gc_until_done something in a module-level container strongly holds the task until it is done, without it nothing does", 16)
    ctx.rule("wrapped", "what holds the task ends when the task ends, in the same way: a failure of any kind becomes a reportable one", 10)
    ctx.rule("released", "the next create_task releases every finished task, keeps every unfinished one and reports each failure once", 8)
    ctx.rule("isolated", "no outcome of a held task is raised by the next create_task, which still creates and returns its own task", 8)
    cl0 = Tasks(m)
    if not cl0.names:
        ctx.ob("held", "registry", False, L.where(f), "no module-level strong container is left in the module")
    wrap = None
    for what in (CORO, AWT):
        for name in ("", "some name"):
            for keep in (False, True):
                for warn in (True, False):
                    lab = "%s, name=%r, skip_gc_until_done=%s, log_destroy_pending=%s" % (what[1], name, keep, warn)
                    cl = Tasks(m)
                    it, ex = go(ctx, f, cl, what, name, keep, warn)
                    bad = hold = None
                    if not ex:
                        bad = ("no exit", ())
                    for e in ex:
                        if e.kind == "raise":
                            bad = ("raises %s" % M.excname(m, e.value), e.st.path())
                            break
                        t = e.value
                        if not (t[0] == "tok" and t[1] == "task"):
                            bad = ("returns %s" % show(t), e.st.path())
                            break
                        made = [x for x in e.st.ts if x[0] == "made"]
                        if any(x[2] != LOOP for x in made):
                            bad = ("made on another loop", e.st.path())
                        w = runs_what(it, e, t, what, cl)
                        if w:
                            bad = (w, e.st.path())
                        names = [x[2] for x in e.st.ts if x[0] == "name" and x[1] == t]
                        if names and names[-1] != const(name) or not names and name:
                            bad = ("the task is named %s" % ([show(x) for x in names] or "nothing"), e.st.path())
                        q = [x[2] for x in e.st.ts if x[0] == "quiet" and x[1] == t]
                        if (q[-1] if q else TRUE) != const(warn):
                            bad = ("log_destroy_pending of the task becomes %s" % show(q[-1] if q else TRUE), e.st.path())
                        if any(x[0] == "cancel" for x in e.st.ts):
                            bad = ("a task is cancelled", e.st.path())
                        h = held(cl, e.st)
                        if keep and h != [None]:
                            if len(h) == 1 and h[0][0] == "tok" and h[0][1] == "task":
                                wrap = (it, e, h[0], cl, t) if wrap is None or h[0] != t else wrap
                                if h[0] != t and not contains(h[0][3], t):
                                    hold = ("the registry holds a task which does not hold the returned one: %s" % show(h[0][3]), e.st.path())
                            else:
                                hold = ("the registry holds %s" % (", ".join("unknown" if x is None else show(x) for x in h) or "nothing"), e.st.path())
                        elif not keep and h:
                            hold = ("the registry holds %s" % ", ".join("unknown" if x is None else show(x) for x in h), e.st.path())
                        if len(made) > (2 if keep else 1):
                            bad = ("%d tasks are made" % len(made), e.st.path())
                    ctx.ob("created", lab, bad is None, L.where(f), bad[0] if bad else "", bad[1] if bad else ())
                    ctx.ob("held", lab, hold is None and bad is None, L.where(f), hold[0] if hold else (bad[0] if bad else ""), hold[1] if hold else ())
    fails = set()
    if wrap is not None:
        it, e, h, cl, t = wrap
        if h == t:
            fails.update(FAILS)
            for o in FAILS:
                ctx.ob("wrapped", o, True, L.where(f))
            for o in ("ok", "cancelled"):
                ctx.ob("wrapped", o, True, L.where(f))
        else:
            for o in [None, CANCEL] + list(FAILS):
                cl.outcome = o
                res = it.await_value(e.st.but(ts=()), h[3])
                bad = None
                for r in res:
                    if o is None and r.kind != "return":
                        bad = ("a task that succeeds makes its holder raise %s" % M.excname(m, r.value), r.st.path())
                    if o is not None and r.kind != "raise":
                        bad = ("a task that raised %s makes its holder end normally: nobody reports it" % o, r.st.path()) if o != CANCEL else None
                    if any(x[0] == "cancel" for x in r.st.ts):
                        bad = ("the holder cancels the task", r.st.path())
                    if o is not None and r.kind == "raise":
                        n = M.excname(m, r.value)
                        if o == CANCEL and n.split(".")[-1] != "CancelledError":
                            bad = ("a cancelled task is reported as %s" % n, r.st.path())
                        if o != CANCEL:
                            fails.add(n)
                if not res:
                    bad = ("never ends", ())
                ctx.ob("wrapped", "task %s" % ("succeeds" if o is None else "raises " + o), bad is None, L.where(f), bad[0] if bad else "", bad[1] if bad else ())
            cl.outcome = None
    for n in sorted(fails or {"PersistedTaskException"}) + ["ok", "cancelled", "pending"]:
        for second in (None, "pending", "ok", "cancelled"):
            if second == n:
                continue
            items = [("tok", "held", n, 0)] + ([("tok", "held", second, 1)] if second else [])
            for order in (items, items[::-1])[:2 if second else 1]:
                cl = Tasks(m)
                cl.outcome = None
                it, ex = go(ctx, f, cl, CORO, "", False, True, order)
                lab = "held before: " + ", ".join(x[2] for x in order)
                iso = rel = None
                if not ex:
                    iso = ("no exit", ())
                for e in ex:
                    if e.kind == "raise":
                        iso = ("create_task raises %s" % (M.excname(m, e.value) or show(e.value)), e.st.path())
                        continue
                    if not (e.value[0] == "tok" and e.value[1] == "task"):
                        iso = ("create_task returns %s" % show(e.value), e.st.path())
                    h = [x for x in held(cl, e.st)]
                    for x in order:
                        if x[2] == "pending" and x not in h:
                            rel = ("a task that is not done is released", e.st.path())
                        if x[2] != "pending" and (x in h or h == [None]):
                            rel = ("a task that is done (%s) is still held" % x[2], e.st.path())
                        r = [y for y in e.st.ts if y[0] == "report" and (y[2] == x or y[1] == ("tok", "failure", x[2]))]
                        want = 0 if x[2] in ("pending", "ok", "cancelled") else 1
                        if want and not r:
                            rel = ("a failure (%s) is not reported" % x[2], e.st.path())
                        if len(r) > 1 or not want and r:
                            rel = ("%s is reported %d times" % (x[2], len(r)), e.st.path())
                ctx.ob("isolated", lab, iso is None, L.where(f), iso[0] if iso else "", iso[1] if iso else ())
                ctx.ob("released", lab, rel is None, L.where(f), rel[0] if rel else "", rel[1] if rel else ())
