"""Decision tables for calling dual-mode functions: every public entry point is interpreted once per row
(flag in the call, declared default, kind of wrapped function, kind of instance) with the wrapped function, the
instance and the caller's arguments as opaque tokens.  From each exit we read: how often the wrapped function was
called and with what, and whether the caller gets its result, an awaitable of it, or an error."""
import ast

from .lib import *
from . import locks as L

WRAPPED = ("tok", "the wrapped function")
last = None
INST = ("tok", "the instance")
UERR = ("exc", "Exception?", "raised by the wrapped function")
A, K = ("param", "*args"), ("param", "**kwargs")
FLAGS = ("sync", "asynchronous")
RUNNING = "This event loop is already running"
MSGS = {"refused": RUNNING, "user": RUNNING, "other": "something else"}


class Row:
    def __init__(self, flags, default, coro, inst=None, running=None, fail=None):
        self.flags, self.default, self.coro, self.inst = tuple(flags), default, coro, inst
        self.running, self.fail = running, fail

    def label(self):
        return ",".join(["%s=%s" % f for f in self.flags] or ["no flag"]) + " default=%s" % self.default + \
            (" async def" if self.coro else " def") + ({None: "", "sync": " on a sync instance", "async": " on an async instance",
                                                        "plain": " on another object"}[self.inst])


def flag_sync(flags):
    n, v = flags[0]
    return v if n == "sync" else not v


def want_sync(row):
    """the documented precedence: flag, declared default, instance, definition"""
    if row.flags:
        return flag_sync(row.flags)
    if row.default:
        return row.default == "sync"
    if row.inst in ("sync", "async"):
        return row.inst == "sync"
    return not row.coro


def flagsets():
    return [()] + [((n, v),) for n in FLAGS for v in (True, False)]


class Mode(Client):
    """init_ts: ("calls", n, argsok)  -- calls of the wrapped function"""
    kd = True
    absent = set(FLAGS)
    init_ts = ()
    model_raises = True

    def __init__(self, model, row, inst=INST, debug=None, blocked=()):
        self.m, self.row, self.inst, self.debug = model, row, inst, debug
        self.blocked = blocked
        self.ruc_sites = set()

    def inline(self, f):
        return f.name not in NOINLINE

    def inline_property(self, f):
        return True

    # the wrapped function, called directly or through an executor
    def user_call(self, ev):
        if ev.kind != "call":
            return None
        if ev.callee == WRAPPED:
            return ev.args, ev.kw
        n = callee_attr(ev)
        if n == "submit" and ev.args and ev.args[0] == WRAPPED:
            return ev.args[1:], ev.kw
        if n == "run_in_executor" and len(ev.args) > 1 and ev.args[1] == WRAPPED:
            return ev.args[2:], ev.kw
        if n == "run_in_executor" and len(ev.args) > 1 and is_call_to(ev.args[1], "functools.partial") and ev.args[1][3][:1] == (WRAPPED,):
            return ev.args[1][3][1:] + tuple(ev.args[2:]), ev.args[1][4]
        if ev.callee == ("ext", "asyncio.to_thread") and ev.args and ev.args[0] == WRAPPED:
            return ev.args[1:], ev.kw
        return None

    def event(self, st, ev):
        u = self.user_call(ev)
        if u is not None:
            if len([x for x in st.ts if x[0] == "user"]) >= 3:
                return []
            return st.but(ts=st.ts + (("user", tuple(u[0]), tuple(u[1])),)).note("the wrapped function is called with %s" % show_args(u[0], u[1]))
        if ev.kind == "call" and callee_attr(ev) == "close" and callee_base(ev) is not None:
            return st.but(ts=st.ts + (("close", callee_base(ev)),))
        if ev.kind == "call" and callee_attr(ev) == "__anext__" and (ev.target is None or ev.target.is_async):
            return st.but(ts=st.ts + (("made", ev.callee),))
        if ev.kind == "call" and callee_attr(ev) == "run_until_complete" and ev.args:
            self.ruc_sites.add((ev.func.module.rel, ev.node.lineno, ev.node.col_offset))
            return st.but(ts=st.ts + (("ruc", ev.args[0]),))
        if ev.kind == "await" and self.blocked and self.is_user(ev.value):
            return None
        return None

    def is_user(self, v):
        return isinstance(v, tuple) and v and v[0] == "call" and (v[2] == WRAPPED or (len(v[3]) and WRAPPED in v[3][:2]))

    def raises(self, st, ev):
        row = self.row
        if ev.kind == "call":
            if row.fail == "call" and self.user_call(ev) is not None and not row.coro and ev.callee == WRAPPED:
                return (UERR,)
            if callee_attr(ev) == "run_until_complete":
                if row.running == "refused":
                    return (("exc", "RuntimeError", "refused"),)
                if row.fail in ("user", "other"):
                    return (("exc", "RuntimeError", row.fail),)
                if row.fail == "call":
                    return (UERR,)
        if ev.kind == "await" and row.fail == "call":
            v = ev.value
            if v[0] == "call" and any(self.is_user(x) for x in subterms(v)) or self.is_user(v):
                return (UERR,)
        return ()

    def model(self, st, ev):
        row, fv = self.row, ev.callee if ev.kind == "call" else ("",)
        if ev.kind != "call":
            return None
        if self.user_call(ev) is not None and row.fail == "call" and not row.coro and ev.callee == WRAPPED:
            return []       # it raised
        n = callee_attr(ev)
        if n is None and fv[0] == "func":
            n = fv[1].split("#")[0].split(":")[-1].split(".")[-1]
        if fv[0] == "ext":
            d = fv[1]
            a0 = ev.args[0] if ev.args else None
            if d.endswith("iscoroutinefunction") and a0 == WRAPPED:
                return [(st, const(row.coro))]
            if d.endswith(".iscoroutine") or d.endswith(".isawaitable"):
                if a0 is not None and (self.is_user(a0) or a0[0] == "coro"):
                    return [(st, const(a0[0] == "coro" or row.coro))]
            if d in ("builtins.isinstance", "builtins.issubclass") and len(ev.args) == 2:
                if self.is_inst(a0) and "ASyncABC" in repr(ev.args[1]):
                    return [(st, const(row.inst in ("sync", "async")))]
                if a0 == WRAPPED or is_call_to(a0, "builtins.type") and a0[3] == (WRAPPED,):
                    return [(st, FALSE)]
            if d == "builtins.str" and a0 and a0[0] == "exc" and a0[2] in MSGS:
                return [(st, const(MSGS[a0[2]]))]
            if d in ("asyncio.get_running_loop", "asyncio.events.get_running_loop", "asyncio._get_running_loop", "asyncio.events._get_running_loop"):
                if row.running == "refused":
                    return [(st, ("tok", "the loop"))]
            if d == "builtins.callable" and a0 == WRAPPED:
                return [(st, TRUE)]
            if d == "builtins.id" or d == "builtins.type":
                return None
        if n in ("apply_async_modifiers", "apply_sync_modifiers") and ev.args:
            return [(st, ev.args[-1])]
        if n in ("get_event_loop", "_get_event_loop", "new_event_loop") and not ev.args:
            return [(st, ("tok", "the loop"))]
        if n == "is_running" and callee_base(ev) == ("tok", "the loop"):
            return [(st, const(row.running == "refused"))] if row.running is not None or row.fail else None
        if n == "run_until_complete":
            if row.running == "refused" or row.fail in ("user", "other", "call"):
                return []
        if n == "__weakself__" and not ev.args:
            return [(st, self.inst)]
        if n in ("__a_sync_should_await__", "__a_sync_instance_will_be_sync__", "__a_sync_instance_should_await__") and self.is_inst(callee_base(ev)):
            return [(st, const(row.inst == "sync"))]
        f = ev.target
        if f is not None and f.cls is None and f.outer is None and tuple(ev.args) == (self.inst,) and not ev.kw:
            src = ast.unparse(f.node)
            if "ASyncABC" in src and "__a_sync_" not in src:
                return [(st, const(row.inst in ("sync", "async")))]
        return None

    def is_inst(self, v):
        return v == self.inst or (isinstance(v, tuple) and is_call_to(v, "builtins.type") and v[3] == (self.inst,))

    def model_attr(self, st, base, name):
        if name == "__wrapped__":
            return WRAPPED
        if name == "default" and base[0] == "attr" and base[2] == "modifiers":
            return const(self.row.default)
        if name == "__weakself__":
            return None
        if base == self.inst and name in ("__a_sync_instance_should_await__", "__a_sync_instance_will_be_sync__"):
            return const(self.row.inst == "sync")
        if name in ("_is_async_def", "__is_async_def__"):
            return const(self.row.coro)
        return Client.model_attr(self, st, base, name)


def peel(v):
    """the call of the wrapped function behind awaits / run_until_complete / wrap_future, and how it was waited for"""
    how = []
    for _ in range(12):
        if not isinstance(v, tuple) or not v:
            return None, how
        if v[0] == "awaited":
            how.append("await")
            v = v[1]
        elif v[0] == "call" and callee_attr(v) == "run_until_complete" and v[3]:
            how.append("run")
            v = v[3][0]
        elif v[0] == "call" and callee_attr(v) == "result" and not v[3]:
            how.append("result")
            v = callee_base(v)
        elif v[0] == "call" and v[2][0] == "ext" and v[2][1].rsplit(".", 1)[-1] in ("wrap_future", "shield", "ensure_future") and v[3]:
            v = v[3][0]
        else:
            return v, how
    return v, how


def is_wrapped_call(v):
    if not (isinstance(v, tuple) and v and v[0] == "call"):
        return False
    if v[2] == WRAPPED:
        return True
    n = callee_attr(v)
    return n == "submit" and v[3][:1] == (WRAPPED,) or n == "run_in_executor" and (v[3][1:2] == (WRAPPED,) or v[3][1:] and is_call_to(v[3][1], "functools.partial") and v[3][1][3][:1] == (WRAPPED,)) \
        or v[2] == ("ext", "asyncio.to_thread") and v[3][:1] == (WRAPPED,)


def pooled(v):
    return is_wrapped_call(v) and v[2] != WRAPPED


class Result:
    """mode: "sync" | "async" | "error" | "?"; value/exc; calls: list of (args, kw); st"""

    def __init__(self, mode, value, st, calls):
        self.mode, self.value, self.st, self.calls = mode, value, st, calls
        self.path = st.path()


def calls_of(st):
    return [x[1:] for x in st.ts if x[0] == "user"]


def outcomes(it, row, exits, func):
    """classify what the caller of the entry point gets; awaitables are awaited once to see their outcome"""
    out = []
    for e in exits:
        if e.kind == "raise":
            out.append(Result("error", e.value, e.st, calls_of(e.st)))
            continue
        v = e.value
        if v[0] == "coro":
            for r in it.await_value(e.st, v, func):
                out.append(Result("async" if r.kind == "return" else "async-error", r.value, r.st, calls_of(r.st)))
            continue
        x, how = peel(v)
        if x is not None and x[0] == "coro" and how[-1:] == ["run"]:
            for r in it.await_value(e.st, x, func):
                out.append(Result("sync" if r.kind == "return" else "error", r.value, r.st, calls_of(r.st)))
            continue
        if is_wrapped_call(x):
            if pooled(x):
                mode = "sync" if "run" in how or "result" in how or "await" in how else "async"
            elif row.coro:
                mode = "sync" if "run" in how else "async"
            else:
                mode = "sync" if not how else "?"
            out.append(Result(mode, v, e.st, calls_of(e.st)))
            continue
        out.append(Result("?", v, e.st, calls_of(e.st)))
    return out


def value_ok(row, r):
    """the (final) value is the wrapped function's own result"""
    x, how = peel(r.value)
    if not is_wrapped_call(x):
        return False
    if pooled(x):
        return len(how) == 1
    if row.coro:
        return len(how) <= 1
    return not how


def kwitems(kw, st=None):
    return tuple(kw)


def args_ok(call, head):
    """exactly the caller's arguments minus the flag"""
    args, kw = call
    want = tuple(head) + (("star", A),)
    if tuple(args) != want:
        return False
    return tuple(kw) == ((None, K),)


def start(row, extra=()):
    """heap and args for an entry point taking *args, **kwargs"""
    uid = ("kd", "caller")
    items = tuple((const(n), const(v)) for n, v in row.flags)
    return {("kd", "caller", ""): ("kdc", items + tuple(extra), (K,))}, uid


def entry_points(m):
    """(label, class, method, kind) of every public way to call"""
    out = []
    base = L.klass(m, "a_sync.a_sync.function", "ASyncFunction")
    bound = L.klass(m, "a_sync.a_sync.method", "ASyncBoundMethod")
    for c in [base] + m.subclasses(base):
        out.append((c, "bound" if bound in m.mro(c) else "function"))
    return sorted(out, key=lambda x: (x[1], x[0].id))


def rows(kind, c, m, fail=None):
    insts = (None,) if kind == "function" else ("sync", "async", "plain")
    for fl in flagsets():
        for d in (None, "sync", "async"):
            for coro in (False, True):
                for i in insts:
                    yield Row(fl, d, coro, i, fail=fail)


def drive(ctx, c, row, max_states=400000):
    """interpret `c.__call__(*args, **kwargs)` for one row"""
    m = ctx.model
    f = m.find_method(c, "__call__")
    cl = Mode(m, row)
    it = Interp(m, cl, attr_stable=("__wrapped__", "modifiers", "executor", "default"), max_states=max_states, max_inline=14)
    heap, uid = start(row)
    kwname = f.node.args.kwarg.arg if f.node.args.kwarg else None
    if kwname is None or f.node.args.vararg is None:
        return f, None
    args = {kwname: uid, f.node.args.vararg.arg: A}
    ex = it.run(f, cls=c, args=args, heap=heap)
    ctx.analysed(it, f, ex)
    global last
    last = it
    res = outcomes(it, row, ex, f)
    ctx.funcs |= set(it.inlined)
    return f, res


def excname(m, v):
    """name of an exception value's class"""
    if v[0] == "exc":
        return v[1]
    if v[0] == "new":
        return v[2].rsplit(":", 1)[-1]
    if v[0] == "class":
        return v[1].rsplit(":", 1)[-1]
    if v[0] == "call" and v[2][0] == "ext":
        return v[2][1].split(".")[-1]
    if v[0] == "ext":
        return v[1].split(".")[-1]
    return show(v)


def classes(m):
    return [c for mod in m.modules.values() for c in mod.classes.values()]
