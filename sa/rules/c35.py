"""Exceptions and cancellation.  Every function with an except or finally clause, a suppress(), or a context manager's exit is interpreted
with each call and await raising an exception of an unknown class, each await a cancellation, and what runs user code also the classes the
function handles.  On every path the exception has to leave the function, or be handed on (given to a future, a log, another call, or the
caller as a value)."""
import builtins
from ..lib import *
from .. import locks as L

ASSUMPTIONS = ["functions of the standard library raise only what they are documented to raise", "a handler which tests the content of the exception (its message or cause) consumes only the signal it tests for",
               "logging does not raise"]
USER = ("exc", "UserError")
CANCEL = ("exc", "asyncio.CancelledError")
LOAD = ("exc", "AttributeError", "load")
BROAD = {"Exception", "BaseException", ""}
SIGNALS = {"StopIteration", "StopAsyncIteration", "GeneratorExit"}
SAFE = {"isinstance", "issubclass", "len", "type", "id", "str", "repr", "bool", "iter", "hasattr", "getattr", "callable", "print", "enumerate", "range", "zip", "list", "dict", "tuple", "set", "super",
        "isEnabledFor", "debug", "info", "warning", "error", "exception", "critical", "log", "_log", "format", "startswith", "items", "keys", "values", "append", "done", "cancelled", "current_task", "cancelling",
        "get_running_loop", "get_event_loop", "iscoroutine", "ensure_future", "cast"}
NAMES = {"__name__", "__qualname__", "__module__", "__doc__"}


def name_of(ev):
    fv = ev.callee
    if fv[0] in ("func", "fn"):
        return str(fv[1]).rsplit(":", 1)[-1].split("#")[0].rsplit(".", 1)[-1]
    return callee_attr(("call", 0, fv)) or (fv[1].rsplit(".", 1)[-1] if fv[0] == "ext" else "")


def handled(f):
    """simple names of the classes the function's own handlers name"""
    out = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.ExceptHandler):
            for t in [None] if n.type is None else n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]:
                out.add(ast.unparse(t) if t is not None else "")
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if isinstance(i.context_expr, ast.Call) and ast.unparse(i.context_expr.func).endswith("suppress"):
                    out |= {ast.unparse(a) for a in i.context_expr.args}
    return out


def tries(f):
    return any(isinstance(n, ast.Try) and (n.handlers or n.finalbody) for n in own_nodes(f.node)) or any(
        isinstance(n, (ast.With, ast.AsyncWith)) and any("suppress" in ast.unparse(i.context_expr) for i in n.items) for n in own_nodes(f.node))


class Swallow(Client):
    debug = False
    branches = True

    def __init__(self, m, f):
        self.m, self.f = m, f
        self.bad = []
        self.points = 0
        self.narrow = []
        for t in sorted(handled(f)):
            n = t.rsplit(".", 1)[-1]
            if n in BROAD or n in SIGNALS or n == "CancelledError" or n.startswith("_"):
                continue
            c = m.resolve_dotted(f.module, t)
            self.narrow.append(("exc", c.id if isinstance(c, Class) else n))
        self.methods = {x.name for x in m.all_funcs() if x.cls is not None}

    def inline(self, g):
        return g.name not in NOINLINE and g.module is self.f.module and g is not self.f and g.name.startswith("_") and not g.name.endswith("__") and not g.is_gen and not tries(g)

    # what runs user code
    def user_value(self, v):
        if v[0] == "param":
            return v[1].lstrip("*") not in ("self", "cls")
        if v[0] in ("cell", "outer", "elem", "item", "next"):
            return True
        if v[0] == "attr":
            return v[1][0] == "self" and v[2] not in self.methods
        if v[0] == "call":
            return v[2][0] not in ("ext", "func", "fn", "bound") and (self.user_value(v[2]))
        return False

    def foreign(self, ev):
        if ev.kind == "call":
            fv = ev.callee
            if name_of(ev) in ("run_until_complete", "wait_for", "run_coroutine_threadsafe", "run") and any(self.user_value(a) for a in ev.args):
                return True
            return fv[0] in ("param", "cell", "outer") and self.user_value(fv) or fv[0] == "attr" and fv[1][0] == "self" and fv[2] not in self.methods
        return ev.kind == "await" and self.user_value(ev.value)

    def state(self, st):
        return next((x for x in st.ts if x[0] == "raised"), None)

    def raises(self, st, ev):
        if ev.kind == "load":
            r = self.state(st)
            if r and ("handed",) not in st.ts and ev.name in ("__name__", "__qualname__") and own(ev, self.f) and self.user_value(ev.base):
                return [(st, LOAD)]
            return ()
        if self.state(st) or not own(ev, self.f):
            return ()
        if ev.kind == "call":
            if name_of(ev) in SAFE or ev.callee[0] == "class":
                return ()
            g = getattr(ev, "target", None)
            if g is not None and (g.is_async or g.is_gen or self.inline(g)):
                return ()
        elif ev.kind not in ("await", "next", "iter"):
            return ()
        out = [USER]
        if ev.kind == "await" or ev.kind == "next" and getattr(ev, "is_async", False):
            out.append(CANCEL)
        signals = []
        if self.foreign(ev):
            out += self.narrow + [("exc", x[1] + "?") for x in self.narrow if ":" not in x[1]]
        elif ev.kind == "call":
            signals = list(self.narrow)
        self.points += 1
        key = (getattr(ev.node, "lineno", 0), getattr(ev.node, "col_offset", 0), ev.kind)
        return [(st.but(ts=(("raised", e, key),)), e) for e in out] + signals

    def handed(self, st, how):
        return st if ("handed",) in st.ts else st.but(ts=st.ts + (("handed",),)).note(how)

    def event(self, st, ev):
        r = self.state(st)
        if r is None:
            return None
        _, e, key = r
        where = (getattr(ev.node, "lineno", 0), getattr(ev.node, "col_offset", 0), ev.kind)
        if ("handed",) in st.ts:
            return [] if where == key else None
        if where == key and own(ev, self.f):
            self.settle(st, e, "the function carries on")
            return []
        if ev.kind == "call":
            n = name_of(ev)
            if n in ("isinstance", "issubclass", "type", "len", "id", "hash"):
                return None
            if any(mentions(x, e) for x in list(ev.args) + [v for _, v in ev.kw if isinstance(v, tuple)]):
                if n in ("str", "repr") or ev.callee[0] == "ext" and isinstance(getattr(builtins, n, None), type):
                    return None
                return self.handed(st, "handed to %s" % n)
            if n == "exception" or any(k == "exc_info" and v != FALSE for k, v in ev.kw):
                return self.handed(st, "logged by %s" % n)
            if e == CANCEL and n == "cancel" and not ev.args:
                return self.handed(st, "passed on by cancel()")
        elif ev.kind == "branch":
            v, taken = ev.value, ev.taken
            if v[0] == "cmp":
                v, pol = self.it.norm_cmp(v)
                taken = taken == pol
            if taken and content(v, e) and ("recognised",) not in st.ts:
                return st.but(ts=st.ts + (("recognised",),))
        elif ev.kind in ("store", "setitem", "yield") and mentions(getattr(ev, "value", None), e) and not (ev.kind == "store" and ev.name == "args"):
            return self.handed(st, "kept")
        return None

    def settle(self, st, e, how):
        if ("recognised",) in st.ts:
            return          # the handler tells what it is by its content
        self.bad.append((st, "%s is swallowed: %s" % ("a cancellation" if e == CANCEL else "an exception of user code" if e == USER else "a %s of user code" % e[1].rsplit(":", 1)[-1].rsplit(".", 1)[-1], how)))

    def finish(self, e):
        r = self.state(e.st)
        if r is None or ("handed",) in e.st.ts:
            return
        if e.kind == "raise":
            if e.value == LOAD:
                self.bad.append((e.st, "an exception of user code is replaced by the AttributeError of %s" % "a name the object does not have"))
            new = plain(e.value)
            if new and r[1][1].rstrip("?").rsplit(".", 1)[-1] == new and r[1][1].endswith("?") and e.value != r[1] and ("recognised",) not in e.st.ts and not exactly(e.st, r[1]):
                self.bad.append((e.st, "an exception of a class derived from %s is replaced by a plain %s" % (r[1][1].rstrip("?"), new)))
            return
        if r[1] != CANCEL and mentions(e.value, r[1]):
            return
        self.settle(e.st, r[1], "the function returns")


def plain(v):
    """the builtin class of an exception constructed here"""
    c = v[2] if v[0] == "new" else v[2][1] if v[0] == "call" and v[2][0] == "ext" else ":"
    return None if ":" in c else c.rsplit(".", 1)[-1]


def exactly(st, e):
    """does the path hold only for the class itself, not for one derived from it?"""
    return any(v is True and k[0] == "is" and any(type_test(x) and e in x[3] for x in k[1:]) for k, v in st.facts.items()) if hasattr(st.facts, "items") else False


def type_test(x):
    return isinstance(x, tuple) and len(x) == 5 and x[0] == "call" and x[2][0] == "ext" and x[2][1].rsplit(".", 1)[-1] in ("isinstance", "type", "issubclass")


def content(v, e):
    """does the value depend on the content of the exception, its message for one?"""
    if not isinstance(v, tuple) or type_test(v):
        return False
    if v[:1] == ("attr",) and len(v) == 3 and v[1] == e and v[2] in ("args", "__cause__", "__context__", "errno", "code") or len(v) == 5 and v[0] == "call" and e in v[3]:
        return True
    return any(content(x, e) for x in v)


def own(ev, f):
    return ev.func is f


def mentions(v, e):
    return isinstance(v, tuple) and (v == e or any(mentions(x, e) for x in v))


class Exit(Client):
    def inline(self, g):
        return g.name not in NOINLINE and g.name.startswith("_")


def dead(m, f):
    """a private method no method of its class refers to"""
    n = f.name
    if f.cls is None or not n.startswith("__") or n.endswith("__"):
        return False
    return not any(isinstance(x, (ast.Attribute, ast.Name)) and (x.attr if isinstance(x, ast.Attribute) else x.id) == n for k in f.cls.methods.values() if k is not f for x in ast.walk(k.node))


def check(ctx):
    m = ctx.model
    ctx.rule("handler", "an exception or cancellation met in a function with handlers leaves it or is handed on", 40)
    ctx.rule("exit", "a context manager's exit does not suppress the exception of its block", 3)
    ctx.rule("gathered", "exceptions collected as values are looked at", 0)
    for f in sorted(m.all_funcs(), key=lambda f: f.id):
        if f.name in ("__exit__", "__aexit__"):
            it = Interp(m, Exit(), max_inline=6)
            ex = it.run(f)
            ctx.analysed(it, f, ex)
            x = next((e for e in ex if e.kind == "return" and e.value not in (NONE, FALSE) and not harmless(m, f, e.value)), None)
            ctx.ob("exit", f.id.split("#")[0], x is None, L.where(f), x and "gives %s to the with statement, which may suppress the exception" % show(x.value) or "", x.st.path() if x else ())
        for n in own_nodes(f.node):
            if isinstance(n, ast.Expr):
                c = n.value.value if isinstance(n.value, ast.Await) else n.value
                if isinstance(c, ast.Call) and any(k.arg == "return_exceptions" and isinstance(k.value, ast.Constant) and k.value.value is True for k in c.keywords):
                    ctx.ob("gathered", "%s %s" % (f.id.split("#")[0], ast.unparse(c.func)), False, "%s:%d" % (f.module.rel, n.lineno), "the exceptions collected are dropped")
        if tries(f) and not dead(m, f):
            one(ctx, m, f)


def harmless(m, f, v):
    """the result of another exit or of a release"""
    return v[0] in ("call", "awaited") or v[0] == "coro"


def captured(m, f):
    """values of the variables of the functions around f"""
    out = {}
    o = f.outer
    while o is not None:
        for n in own_nodes(o.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.setdefault(n.id, ("outer", n.id))
        for i, p in enumerate(o.params()):
            out.setdefault(p, ("self", o.cls.id) if i == 0 and o.cls is not None and o.outer is None and not o.is_static and not o.is_classmethod else ("param", p))
        o = o.outer
    return out


def one(ctx, m, f):
    cl = Swallow(m, f)
    it = Interp(m, cl, max_inline=3, max_states=150000)
    cl.it = it
    try:
        ex = it.run(f, caps=captured(m, f))
    except AnalysisError as e:
        ctx.notes.append("%s: %s" % (f.id, e))
        return
    ctx.analysed(it, f, ex)
    for e in ex:
        cl.finish(e)
    seen = set()
    c = f.id.split("#")[0]
    for st, why in cl.bad:
        if why not in seen:
            seen.add(why)
            ctx.ob("handler", "%s %s" % (c, why.split(" is ")[0]), False, L.where(f), why, st.path())
    if not cl.bad:
        ctx.ob("handler", c, True, L.where(f))
