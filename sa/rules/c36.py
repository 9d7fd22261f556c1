"""Debug logging.  Every function which asks whether debug logging is on is interpreted twice, with debug logging on and off; leaving out
the logging itself, each path of the one run needs a path of the other which does the same things in the same order under compatible
conditions and ends the same way.  The daemons which watch for stuck locks are interpreted for what they hold and touch."""
from ..lib import *
from .. import locks as L

ASSUMPTIONS = ["calls to a logger and to repr/str/len/type of an object have no effect on the program",
               "logging formats messages lazily and does not raise for a failing __str__ or __repr__ (logging.Handler.handleError)"]
ASK = {"isEnabledFor", "check_debug_logs_enabled", "debug_logs_enabled", "getEffectiveLevel"}
LOG = {"_log", "debug", "info", "warning", "error", "exception", "log", "critical"}
DAEMON = {"_c_ensure_debug_daemon", "_ensure_debug_daemon", "_start_debug_daemon", "_c_start_debug_daemon", "_debug_daemon"}
PURE = {"repr", "str", "len", "type", "id", "hex", "format", "join", "isinstance", "issubclass", "getattr", "hasattr", "round", "time", "perf_counter", "monotonic",
        "_c_repr_no_parent_", "__repr__", "__str__", "__len__", "_repr_no_parent_", "get_logger", "getLogger", "logger", "callable", "__name__", "bool", "min", "max",
        "ref", "done", "is_set", "cancelled", "tuple", "dict", "list", "items", "keys", "values", "get"}
MUTATORS = {"set", "clear", "acquire", "release", "append", "appendleft", "pop", "popleft", "remove", "add", "discard", "cancel", "set_result", "set_exception", "update",
            "extend", "wait", "put", "put_nowait", "get_nowait", "notify", "notify_all", "setdefault", "insert", "submit", "shutdown", "heappush", "heappop"}


def name_of(ev):
    fv = ev.callee
    if fv[0] in ("func", "fn"):
        return str(fv[1]).rsplit(":", 1)[-1].split("#")[0].rsplit(".", 1)[-1]
    return callee_attr(("call", 0, fv)) or (fv[1].rsplit(".", 1)[-1] if fv[0] == "ext" else "")


def fname(v):
    """the last part of the name of what a call value calls"""
    if v[0] != "call" or len(v) != 5:
        return ""
    return v[2][1].rsplit(".", 1)[-1] if v[2][0] == "ext" else callee_attr(v) or ""


def is_log(ev):
    n = name_of(ev)
    if n not in LOG:
        return False
    b = callee_base(("call", 0, ev.callee)) if ev.callee[0] == "attr" else None
    return b is None or "log" in show(b).lower()


def plain(v, names=None):
    """a value without the sites it was made at"""
    if isinstance(v, tuple) and v:
        if v[0] == "call" and len(v) == 5:
            return ("call",) + tuple(plain(x) for x in v[2:])
        if v[0] in ("elem", "next", "awaited", "index", "enter") and len(v) == 3:
            return (v[0], plain(v[1]))
        if v[0] in ("new", "coro", "gen") and len(v) > 2:
            return (v[0],) + tuple(plain(x) for x in v[2:])
        if v[0] in ("fn", "comp", "lambda"):
            return (v[0],)
        return tuple(plain(x) for x in v)
    return v


class Dbg(Client):
    def __init__(self, debug, f, m):
        self.debug, self.f, self.m = debug, f, m
        self.asked = 0
        self.calls = []         # log calls made: (event, ok)
        self.thrown = [("exc", "ValueError")] + [("exc", c) for c in caught(m, f)]

    def raises(self, st, ev):
        g = getattr(ev, "target", None)
        if ev.kind == "call" and name_of(ev) not in ASK | PURE | DAEMON and not is_log(ev) and not (g is not None and self.inline(g)):
            return self.thrown
        return ()

    def inline(self, g):
        return (g.name not in NOINLINE and g.module is self.f.module and g.name.startswith("_") and not g.name.endswith("__") and g.name not in PURE
                and not g.is_async and not g.is_gen and not asks(g) and not flags(g))

    def add(self, st, x):
        x = plain(x)
        if x in st.ts:
            return None
        return st.but(ts=st.ts + (x,))

    def event(self, st, ev):
        k = ev.kind
        if k == "call":
            n = name_of(ev)
            if n in ASK:
                self.asked += 1
                return None
            if is_log(ev):
                if n == "_log":
                    ok = len(ev.args) >= 3 and (ev.args[2][0] in ("tuple", "list", "param") or ev.args[2] == ("const", "tuple", ()) or fname(ev.args[2]) in ("tuple", "list")) and not any(a[0] == "star" for a in ev.args)
                else:
                    ok = len(ev.args) >= (2 if n == "log" else 1)
                self.calls.append((ev, n, ok, st))
                return None
            if n in PURE or n in DAEMON or n == "emit_debug":
                return None
            g = getattr(ev, "target", None)
            if g is not None and self.inline(g):
                return None
            args = tuple(ev.args)
            if g is not None and flags(g):
                args = tuple(("debug",) if a == const(self.debug) else a for a in args)
            return self.add(st, ("call", ev.callee, args, tuple(ev.kw)))
        if k in ("store", "setitem", "delitem", "delattr"):
            if k == "store" and ev.name in ("_daemon", "_logger"):
                return None
            return self.add(st, (k, getattr(ev, "base", None), getattr(ev, "name", None) or getattr(ev, "key", None), getattr(ev, "value", None)))
        if k in ("await", "yield", "yieldfrom", "nonlocal", "global"):
            v = getattr(ev, "value", None)
            return self.add(st, (k, v if isinstance(v, (tuple, str)) else None))
        return None


    def measures(self, ev):
        """the attribute whose length len(x) is, for a variable declared with a class of the library"""
        if not (isinstance(ev.node, ast.Call) and len(ev.node.args) == 1 and isinstance(ev.node.args[0], ast.Name)):
            return None
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == ev.node.args[0].id:
                for mod in self.m.modules.values():
                    c = mod.classes.get(ast.unparse(n.annotation).strip("'"))
                    g = c and self.m.find_method(c, "__len__")
                    if g:
                        r = [x for x in g.node.body if isinstance(x, ast.Return)]
                        if len(r) == 1 and isinstance(r[0].value, ast.Call) and ast.unparse(r[0].value.func) == "len" and isinstance(r[0].value.args[0], ast.Attribute):
                            return r[0].value.args[0].attr
        return None

    def model(self, st, ev):
        if ev.kind == "call" and ev.callee[0] == "ext" and name_of(ev) == "len":
            a = self.measures(ev)
            if a:
                k = ("truthy", ("attr", ev.args[0], a))
                return [(st.but(facts={**st.facts, k: n > 0}), const(n)) for n in (0, 1) if st.facts.get(k, n > 0) == (n > 0)]
        g = getattr(ev, "target", None) if ev.kind == "call" else None
        if g is not None and flags(g) and not self.inline(g):
            return [(st, ("call", 0, ev.callee, tuple(("debug",) if a == const(self.debug) else a for a in ev.args), tuple(ev.kw)))]
        return None


def caught(m, f):
    """the library's exceptions related to those the function handles"""
    roots, out = [], []
    for h in ast.walk(f.node):
        if isinstance(h, ast.ExceptHandler) and h.type is not None:
            for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
                c = m.resolve_dotted(f.module, ast.unparse(t))
                if hasattr(c, "base_exprs"):
                    roots.append([k for k in m.mro(c)][-1])
    for r in roots:
        for c in [r] + m.subclasses(r):
            if c.id not in out:
                out.append(c.id)
    return sorted(out)


def flags(f):
    """parameters which say whether debug logging is on"""
    return [p for p in f.params() if p.strip("_") in ("debug", "debug_logs", "log", "logs", "verbose", "debug_enabled", "debug_logs_enabled", "logging")]


def asks(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ASK or isinstance(n, ast.Name) and n.id in ASK:
            return True
    return False


def flat(facts):
    return {plain(k): v for k, v in facts.items() if not any("log" in str(x).lower() for x in subterms_of(k))}


def subterms_of(k):
    for x in k:
        if isinstance(x, tuple):
            yield from subterms_of(x)
        elif isinstance(x, str):
            yield x


def compatible(a, b):
    return all(b.get(k, v) == v for k, v in a.items())


def outcome(e):
    return (e.kind, plain(M_exc(e)), tuple(e.st.ts))


def M_exc(e):
    return e.value


def check(ctx):
    m = ctx.model
    ctx.rule("same", "a path with debug logging has a path without it which does the same, and the other way round", 8)
    ctx.rule("logcall", "a log call on a debug path is well-formed", 20)
    ctx.rule("daemon", "a stuck-lock watcher does not hold its lock while it sleeps, nor change it", 3)
    ctx.rule("weakref", "locks watched under debug logging support weak references", 3)
    ctx.rule("started", "asking for the debug daemon gives a future with and without debug logging and fails in neither", 1)
    for f in sorted(m.all_funcs(), key=lambda f: f.id):
        if f.outer is not None or f.name in DAEMON or f.name in ASK or f.name == "_debug_daemon":
            continue
        if asks(f) or flags(f):
            same(ctx, m, f)
        elif any(isinstance(n, ast.Attribute) and n.attr == "_log" for n in ast.walk(f.node)):
            logs(ctx, m, f)
    for f in m.all_funcs():
        if f.name == "_debug_daemon" and f.cls is not None:
            daemon(ctx, m, f)
    started(ctx, m)
    weakrefs(ctx, m)


def runs(ctx, m, f, debug):
    cl = Dbg(debug, f, m)
    it = Interp(m, cl, max_inline=4, max_states=60000)
    cl.it = it
    ex = it.run(f, args={p: const(debug) for p in flags(f)})
    ctx.analysed(it, f, ex)
    return cl, ex


def report_logs(ctx, f, cl):
    seen = {}
    for ev, n, ok, st in cl.calls:
        c = "%s %s" % (f.id.split("#")[0], show(ev.args[1] if n in ("_log", "log") and len(ev.args) > 1 else ev.args[0] if ev.args else NONE)[:60])
        if c not in seen or not ok:
            seen[c] = (ok, ev, st)
    for c, (ok, ev, st) in sorted(seen.items()):
        ctx.ob("logcall", c, ok, "%s:%d" % (f.module.rel, getattr(ev.node, "lineno", f.node.lineno)), "" if ok else "the call fails with TypeError: %s needs a message and a tuple of arguments" % name_of(ev), st.path())


def logs(ctx, m, f):
    try:
        cl, ex = runs(ctx, m, f, True)
    except AnalysisError as e:
        ctx.notes.append("%s: %s" % (f.id, e))
        return
    report_logs(ctx, f, cl)


def same(ctx, m, f):
    try:
        on, a = runs(ctx, m, f, True)
        off, b = runs(ctx, m, f, False)
    except AnalysisError as e:
        ctx.notes.append("%s: %s" % (f.id, e))
        return
    report_logs(ctx, f, on)
    bad = None
    for x, y, w in ((a, b, "with"), (b, a, "without")):
        index = {}
        for e in y:
            index.setdefault(outcome(e), []).append(flat(e.st.facts))
        for e in x:
            fx = flat(e.st.facts)
            if not any(compatible(fx, g) for g in index.get(outcome(e), ())):
                bad = bad or (e, w, index)
    detail = ""
    if bad:
        e, w, index = bad
        o = outcome(e)
        detail = "%s debug logging it %ss %s after [%s], which no path does %s it" % (w, e.kind, show(e.value)[:80], "; ".join("%s %s" % (t[0], show(t[1])[:40] if isinstance(t[1], tuple) else t[1]) for t in e.st.ts)[-300:], "without" if w == "with" else "with")
    ctx.ob("same", f.id.split("#")[0], bad is None, L.where(f), detail, bad[0].st.path() if bad else ())


class Watch(Client):
    debug = True

    def __init__(self, m, f):
        self.m, self.f = m, f
        self.bad = []
        self.awaits = 0

    def inline(self, g):
        return g.name not in NOINLINE and g.module is self.f.module and g.name.startswith("_") and not g.name.endswith("__") and g.name not in PURE and not g.is_async

    def strong(self, v):
        """does the value hold the lock?"""
        if v[0] == "self":
            return True
        if v[0] == "call":
            if fname(v) in ("ref", "proxy"):
                return False
            return fname(v[2]) == "ref"
        if v[0] in ("tuple", "list", "bound", "dict", "set"):
            return any(self.strong(x) for x in v if isinstance(x, tuple)) or any(self.strong(y) for x in v if isinstance(x, tuple) for y in x if isinstance(y, tuple) and y)
        return False

    def event(self, st, ev):
        if ev.kind == "await":
            self.awaits += 1
            for n, v in st.env.items():
                if isinstance(v, tuple) and v and self.strong(v):
                    if v[0] == "call" and st.facts.get(("truthy", v)) is False or st.facts.get(("is", v, NONE)) is True:
                        continue
                    self.bad.append((st, "holds its lock in %r while it waits" % n))
        elif ev.kind == "assign" and isinstance(ev.value, tuple) and sum(1 for x in subterms(ev.value) if x[:1] == ("binop",)) > 2:
            return []           # further rounds of a counting loop
        elif ev.kind in ("store", "delattr") and isinstance(ev.base, tuple) and self.about(ev.base):
            self.bad.append((st, "changes %s of its lock" % ev.name))
        elif ev.kind in ("setitem", "delitem") and self.about(ev.base):
            self.bad.append((st, "changes its lock"))
        elif ev.kind == "call":
            n = name_of(ev)
            if n in MUTATORS and ev.callee[0] == "attr" and self.about(ev.callee[1]) or n in ("heappop", "heappush") and any(self.about(a) for a in ev.args):
                self.bad.append((st, "calls %s on its lock" % n))
        return None

    def about(self, v):
        while v[0] == "attr":
            v = v[1]
        return self.strong(v)


def daemon(ctx, m, f):
    if not f.module.rel.startswith("a_sync/primitives/locks"):
        return
    cl = Watch(m, f)
    it = Interp(m, cl, max_inline=4, max_states=60000)
    cl.it = it
    ex = it.run(f, cls=f.cls)
    ctx.analysed(it, f, ex)
    for e in ex:
        if e.kind == "raise":
            cl.bad.append((e.st, "raises %s" % show(e.value)))
    st, why = cl.bad[0] if cl.bad else (None, "")
    if not cl.awaits:
        raise AnalysisError("%s never waits" % f.id)
    ctx.ob("daemon", f.id.split("#")[0], not cl.bad, L.where(f), why, st.path() if st else ())


def wrapped(v):
    """every mention of the lock is inside a weak reference"""
    if v[:1] == ("self",) or v[0] == "bound":
        return False
    if fname(v) in ("ref", "proxy", "WeakMethod"):
        return True
    return all(wrapped(x) for x in children(v))


def children(v):
    for x in v:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield x
            else:
                yield from children(x)


class Start(Client):
    def __init__(self, debug):
        self.debug = debug

    def inline(self, g):
        return g.name in DAEMON - {"_debug_daemon"} or g.name not in NOINLINE and g.name.startswith("_")

    held = None

    def event(self, st, ev):
        if ev.kind == "call" and name_of(ev) in ("add_done_callback", "call_soon", "call_later"):
            for a in ev.args:
                if a[0] == "bound" or a[0] == "attr" and a[1][0] == "self" or any(x[0] in ("bound",) or x[:1] == ("self",) for x in subterms(a)) and fname(a) not in ("ref", "proxy") and not wrapped(a):
                    self.held = (st, ev)
        return None

    def model(self, st, ev):
        if ev.kind == "call" and name_of(ev) in ("create_future", "ccreate_task_simple", "create_task", "ensure_future", "ccreate_task"):
            return [(st, ("tok", "future"))]
        return None


def weakrefs(ctx, m):
    """the watchers refer to their locks weakly: a C class without __weakref__ has no weak references"""
    base = next((c for mod in m.modules.values() for c in mod.classes.values() if c.name == "_DebugDaemonMixin"), None)
    if base is None:
        raise AnalysisError("no _DebugDaemonMixin")
    for c in [base] + m.subclasses(base):
        mro = m.mro(c)
        weak = any("__weakref__" in k.annots or "__weakref__" in k.attrs or not k.is_c and "__slots__" not in k.attrs or "__weakref__" in ast.unparse(k.attrs.get("__slots__", ast.Constant(0))) for k in mro)
        if c.is_c:
            ctx.ob("weakref", c.id, weak, "%s:%d" % (c.module.rel, c.node.lineno), "has no weak references: a watcher started under debug logging fails with TypeError")


def started(ctx, m):
    mod = next((x for x in m.modules.values() if x.rel.endswith("primitives/_debug.pyx")), None)
    f = m.func(mod.name, "_DebugDaemonMixin._ensure_debug_daemon") if mod else None
    if f is None:
        raise AnalysisError("no _ensure_debug_daemon")
    why = x = None
    for debug in (True, False):
        cl = Start(debug)
        it = Interp(m, cl, max_inline=6)
        ex = it.run(f)
        ctx.analysed(it, f, ex)
        for e in ex:
            if e.kind == "return" and e.value == ("tok", "future"):
                continue
            if e.kind == "return" and show(e.value).endswith("_daemon"):
                continue
            why, x = "%s debug logging it %ss %s" % ("with" if debug else "without", e.kind, show(e.value)), e
        if cl.held and why is None:
            ctx.ob("started", "callback", False, "%s:%d" % (f.module.rel, cl.held[1].node.lineno), "the debug daemon's callback keeps the lock alive", cl.held[0].path())
    ctx.ob("started", f.id.split("#")[0], why is None, L.where(f), why or "", x.st.path() if x else ())
