"""Disjunctive abstract interpretation of the (normalised) package sources.

A state maps variables to abstract values (constants, parameters, access paths, allocation and
call sites: a finite set per function), carries branch facts over those values, flow sensitive
attribute contents and a client typestate.  Loops run to a fixpoint over deduplicated states;
resolved helpers are inlined, so results do not depend on how code is split into functions.
Nothing of the analysed program is executed and no path condition goes to a solver: a branch on an
unknown value simply goes both ways and records the fact.
"""
import ast
import builtins
from functools import lru_cache

from .model import AnalysisError, Class, Func, mangle

# debug logging and loop lookup are never looked into unless a rule asks for it
NOINLINE = {"_c_ensure_debug_daemon", "_ensure_debug_daemon", "get_logger", "_start_debug_daemon", "_c_start_debug_daemon",
            "_c_get_loop", "_get_loop", "_debug_daemon", "check_debug_logs_enabled", "get_event_loop", "decode_name"}
BUILTINS = set(dir(builtins))


from .absint_values import *   # noqa: E402
from .kd import KnownDicts


def show(v):
    """Readable rendering of a value."""
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    try:
        if k == "const":
            return repr(v[2])
        if k == "self":
            return "self"
        if k == "param":
            return v[1]
        if k in ("attr",):
            return "%s.%s" % (show(v[1]), v[2])
        if k == "bound":
            return "%s.%s" % (show(v[2]), v[1].split(".")[-1])
        if k in ("func", "class"):
            return v[1].split(":")[-1]
        if k == "fn":
            return v[1]
        if k == "ext":
            return v[1][len("builtins."):] if v[1].startswith("builtins.") else v[1]
        if k == "mod":
            return v[1]
        if k == "glob":
            return v[2]
        if k == "call":
            return "%s(%s)" % (show(v[2]), show_args(v[3], v[4]))
        if k == "coro":
            return "%s(%s)" % (show(v[2]), show_args(v[3], v[4]))
        if k == "gen":
            return "%s(%s)" % (show(v[2]), show_args(v[3], v[4]))
        if k == "new":
            return "%s(%s)" % (v[2].split(":")[-1], show_args(v[3], v[4]))
        if k == "awaited":
            return "await %s" % show(v[1])
        if k == "elem":
            return "each(%s)" % show(v[1])
        if k == "item":
            return "%s[%s]" % (show(v[1]), show(v[2]))
        if k == "binop":
            return "(%s %s %s)" % (show(v[2]), v[1], show(v[3]))
        if k == "unary":
            return "%s%s" % (v[1], show(v[2]))
        if k == "cmp":
            return "(%s %s %s)" % (show(v[2]), v[1], show(v[3]))
        if k == "not":
            return "(not %s)" % show(v[1])
        if k in ("tuple", "list", "set"):
            return {"tuple": "(%s)", "list": "[%s]", "set": "{%s}"}[k] % ", ".join(show(x) for x in v[1])
        if k == "dict":
            return "{%s}" % ", ".join("%s: %s" % (show(a), show(b)) for a, b in v[1])
        if k == "star":
            return "*" + show(v[1])
        if k == "comp":
            return "%scomp(%s for %s%s)" % (v[1], show(v[3]), show(v[4]), "".join(" if " + show(c) for c in v[5]))
        if k == "exc":
            return v[1]
        if k == "super":
            return "super()"
        if k == "kw":
            return "{%s}" % ", ".join(["%s=%s" % (a, show(b)) for a, b in v[1]] + ["**" + show(x) for x in v[2]])
        if k == "vararg":
            return "(%s)" % ", ".join(show(x) for x in v[1])
        if k == "enter":
            return "enter(%s)" % show(v[1])
        if k == "next":
            return "next(%s)" % show(v[1])
    except Exception:
        pass
    return "%s(%s)" % (k, ", ".join(show(x) for x in v[1:]))


def show_args(args, kw):
    return ", ".join([show(a) for a in args] + [("%s=%s" % (k, show(x)) if k else "**" + show(x)) for k, x in kw])


# ---------------------------------------------------------------- exceptions
_EXTRA = {
    "CancelledError": ["BaseException"], "InvalidStateError": ["Exception", "BaseException"],
    "QueueEmpty": ["Exception", "BaseException"], "QueueFull": ["Exception", "BaseException"],
    "Empty": ["Exception", "BaseException"], "Full": ["Exception", "BaseException"],
}


def builtin_mro(name):
    o = getattr(builtins, name, None)
    if isinstance(o, type) and issubclass(o, BaseException):
        return [c.__name__ for c in o.__mro__ if c is not object]
    return None


class Ev:
    __slots__ = ("kind", "node", "func", "d", "interp")

    def __init__(self, kind, node, func, d, interp):
        self.kind, self.node, self.func, self.d, self.interp = kind, node, func, d, interp

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    @property
    def loc(self):
        return "%s:%s" % (self.func.module.rel, getattr(self.node, "lineno", "?"))

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.loc, {k: show(v) if isinstance(v, tuple) else v for k, v in self.d.items()})


class St:
    __slots__ = ("env", "outer", "facts", "heap", "ts", "trace", "_key")

    def __init__(self, env, outer, facts, heap, ts, trace):
        self.env, self.outer, self.facts, self.heap, self.ts, self.trace = env, outer, facts, heap, ts, trace
        self._key = None

    def but(self, **kw):
        s = St(self.env, self.outer, self.facts, self.heap, self.ts, self.trace)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def bind(self, name, v):
        e = dict(self.env)
        e[name] = v
        return self.but(env=e)

    def fact(self, atom, val):
        if self.facts.get(atom) == val:
            return self
        f = dict(self.facts)
        f[atom] = val
        return self.but(facts=f)

    def note(self, text):
        return self.but(trace=(self.trace, text))

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.env.items()), tuple((f, frozenset(e.items())) for f, e in self.outer),
                         frozenset(self.facts.items()), frozenset(self.heap.items()), self.ts)
        return self._key

    def path(self):
        out, t = [], self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        return out[::-1]


def dedupe(states):
    seen, out = set(), []
    for s in states:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def dedupe2(pairs):
    seen, out = set(), []
    for s, v in pairs:
        k = (s.key(), v)
        if k not in seen:
            seen.add(k)
            out.append((s, v))
    return out


class Out:
    __slots__ = ("normal", "brk", "cont", "ret", "rse")

    def __init__(self):
        self.normal, self.brk, self.cont, self.ret, self.rse = [], [], [], [], []

    def absorb(self, o, normal=False):
        if normal:
            self.normal += o.normal
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.rse += o.rse


class Exit:
    __slots__ = ("kind", "value", "st")

    def __init__(self, kind, value, st):
        self.kind, self.value, self.st = kind, value, st

    @property
    def ts(self):
        return self.st.ts

    def __repr__(self):
        return "<Exit %s %s>" % (self.kind, show(self.value))


class Client:
    """Default client: records nothing, nothing raises."""
    init_ts = ()
    branches = False    # True: also emit a "branch" event (value, taken) for every decided condition
    model_raises = False    # True: a call modelled by the client can raise, too

    def event(self, st, ev):
        return None

    def raises(self, st, ev):
        return ()

    def kd_missing(self, st, v, k):
        """what v[k] gives for a missing key of a known mapping (a defaultdict), None: KeyError"""
        return None

    def model(self, st, ev):
        """Optional summary for an unresolved call: list of (state, value) or None."""
        return None

    fresh_globals = False   # with kd: module-level caches are empty
    kd = False          # True: track the contents of keyword dicts (sa/kd.py)
    absent = ()         # with kd: keys known to be missing from unknown rest mappings

    debug = None        # True/False: analyse with debug logging on/off; None: both ways

    def model_attr(self, st, base, name):
        """Optional summary for an attribute read: a value, or None."""
        if name == "debug_logs_enabled" and self.debug is not None:
            return const(self.debug)
        return None


    data = ()           # kinds of tokens that stand for data the user supplies, which may be None

    def maybe_none(self, v):
        return v[1] in self.data

    def inline(self, func):
        return func.name not in NOINLINE

    def inline_property(self, func):
        return False

    def glob(self, mod, name):
        """value of a module-level name, when the client knows better"""

    def kd_call(self, st, v, name, args, kw):
        """method call on a known dict, when the client knows better"""

    def iterates(self, st, ev):
        return None

    step = None         # hook: (state, source, is_async) -> None (not a source) or [(state, "item"|"end"|"raise", value)]
    iter_objects = False    # iterate instances of the library's classes through their own __iter__/__next__
    def lacks(self, st, base, name):
        """is it known that the object has no such attribute?"""
        return False

    distinct = False        # are tokens distinct dictionary keys?
    recursion = 0       # how often a function may be inlined into itself

    iterator = None     # hook: (state, value, is_async) -> None or (state, its iterator)
    class_defaults = False  # read attributes never assigned from the class (sound when every store to instances is interpreted)
    order = None        # hook: (state, value) -> a Python value values of its kind are ordered by, None when it cannot be compared
    truthy = None       # hook: truth of a token value, None when unknown


def slice_of(i):
    """A constant index or slice, or None."""
    if i[0] == "const" and type(i[2]) is int:
        return i[2]
    if i[0] == "slice" and all(x[0] == "const" and (x[2] is None or type(x[2]) is int) for x in i[1]):
        return slice(*(x[2] for x in i[1]))
    return None


class Interp(KnownDicts):
    def __init__(self, model, client=None, max_states=400000, max_inline=8, attr_stable=(), unroll_tuple=8,
                 self_cls=None, inline_new=False, keep_heap_on_await=False):
        self.model, self.client = model, client or Client()
        self.max_states, self.max_inline = max_states, max_inline
        self.attr_stable = set(attr_stable)
        self.unroll_tuple = unroll_tuple
        self.count = 0
        self.inlined = {}
        self._changed = {}
        self.calls_seen = set()
        self.stack = []
        self.inline_new = inline_new
        self.keep_heap = keep_heap_on_await
        self.gen_handlers = []
        self.yf = {}
        self.nest = 0
        self.lists = {}
        self.fn_by_name = {}
        self.nodes_done = set()

    # ------------------------------------------------------------ entry
    def run(self, func, cls=None, args=None, ts=None, await_result=True, facts=None, heap=None, caps=()):
        """Analyse `func` from its entry. args: overrides param->Value. Returns list of Exit."""
        env = {}
        cls = cls or func.cls
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        first = func.params()[0] if func.params() else None
        for n in names:
            env[n] = ("param", n)
        if func.cls is not None and func.outer is None and first is not None and not func.is_static:
            env[first] = ("class", cls.id) if func.is_classmethod else ("self", cls.id)
        if a.vararg:
            env[a.vararg.arg] = ("param", "*" + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ("param", "**" + a.kwarg.arg)
        for n, v in dict(caps).items():
            env.setdefault(n, v)
        if args:
            env.update(args)
        st = St(env, (), dict(facts or {}), dict(heap or {}), self.client.init_ts if ts is None else ts, None)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            t = self.ann_class(func.module, getattr(x, "cy_type", None) or None)
            if t is None and x.annotation is not None:
                t = self.ann_class(func.module, ast.unparse(x.annotation))
            if t is not None and env.get(x.arg, ("",))[0] == "param":
                st = st.fact(("type", env[x.arg]), t.id)
        self.stack = [func]
        o = self.exec_body(func, st)
        exits = []
        for s, v in dedupe2(o.ret):
            exits.append(Exit("return", v, s))
        for s, v in dedupe2(o.rse):
            exits.append(Exit("raise", v, s))
        return exits

    def call_value(self, st, v, args=(), kw=(), func=None, node=None):
        """Apply a value (for driving closures). Returns Exits."""
        R = []
        keep, self.stack = self.stack, [func] if func else self.stack
        outs = self.apply(st, v, list(args), list(kw), node, R)
        self.stack = keep
        return [Exit("return", val, s) for s, val in outs] + [Exit("raise", e, s) for s, e in R]

    def await_value(self, st, v, func=None, node=None):
        R = []
        keep, self.stack = self.stack, [func] if func else self.stack
        outs = self.do_await(st, v, node, R)
        self.stack = keep
        return [Exit("return", val, s) for s, val in outs] + [Exit("raise", e, s) for s, e in R]

    def collect(self, st, v, func, is_async=True):
        """Iterate a value to its end. Returns Exits: the list of items, or the exception (items so far: `collected(exit)`)"""
        node = ast.fix_missing_locations(ast.parse("[x %sfor x in src]" % ("async " if is_async else ""), mode="eval")).body
        R = []
        keep, self.stack = self.stack, [func]
        self.nest += 1
        outs = self.comp_collect(node, st.but(env={"src": v}), R)
        self.nest -= 1
        self.stack = keep
        return [Exit("return", val, s) for s, val in outs] + [Exit("raise", e, s) for s, e in R]

    def collect_in(self, st, v, is_async, R):
        """the items of an iterable, in the current frame: [(state, list)]"""
        node = self.lists.get(is_async)
        if node is None:
            node = self.lists[is_async] = ast.fix_missing_locations(ast.parse("[x %sfor x in src]" % ("async " if is_async else ""), mode="eval")).body
        self.nest += 1
        r = self.comp_collect(node, st.but(env=dict(st.env, src=v)), R)
        self.nest -= 1
        return [(s.but(env=st.env), x) for s, x in r]

    def comp_collect(self, node, st, R):
        r = self.kd_comp_loops(node, "list", st, R, [node.elt])
        if r is None:
            raise AnalysisError("%s: what is iterated is not known: %s %s" % (self.func.module.rel, st.env["src"][0], show(st.env["src"])))
        return r

    def collected(self, e):
        """items iterated before the exit of a `collect`"""
        if e.kind == "return":
            return list(e.value[1])
        for k, c in e.st.heap.items():
            if k[0] == "kd" and isinstance(k[1], tuple) and k[1] and k[1][0] == "comp" and k[1][-1] == self.nest + 1 and c[0] == "klc" and c[2] == "acc":
                return list(c[1])
        return []

    def exec_body(self, func, st):
        """Execute body; ret contains all returns incl. implicit None."""
        o = Out()
        if func.is_lambda:
            R = []
            for s, v in self.ev(func.node.body, st, R):
                o.ret.append((s, v))
            o.rse += R
            return o
        b = self.block(func.node.body, [st])
        o.ret = list(b.ret) + [(s, NONE) for s in b.normal]
        o.rse = b.rse
        return o

    # ------------------------------------------------------------ util
    @property
    def func(self):
        return self.stack[-1]

    def tick(self, n=1):
        self.count += n
        if self.count > self.max_states:
            raise AnalysisError("state limit exceeded in %s" % (self.stack[0].id if self.stack else "?"))

    def site(self, node):
        f = self.func
        return "%s@%d.%d" % (f.qual, getattr(node, "lineno", 0) - getattr(f.node, "lineno", 0), getattr(node, "col_offset", 0))

    def emit(self, st, kind, node, **d):
        """Let the client see the event; returns list of states."""
        ev = Ev(kind, node, self.func, d, self)
        r = self.client.event(st, ev)
        if r is None:
            return [st], ev
        if isinstance(r, St):
            return [r], ev
        return list(r), ev

    def note(self, st, node, text):
        return st.note("%s:%s %s" % (self.func.module.rel, getattr(node, "lineno", "?"), text))

    def raise_points(self, st, ev, R):
        for e in self.client.raises(st, ev) or ():
            s = st
            if isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], St):
                s, e = e
            R.append((self.note(s, ev.node, "raises %s" % show(e)), e))

    def ann_class(self, module, text):
        if not text or not isinstance(text, str):
            return None
        t = text.strip().strip("'\"").rstrip("*")
        if t.startswith("Optional["):
            t = t[9:-1]
        t = t.split("[")[0].strip().strip("'\"")
        if not t.replace(".", "").replace("_", "").isalnum():
            return None
        r = self.model.resolve_dotted(module, t)
        return r if isinstance(r, Class) else None

    def class_by_id(self, cid):
        rel, name = cid.split(":", 1)
        for m in self.model.modules.values():
            if m.rel == rel:
                return m.classes.get(name)
        return None

    def func_by_id(self, fid):
        f = self.fn_by_name.get(fid)
        if f is None:
            for x in self.model.all_funcs():
                self.fn_by_name.setdefault(x.id + "#%d" % x.node.lineno, x)
            f = self.fn_by_name.get(fid)
        return f

    def fid(self, f):
        k = f.id + "#%d" % f.node.lineno
        self.fn_by_name[k] = f
        return k

    def typeof(self, st, v):
        if not isinstance(v, tuple):
            return None
        t = st.facts.get(("type", v))
        if t:
            return self.class_by_id(t)
        if v[0] in ("self",):
            return self.class_by_id(v[1])
        if v[0] == "new":
            return self.class_by_id(v[2]) if ":" in v[2] else None
        if v[0] == "attr":
            c = self.typeof(st, v[1])
            if c is not None:
                a = self.model.find_annot(c, v[2])
                if a is not None:
                    return self.ann_class(a[0].module, a[1])
        if v[0] == "call" and isinstance(v[2], tuple) and v[2][0] in ("func", "bound"):
            f = self.func_by_id(v[2][1])
            if f is not None:
                r = getattr(f.node, "cy_ret", None)
                if r is None and f.node.returns is not None:
                    r = ast.unparse(f.node.returns)
                return self.ann_class(f.module, r)
        return None

    # ------------------------------------------------------------ names
    def lookup(self, st, name):
        f = self.func
        if name in st.env:
            return st.env[name]
        # enclosing function frames still on the stack; a closure built in a frame that has been left keeps its captures
        o = f.outer
        caps = st.env.get("$caps")
        while o is not None:
            for fid, env in reversed(st.outer):
                if fid == self.fid(o) and name in env:
                    return env[name]
            if caps:
                for n, v in caps[1]:
                    if n == name:
                        return v
                caps = None
            o = o.outer
        return self.global_value(f, name)

    def global_value(self, f, name):
        m = f.module
        r = self.model.resolve_name(m, name)
        if r is None and f.cls is not None:
            mn = mangle(f.cls.name, name)
            if mn != name:
                r = self.model.resolve_name(m, mn)
        if r is None and f.cls is not None and name == f.cls.name:
            r = f.cls
        return self.wrap_resolved(r, name)

    def wrap_resolved(self, r, name):
        if isinstance(r, Func):
            return ("func", self.fid(r))
        if isinstance(r, Class):
            x = self.client.glob(r.module.name, r.name)
            return x if x is not None else ("class", r.id)
        if isinstance(r, tuple):
            if r[0] == "module":
                return ("mod", r[1])
            if r[0] == "ext":
                return ("ext", r[1])
            if r[0] == "value":
                x = self.client.glob(r[1].name, r[2])
                if x is not None:
                    return x
                e = r[1].assigns.get(r[2])
                if self.client.kd and e is not None:
                    x = self.kd_fold(e, r[1])
                    if x is not None:
                        return x
                if isinstance(e, ast.Constant):
                    return const(e.value)
                if isinstance(e, ast.Attribute) or isinstance(e, ast.Name):
                    rr = self.model.resolve_dotted(r[1], ast.unparse(e))
                    if isinstance(rr, tuple) and rr[0] == "ext":
                        return ("ext", rr[1])
                    if rr is None and isinstance(e, ast.Name) and e.id in BUILTINS:
                        return ("ext", "builtins." + e.id)
                return ("glob", r[1].name, r[2])
        if name in BUILTINS:
            if name in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[name])
            return ("ext", "builtins." + name)
        if name == "NULL":
            return NONE     # compared and tested like None
        return ("ext", "?" + name)

    # ------------------------------------------------------------ statements
    def block(self, stmts, states):
        o = Out()
        cur = states
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                self.tick()
                r = self.stmt(s, st)
                nxt += r.normal
                o.absorb(r)
            cur = dedupe(nxt)
        o.normal = cur
        return o

    def stmt(self, s, st):
        self.nodes_done.add(id(s))
        return getattr(self, "x_" + type(s).__name__, self.x_unknown)(s, st)

    def x_unknown(self, s, st):
        raise AnalysisError("%s:%d: unsupported statement %s" % (self.func.module.rel, s.lineno, type(s).__name__))

    def simple(self, pairs, R):
        o = Out()
        o.normal = [s for s, _ in pairs]
        o.rse = R
        return o

    def x_Pass(self, s, st):
        o = Out(); o.normal = [st]; return o
    x_Global = x_Nonlocal = x_Pass

    def x_Expr(self, s, st):
        R = []
        if isinstance(s.value, ast.Constant):
            return self.x_Pass(s, st)
        return self.simple(self.ev(s.value, st, R), R)

    def x_Import(self, s, st):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            d = a.name if a.asname else a.name.split(".")[0]
            st = st.bind(n, self.wrap_resolved(self.model.resolve_abs(d), n))
        return self.x_Pass(s, st)

    def x_ImportFrom(self, s, st):
        mod = s.module or ""
        for a in s.names:
            if a.name != "*":
                st = st.bind(a.asname or a.name, self.wrap_resolved(self.model.resolve_abs(mod + "." + a.name), a.name))
        return self.x_Pass(s, st)

    def x_FunctionDef(self, s, st):
        f = self.func.module.nodes_func.get(id(s))
        v = self.closure(f, st)
        R = []
        outs = [(st, v)]
        for d in reversed(s.decorator_list):
            nxt = []
            for s1, val in outs:
                for s2, dv in self.ev(d, s1, R):
                    if dv[0] == "call" and dv[2] in (("ext", "functools.wraps"), ("ext", "functools.update_wrapper")):
                        nxt.append((s2, val))
                    else:
                        nxt += self.apply(s2, dv, [val], [], d, R)
            outs = nxt
        o = Out()
        o.normal = [s1.bind(s.name, val) for s1, val in outs]
        o.rse = R
        return o
    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st):
        return self.x_Pass(s, st.bind(s.name, ("localclass", s.name)))

    def closure(self, f, st):
        if f is None:
            raise AnalysisError("unindexed nested function in %s" % self.func.id)
        free = set()
        bound = set(a.arg for a in f.node.args.args + f.node.args.kwonlyargs + f.node.args.posonlyargs)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name):
                free.add(n.id)
        caps = []
        for n in sorted(free - bound):
            if n in st.env:
                caps.append((n, st.env[n]))
            elif self.func.outer is not None or "$caps" in st.env:
                c = st.env.get("$caps")
                got = dict(c[1]).get(n) if c else None
                if got is not None:
                    caps.append((n, got))
        caps = tuple((n, trim(v, 8)) for n, v in caps if v[0] != "$caps")
        return ("fn", self.fid(f), caps)

    def x_Return(self, s, st):
        o = Out()
        R = []
        if s.value is None:
            outs = [(st, NONE)]
        else:
            outs = self.ev(s.value, st, R)
        for s1, v in outs:
            for s2 in self.emit(s1, "return", s, value=v)[0]:
                o.ret.append((s2, v))
        o.rse = R
        return o

    def x_Break(self, s, st):
        o = Out(); o.brk = [st]; return o

    def x_Continue(self, s, st):
        o = Out(); o.cont = [st]; return o

    def x_Raise(self, s, st):
        o = Out()
        R = []
        if s.exc is None:
            cur = st.env.get("$exc", ("exc", "RuntimeError", "no active exception"))
            for s1 in self.emit(st, "raise", s, exc=cur, reraise=True)[0]:
                o.rse.append((self.note(s1, s, "re-raise %s" % show(cur)), cur))
            return o
        for s1, v in self.ev(s.exc, st, R):
            pairs = [(s1, NONE)]
            if s.cause is not None:
                pairs = self.ev(s.cause, s1, R)
            for s2, c in pairs:
                e = v
                if e[0] in ("class",) or (e[0] == "ext"):
                    e = ("new", self.site(s), e[1], (), ())
                for s3 in self.emit(s2, "raise", s, exc=e, reraise=False, cause=c)[0]:
                    o.rse.append((self.note(s3, s, "raise %s" % show(e)), e))
        o.rse += R
        return o

    def x_Assert(self, s, st):
        o = Out()
        R = []
        for s1, b in self.cond(s.test, st, R):
            if b:
                o.normal.append(s1)
            else:
                o.rse.append((self.note(s1, s, "assertion fails"), ("new", self.site(s), "builtins.AssertionError", (), ())))
        o.rse += R
        return o

    def x_Delete(self, s, st):
        R = []
        cur = [st]
        for t in s.targets:
            nxt = []
            for s1 in cur:
                if isinstance(t, ast.Name):
                    e = dict(s1.env)
                    e.pop(t.id, None)
                    nxt.append(s1.but(env=e))
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s1, R):
                        for s3, i in self.ev(t.slice, s2, R):
                            c = self.typeof(s3, b) if b[0] == "kd" else None
                            m = self.model.find_method(c, "__delitem__") if c is not None else None
                            if m is not None and self.can_inline(m):
                                nxt += [s4 for s4, _ in self.inline(s3, m, b, [i], [], t, R)]
                                continue
                            l, ev = self.emit(s3, "delitem", t, base=b, index=i)
                            for s4 in l:
                                self.raise_points(s4, ev, R)
                                if b[0] == "kd" and self.kd_get(s4, b) is not None:
                                    for s5, _ in self.kd_item(s4, b, i, t, R):
                                        nxt.append(self.kd_del(s5, b, i))
                                    continue
                                nxt.append(self.kill_base(s4, b))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s1, R):
                        nxt += self.emit(s2, "delattr", t, base=b, name=self.mg(t.attr))[0]
                else:
                    nxt.append(s1)
            cur = nxt
        o = Out()
        o.normal = cur
        o.rse = R
        return o

    def x_Assign(self, s, st):
        R = []
        o = Out()
        for s1, v in self.ev(s.value, st, R):
            s1, v = self.as_cell(s, s.targets, v, s1)
            cur = [s1]
            for t in s.targets:
                nxt = []
                for s2 in cur:
                    nxt += self.assign(t, v, s2, R, s)
                cur = nxt
            o.normal += cur
        o.rse = R
        return o

    def x_AnnAssign(self, s, st):
        if s.value is None:
            if getattr(s, "cy_decl", False) and isinstance(s.target, ast.Name):
                c = self.ann_class(self.func.module, s.annotation.value)
                if c is not None:
                    return self.x_Pass(s, st.bind("$t:" + s.target.id, ("typ", c.id)))
            return self.x_Pass(s, st)
        R = []
        o = Out()
        for s1, v in self.ev(s.value, st, R):
            if getattr(s, "cy_decl", False):
                c = self.ann_class(self.func.module, s.annotation.value)
                if c is not None and not is_const(v):
                    s1 = s1.fact(("type", v), c.id)
            s1, v = self.as_cell(s, [s.target], v, s1)
            o.normal += self.assign(s.target, v, s1, R, s)
        o.rse = R
        return o

    def x_AugAssign(self, s, st):
        R = []
        o = Out()
        op = type(s.op).__name__
        for s1, old in self.ev_target_load(s.target, st, R):
            for s2, v in self.ev(s.value, s1, R):
                new = self.fold(op, old, v) if self.client.kd else None
                o.normal += self.assign(s.target, new or trim(("binop", op, old, v)), s2, R, s, aug=(op, v))
        o.rse = R
        return o

    def ev_target_load(self, t, st, R):
        return self.ev(t, st, R)

    def as_cell(self, node, targets, v, st):
        """A container display bound to a variable that is changed later (or handed to a function) is an object with
        an identity and unknown contents, not a constant."""
        if v[0] not in ("list", "dict", "set") or (v[0] == "dict" and v[1]):
            return st, v
        if not all(isinstance(t, ast.Name) for t in targets) or not any(t.id in self.changed_names(self.func) for t in targets):
            return st, v
        if self.client.kd and v[0] != "dict" and not any(x[0] == "star" for x in v[1]) and len(v[1]) <= 12:
            return self.kl_new(st, ("cell", self.site(node), len(self.stack)), v[0], v[1])
        c = trim(("cell", self.site(node), v))
        st = self.kill_value(st, c)
        if not any(x[0] == "star" for x in v[1]):
            st = st.fact(("truthy", c), len(v[1]) > 0)
        return st, c

    def changed_names(self, f):
        r = self._changed.get(f)
        if r is None:
            r = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                        r.add(n.func.value.id)
                    if not (isinstance(n.func, ast.Name) and n.func.id in PURE):
                        r.update(a.id for a in n.args if isinstance(a, ast.Name))
                        r.update(k.value.id for k in n.keywords if k.arg and isinstance(k.value, ast.Name))
                elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                    r.add(n.value.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    r.add(n.target.id)
            self._changed[f] = r
        return r

    def mg(self, name):
        c = self.func.cls
        return mangle(c.name, name) if c is not None else name

    def kill_attr(self, st, name, base=None):
        # with kd, objects of different known origin are different objects
        known = ("self", "new", "tok") if self.client.kd and base is not None and base[0] in ("self", "new", "tok") else ()
        facts = {a: b for a, b in st.facts.items() if a[0] == "type" or not mentions_attr(a, name)}
        heap = {a: b for a, b in st.heap.items() if a[0] == "kd" or (a[2] != name or a[1] != base and a[1][0] in known)
                and not mentions_attr(b, name) and not mentions_attr(a[1], name)}
        if len(facts) != len(st.facts) or len(heap) != len(st.heap):
            return st.but(facts=facts, heap=heap)
        return st

    def kill_base(self, st, base):
        """The object denoted by base was mutated: forget what is known about its contents."""
        facts = {a: b for a, b in st.facts.items() if a[0] in ("type", "is") or not contains(a, base)}
        if len(facts) != len(st.facts):
            return st.but(facts=facts)
        return st

    def kill_value(self, st, v):
        facts = {a: b for a, b in st.facts.items() if a[0] == "type" and v[0] in ("kd", "kl") or not contains(a, v)}
        if len(facts) != len(st.facts):
            return st.but(facts=facts)
        return st

    def suspend(self, st):
        """An await: other tasks run; forget mutable attribute contents."""
        if self.keep_heap:
            return st
        facts = {a: b for a, b in st.facts.items() if a[0] == "type" or not self.mutable(a)}
        heap = {a: b for a, b in st.heap.items() if a[0] == "kd" or a[2] in self.attr_stable}
        return st.but(facts=facts, heap=heap)

    def mutable(self, a):
        if not isinstance(a, tuple):
            return False
        if a and a[0] == "attr" and len(a) == 3:
            if a[2] not in self.attr_stable:
                return True
        if a and a[0] == "glob":
            return True
        return any(self.mutable(x) for x in a if isinstance(x, tuple))

    def assign(self, t, v, st, R, node, aug=None):
        if isinstance(t, ast.Name):
            f = self.func
            tc = st.env.get("$t:" + t.id)
            if tc is not None and not is_const(v):
                st = st.fact(("type", v), tc[1])
            if self.is_nonlocal(f, t.id):
                out = []
                o = f.outer
                for i in range(len(st.outer) - 1, -1, -1):
                    fid, env = st.outer[i]
                    if o is not None and t.id in env:
                        e = dict(env); e[t.id] = v
                        outer = st.outer[:i] + ((fid, e),) + st.outer[i + 1:]
                        return self.emit(st.but(outer=outer), "nonlocal", node, name=t.id, value=v, aug=aug)[0]
                return self.emit(st.bind(t.id, v), "nonlocal", node, name=t.id, value=v, aug=aug)[0]
            if self.is_global(f, t.id):
                return self.emit(st, "global", node, name=t.id, value=v, aug=aug)[0]
            l = self.emit(st.bind(t.id, v), "assign", node, name=t.id, value=v, aug=aug)[0]
            return l
        if isinstance(t, ast.Attribute):
            out = []
            for s1, b in self.ev(t.value, st, R):
                name = self.mg(t.attr)
                c = self.typeof(s1, b)
                if c is not None:
                    setter = self.model.find_setter(c, name)
                    if setter is not None and self.client.inline_property(setter):
                        for s2, _ in self.inline(s1, setter, b, [v], [], node, R):
                            out.append(s2)
                        continue
                l, ev = self.emit(s1, "store", node, base=b, name=name, value=v, aug=aug)
                for s2 in l:
                    self.raise_points(s2, ev, R)
                    s3 = self.kill_attr(s2, name, b)
                    h = dict(s3.heap)
                    h[("attr", b, name)] = v
                    out.append(s3.but(heap=h))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s1, b in self.ev(t.value, st, R):
                for s2, i in self.ev(t.slice, s1, R):
                    c = self.typeof(s2, b) if b[0] == "kd" else None
                    m = self.model.find_method(c, "__setitem__") if c is not None else None
                    if m is not None and self.can_inline(m):
                        out += [s3 for s3, _ in self.inline(s2, m, b, [i, v], [], node, R)]
                        continue
                    l, ev = self.emit(s2, "setitem", node, base=b, index=i, value=v, aug=aug)
                    for s3 in l:
                        self.raise_points(s3, ev, R)
                        if b[0] == "kl":
                            s3 = self.kl_drop(s3, b)
                        if b[0] == "kd" and self.kd_get(s3, b) is not None:
                            out.append(self.kd_store(s3, b, i, v))
                            continue
                        out.append(self.kill_base(s3, b))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            elts = None
            if v[0] == "kl" and self.kl_get(st, v) is not None:
                v = ("list", self.kl_get(st, v)[1])
            if (v[0] in ("tuple", "list", "vararg") or v[0] == "set" and len(v[1]) == 1) and len(v[1]) == len(t.elts) and not any(x[0] == "star" for x in v[1]):
                elts = v[1]
            cur = [st]
            for i, x in enumerate(t.elts):
                nxt = []
                starred = isinstance(x, ast.Starred)
                val = elts[i] if elts and not starred else (("rest", v, i) if starred else self.item(v, const(i)))
                for s1 in cur:
                    nxt += self.assign(x.value if starred else x, val, s1, R, node)
                cur = nxt
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, ("rest", v, 0), st, R, node)
        raise AnalysisError("%s:%d: unsupported assignment target" % (self.func.module.rel, node.lineno))

    def is_nonlocal(self, f, name):
        return name in self.decl(f)[1]

    def is_global(self, f, name):
        return name in self.decl(f)[0]

    def decl(self, f):
        d = getattr(f, "_decl", None)
        if d is None:
            g, n = set(), set()
            if not f.is_lambda:
                from .model import own_nodes
                for x in own_nodes(f.node):
                    if isinstance(x, ast.Global):
                        g |= set(x.names)
                    elif isinstance(x, ast.Nonlocal):
                        n |= set(x.names)
            d = f._decl = (g, n)
        return d

    def item(self, v, i):
        if v[0] in ("tuple", "list", "vararg") and is_const(i) and isinstance(cval(i), int):
            k = cval(i)
            if -len(v[1]) <= k < len(v[1]) and not any(x[0] == "star" for x in v[1]):
                return v[1][k]
        if v[0] in ("tuple", "list") and isinstance(slice_of(i), slice) and not any(x[0] == "star" for x in v[1]):
            return (v[0], tuple(v[1][slice_of(i)]))
        if v[0] == "dict":
            for a, b in v[1]:
                if a == i:
                    return b
        # zip/enumerate/items element structure
        if v[0] == "elem" and is_const(i) and isinstance(cval(i), int):
            src = v[1]
            if src[0] == "call" and src[2] == ("ext", "builtins.zip") and 0 <= cval(i) < len(src[3]) \
                    and not any(a[0] == "star" for a in src[3]):
                return trim(("elem", src[3][cval(i)], v[2]))
            if src[0] == "call" and src[2] == ("ext", "builtins.enumerate") and cval(i) == 1:
                return trim(("elem", src[3][0], v[2]))
        return trim(("item", v, i))

    def x_If(self, s, st):
        o = Out()
        R = []
        t, f = [], []
        for s1, b in self.cond(s.test, st, R):
            s1 = self.note(s1, s, "%s -> %s" % (short(s.test), b))
            (t if b else f).append(s1)
        for states, body in ((t, s.body), (f, s.orelse)):
            if states:
                r = self.block(body, dedupe(states))
                o.absorb(r, True)
        o.normal = dedupe(o.normal)
        o.rse += R
        return o

    def prune(self, st):
        """Drop facts about site values nothing refers to any more (keeps the state space small)."""
        live = set()
        for v in st.env.values():
            live.update(subterms(v))
        for _, e in st.outer:
            for v in e.values():
                live.update(subterms(v))
        for a, v in st.heap.items():
            live.update(subterms(v))
        keep = {}
        for a, b in st.facts.items():
            ok = True
            for x in subterms(a):
                if x and x[0] in ("call", "elem", "coro", "gen", "new", "next", "awaited", "enter") and x not in live:
                    ok = False
                    break
            if ok:
                keep[a] = b
        if len(keep) != len(st.facts):
            return st.but(facts=keep)
        return st

    def loop(self, heads, step, o):
        """heads: states at loop head. step(st) -> (exit states, body-entry states, body fn, raises)."""
        seen, work, exits = set(), list(heads), []
        while work:
            st = self.prune(work.pop())
            k = st.key()
            if k in seen:
                continue
            seen.add(k)
            self.tick()
            ex, nxt, r = step(st)
            exits += ex
            work += nxt
            if r is not None:
                o.absorb_loop(r) if hasattr(o, "absorb_loop") else None
        return exits

    def x_While(self, s, st):
        o = Out()
        brks = []

        def step(h):
            R = []
            ex, bodies = [], []
            for s1, b in self.cond(s.test, h, R):
                s1 = self.note(s1, s, "while %s -> %s" % (short(s.test), b))
                (bodies if b else ex).append(s1)
            o.rse.extend(R)
            nxt = []
            if bodies:
                r = self.block(s.body, dedupe(bodies))
                o.ret.extend(r.ret)
                o.rse.extend(r.rse)
                brks.extend(r.brk)
                nxt = r.normal + r.cont
            return ex, nxt, None
        exits = self.loop([st], step, o)
        return self.loop_end(s, exits, brks, o)

    def loop_end(self, s, exits, brks, o):
        exits = dedupe(exits)
        if s.orelse:
            r = self.block(s.orelse, exits)
            o.absorb(r)
            exits = r.normal
        o.normal = dedupe(exits + brks)
        o.ret = dedupe2(o.ret)
        o.rse = dedupe2(o.rse)
        return o

    def x_For(self, s, st):
        o = Out()
        R = []
        for s1, it in self.ev(s.iter, st, R):
            o.absorb(self.for_over(s, s1, it, isinstance(s, ast.AsyncFor)), True)
        o.rse += R
        o.normal = dedupe(o.normal)
        return o
    x_AsyncFor = x_For

    def for_over(self, s, st, it, is_async, body=None):
        """Iterate `it`, binding s.target. body: override callable(states)->Out (comprehensions)."""
        o = Out()
        run = body or (lambda states: self.block(s.body, states))
        orelse = getattr(s, "orelse", [])
        l, ev = self.emit(st, "iter", s, value=it, is_async=is_async)
        res = []
        for st in l:
            for st, it in self.iter_object(st, it, is_async, o.rse, s):
                self.for_over1(s, st, it, is_async, run, o, res, hasattr(s, "target"))
        allb, alle = [], []
        for e, b in res:
            alle += e
            allb += b
        alle = dedupe(alle)
        if orelse:
            r = self.block(orelse, alle)
            o.absorb(r)
            alle = r.normal
        o.normal = dedupe(alle + allb)
        o.ret, o.rse = dedupe2(o.ret), dedupe2(o.rse)
        return o

    def iter_object(self, st, it, is_async, R, node):
        """what `for` gets from the `__iter__`/`__aiter__` of an instance of a class of the library (opt-in: client.iter_objects)"""
        if self.client.iterator is not None:
            r = self.client.iterator(st, it, is_async)
            if r is not None:
                return [r]
        m = self.object_method(st, it, "__aiter__" if is_async else "__iter__")
        if m is None:
            return [(st, it)]
        out = []
        for s2, v in self.apply(st, ("bound", self.fid(m), it), [], [], node, R):
            out += [(s2, v)] if v == it else self.iter_object(s2, v, is_async, R, node)
        return out

    def object_method(self, st, v, name):
        if not self.client.iter_objects or v[0] not in ("new", "self", "param", "attr", "tok"):
            return None
        c = self.typeof(st, v)
        m = self.model.find_method(c, name) if c is not None else None
        return m if m is not None and self.can_inline(m) else None

    def known_iterator(self, st, v):
        c = self.kl_get(st, v) if self.client.iter_objects else None
        return c is not None and c[2] == "iter"

    def iterable(self, st, v, is_async):
        """can what `v` gives be known?"""
        return v[0] == "gen" or self.kd_literal(st, v) is not None or self.stepped(st, v, is_async) or self.object_method(st, v, "__aiter__" if is_async else "__iter__") is not None \
            or self.client.iterator is not None and self.client.iterator(st, v, is_async) is not None

    def iter_step(self, st, it, is_async):
        """one step of an iterator whose items are known: [(state, "item" | "end" | "raise", value)], or None"""
        if not is_async and self.known_iterator(st, it):
            xs = self.kl_get(st, it)[1]
            return [(self.kl_new(st, it[1], "iter", xs[1:])[0], "item", xs[0])] if xs else [(st, "end", None)]
        if self.client.step is not None:
            r = self.client.step(st, it, is_async)
            if r is not None:
                return r
        m = self.object_method(st, it, "__anext__" if is_async else "__next__")
        if m is None:
            return None
        end = "StopAsyncIteration" if is_async else "StopIteration"
        R, out = [], []
        for s2, v in self.apply(st, ("bound", self.fid(m), it), [], [], m.node, R):
            if is_async:
                out += [(s3, "item", x) for s3, x in self.do_await(s2, v, m.node, R)]
            else:
                out.append((s2, "item", v))
        for s2, x in R:
            cs, exact = self.exc_classes(x)
            out.append((s2, "end", None) if exact and end in cs else (s2, "raise", x))
        return out

    def stepped(self, st, it, is_async):
        return not is_async and self.known_iterator(st, it) or self.client.step is not None and self.client.step(st, it, is_async) is not None or self.object_method(st, it, "__anext__" if is_async else "__next__") is not None

    def for_over1(self, s, st, it, is_async, run, o, res, has_target):
        for st in [st]:
            if it[0] == "gen":
                g = self.for_gen(s, st, it, run, o)
                if g is not None:
                    res += g
                    continue
            if self.stepped(st, it, is_async):
                cur, brks, ends = [st], [], []
                for _ in range(16):
                    nxt = []
                    for s1 in cur:
                        for s1 in self.emit(s1, "next", s, value=it, is_async=is_async, elem=None)[0]:
                            for s2, what, v in self.iter_step(s1, it, is_async):
                                if what == "raise":
                                    o.rse.append((self.note(s2, s, "%s raises %s" % (show(it)[:60], show(v))), v))
                                elif what == "end":
                                    ends.append(s2)
                                else:
                                    for s3 in self.assign(s.target, v, s2, o.rse, s):
                                        r = run([s3])
                                        o.ret += r.ret
                                        o.rse += r.rse
                                        brks += r.brk
                                        nxt += r.normal + r.cont
                    cur = dedupe(nxt)
                    if not cur:
                        break
                else:
                    raise AnalysisError("%s: iteration of %s does not end" % (self.func.id, show(it)))
                res.append((ends, brks))
                continue
            if (it[0] in ("kd", "kl") or it[0] == "call" and self.client.kd) and self.kd_literal(st, it) is not None:
                it = ("tuple", tuple(self.kd_literal(st, it)))
            if it[0] in ("tuple", "list", "vararg", "set") and len(it[1]) <= self.unroll_tuple \
                    and not any(x[0] == "star" for x in it[1]):
                cur, brks = [st], []
                for x in it[1]:
                    nxt = []
                    for s1 in cur:
                        for s2 in self.assign(s.target, x, s1, o.rse, s):
                            r = run([s2])
                            o.ret += r.ret
                            o.rse += r.rse
                            brks += r.brk
                            nxt += r.normal + r.cont
                    cur = dedupe(nxt)
                res.append((cur, brks))
                continue
            brks = []
            site = self.site(s.target) if has_target else self.site(s)
            elem = trim(("elem", it, site))
            if it[0] == "call" and it[2] == ("ext", "builtins.zip") and it[3] and not any(a[0] == "star" for a in it[3]):
                elem = trim(("tuple", tuple(("elem", a, site) for a in it[3])))
            elif it[0] == "call" and it[2] == ("ext", "builtins.enumerate") and it[3]:
                elem = trim(("tuple", (("index", it[3][0], site), ("elem", it[3][0], site))))
            elif it[0] == "call" and it[2][0] == "attr" and it[2][2] == "items" and not it[3]:
                elem = trim(("tuple", (("key", it[2][1], site), ("val", it[2][1], site))))

            first = [True]
            known = self.decide(st, it) if it[0] in ("attr", "param", "call", "item", "elem", "glob", "cell") else None

            def step(h):
                R = []
                l2, ev2 = self.emit(h, "next", s, value=it, is_async=is_async, elem=elem)
                ex, nxt = [], []
                is_first, first[0] = first[0], False
                for h1 in l2:
                    self.raise_points(h1, ev2, R)
                    if is_async:
                        h1 = self.suspend(h1)
                    if not (is_first and known is True):
                        ex += self.emit(self.note(h1, s, "loop over %s ends" % show(it)[:60]), "iter_end", s, value=it)[0]
                    if is_first and known is False:
                        continue
                    h2 = self.kill_value(h1, elem)
                    for s2 in self.assign(s.target, elem, self.note(h2, s, "loop over %s: next" % show(it)[:60]), R, s):
                        r = run([s2])
                        o.ret.extend(r.ret)
                        o.rse.extend(r.rse)
                        brks.extend(r.brk)
                        nxt += r.normal + r.cont
                o.rse.extend(R)
                return ex, nxt, None
            exits = self.loop([st], step, o)
            res.append((exits, brks))

    # iteration over an inlined generator function: each yield runs the consumer's loop body
    def for_gen(self, s, st, it, run, o):
        _, site, fv, args, kw = it
        f, selfv, caps = self.target(fv)
        if f is None or not self.can_inline(f):
            return None
        brks = []
        caller = self.func

        def on_yield(gst, val, node):
            """gst: state inside generator frame. Returns (normal gen states, raised)"""
            fid, env = gst.outer[-1]
            genenv = gst.env
            cst = gst.but(env=env, outer=gst.outer[:-1])
            saved = self.stack
            self.stack = self.stack[:-1]
            hs = self.gen_handlers
            self.gen_handlers = hs[:-1]
            normal, raised = [], []
            try:
                for s2 in self.assign(s.target, val, cst, o.rse, s):
                    r = run([s2])
                    for x in r.normal + r.cont:
                        normal.append(x.but(env=genenv, outer=x.outer + ((fid, x.env),)))
                    for x in r.brk:
                        raised.append((x.but(env=genenv, outer=x.outer + ((fid, x.env),)), ("$gen", "brk")))
                    for x, v in r.ret:
                        raised.append((x.but(env=genenv, outer=x.outer + ((fid, x.env),)), ("$gen", "ret", v)))
                    for x, v in r.rse:
                        raised.append((x.but(env=genenv, outer=x.outer + ((fid, x.env),)), ("$gen", "rse", v)))
            finally:
                self.stack = saved
                self.gen_handlers = hs
            return normal, raised
        envs = self.bind_args(f, selfv, args, kw, st, caps)
        fr = st.but(env=envs, outer=st.outer + ((self.fid(caller), st.env),))
        self.stack = self.stack + [f]
        self.gen_handlers = self.gen_handlers + [on_yield]
        try:
            self.inlined[f.id] = self.inlined.get(f.id, 0) + 1
            r = self.exec_body(f, fr)
        finally:
            self.stack = self.stack[:-1]
            self.gen_handlers = self.gen_handlers[:-1]

        def pop(x):
            fid, env = x.outer[-1]
            return x.but(env=env, outer=x.outer[:-1])
        exits = [pop(x) for x, v in r.ret]
        for x, e in r.rse:
            y = pop(x)
            if e[0] == "$gen":
                if e[1] == "brk":
                    brks.append(y)
                elif e[1] == "ret":
                    o.ret.append((y, e[2]))
                else:
                    o.rse.append((y, e[2]))
            else:
                o.rse.append((y, e))
        return [(exits, brks)]

    def x_Try(self, s, st):
        o = Out()
        body = self.block(s.body, [st])
        inner = Out()
        inner.brk, inner.cont, inner.ret = list(body.brk), list(body.cont), list(body.ret)
        # else
        if s.orelse:
            r = self.block(s.orelse, body.normal)
            inner.absorb(r, True)
        else:
            inner.normal = list(body.normal)
        # handlers
        for s1, e in dedupe2(body.rse):
            if e[0] == "$gen":
                inner.rse.append((s1, e))
                continue
            pend = [(s1, e)]
            for h in s.handlers:
                nxt = []
                for s2, ex in pend:
                    for s3, m in self.match_handler(h, s2, ex, inner.rse):
                        if m:
                            s4 = self.note(s3, h, "caught %s" % show(ex))
                            saved = s4.env.get("$exc")
                            s5 = s4.bind("$exc", ex)
                            if h.name:
                                s5 = s5.bind(h.name, ex)
                            for s6 in self.emit(s5, "except", h, exc=ex)[0]:
                                r = self.block(h.body, [s6])
                                for lst in (r.normal, r.brk, r.cont):
                                    lst[:] = [self.restore_exc(x, saved, h.name) for x in lst]
                                r.ret = [(self.restore_exc(x, saved, h.name), v) for x, v in r.ret]
                                r.rse = [(self.restore_exc(x, saved, h.name), v) for x, v in r.rse]
                                inner.absorb(r, True)
                        else:
                            nxt.append((s3, ex))
                pend = nxt
            inner.rse += pend
        if not s.finalbody:
            inner.normal = dedupe(inner.normal)
            inner.rse = dedupe2(inner.rse)
            return inner
        # finally: run on every outcome
        def fin(states_vals, put):
            for x, v in states_vals:
                r = self.block(s.finalbody, [x])
                o.brk += r.brk
                o.cont += r.cont
                o.ret += r.ret
                o.rse += r.rse
                for y in r.normal:
                    put(y, v)
        fin([(x, None) for x in dedupe(inner.normal)], lambda y, v: o.normal.append(y))
        fin([(x, None) for x in dedupe(inner.brk)], lambda y, v: o.brk.append(y))
        fin([(x, None) for x in dedupe(inner.cont)], lambda y, v: o.cont.append(y))
        fin(dedupe2(inner.ret), lambda y, v: o.ret.append((y, v)))
        for x, e in dedupe2(inner.rse):
            saved = x.env.get("$exc")
            z = x.bind("$exc", e) if e[0] != "$gen" else x
            fin([(z, e)], lambda y, v: o.rse.append((self.restore_exc(y, saved, None), v)))
        o.normal = dedupe(o.normal)
        return o
    x_TryStar = x_unknown

    def restore_exc(self, st, saved, name):
        e = dict(st.env)
        if saved is None:
            e.pop("$exc", None)
        else:
            e["$exc"] = saved
        if name:
            e.pop(name, None)
        return st.but(env=e)

    # -- exception matching
    def exc_classes(self, e):
        """-> (list of ancestor simple names incl. itself, exact?)"""
        if e[0] == "exc":
            n = e[1]
        elif e[0] == "new":
            n = e[2]
        elif e[0] == "class":
            n = e[1]
        elif e[0] == "ext":
            n = e[1]
        elif e[0] == "call" and e[2][0] == "ext" and builtin_mro(e[2][1].split(".")[-1]):
            n = e[2][1]
        else:
            return ["Exception", "BaseException"], False
        return self.exc_name_mro(n)

    def exc_name_mro(self, n):
        exact = not n.endswith("?")
        n = n.rstrip("?")
        if ":" in n:
            c = self.class_by_id(n)
            out = []
            for k in self.model.mro(c):
                out.append(k.name)
                for b in self.model.bases(k):
                    if isinstance(b, tuple):
                        out += [x for x in self.exc_name_mro(b[1])[0]]
                    elif not isinstance(b, Class):
                        pass
                for b in k.base_exprs:
                    t = ast.unparse(b)
                    m = builtin_mro(t)
                    if m:
                        out += m
            res = []
            for x in out:
                if x not in res:
                    res.append(x)
            return res, exact
        simple = n.split(".")[-1]
        m = builtin_mro(simple)
        if m:
            return m, exact
        if simple in _EXTRA:
            return [simple] + _EXTRA[simple], exact
        return [simple, "Exception", "BaseException"], exact

    def match_handler(self, h, st, exc, R):
        if h.type is None:
            return [(st, True)]
        out = []
        for s1, t in self.ev(h.type, st, R):
            ts = t[1] if t[0] in ("tuple",) else (t,)
            res = "no"
            for x in ts:
                r = self.exc_match(exc, x)
                if r == "yes":
                    res = "yes"
                    break
                if r == "maybe":
                    res = "maybe"
            if res == "maybe":
                known = s1.facts.get(("excmatch", exc, t))
                if known is not None:
                    out.append((s1, known))
                else:
                    out.append((s1.fact(("excmatch", exc, t), True), True))
                    out.append((s1.fact(("excmatch", exc, t), False), False))
            else:
                out.append((s1, res == "yes"))
        return out

    def exc_match(self, exc, t):
        if t[0] not in ("ext", "class"):
            return "maybe"
        hn, _ = self.exc_name_mro(t[1])
        hname = hn[0]
        anc, exact = self.exc_classes(exc)
        if hname in anc:
            return "yes"
        if exact:
            return "no"
        # exc is an unknown subclass of anc[0]
        return "maybe" if anc[0] in hn else "no"

    def x_With(self, s, st):
        is_async = isinstance(s, ast.AsyncWith)

        def rec(i, st):
            if i == len(s.items):
                return self.block(s.body, [st])
            it = s.items[i]
            o = Out()
            R = []
            for s1, cm in self.ev(it.context_expr, st, R):
                supp = None
                if cm[0] == "call" and cm[2] in (("ext", "contextlib.suppress"),):
                    supp = cm[3]
                c = self.typeof(s1, cm)
                en = self.model.find_method(c, "__aenter__" if is_async else "__enter__") if c is not None else None
                ex = self.model.find_method(c, "__aexit__" if is_async else "__exit__") if c is not None else None
                inl = en is not None and ex is not None and self.can_inline(en) and self.can_inline(ex)
                if inl:
                    ents = self.inline(s1, en, cm, [], [], it.context_expr, R)
                else:
                    l, ev = self.emit(s1, "enter", s, cm=cm, is_async=is_async)
                    ents = []
                    for s2 in l:
                        self.raise_points(s2, ev, R)
                        if is_async:
                            s2 = self.suspend(s2)
                        ents.append((s2, trim(("enter", cm))))
                entered = []
                for s2, v in ents:
                    s2s = self.emit(s2, "entered", s, cm=cm, is_async=is_async)[0]
                    for s3 in s2s:
                        if it.optional_vars is not None:
                            entered += self.assign(it.optional_vars, v, s3, R, s)
                        else:
                            entered.append(s3)
                for s2 in dedupe(entered):
                    b = rec(i + 1, s2)

                    def leave(x, exc):
                        if inl:
                            RR = []
                            a = [NONE] * 3 if exc is None else [("call", "exc", ("ext", "builtins.type"), (exc,), ()), exc, ("tb",)]
                            outs = self.inline(x, ex, cm, a, [], s, RR)
                            o.rse.extend(RR)
                            res = []
                            for y, v in outs:
                                res.append((y, self.truth_known(y, v)))
                            return res
                        l, ev = self.emit(x, "exit", s, cm=cm, exc=exc, is_async=is_async)
                        res = []
                        for y in l:
                            self.raise_points(y, ev, o.rse)
                            if is_async:
                                y = self.suspend(y)
                            res.append((y, None))
                        return res
                    for x in b.normal:
                        o.normal += [y for y, _ in leave(x, None)]
                    for x in b.brk:
                        o.brk += [y for y, _ in leave(x, None)]
                    for x in b.cont:
                        o.cont += [y for y, _ in leave(x, None)]
                    for x, v in b.ret:
                        o.ret += [(y, v) for y, _ in leave(x, None)]
                    for x, e in b.rse:
                        for y, sup in leave(x, None if e[0] == "$gen" else e):
                            if sup is True and e[0] != "$gen":
                                o.normal.append(y)
                                continue
                            if supp is not None and e[0] != "$gen":
                                res = [self.exc_match(e, t) for t in supp]
                                if "yes" in res or "maybe" in res:
                                    for z in self.emit(self.note(y, s, "suppressed %s" % show(e)), "except", s, exc=e)[0]:
                                        o.normal.append(z)
                                if "yes" in res:
                                    continue
                            o.rse.append((y, e))
            o.rse += R
            o.normal = dedupe(o.normal)
            return o
        return rec(0, st)
    x_AsyncWith = x_With

    def x_Match(self, s, st):
        return self.x_unknown(s, st)

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, R):
        """-> list of (state, bool)"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur, out = [st], []
            for i, x in enumerate(e.values):
                nxt = []
                for s1 in cur:
                    for s2, b in self.cond(x, s1, R):
                        if b == is_and and i < len(e.values) - 1:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st, R)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # chained: a < b < c
            out = []
            parts = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                c = ast.Compare(left, [op], [r])
                ast.copy_location(c, e)
                parts.append(c)
                left = r
            b = ast.BoolOp(ast.And(), parts)
            ast.copy_location(b, e)
            return self.cond(b, st, R)
        if isinstance(e, ast.IfExp):
            out = []
            for s1, b in self.cond(e.test, st, R):
                out += self.cond(e.body if b else e.orelse, s1, R)
            return out
        out = []
        for s1, v in self.ev(e, st, R):
            out += self.branch(s1, v)
        return out

    def truth_known(self, st, v):
        r = self.decide(st, v)
        return r

    def decide(self, st, v):
        """True/False/None for truth of v in st, without forking."""
        if is_const(v):
            return bool(cval(v)) if v[1] != "ellipsis" else True
        k = v[0]
        if k == "tok" and self.client.truthy is not None:
            r = self.client.truthy(v)
            if r is not None:
                return r
        if k == "not":
            r = self.decide(st, v[1])
            return None if r is None else not r
        if k in ("tuple", "list", "set", "vararg"):
            if not any(x[0] in ("star",) for x in v[1]):
                return len(v[1]) > 0
            if any(x[0] != "star" for x in v[1]):
                return True
            if len(v[1]) == 1:
                return self.decide(st, v[1][0][1])
            return None
        if k == "dict":
            if not v[1]:
                return False
            return True
        if k in ("fn", "func", "class", "bound", "mod", "coro", "gen", "self"):
            if k == "self":
                return None
            return True
        if k == "exc":
            return True
        if k == "kl":
            c = self.kl_get(st, v)
            return st.facts.get(("truthy", v)) if c is None else len(c[1]) > 0
        if k == "kd":
            c = self.kd_get(st, v)
            if c is not None and c[1]:
                return True
            if c is not None and not c[2]:
                return False
            return st.facts.get(("truthy", v))
        if k == "cmp":
            return self.decide_cmp(st, v)
        r = st.facts.get(("truthy", v))
        if r is not None:
            return r
        if st.facts.get(("is", v, NONE)) is True:
            return False
        if st.facts.get(("is", v, FALSE)) is True or st.facts.get(("eq", v, FALSE)) is True:
            return False
        if st.facts.get(("is", v, TRUE)) is True:
            return True
        return None

    def norm_cmp(self, v):
        """canonical atom and polarity for a comparison value"""
        _, op, l, r = v
        if op in ("Is", "IsNot"):
            a = ("is", l, r) if not is_const(l) or is_const(r) else ("is", r, l)
            return a, op == "Is"
        if op in ("Eq", "NotEq"):
            a = ("eq", l, r) if (is_const(r) or not is_const(l)) else ("eq", r, l)
            if not is_const(a[2]) and repr(a[1]) > repr(a[2]):
                a = ("eq", a[2], a[1])
            return a, op == "Eq"
        if op == "Lt":
            return ("lt", l, r), True
        if op == "GtE":
            return ("lt", l, r), False
        if op == "Gt":
            return ("lt", r, l), True
        if op == "LtE":
            return ("lt", r, l), False
        if op in ("In", "NotIn"):
            return ("in", l, r), op == "In"
        return ("cmp", op, l, r), True

    def decide_cmp(self, st, v):
        a, pol = self.norm_cmp(v)
        r = self.decide_atom(st, a)
        return None if r is None else (r == pol)

    def nonnone(self, v):
        if v[0] == "tok" and self.client.maybe_none(v):
            return False
        return v[0] in ("fn", "func", "class", "bound", "mod", "coro", "gen", "self", "new", "tuple", "list", "dict",
                        "set", "vararg", "kw", "kd", "kl", "exc", "comp", "fstr", "cmp", "binop", "cell", "tok") or (is_const(v) and cval(v) is not None)

    def sentinel(self, g):
        """is the module global an `object()` of its own"""
        mod = self.model.modules.get(g[1])
        e = mod.assigns.get(g[2]) if mod is not None else None
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "object"

    def decide_atom(self, st, a):
        k, l, r = a[0], a[1], a[2]
        if k == "is":
            if l == r and (is_const(l) or l[0] in ("self", "param", "func", "class", "ext", "glob")):
                return True
            if self.client.kd and l == r and l[0] in ("tok", "new", "kd", "kl", "exc"):
                return True
            if self.client.kd and l != r and l[0] in ("tok", "self", "new", "kd", "kl") and r[0] in ("tok", "self", "new", "kd", "kl"):
                return False
            if is_const(l) and is_const(r):
                return l == r
            if r == NONE:
                if self.nonnone(l):
                    return False
                if st.facts.get(("truthy", l)) is True:
                    return False
                if l[0] == "ext" and not l[1].startswith("?"):
                    return False
            if l[0] in ("class", "ext", "func") and r[0] in ("class", "ext", "func") and l != r:
                return False
            for x, y in ((l, r), (r, l)):
                if is_const(x) and (y[0] in ("class", "func") or y[0] == "ext" and y[1] in ("inspect._empty", "inspect.Parameter.empty", "inspect.Signature.empty")):
                    return False
            for x, y in ((l, r), (r, l)):
                if self.client.kd and x[0] == "glob" and len(x) == 3 and (is_const(y) or y[0] in ("tok", "exc", "tuple", "list")) and self.sentinel(x):
                    return False
            for c in (TRUE, FALSE, NONE):
                if r in (TRUE, FALSE, NONE) and c != r and st.facts.get(("is", l, c)) is True:
                    return False
        if k == "in" and is_const(l) and is_const(r) and isinstance(cval(l), str) and isinstance(cval(r), str):
            return cval(l) in cval(r)
        if k == "in" and r[0] == "kl" and self.kl_get(st, r) is not None:
            r = (self.kl_get(st, r)[2], self.kl_get(st, r)[1])
            if not r[1]:
                return False
        if self.client.kd and l[0] == "tok" and (k == "eq" and is_const(r) or k == "in" and r[0] in ("tuple", "list", "set") and all(is_const(x) or self.client.distinct and x[0] in ("list", "tuple") for x in r[1])):
            return False
        if self.client.fresh_globals and k == "in" and r[0] == "glob":
            return False
        if self.client.fresh_globals and k == "is" and r == NONE and l[0] == "call" and l[2][0] == "attr" and l[2][2] == "get" and l[2][1][0] == "glob" and len(l[3]) == 1:
            return True
        if k == "eq" and l == ("restkey",) and is_const(r) and cval(r) in self.client.absent:
            return False
        if k == "eq":
            if l == r and (is_const(l) or l[0] in ("param", "self")):
                return True
            if is_const(l) and is_const(r):
                return cval(l) == cval(r)
            if is_const(r):
                for (kk, *rest), b in st.facts.items():
                    if b is True and kk in ("eq", "is") and rest[0] == l and is_const(rest[1]) and cval(rest[1]) != cval(r):
                        return False
        if k == "lt" and is_const(l) and is_const(r):
            try:
                return cval(l) < cval(r)
            except TypeError:
                return None
        if k == "lt":
            if l == r:      # two calls at one site may have had different results
                return None if any(x and x[0] in ("call", "elem", "awaited", "next") for x in subterms(l)) else False
            # v < 0 known, etc. (integers): x<=c <-> not c<x
            if st.facts.get(("lt", r, l)) is True:
                return False
            if st.facts.get(("eq", l, r)) is True or st.facts.get(("eq", r, l)) is True:
                return False
            if is_const(l) and isinstance(cval(l), int) and cval(l) == 0 and st.facts.get(("eq", r, const(0))) is True:
                return False
        if k == "in" and r[0] == "kd":
            d = self.kd_in(st, l, r)
            if d is not None:
                return d
        if k == "in" and l == ("restkey",) and r[0] in ("tuple", "list", "set") and all(is_const(x) and cval(x) in self.client.absent for x in r[1]):
            return False
        if k == "in" and r[0] in ("tuple", "list", "set") and not any(x[0] == "star" for x in r[1]):
            if l in r[1]:
                return True
            if is_const(l) and all(is_const(x) for x in r[1]):
                return any(cval(x) == cval(l) for x in r[1])
            if self.client.kd and self.kd_apart(l, r[1]):
                return False
        if k == "in" and r[0] == "dict":
            if any(x[0] == l for x in r[1]):
                return True
            if self.client.kd and self.kd_apart(l, [x[0] for x in r[1]]):
                return False
        return st.facts.get(a)

    def branch(self, st, v):
        if not self.client.branches or v[0] == "not":
            return self.branch0(st, v)
        out = []
        for s, b in self.branch0(st, v):
            for s2 in self.emit(s, "branch", None, value=v, taken=b)[0]:
                out.append((s2, b))
        return out

    def branch0(self, st, v):
        r = self.decide(st, v)
        if r is not None:
            return [(st, r)]
        if v[0] == "not":
            return [(s, not b) for s, b in self.branch(st, v[1])]
        if v[0] == "cmp":
            a, pol = self.norm_cmp(v)
            return [(st.fact(a, pol), True), (st.fact(a, not pol), False)]
        if v[0] in ("tuple", "list", "vararg") and len(v[1]) == 1 and v[1][0][0] == "star":
            return self.branch(st, v[1][0][1])
        return [(st.fact(("truthy", v), True), True), (st.fact(("truthy", v), False), False)]

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, R):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError("%s:%s: unsupported expression %s" % (self.func.module.rel, getattr(e, "lineno", "?"), type(e).__name__))
        return m(e, st, R)

    def evs(self, exprs, st, R):
        """Evaluate a list left to right -> list of (state, [values])"""
        cur = [(st, [])]
        for x in exprs:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(x, s, R):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, e, st, R):
        return [(st, const(e.value))]

    def e_Name(self, e, st, R):
        return [(st, self.lookup(st, e.id))]

    def e_NamedExpr(self, e, st, R):
        out = []
        for s1, v in self.ev(e.value, st, R):
            for s2 in self.assign(e.target, v, s1, R, e):
                out.append((s2, v))
        return out

    def e_Attribute(self, e, st, R):
        out = []
        for s1, b in self.ev(e.value, st, R):
            out += self.getattr(s1, b, self.mg(e.attr), e, R)
        return out

    def getattr(self, st, b, name, node, R):
        k = b[0]
        if k == "mod":
            return [(st, self.wrap_resolved(self.model.resolve_abs(b[1] + "." + name), name))]
        if k == "ext":
            return [(st, ("ext", b[1] + "." + name))]
        if k == "class":
            c = self.class_by_id(b[1])
            m = self.model.find_method(c, name)
            if m is not None:
                return [(st, ("bound", self.fid(m), b) if m.is_classmethod else ("func", self.fid(m)))]
            a = self.model.find_attr(c, name)
            if a is not None and isinstance(a[1], ast.Constant):
                return [(st, const(a[1].value))]
            return [(st, ("attr", b, name))]
        if k == "super" and b[2]:
            m = self.model.find_method(self.class_by_id(b[2]), name, after=self.class_by_id(b[3]))
            if m is not None:
                return [(st, ("bound", self.fid(m), b[1]))]
            return [(st, ("attr", b, name))]
        if k == "super":
            return [(st, ("attr", b, name))]
        key = ("attr", b, name)
        if key in st.heap:
            return [(st, st.heap[key])]
        ma = self.client.model_attr(st, b, name)
        if ma is not None:
            return [(st, ma)]
        if self.client.lacks(st, b, name):
            R.append((st, ("exc", "AttributeError", self.site(node))))
            return []
        c = self.typeof(st, b)
        if c is not None:
            m = self.model.find_method(c, name)
            if m is not None:
                if m.is_property:
                    if self.client.inline_property(m):
                        return self.inline(st, m, b, [], [], node, R)
                    ev = Ev("load", node, self.func, dict(base=b, name=name), self)
                    self.raise_points(st, ev, R)
                    return [(s, key) for s in self.emit(st, "prop", node, base=b, name=name, target=m)[0]]
                if m.is_static:
                    return [(st, ("func", self.fid(m)))]
                return [(st, ("bound", self.fid(m), b))]
            a = self.model.find_attr(c, name)
            if a is not None and self.client.class_defaults and isinstance(a[1], ast.Constant):
                return [(st, const(a[1].value))]
            if a is not None and isinstance(a[1], ast.Name):
                # class attribute alias of a module level name / builtin
                r = self.model.resolve_name(a[0].module, a[1].id)
                if a[1].id in a[0].methods:
                    return [(st, ("bound", self.fid(a[0].methods[a[1].id]), b))]
        l, ev = self.emit(st, "load", node, base=b, name=name)
        out = []
        for s in l:
            self.raise_points(s, ev, R)
            out.append((s, trim(key)))
        return out

    def e_Subscript(self, e, st, R):
        out = []
        for s1, b in self.ev(e.value, st, R):
            for s2, i in self.ev(e.slice, s1, R):
                if b[0] in ("class", "ext") and not (b[0] == "ext" and b[1].startswith("?")):
                    out.append((s2, b))        # generic alias
                    continue
                if b[0] == "const" and b[1] == "str":
                    k = slice_of(i)
                    if k is not None:
                        try:
                            out.append((s2, const(b[2][k])))
                            continue
                        except IndexError:
                            pass
                c = self.typeof(s2, b)
                if c is not None:
                    m = self.model.find_method(c, "__getitem__")
                    if m is not None and self.can_inline(m):
                        out += self.inline(s2, m, b, [i], [], e, R)
                        continue
                l, ev = self.emit(s2, "getitem", e, base=b, index=i)
                for s3 in l:
                    self.raise_points(s3, ev, R)
                    if b[0] == "kd" and self.kd_get(s3, b) is not None:
                        out += self.kd_item(s3, b, i, e, R)
                        continue
                    if b[0] == "kl" and self.kl_get(s3, b) is not None:
                        out.append((s3, self.item(("list", self.kl_get(s3, b)[1]), i)))
                        continue
                    out.append((s3, self.item(b, i)))
        return out

    def e_Slice(self, e, st, R):
        parts = [x if x is not None else ast.copy_location(ast.Constant(None), e) for x in (e.lower, e.upper, e.step)]
        return [(s, ("slice", tuple(vs))) for s, vs in self.evs(parts, st, R)]

    def seq(self, kind, e, st, R):
        out = []
        for s, vs in self.evs(e.elts, st, R):
            flat = []
            for v in vs:
                known = self.kd_literal(s, v[1]) if self.client.kd and v[0] == "star" else None
                flat += known if known is not None else [v]
            out.append((s, trim((kind, tuple(flat)))))
        return out

    def e_Tuple(self, e, st, R):
        out = []
        for s, v in self.seq("tuple", e, st, R):
            if len(v[1]) == 1 and v[1][0][0] == "star" and v[1][0][1][0] in ("vararg", "tuple"):
                v = ("tuple", v[1][0][1][1])
            out.append((s, v))
        return out
    def e_List(self, e, st, R): return self.seq("list", e, st, R)
    def e_Set(self, e, st, R):
        return [(s, ("set", tuple(dict.fromkeys(v[1]))) if v[0] == "set" else v) for s, v in self.seq("set", e, st, R)]

    def e_Starred(self, e, st, R):
        return [(s, ("star", v)) for s, v in self.ev(e.value, st, R)]

    def e_Dict(self, e, st, R):
        cur = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, items in cur:
                if k is None:
                    for s2, vv in self.ev(v, s, R):
                        nxt.append((s2, items + [(("star",), vv)]))
                else:
                    for s1, kv in self.ev(k, s, R):
                        for s2, vv in self.ev(v, s1, R):
                            nxt.append((s2, items + [(kv, vv)]))
            cur = nxt
        if self.client.kd:
            out = []
            for s, items in cur:
                its, rest = (), ()
                for k, v in items:
                    if k == ("star",):
                        its, rest = self.kd_merge(s, its, rest, v)
                    else:
                        its, rest = self.kd_merge(s, its, rest, ("dict", ((k, v),)))
                out.append(self.kd_new(s, ("disp", self.site(e), len(self.stack)), its, rest))
            return out
        return [(s, trim(("dict", tuple(i)))) for s, i in cur]

    def e_JoinedStr(self, e, st, R):
        cur = [(st, "")]
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                nxt = []
                for s, t in cur:
                    for s2, x in self.ev(v.value, s, R):
                        ok = t is not None and self.client.kd and is_const(x) and isinstance(cval(x), (str, int)) and v.conversion in (-1, 115) and v.format_spec is None
                        nxt.append((s2, t + str(cval(x)) if ok else None))
                cur = nxt
            else:
                cur = [(s, t + v.value if t is not None else None) for s, t in cur]
        return [(s, const(t) if t is not None and self.client.kd else ("fstr", self.site(e))) for s, t in cur]

    def e_FormattedValue(self, e, st, R):
        return [(s, ("fstr", self.site(e))) for s, _ in self.ev(e.value, st, R)]

    def fold(self, op, l, r):
        if not (is_const(l) and is_const(r)):
            return None
        try:
            return const({"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
                          "BitOr": lambda a, b: a | b, "BitAnd": lambda a, b: a & b}[op](cval(l), cval(r)))
        except Exception:
            return None

    def e_BinOp(self, e, st, R):
        op = type(e.op).__name__
        out = []
        for s, (l, r) in [(s, tuple(v)) for s, v in self.evs([e.left, e.right], st, R)]:
            c = self.fold(op, l, r)
            if c is not None:
                out.append((s, c))
                continue
            if op in ("Add", "BitOr") and self.client.kd:
                kinds = ("tuple", "list", "kl", "vararg") if op == "Add" else ("set", "kl")
                a, b = (self.kd_literal(s, x) if x[0] in kinds else None for x in (l, r))
                if a is not None and b is not None:
                    out.append((s, ("tuple" if l[0] in ("tuple", "vararg") else "list" if op == "Add" else "set",
                                    tuple(a) + tuple(x for x in b if op == "Add" or x not in a))))
                    continue
            if op in ("BitAnd", "Sub") and self.client.kd:
                xs = self.kd_literal(s, l) if l[0] == "set" else None
                other = r
                if xs is None and op == "BitAnd":
                    xs, other = (self.kd_literal(s, r) if r[0] == "set" else None), l
                if xs is not None and other[0] in ("kd", "set", "tuple", "list"):
                    ds = [self.decide_atom(s, ("in", x, other)) for x in xs]
                    if None not in ds:
                        out.append((s, ("set", tuple(x for x, d in zip(xs, ds) if d == (op == "BitAnd")))))
                        continue
            out.append((s, trim(("binop", op, l, r))))
        return out

    def e_UnaryOp(self, e, st, R):
        op = type(e.op).__name__
        out = []
        for s, v in self.ev(e.operand, st, R):
            if op == "Not":
                d = self.decide(s, v)
                out.append((s, const(not d) if d is not None else ("not", v)))
            elif is_const(v) and op == "USub":
                out.append((s, const(-cval(v))))
            else:
                out.append((s, trim(("unary", op, v))))
        return out

    def e_BoolOp(self, e, st, R):
        is_and = isinstance(e.op, ast.And)
        cur, out = [st], []
        for i, x in enumerate(e.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s, R):
                    if i == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.branch(s2, v):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            out.append((s3, v if not (v[0] in ("cmp", "not")) else const(b)))
            cur = dedupe(nxt)
        return out

    def e_Compare(self, e, st, R):
        if len(e.ops) > 1:
            return [(s, const(b)) for s, b in self.cond(e, st, R)]
        op = type(e.ops[0]).__name__
        out = []
        for s, (l, r) in [(s, tuple(v)) for s, v in self.evs([e.left, e.comparators[0]], st, R)]:
            l2, ev = self.emit(s, "compare", e, op=op, left=l, right=r)
            for s2 in l2:
                v = trim(("cmp", op, l, r))
                d = self.decide_cmp(s2, v) if len(v) == 4 else None
                out.append((s2, const(d) if d is not None else v))
        return out

    def e_IfExp(self, e, st, R):
        out = []
        for s, b in self.cond(e.test, st, R):
            s = self.note(s, e, "%s -> %s" % (short(e.test), b))
            out += self.ev(e.body if b else e.orelse, s, R)
        return out

    def e_Lambda(self, e, st, R):
        f = self.func.module.nodes_func.get(id(e))
        return [(st, self.closure(f, st))]

    def e_Await(self, e, st, R):
        out = []
        for s, v in self.ev(e.value, st, R):
            out += self.do_await(s, v, e, R)
        return out

    def do_await(self, st, v, node, R):
        if v[0] == "coro":
            _, site, fv, args, kw = v
            f, selfv, caps = self.target(fv)
            if f is not None and self.can_inline(f):
                return self.inline(st, f, selfv, list(args), list(kw), node, R, caps=caps, awaited=True)
        if v[0] == "call" and v[2] == ("ext", "asyncio.shield") and False:
            pass
        c = self.typeof(st, v)
        if c is not None:
            m = self.model.find_method(c, "__await__")
            if m is not None and self.can_inline(m) and not m.is_gen:
                out = []
                for s, r in self.inline(st, m, v, [], [], node, R):
                    # __await__ returns an iterator of another awaitable: x.__await__()
                    if r[0] == "call" and r[2][0] == "attr" and r[2][2] == "__await__":
                        out += self.do_await(s, r[2][1], node, R)
                    else:
                        out.append((s, ("awaited", r)))
                return out
        out = []
        l, ev = self.emit(st, "await", node, value=v)
        for s in l:
            self.raise_points(self.suspend(s), ev, R)
            s2 = self.suspend(s)
            val = trim(("awaited", v))
            for s3 in self.emit(s2, "resumed", node, value=v)[0]:
                mm = self.client.model(s3, Ev("awaitval", node, self.func, dict(value=v), self))
                if mm is not None:
                    out += self.modelled(mm, R)
                else:
                    out.append((s3, val))
        return out

    def e_Yield(self, e, st, R):
        out = []
        pairs = self.ev(e.value, st, R) if e.value is not None else [(st, NONE)]
        for s, v in pairs:
            if self.gen_handlers and self.stack[-1].is_gen and self.gen_handlers[-1] is not None:
                n, r = self.gen_handlers[-1](s, v, e)
                R += r
                out += [(x, NONE) for x in n]
                continue
            l, ev = self.emit(s, "yield", e, value=v)
            for s2 in l:
                s3 = self.suspend(s2)
                self.raise_points(s3, ev, R)
                out.append((s3, ("sent", self.site(e))))
        return out

    def e_YieldFrom(self, e, st, R):
        out = []
        for s, v in self.ev(e.value, st, R):
            if self.client.iter_objects:
                q = self.yield_each(s, v, e)
                if q is not None:
                    R += q.rse
                    out += [(x, NONE) for x in q.normal]
                    continue
            l, ev = self.emit(s, "yieldfrom", e, value=v)
            for s2 in l:
                s3 = self.suspend(s2)
                self.raise_points(s3, ev, R)
                out.append((s3, ("awaited", v)))
        return out

    def yield_each(self, st, v, e):
        """`yield from v` as a loop which yields, for known iterables"""
        if not self.iterable(st, v, False):
            return None
        loop = self.yf.get(e)
        if loop is None:
            loop = ast.parse("for $x in y: yield $x".replace("$x", "yielded_from")).body[0]
            for n in ast.walk(loop):
                ast.copy_location(n, e)
            loop = self.yf[e] = ast.fix_missing_locations(loop)
        return self.for_over(loop, st, v, False)

    # -- comprehensions
    def comp(self, e, kind, st, R, elts):
        if self.client.kd:
            r = self.kd_comp(e, kind, st, R, elts)
            if r is not None:
                return r
        outer_env = st.env
        site = self.site(e)
        info = {}

        def gen(i, states):
            """run generators i.. on states; returns Out (normal states)"""
            g = e.generators[i] if i < len(e.generators) else None
            o = Out()
            if g is None:
                for s in states:
                    for s2, vs in self.evs(elts, s, o.rse):
                        info.setdefault("elt", tuple(vs))
                        l, ev = self.emit(s2, "elt", e, comp=kind, site=site, values=tuple(vs), value=vs[-1])
                        o.normal += l
                return o
            for s in states:
                R2 = []
                for s1, it in self.ev(g.iter, s, R2):
                    info.setdefault("src", []).append(it) if i >= len(info.get("src", [])) else None
                    node = Gen(g, e)

                    def body(sts, i=i, g=g):
                        oo = Out()
                        cur = sts
                        for c in g.ifs:
                            nxt = []
                            for x in cur:
                                if (i, id(c)) not in info:
                                    rr = []
                                    tv = self.quiet_ev(c, x)
                                    info[(i, id(c))] = tv
                                    info.setdefault("ifs", []).append(tv)
                                for y, b in self.cond(c, x, oo.rse):
                                    if b:
                                        nxt.append(y)
                                    else:
                                        oo.normal.append(y)
                            cur = nxt
                        r = gen(i + 1, dedupe(cur))
                        oo.absorb(r, True)
                        return oo
                    r = self.for_over(node, s1, it, bool(g.is_async), body=body)
                    o.absorb(r, True)
                o.rse += R2
            return o
        r = gen(0, [st])
        R += r.rse
        v = trim(("comp", kind, site, (("tuple", info["elt"]) if len(info.get("elt", ())) > 1 else info.get("elt", (("none",),))[0]),
                  (info.get("src") or [("none",)])[0] if len(info.get("src", [])) <= 1 else ("tuple", tuple(info["src"])),
                  tuple(info.get("ifs", ()))))
        out = []
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for s in r.normal:
            env = dict(s.env)
            for n in names:
                if n in outer_env:
                    env[n] = outer_env[n]
                else:
                    env.pop(n, None)
            out.append(s.but(env=env))
        return [(self.prune(s), v) for s in dedupe(out)]

    def quiet_ev(self, c, st):
        """Value of an expression with no client events (for describing comprehension conditions)."""
        saved = self.client
        self.client = Client()
        self.client.inline = lambda f: False
        try:
            r = self.ev(c, st, [])
            return r[0][1] if r else ("none",)
        finally:
            self.client = saved

    def e_ListComp(self, e, st, R): return self.comp(e, "list", st, R, [e.elt])
    def e_SetComp(self, e, st, R): return self.comp(e, "set", st, R, [e.elt])
    def e_GeneratorExp(self, e, st, R): return self.comp(e, "gen", st, R, [e.elt])
    def e_DictComp(self, e, st, R): return self.comp(e, "dict", st, R, [e.key, e.value])

    # -- calls
    def e_Call(self, e, st, R):
        if isinstance(e.func, ast.Name):
            if e.func.id == "__cast__":
                out = []
                for s, v in self.ev(e.args[1], st, R):
                    t = e.args[0].value
                    c = self.ann_class(self.func.module, t)
                    if c is not None and not is_const(v):
                        s = s.fact(("type", v), c.id)
                    elif t in ("int", "long", "unsigned int", "long long", "unsigned long long", "bint", "double", "Py_ssize_t", "float", "uint16_t"):
                        l, ev = self.emit(s, "ccast", e, ctype=t, value=v)
                        for s1 in l:
                            out.append((s1, v))
                        continue
                    out.append((s, v))
                return out
            if e.func.id == "super" and "super" not in st.env and not e.args:
                f = self.func
                while f.outer is not None:
                    f = f.outer
                selfv = st.env.get(f.params()[0]) if f.params() else None
                if selfv is None:
                    for fid, env in reversed(st.outer):
                        if fid == self.fid(f):
                            selfv = env.get(f.params()[0])
                c = self.typeof(st, selfv) if selfv is not None else None
                if selfv is not None and selfv[0] == "class":
                    c = self.class_by_id(selfv[1])
                return [(st, ("super", selfv, (c or f.cls).id, f.cls.id))] if f.cls is not None else [(st, ("super", selfv, "", ""))]
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all", "next") and e.args \
                and isinstance(e.args[0], ast.GeneratorExp if self.client.kd else (ast.GeneratorExp, ast.ListComp)) \
                and self.lookup(st, e.func.id) == ("ext", "builtins." + e.func.id):
            return self.short_circuit(e, e.func.id, st, R)
        out = []
        for s1, fv in self.ev(e.func, st, R):
            for s2, args in self.evs(e.args, s1, R):
                cur = [(s2, [])]
                for k in e.keywords:
                    nxt = []
                    for s3, kw in cur:
                        for s4, v in self.ev(k.value, s3, R):
                            nxt.append((s4, kw + [(k.arg, v)]))
                    cur = nxt
                for s3, kw in cur:
                    out += self.apply(s3, fv, args, kw, e, R)
        return out

    def short_circuit(self, e, name, st, R):
        """any/all/next over a comprehension: analysed as the loop it is."""
        g = e.args[0]
        hits = []

        def gen(i, states):
            o = Out()
            if i == len(g.generators):
                for s in states:
                    if name == "next":
                        for s1, v in self.ev(g.elt, s, o.rse):
                            hits.append((s1, v))
                    else:
                        for s1, b in self.cond(g.elt, s, o.rse):
                            if b == (name == "any"):
                                hits.append((s1, const(b)))
                            else:
                                o.normal.append(s1)
                return o
            gg = g.generators[i]
            for s in states:
                R2 = []
                for s1, it in self.ev(gg.iter, s, R2):
                    def body(sts, gg=gg, i=i):
                        oo = Out()
                        cur = sts
                        for c in gg.ifs:
                            nxt = []
                            for x in cur:
                                for y, b in self.cond(c, x, oo.rse):
                                    (nxt if b else oo.normal).append(y)
                            cur = nxt
                        oo.absorb(gen(i + 1, dedupe(cur)), True)
                        return oo
                    o.absorb(self.for_over(Gen(gg, e), s1, it, bool(gg.is_async), body=body), True)
                o.rse += R2
            return o
        r = gen(0, [st])
        R += r.rse
        names = {n.id for gg in g.generators for n in ast.walk(gg.target) if isinstance(n, ast.Name)}

        def clean(s):
            env = dict(s.env)
            for n in names:
                if n in st.env:
                    env[n] = st.env[n]
                else:
                    env.pop(n, None)
            return s.but(env=env)
        out = [(clean(s), v) for s, v in dedupe2(hits)]
        for s in dedupe(r.normal):
            s = clean(s)
            if name == "next":
                if len(e.args) > 1:
                    out += self.ev(e.args[1], s, R)
                else:
                    R.append((s, ("exc", "StopIteration", self.site(e))))
            else:
                out.append((s, const(name == "all")))
        return out

    def target(self, fv):
        """-> (Func, self value or None, captured vars)"""
        if fv[0] == "bound":
            return self.func_by_id(fv[1]), fv[2], ()
        if fv[0] == "func":
            return self.func_by_id(fv[1]), None, ()
        if fv[0] == "fn":
            return self.func_by_id(fv[1]), None, fv[2]
        return None, None, ()

    def can_inline(self, f):
        if self.stack.count(f) > self.client.recursion or len(self.stack) > self.max_inline:
            return False
        return self.client.inline(f)

    def flat(self, args, kw):
        a = []
        for x in args:
            if x[0] == "star" and x[1][0] in ("vararg", "tuple", "list") and not any(y[0] == "star" for y in x[1][1]):
                a += list(x[1][1])
            elif x[0] == "star" and x[1][0] in ("vararg", "tuple", "list"):
                a += list(x[1][1])
            else:
                a.append(x)
        k = []
        for n, v in kw:
            if n is None and v[0] == "kw":
                k += list(v[1]) + [(None, z) for z in v[2]]
            elif n is None and v[0] == "dict" and all(is_const(q) for q, _ in v[1]):
                k += [(cval(q), z) for q, z in v[1]]
            else:
                k.append((n, v))
        return a, k

    def apply(self, st, fv, args, kw, node, R):
        if fv[0] == "tok" and fv[1] == "method" and len(fv) == 4:
            fv = ("attr", fv[3], fv[2])
        if self.client.kd:
            kw = self.kd_flat(st, kw)
            args = [y for x in args for y in (self.kl_get(st, x[1])[1] if x[0] == "star" and self.kl_get(st, x[1]) is not None else (x,))]
        args, kw = self.flat(args, kw)
        if self.client.kd and fv[0] == "attr" and fv[1][0] == "kd":
            mm = self.client.kd_call(st, fv[1], fv[2], args, kw)
            if mm is not None:
                return mm
        if self.client.kd and fv[0] == "attr":
            mm = self.kd_method(st, fv[1], fv[2], args, kw, node, R) if fv[1][0] == "kd" else self.kl_method(st, fv[1], fv[2], args, node, R, kw)
            if mm is None and fv[2] == "pop" and not args and fv[1][0] in ("list", "set") and len(fv[1][1]) == 1:
                mm = [(st, fv[1][1][0])]
            if mm is None and fv[2] in ("intersection", "difference") and fv[1][0] == "set" and len(args) == 1 and args[0][0] in ("kd", "set", "tuple", "list"):
                ds = [self.decide_atom(st, ("in", x, args[0])) for x in fv[1][1]]
                if None not in ds:
                    mm = [(st, ("set", tuple(x for x, d in zip(fv[1][1], ds) if d == (fv[2] == "intersection"))))]
            if mm is not None:
                return mm
        if self.client.kd and fv == ("ext", "builtins.dict") and len(args) <= 1:
            its, rest = (), ()
            for a in args:
                its, rest = self.kd_merge(st, its, rest, a)
            for n, x in kw:
                its, rest = self.kd_merge(st, its, rest, x if n is None else ("kw", ((n, x),), ()))
            s, v = self.kd_new(st, ("dict", self.site(node) if node is not None else "?", len(self.stack)), its, rest)
            return [(s, v)]
        if fv[0] == "call" and fv[2] == ("ext", "functools.partial") and fv[3]:
            inner = fv[3][0]
            return self.apply(st, inner, list(fv[3][1:]) + list(args), list(fv[4]) + list(kw), node, R)
        site = self.site(node) if node is not None else "?"
        if self.client.kd and fv[0] == "new":
            c = self.typeof(st, fv)
            mcall = self.model.find_method(c, "__call__") if c is not None else None
            if mcall is not None:
                fv = ("bound", self.fid(mcall), fv)
        f, selfv, caps = self.target(fv)
        if f is not None and selfv is None and f.cls is not None and f.outer is None and not f.is_static and args \
                and fv[0] == "func" and args[0][0] != "star":
            pass    # Class.method(self, ...): self is just the first arg
        if fv[0] == "class":
            return self.construct(st, fv, args, kw, node, R)
        if fv[0] == "ext" and fv[1] == "builtins.super":
            if len(args) == 2 and args[0][0] == "class":
                c = self.typeof(st, args[1])
                return [(st, ("super", args[1], c.id if c is not None and args[1][0] == "self" else args[0][1], args[0][1]))]
            return [(st, ("super", NONE, "", ""))]
        if f is not None:
            a2 = tuple(args)
            k2 = tuple(kw)
            l, ev = self.emit(st, "call", node, callee=fv, args=a2, kw=k2, target=f)
            out = []
            for s in l:
                if f.is_gen:
                    out.append((s, trim(("gen", site, fv, a2, k2))))
                    continue
                if f.is_async:
                    out.append((s, trim(("coro", site, fv, a2, k2))))
                    continue
                mm = self.model_call(s, ev)
                if mm is not None:
                    out += self.modelled(mm, R)
                    continue
                if self.can_inline(f):
                    out += self.inline(s, f, selfv, args, kw, node, R, caps=caps)
                else:
                    self.raise_points(s, ev, R)
                    v = trim(("call", site, fv, a2, k2))
                    out.append((self.kill_value(s, v), v))
            return out
        # builtins with a direct meaning
        if fv[0] == "ext" and fv[1].startswith("builtins."):
            b = fv[1][9:]
            if self.client.kd and b in ("bool", "int", "float", "str", "bytes", "complex") and len(args) == 1 and not kw:
                c = self.typeof(st, args[0])
                m = self.model.find_method(c, "__%s__" % b) if c is not None else None
                if m is not None and not m.is_async and self.can_inline(m):
                    return self.inline(st, m, args[0], [], [], node, R)
            if b == "bool" and len(args) == 1:
                d = self.decide(st, args[0])
                if d is not None:
                    return [(st, const(d))]
                if args[0][0] in ("cmp", "not"):
                    return [(st, args[0])]
                return [(st, ("not", ("not", args[0])))]
            if self.client.iter_objects and b == "iter" and len(args) == 1 and not self.stepped(st, args[0], False):
                if self.kd_literal(st, args[0]) is not None:
                    return [self.kl_new(st, ("iterator", site, len(self.stack)), "iter", tuple(self.kd_literal(st, args[0])))]
                if self.iterable(st, args[0], False) and args[0][0] != "gen":
                    return self.iter_object(st, args[0], False, R, node)
            if self.client.iter_objects and b == "next" and args and self.stepped(st, args[0], False):
                out = []
                for s2, what, v in self.iter_step(st, args[0], False):
                    if what == "item" or what == "end" and len(args) == 2:
                        out.append((s2, v if what == "item" else args[1]))
                    else:
                        R.append((s2, v if what == "raise" else ("exc", "StopIteration", site)))
                return out
            if self.client.class_defaults and b == "hasattr" and len(args) == 2 and args[0][0] == "new" and is_const(args[1]):
                c = self.typeof(st, args[0])
                if c is not None:
                    return [(st, const(("attr", args[0], cval(args[1])) in st.heap or self.model.find_method(c, cval(args[1])) is not None or self.model.find_attr(c, cval(args[1])) is not None))]
            if self.client.iter_objects and b in ("list", "tuple", "set", "frozenset", "sorted", "max", "min", "sum", "any", "all") and args and (self.kd_literal(st, args[0]) is None or self.known_iterator(st, args[0])) and self.iterable(st, args[0], False):
                out = []
                for s2, v in self.collect_in(st, args[0], False, R):
                    out += self.apply(s2, fv, [v] + list(args[1:]), kw, node, R)
                return out
            if (self.client.order is not None or self.client.kd) and b == "sorted" and args:
                xs = self.kd_literal(st, args[0])
                if xs is not None and (self.client.order is not None or not kw and all(is_const(x) for x in xs)):
                    return [(s2, ("list", ys)) for s2, ys in self.sort(st, xs, kw, node, R)]
            if self.client.kd and b == "zip" and args and not kw:
                ls = [self.kd_literal(st, a) for a in args]
                if all(l is not None for l in ls):
                    return [(st, ("list", tuple(("tuple", t) for t in zip(*ls))))]
            if self.client.kd and b in ("next", "iter", "list", "tuple", "set", "sorted", "frozenset", "len") and args and args[0][0] in ("tuple", "list", "set", "vararg", "kd", "kl"):
                xs = self.kd_literal(st, args[0])
                if xs is not None:
                    if b == "len" and self.surely_distinct(st, args[0], xs):
                        return [(st, const(len(xs)))]
                    if b == "len":
                        return [(st, ("call", site, fv, tuple(args), ()))]
                    if b == "next":
                        if xs:
                            return [(st, xs[0])]
                        if len(args) == 2:
                            return [(st, args[1])]
                        R.append((st, ("exc", "StopIteration", site)))
                        return []
                    if not kw or b == "sorted":
                        if b in ("set", "frozenset"):
                            xs = dict.fromkeys(xs)
                        return [(st, ({"iter": "list", "sorted": "list", "frozenset": "set"}.get(b, b), tuple(xs)))]
            if self.client.kd and b in ("map", "filter") and len(args) == 2 and not kw and args[0][0] in ("func", "fn", "bound", "class", "ext", "tok") and args[1][0] in ("tuple", "list", "set", "vararg", "kd", "kl"):
                xs = self.kd_literal(st, args[1])
                if xs is not None and len(xs) <= 12:
                    cur = [(st, ())]
                    for x in xs:
                        nxt = []
                        for s, acc in cur:
                            for s2, v in self.apply(s, args[0], [x], [], node, R):
                                if b == "map":
                                    nxt.append((s2, acc + (v,)))
                                else:
                                    nxt += [(s3, acc + (x,) if t else acc) for s3, t in self.branch(s2, v)]
                        cur = nxt
                    return [(s, ("list", acc)) for s, acc in cur]
            if self.client.kd and b in ("sum", "max", "min") and args and not kw:
                xs = self.kd_literal(st, args[0]) if len(args) == 1 or b == "sum" else args
                more = [x for x in args[1:] if b == "sum"]
                if xs is not None and (xs or b == "sum") and all(is_const(x) and isinstance(cval(x), int) for x in list(xs) + more):
                    return [(st, const(getattr(builtins, b)([cval(x) for x in xs], *[cval(x) for x in more])))]
            if b == "len" and len(args) == 1 and args[0][0] in ("tuple", "list", "vararg") and not any(x[0] == "star" for x in args[0][1]):
                return [(st, const(len(args[0][1])))]
            if b == "getattr" and len(args) in (2, 3) and is_const(args[1]) and isinstance(cval(args[1]), str):
                l, ev = self.emit(st, "call", node, callee=fv, args=tuple(args), kw=tuple(kw), target=None)
                out = []
                for s in l:
                    if len(args) == 2:
                        out += self.getattr(s, args[0], cval(args[1]), node, R)
                    elif self.client.lacks(s, args[0], cval(args[1])):
                        out.append((s, args[2]))
                    else:
                        v = self.client.model_attr(s, args[0], cval(args[1])) if self.client.kd else None
                        out.append((s, v if v is not None else trim(("call", site, fv, tuple(args), tuple(kw)))))
                return out
            if b == "iter" and len(args) == 1 and args[0][0] in ("gen",):
                return [(st, args[0])]
            if b in ("len", "bool") and len(args) == 1:
                c = self.typeof(st, args[0])
                m = self.model.find_method(c, "__len__") if c is not None else None
                if m is not None and self.can_inline(m):
                    r = self.inline(st, m, args[0], [], [], node, R)
                    return r if b == "len" else [(s, ("cmp", "Gt", v, const(0))) for s, v in r]
            if b in ("list", "tuple") and len(args) == 1 and args[0][0] in ("tuple", "list", "vararg") :
                return [(st, (b if b == "list" else "tuple", args[0][1]))]
            if b in ("dict", "list", "tuple", "set") and not args and not kw:
                return [(st, (b, ()))]
        if fv[0] == "attr" and is_const(fv[1]) and isinstance(cval(fv[1]), str) and not kw and all(is_const(a) for a in args) \
                and fv[2] in ("startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "isidentifier", "format", "replace"):
            try:
                return [(st, const(getattr(cval(fv[1]), fv[2])(*[cval(a) for a in args])))]
            except Exception:
                pass
        l, ev = self.emit(st, "call", node, callee=fv, args=tuple(args), kw=tuple(kw), target=None)
        out = []
        for s in l:
            if self.client.model_raises:
                self.raise_points(s, ev, R)
            mm = self.model_call(s, ev)
            if mm is not None:
                out += self.modelled(mm, R)
                continue
            if not self.client.model_raises:
                self.raise_points(s, ev, R)
            if fv[0] == "ext" and fv[1].startswith("builtins.") and (self.client.kd or fv[1] == "builtins.isinstance" and args and args[0][0] == "exc"):
                d = self.fold_builtin(s, fv[1][9:], args)
                if d is not None:
                    out.append((s, const(d)))
                    continue
            v = trim(("call", site, fv, tuple(args), tuple(kw)))
            s = self.kill_value(s, v)
            if fv[0] == "attr" and fv[2] in MUTATORS:
                s = self.kill_base(s, fv[1])
                if fv[1][0] == "cell" and fv[2] in ("append", "appendleft", "add", "insert"):
                    s = s.fact(("truthy", fv[1]), True)
            if not (fv[0] == "ext" and fv[1][9:] in PURE):
                for a in list(args) + [x[1] for x in kw if isinstance(x, tuple) and len(x) == 2]:
                    if isinstance(a, tuple) and a and a[0] == "cell":
                        s = self.kill_base(s, a)
            out.append((s, v))
        return out

    def fold_builtin(self, st, b, args):
        if b == "isinstance" and len(args) == 2:
            return self.is_instance(st, args[0], args[1])
        if b in ("any", "all") and len(args) == 1:
            xs = self.kd_literal(st, args[0])
            if xs is not None:
                ds = [self.decide(st, x) for x in xs]
                if (b == "any") in ds:
                    return b == "any"
                if None not in ds:
                    return b == "all"
        return None

    def is_instance(self, st, v, t):
        """is `v` (a constant or an object of a known class) an instance of the class(es) `t`?  True / False / None"""
        if t[0] == "tuple":
            ds = [self.is_instance(st, v, x) for x in t[1]]
            return True if True in ds else None if None in ds else False
        if v[0] == "const" and (t[0] == "class" or v == NONE and t[0] == "ext" and t[1] not in ("builtins.object", "types.NoneType")):
            return False
        if v[0] == "const" and t[0] == "ext" and t[1].startswith("builtins."):
            k = __builtins__.get(t[1][9:]) if isinstance(__builtins__, dict) else getattr(__builtins__, t[1][9:], None)
            return isinstance(cval(v), k) if isinstance(k, type) else None
        if v[0] == "exc" and t[0] in ("ext", "class"):
            r = self.exc_match(v, t)
            return {"yes": True, "no": False}.get(r, st.facts.get(("excmatch", v, t)))
        c = self.typeof(st, v) if v[0] == "new" else None
        if c is None:
            return None
        if t[0] == "class":
            k = self.class_by_id(t[1])
            return None if k is None else k in self.model.mro(c)
        if t[0] == "ext":
            n = t[1].split(".")[-1]
            if self.model.is_subclass(c, n):
                return True
            return False if t[1] in ("builtins." + x for x in ("int", "str", "float", "bool", "bytes", "dict", "list", "tuple", "set", "type")) else None
        return None

    def model_call(self, st, ev):
        if self.client.debug is not None:
            fv = ev.callee
            n = fv[2] if fv[0] == "attr" else (self.func_by_id(fv[1]).name if fv[0] in ("bound", "func") else None)
            if n in ("isEnabledFor", "check_debug_logs_enabled", "_debug_logs_enabled"):
                return [(st, const(self.client.debug))]
        return self.client.model(st, ev)

    def modelled(self, mm, R):
        """results of a client's model; (state, exception, "raise") is a raise"""
        for x in mm:
            if len(x) == 3:
                R.append((x[0], x[1]))
        return [x for x in mm if len(x) == 2]

    def construct(self, st, fv, args, kw, node, R):
        c = self.class_by_id(fv[1])
        v = trim(("new", self.site(node), fv[1], tuple(args), tuple(kw)))
        init = self.model.find_method(c, "__init__") if c is not None else None
        l, ev = self.emit(st, "call", node, callee=fv, args=tuple(args), kw=tuple(kw), target=init)
        out = []
        for s in l:
            mm = self.client.model(s, ev)
            if mm is not None:
                out += self.modelled(mm, R)
                continue
            s = self.kill_value(s, v)
            if init is not None and self.inline_new and self.can_inline(init):
                for s2, _ in self.inline(s, init, v, args, kw, node, R):
                    out.append((s2, v))
            else:
                self.raise_points(s, ev, R)
                out.append((s, v))
        return out

    def bind_args(self, f, selfv, args, kw, st, caps):
        env = {}
        if caps:
            env["$caps"] = ("$caps", caps)
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if selfv is not None and not f.is_static:
            vals = [selfv] + vals
        kwd = {}
        rest = []
        for n, v in kw:
            if n is None:
                rest.append(v)
            else:
                kwd[n] = v
        i = 0
        while i < len(pos) and vals and vals[0][0] != "star":
            env[pos[i]] = vals.pop(0)
            i += 1
        if vals and vals[0][0] == "star" and i < len(pos):
            sv = vals[0][1]
            j = 0
            nstar = i
            while i < len(pos):
                if pos[i] in kwd:
                    break
                env[pos[i]] = ("item", sv, const(j))
                i += 1
                j += 1
            if j and a.vararg is None:
                vals = []
            elif j:
                vals = [("star", ("rest", sv, j))]
        ndef = len(a.defaults)
        for n in pos[i:]:
            if n in kwd:
                env[n] = kwd.pop(n)
            else:
                k = pos.index(n) - (len(pos) - ndef)
                if k >= 0:
                    env[n] = self.default_value(f, a.defaults[k], st)
                    if rest:
                        env[n] = ("kwget", tuple(rest), n)
                else:
                    env[n] = ("kwget", tuple(rest), n) if rest else ("missing", n)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwd:
                env[x.arg] = kwd.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.default_value(f, d, st) if not rest else ("kwget", tuple(rest), x.arg)
            else:
                env[x.arg] = ("kwget", tuple(rest), x.arg) if rest else ("missing", x.arg)
        if a.vararg:
            if len(vals) == 1 and vals[0][0] == "star":
                env[a.vararg.arg] = vals[0][1]
            else:
                env[a.vararg.arg] = ("vararg", tuple(vals))
        if a.kwarg:
            if not kwd and len(rest) == 1:
                env[a.kwarg.arg] = rest[0]
            else:
                env[a.kwarg.arg] = ("kw", tuple(sorted(kwd.items())), tuple(rest))
        return env

    def default_value(self, f, d, st):
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, ast.Name):
            return self.global_value(f, d.id)
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) and isinstance(d.op, ast.USub):
            return const(-d.operand.value)
        if isinstance(d, ast.Dict) and not d.keys:
            return ("dict", ())
        if isinstance(d, ast.Tuple) and not d.elts:
            return ("tuple", ())
        if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name):
            b = self.global_value(f, d.value.id)
            if b is not None and b[0] == "ext":
                return ("ext", b[1] + "." + d.attr)
        return ("default", f.id, ast.unparse(d))

    def inline(self, st, f, selfv, args, kw, node, R, caps=(), awaited=False):
        self.inlined[f.id] = self.inlined.get(f.id, 0) + 1
        env = self.bind_args(f, selfv, args, kw, st, caps)
        caller = self.func
        if self.client.kd and f.node.args.kwarg:
            kv = env[f.node.args.kwarg.arg]
            its, rest = self.kd_merge(st, (), (), kv)
            st, env[f.node.args.kwarg.arg] = self.kd_new(st, ("kwargs", f.id, site_of(self, node), len(self.stack)), its, rest)
        fr = st.but(env=env, outer=st.outer + ((self.fid(caller), st.env),))
        for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
            t = self.ann_class(f.module, getattr(x, "cy_type", None))
            v = env.get(x.arg)
            if t is not None and v is not None and v[0] not in ("const", "self", "new"):
                fr = fr.fact(("type", v), t.id)
        self.stack = self.stack + [f]
        hs = self.gen_handlers
        self.gen_handlers = hs + [None]
        try:
            o = self.exec_body(f, fr)
        finally:
            self.stack = self.stack[:-1]
            self.gen_handlers = hs

        def pop(x):
            fid, e = x.outer[-1]
            return x.but(env=e, outer=x.outer[:-1])
        out = []
        rt = self.ann_class(f.module, getattr(f.node, "cy_ret", None)) if getattr(f.node, "cy_ret", None) else None
        for x, v in o.ret:
            x = pop(x)
            if rt is not None and v[0] not in ("const", "self", "new", "coro") and self.typeof(x, v) is None:
                x = x.fact(("type", v), rt.id)
            out.append((x, v))
        R += [(pop(x), e) for x, e in o.rse]
        return dedupe2(out)


PURE = {"len", "bool", "isinstance", "iter", "enumerate", "zip", "sorted", "any", "all", "sum", "min", "max", "tuple", "list", "set",
        "frozenset", "dict", "repr", "str", "print", "reversed", "range", "id", "type", "hasattr", "getattr"}
MUTATORS = {"insert", "reverse", "extendleft", "append", "appendleft", "pop", "popleft", "remove", "discard", "add", "clear", "extend", "insert", "update",
            "setdefault", "popitem", "put_nowait", "get_nowait", "cancel", "set_result", "set_exception", "set", "sort"}


def site_of(it, node):
    return it.site(node) if node is not None else "?"


class Gen:
    """Adapter giving a comprehension generator the shape of a For statement."""

    def __init__(self, g, e):
        self.target, self.lineno, self.col_offset = g.target, e.lineno, e.col_offset
        self.orelse = []


def short(e, n=60):
    try:
        t = ast.unparse(e)
    except Exception:
        t = "?"
    t = " ".join(t.split())
    return t if len(t) <= n else t[: n - 3] + "..."


def mentions_attr(t, name):
    if not isinstance(t, tuple):
        return False
    if len(t) == 3 and t[0] == "attr" and t[2] == name:
        return True
    return any(mentions_attr(x, name) for x in t if isinstance(x, tuple))
