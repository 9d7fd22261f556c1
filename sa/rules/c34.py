"""Caches keyed by identity.  Every function which keeps something about an object in a container outliving the call, under the object's
address or the object itself, is interpreted for one object; that object then dies unless the container holds it, its weak references are
cleared and their callbacks run; the function is interpreted again for another object at the same address, and has to do what it does
for that object with an empty cache."""
import itertools

from ..lib import *
from .. import locks as L

ASSUMPTIONS = ["an address is reused only after its object is dead, when its weak references are cleared and their callbacks have run",
               "WeakSet and WeakKeyDictionary drop an entry when its key dies", "distinct objects used as keys are unequal"]
CONTAINERS = {"dict", "set", "WeakSet", "WeakKeyDictionary", "WeakValueDictionary", "defaultdict", "OrderedDict", "list"}
IDENT = {"id", "hash"}


def container(v):
    """'kd' | 'kl' | None for the expression a container is made by"""
    if isinstance(v, (ast.Dict, ast.DictComp)):
        return "kd"
    if isinstance(v, (ast.Set, ast.SetComp)):
        return "kl"
    if isinstance(v, ast.Call):
        n = ast.unparse(v.func).split(".")[-1]
        if n in ("set", "WeakSet"):
            return "kl"
        if n in CONTAINERS - {"list"}:
            return "kd"
    return None


def own_calls(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            yield n


class Sim(Client):
    kd = True
    debug = False
    distinct = True
    model_raises = True
    recursion = 1

    def __init__(self, m, mods, selfs):
        self.m, self.mods, self.selfs = m, mods, selfs
        self.dead = None

    def add(self, st, x):
        if len(st.ts) >= 20:
            return []
        return st.but(ts=st.ts + (x,)).note(" ".join(show(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else str(y) for y in x)[:100])

    def truthy(self, v):
        return None

    def inline_property(self, f):
        return False

    def glob(self, mod, name):
        k = self.mods.get((mod.name if hasattr(mod, "name") else mod, name))
        return (k, "%s" % name) if k else None

    def model_attr(self, st, base, name):
        k = self.selfs.get(name)
        if k and base[0] in ("self", "param", "class", "tok"):
            return (k, "self." + name)
        if name in ("__name__", "__qualname__", "__module__") and base[:2] in (("tok", "object"), ("tok", "type")):
            return ("tok", "name", strip(base), name)
        return Client.model_attr(self, st, base, name)

    def event(self, st, ev):
        if ev.kind == "call" and ev.callee[:2] == ("tok", "weakref"):
            return None
        if ev.kind == "call" and ev.callee[0] in ("ext", "attr", "tok", "func") and not (ev.callee[0] == "attr" and ev.callee[1][0] in ("kd", "kl")):
            n = callee_attr(("call", 0, ev.callee)) or show(ev.callee)
            if n.rsplit(".", 1)[-1] in ("id", "hash", "ref", "type", "isinstance", "debug", "info", "len"):
                return None
            return self.add(st, ("call", n, tuple(ev.args), tuple(ev.kw)))
        return None

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        fv, a = ev.callee, tuple(ev.args)
        n = fv[1].rsplit(".", 1)[-1] if fv[0] == "ext" else fv[2] if fv[0] == "attr" else ""
        if n in IDENT and fv[0] == "ext" and len(a) == 1:
            return [(self.remember(st, a[0]), ("tok", "address", strip(a[0])))]
        if n == "type" and len(a) == 1 and fv[0] == "ext":
            return [(st, ("tok", "type", a[0]))]
        if n in ("ref", "proxy") and a:
            r = ("tok", "weakref", a[0])
            h = dict(st.heap)
            if len(a) > 1:
                h[("env", "weak callbacks", "")] = h.get(("env", "weak callbacks", ""), ()) + ((r, a[1]),)
            return [(st.but(heap=h), r)]
        if fv[0] == "tok" and fv[1] == "weakref":
            return [(st, NONE if self.dead is not None and generation(fv[2]) == self.dead else fv[2])]
        return None

    def remember(self, st, v):
        h = dict(st.heap)
        k = ("env", "identified", "")
        h[k] = tuple(dict.fromkeys(h.get(k, ()) + (v,)))
        return st.but(heap=h, facts=st.facts | {("is", v, NONE): False})


def strip(v):
    if isinstance(v, tuple):
        if len(v) == 4 and v[:2] == ("tok", "object"):
            return ("tok", "object", 0, v[3])
        return tuple(strip(x) for x in v)
    return v


def generation(v):
    for x in subterms(v):
        if len(x) == 4 and x[:2] == ("tok", "object"):
            return x[2]
    return None


def holds(v, x, data):
    """does value v refer to x strongly?  `data`: names of attributes which are data, not methods"""
    if v == x:
        return True
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "attr" and v[2] in data:
        return False
    if x[0] == "attr" and holds(v, x[1], data):
        return True
    if isinstance(v, tuple) and v and (v[:2] in (("tok", "weakref"), ("tok", "address")) or v[0] in ("call", "cmp", "binop", "not") and not (v[0] == "call" and v[2][0] == "ext" and v[2][1].endswith("partial"))):
        return False        # what a call gives does not keep its arguments alive
    return isinstance(v, tuple) and any(holds(y, x, data) for y in v)


def contents(st):
    return [(k, c) for k, c in st.heap.items() if k[0] == "kd"]


def check(ctx):
    m = ctx.model
    ctx.rule("identity", "an entry made under an object's address is used for that object only", 0)
    ctx.rule("object", "an entry made under an object itself is used for that object only", 0)
    ctx.rule("released", "what a weakly keyed container keeps about an object does not keep the object alive", 0)
    ctx.rule("scanned", "functions of a module scanned for containers keyed by identity", 10)
    mods, users, weak = {}, {}, set()
    data = {n.attr for f in m.all_funcs() for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    data = (data | {f.name for f in m.all_funcs() if f.is_property}) - {f.name for f in m.all_funcs() if not f.is_property}
    for name, mod in m.modules.items():
        for n, v in mod.assigns.items():
            k = container(v)
            if k:
                mods[(name, n)] = k
                if isinstance(v, ast.Call) and ast.unparse(v.func).endswith("WeakKeyDictionary"):
                    weak.add((name, n))
    n = 0
    for f in m.all_funcs():
        n += 1
        src = [x for x in own_calls(f) if isinstance(x.func, ast.Name) and x.func.id in IDENT and len(x.args) == 1]
        names = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
        uses = {(f.module.name, y) for y in names if (f.module.name, y) in mods}
        selfs = {}
        if src:
            for x in ast.walk(f.node):
                c = None
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute):
                    c = x.value
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.attr in ("get", "add", "setdefault", "pop", "discard"):
                    c = x.func.value
                elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.comparators[0], ast.Attribute):
                    c = x.comparators[0]
                if c is not None and isinstance(c.value, ast.Name) and c.value.id in ("self", "cls"):
                    adds = any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("add", "discard") and ast.unparse(y.func.value) == ast.unparse(c) for y in ast.walk(f.node))
                    selfs[c.attr] = "kl" if adds else "kd"
        if uses or selfs and src:
            users[f] = selfs
    for mod in m.modules.values():
        ctx.ob("scanned", mod.name, True, mod.rel)
    for f, selfs in sorted(users.items(), key=lambda x: x[0].id):
        if not f.params() or f.name in ("__repr__", "__str__", "__hash__") or f.is_gen:
            continue
        simulate(ctx, m, f, mods, selfs, data, weak)


def simulate(ctx, m, f, mods, selfs, data, weak):
    cl = Sim(m, mods, selfs)
    it = Interp(m, cl, max_inline=6, keep_heap_on_await=True, max_states=60000)
    cl.it = it
    empty = {("kd", n, ""): ("kdc", (), ()) if k == "kd" else ("klc", (), "set") for (_, n), k in mods.items()}
    empty.update({("kd", "self." + n, ""): ("kdc", (), ()) if k == "kd" else ("klc", (), "set") for n, k in selfs.items()})
    ps = f.params()
    if f.cls is not None and f.outer is None and not f.is_static:
        ps = ps[1:]

    def args(g):
        return {p: ("tok", "object", g, p) for p in ps}

    def outcome(exits):
        return {(e.kind, drop(e.value), tuple(drop(t) for t in e.st.ts)) for e in exits}
    try:
        cl.dead = None
        kept = None
        cold = outcome(it.run(f, args=args(2), heap=empty))
        first = it.run(f, args=args(1), heap=empty)
        ctx.analysed(it, f, first)
        why = x = None
        ident = any(e.st.heap.get(("env", "identified", "")) for e in first)
        for e in first:
            st = e.st
            for mod, name in weak:
                for k, v in st.heap.get(("kd", name, ""), ("", ()))[1] if mod == f.module.name else ():
                    if holds(v, k, data):
                        kept = (e, k, v)
            known = st.heap.get(("env", "identified", ""), ())
            if ident and any(any(holds(c, v, data) for _, c in contents(st)) for v in known):
                continue        # the object is kept alive with its entry: the address is not reused
            cl.dead = 1
            sts = [st]
            for r, cb in st.heap.get(("env", "weak callbacks", ""), ()):
                sts = [e2.st for s in sts for e2 in it.call_value(s, cb, (r,), func=f)]
            for s in sts:
                again = it.run(f, args=args(2), heap=s.heap)
                extra = outcome(again) - cold
                if extra:
                    k, v, t = sorted(extra, key=repr)[0]
                    why = "after an entry was made for another object which is gone, it %s %s%s" % ("gives" if k == "return" else "raises", show(v), " without %s" % sorted({y[1] for _, _, c in cold for y in c} - {y[1] for y in t})[0]
                                                                                                   if {y[1] for _, _, c in cold for y in c} - {y[1] for y in t} else "")
                    x = e
            cl.dead = None
    except AnalysisError as err:
        ctx.notes.append("%s: not interpreted: %s" % (f.id, err))
        return
    if any(mod == f.module.name and name in {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)} for mod, name in weak):
        ctx.ob("released", f.id.split("#")[0], kept is None, L.where(f), kept and "keeps %s for %s, which is thus never released" % (show(kept[2]), show(kept[1])) or "", kept[0].st.path() if kept else ())
    ctx.ob("identity" if ident else "object", "%s" % f.id.split("#")[0], why is None, L.where(f), why or "", x.st.path() if x else ())


def drop(v):
    """values without the sites they were made at"""
    if isinstance(v, tuple):
        if v and v[0] == "call" and len(v) == 5:
            return ("call", drop(v[2]), drop(v[3]), drop(v[4]))
        return tuple(drop(x) for x in v)
    return v
