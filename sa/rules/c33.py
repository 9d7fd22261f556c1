"""Native buffers.  For each extension class with a pointer attribute, its life is interpreted as a history: the constructors of its bases,
no, one or two runs of `__init__` (each call in it may raise, each allocation may fail), every method which reads the pointer, and the
destructors from the class to its bases.  Along it each buffer is allocated with room for what is copied, released once, and never used when
it is null, empty or released."""
from ..lib import *
from .. import locks as L
from . import c20

ASSUMPTIONS = ["attributes of a new extension object are zero", "destructors run once per object, the class's own before those of its bases", "`__cinit__` of the bases runs before the class's own",
               "a call which is not allocation or string handling does not touch the pointer"]
NULL = NONE
ALLOC = {"malloc", "calloc", "PyMem_Malloc", "PyMem_RawMalloc", "PyObject_Malloc", "strdup", "realloc"}
FREE = {"free", "PyMem_Free", "PyMem_RawFree", "PyObject_Free"}
FAMILY = {"malloc": "free", "calloc": "free", "strdup": "free", "realloc": "free", "PyMem_Malloc": "PyMem_Free", "PyMem_RawMalloc": "PyMem_RawFree", "PyObject_Malloc": "PyObject_Free"}
LEN = {"len", "PyBytes_GET_SIZE", "PyBytes_Size", "strlen"}
QUIET = ALLOC | FREE | LEN | {"strcpy", "memcpy", "strncpy", "isinstance", "hasattr", "format"}


class Life(Client):
    kd = True
    debug = False
    distinct = True
    model_raises = True

    def __init__(self, m, ptrs):
        self.m, self.ptrs = m, ptrs
        self.bad = []
        self.uses = 0

    def inline(self, f):
        return f.name not in NOINLINE and not f.is_gen and (f.name in ("__init__", "__cinit__", "__dealloc__") or f.name in self.helpers)

    def inline_property(self, f):
        return f.name in self.helpers

    helpers = frozenset()

    def truthy(self, v):
        return True if v[0] == "tok" and v[1] == "buffer" else None

    def model_attr(self, st, base, name):
        if base[0] == "self" and name in self.ptrs:
            return st.heap.get(("env", name, ""), NULL)
        return None

    def wrong(self, st, ev, why):
        self.bad.append((st.note("%s:%s" % (ev.func.module.rel, getattr(ev.node, "lineno", "?"))), why))

    def buf(self, v):
        return isinstance(v, tuple) and v[:2] == ("tok", "buffer")

    def size(self, v, src):
        """how much more than the length of src is v, or None"""
        if v[0] == "binop" and v[1] == "Add":
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if is_const(b) and isinstance(cval(b), int):
                    s = self.size(a, src)
                    return None if s is None else s + cval(b)
            return None
        if v[0] == "call" and c20.simple(v[2]) in LEN and v[3] and v[3][0] == src:
            return 0
        return None

    def state(self, st, b):
        return next((x for x in st.ts if x[0] == "buffer" and x[1] == b), None)

    def put(self, st, b, size, how, s):
        ts = tuple(x for x in st.ts if not (x[0] == "buffer" and x[1] == b)) + (("buffer", b, size, how, s),)
        return st.but(ts=ts)

    def usable(self, st, ev, v, how):
        self.uses += 1
        if v == NULL:
            self.wrong(st, ev, "a null pointer is %s" % how)
        elif self.buf(v):
            s = self.state(st, v)
            if s is not None and s[4] == "freed":
                self.wrong(st, ev, "a buffer which was released is %s" % how)
            elif s is not None and s[4] == "empty" and how != "written":
                self.wrong(st, ev, "a buffer nothing was copied to is %s" % how)

    def model(self, st, ev):
        if ev.kind != "call":
            return None
        fv, a = ev.callee, tuple(ev.args)
        n, b = c20.simple(fv), callee_base(ev)
        if n in ALLOC and b is None:
            k = sum(1 for x in st.ts if x[0] == "buffer")
            if k >= 6:
                return []
            v = ("tok", "buffer", k)
            sz = a[0] if n in ("malloc", "PyMem_Malloc", "PyMem_RawMalloc", "PyObject_Malloc") else a[1] if n == "realloc" and len(a) > 1 else None
            if n == "calloc" and len(a) == 2:
                sz = a[0] if a[1] == const(1) else a[1] if a[0] == const(1) else None
            self.allocs = getattr(self, "allocs", 0) + 1
            if n == "realloc" and self.buf(a[0]):
                self.usable(st, ev, a[0], "resized") if self.state(st, a[0])[4] == "freed" else None
                ok = self.put(st, a[0], self.state(st, a[0])[2], n, "freed")
            else:
                ok = st
            return [(self.put(ok, v, sz, n, "full" if n == "strdup" else "empty").note("allocates %s" % (show(sz) if sz is not None else "")), v), (st.note("the allocation fails"), NULL)]
        if n in FREE and b is None and a:
            if a[0] == NULL:
                return [(st, NONE)]
            if self.buf(a[0]):
                s = self.state(st, a[0])
                if s[4] == "freed":
                    self.wrong(st, ev, "a buffer is released twice")
                if FAMILY[s[3]] != n:
                    self.wrong(st, ev, "a buffer from %s is released with %s" % (s[3], n))
                return [(self.put(st, a[0], s[2], s[3], "freed").note("releases the buffer"), NONE)]
            self.wrong(st, ev, "%s is released, which is not a buffer" % show(a[0]))
            return [(st, NONE)]
        if n in ("strcpy", "memcpy", "strncpy") and len(a) > 1 and b is None:
            self.usable(st, ev, a[0], "written")
            self.usable(st, ev, a[1], "read")
            s = self.state(st, a[0])
            if s is not None and s[4] != "freed":
                room = None if s[2] is None else self.size(s[2], a[1])
                need = 1 if n == "strcpy" else self.size(a[2], a[1]) if len(a) > 2 else None
                # a slice or element of the source, another object: nothing is known of its length
                if room is None or need is None or room < need:
                    self.wrong(st, ev, "%s is copied to a buffer of %s" % (show(a[1]), show(s[2]) if s[2] is not None else "unknown size"))
                if n != "strcpy" and need is not None and need < 1:
                    self.wrong(st, ev, "the copy is not terminated")
                return [(self.put(st, a[0], s[2], s[3], "full"), NONE)]
            return [(st, NONE)]
        if b is not None and (b == NULL or self.buf(b)):
            self.usable(st, ev, b, "read by %s" % n)
            return [(st, ("tok", "text"))]
        if (n == "strlen" or n == "print") and a and (a[0] == NULL or self.buf(a[0])):
            self.usable(st, ev, a[0], "read by %s" % n)
        return None

    def raises(self, st, ev):
        if ev.kind == "call" and c20.simple(ev.callee) not in QUIET and self.raising and getattr(ev, "target", None) is None:
            return [(st.note("%s raises" % (c20.simple(ev.callee) or "a call")), ("exc", "UserError"))]
        return ()

    raising = True

    def event(self, st, ev):
        if ev.kind == "store" and ev.base[0] == "self" and ev.name in self.ptrs:
            v = ev.value
            if v == NULL or self.buf(v) or v == const(0):
                h = dict(st.heap)
                h[("env", ev.name, "")] = NULL if v == const(0) else v
                return st.but(heap=h)
            self.wrong(st, ev, "the pointer is set to %s" % show(v))
        return None


def key(st):
    return (st.ts, tuple(sorted((k, v) for k, v in st.heap.items() if k[0] == "env")))


def strip(st):
    return {k: v for k, v in st.heap.items() if k[0] == "env"}


def check(ctx):
    m = ctx.model
    ctx.rule("life", "over the life of an object every buffer has room for what is copied, is used while it holds it, and is released once", 4)
    ctx.rule("read", "a method which reads the pointer does so only when there is a buffer", 3)
    owners = []
    for mod in m.modules.values():
        for c in mod.classes.values():
            if c.is_c:
                ptrs = {k for k, t in c.annots.items() if isinstance(t, str) and t.strip().endswith("*")}
                if ptrs:
                    owners.append((c, ptrs))
    if len(owners) < 1:
        raise AnalysisError("no extension class with a pointer attribute")
    for c, ptrs in sorted(owners, key=lambda x: x[0].id):
        for k in [c] + sorted(m.subclasses(c), key=lambda x: x.id):
            lives(ctx, m, k, c, ptrs)


def mentions(f, ptrs):
    return any(isinstance(n, ast.Attribute) and (n.attr in ptrs or f.cls is not None and mangle(f.cls.name, n.attr) in ptrs) for n in ast.walk(f.node))


def handles(f, ptrs):
    """does the function read the pointer, or do with native memory?"""
    return mentions(f, ptrs) or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ALLOC | FREE | {"strcpy", "memcpy", "strncpy"} for n in ast.walk(f.node))


def lives(ctx, m, k, owner, ptrs):
    cl = Life(m, ptrs)
    chain = [x for x in m.mro(k) if isinstance(x, Class)]
    methods = {}
    for x in chain:
        for n, f in x.methods.items():
            methods.setdefault((x.id, n), f)
    special = ("__init__", "__cinit__", "__dealloc__")
    readers = [f for (cid, n), f in methods.items() if n not in special and mentions(f, ptrs)]
    names = {f.name for f in readers}
    # helpers a reader may be called through
    near = {x.module.rel for x in chain}
    cl.helpers = frozenset(names | {f.name for f in m.all_funcs() if f.module.rel in near and not f.is_async and f.name not in NOINLINE and handles(f, ptrs)})

    def run(f, states):
        out = []
        for heap, ts in states:
            it = Interp(m, cl, max_inline=8, attr_stable=tuple(ptrs))
            cl.it = it
            ex = it.run(f, cls=k, heap=heap, ts=ts)
            ctx.analysed(it, f, ex)
            out += [(strip(e.st), e.st.ts, e) for e in ex]
        return out

    def dedup(xs):
        seen, out = set(), []
        for h, ts, _ in xs:
            x = (tuple(sorted(h.items())), ts)
            if x not in seen:
                seen.add(x)
                out.append((h, ts))
        return out

    made = [({}, ())]
    alive = []
    for x in reversed(chain):
        f = x.methods.get("__cinit__")
        if f is not None:
            r = run(f, made)
            alive += dedup([y for y in r if y[2].kind == "raise"])
            made = dedup([y for y in r if y[2].kind != "raise"])
    stages = [("before __init__", made)]
    init = m.find_method(k, "__init__")
    cur = made
    if init is not None:
        for i in ("after __init__", "after __init__ ran again"):
            cur = dedup(run(init, cur))
            stages.append((i, cur))
    every = alive + [s for _, x in stages for s in x]
    n = 0
    bad = list(cl.bad)
    cl.bad = []
    for f in readers:
        if f.cls is not owner and k is not f.cls:
            continue
        if f.cls is owner and k is not owner:
            continue
        cl.raising = False
        run(f, [s for _, x in stages for s in x])
        cl.raising = True
        report(ctx, "read", f.id.split("#")[0], L.where(f), cl.bad)
        cl.bad = []
    # destruction
    ends = [(h, ts, None) for h, ts in dedup([(h, ts, None) for h, ts in every])]
    d = None
    for x in chain:
        f = x.methods.get("__dealloc__")
        if f is not None:
            d = f
            ends = run(f, [(h, ts) for h, ts, _ in ends])
    bad += cl.bad
    for h, ts, e in ends:
        for b in ts:
            if b[0] == "buffer" and b[4] != "freed":
                bad.append((e.st if e is not None else St({}, (), {}, {}, (), None), "a buffer is never released"))
    report(ctx, "life", k.id, "%s:%d" % (k.module.rel, k.node.lineno), bad)
    if not getattr(cl, "allocs", 0):
        ctx.notes.append("%s allocates nothing" % k.id)


def report(ctx, rule, construct, where, bad):
    seen = {}
    for st, why in bad:
        seen.setdefault(why, st)
    for why, st in sorted(seen.items(), key=lambda x: x[0]):
        ctx.ob(rule, "%s: %s" % (construct, why), False, where, why, st.path())
    if not bad:
        ctx.ob(rule, construct, True, where)
