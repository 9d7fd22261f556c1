"""Known dictionaries: tracking the contents of keyword dictionaries along a path (opt-in by `client.kd`).

A known dict is the value ("kd", uid); its contents live in the heap under ("kd", uid, "") as
("kdc", ((key value, value), ...), (rest value, ...)): the listed items plus everything in the (opaque) rest
mappings, of which only the keys in `client.absent` are known to be missing."""
import ast

from .absint_values import *   # noqa
from .model import Class


class KnownDicts:
    def kd_new(self, st, uid, items, rest=()):
        uid = ("kd", uid)
        h = dict(st.heap)
        h[("kd", uid[1], "")] = ("kdc", tuple(items), tuple(rest))
        return st.but(heap=h), uid

    def kd_get(self, st, v):
        if isinstance(v, tuple) and v and v[0] == "kd":
            return st.heap.get(("kd", v[1], ""))
        return None

    # -- known lists and sets: ("kl", uid), contents ("klc", elements, "list" | "set")
    def kl_new(self, st, uid, kind, elems):
        h = dict(st.heap)
        h[("kd", uid, "")] = ("klc", tuple(dict.fromkeys(elems)) if kind == "set" else tuple(elems), kind)
        v = ("kl", uid)
        return st.but(heap=h, facts={a: b for a, b in st.facts.items() if a[0] == "type" and v[0] in ("kd", "kl") or not contains(a, v)}), v

    def kl_get(self, st, v):
        if isinstance(v, tuple) and v and v[0] == "kl":
            return st.heap.get(("kd", v[1], ""))
        return None

    def kl_drop(self, st, v):
        h = dict(st.heap)
        h.pop(("kd", v[1], ""), None)
        return st.but(heap=h)

    def order_of(self, st, v):
        if v[0] in ("tuple", "list"):
            xs = [self.order_of(st, x) for x in v[1]]
            return (v[0], xs)
        if is_const(v):
            return ("plain", cval(v))
        return ("plain", self.client.order(st, v))

    def sort(self, st, xs, kw, node, R):
        """stable sort of known items by `client.order`: [(state, items)]"""
        import functools
        kw = dict(kw)
        key, rev = kw.get("key", NONE), kw.get("reverse", FALSE)
        rev = self.decide(st, rev)
        cur = [(st, ())]
        for x in xs:
            nxt = []
            for s, acc in cur:
                if key == NONE:
                    nxt.append((s, acc + (x,)))
                elif key[0] == "call" and key[2][0] == "ext" and key[2][1].endswith("itemgetter") and len(key[3]) == 1 and is_const(key[3][0]) and x[0] in ("tuple", "list"):
                    nxt.append((s, acc + (x[1][cval(key[3][0])],)))
                else:
                    nxt += [(s2, acc + (k,)) for s2, k in self.apply(s, key, [x], [], node, R)]
            cur = nxt
        out = []
        for s, ks in cur:
            class Bad(Exception):
                pass

            def less(a, b):
                if a[0] != b[0]:
                    raise Bad()
                if a[0] in ("tuple", "list"):
                    for x, y in zip(a[1], b[1]):
                        if x != y:
                            return less(x, y)
                        if x[1] is None:
                            raise Bad()
                    return len(a[1]) < len(b[1])
                if a[1] is None or b[1] is None or type(a[1]) != type(b[1]):
                    raise Bad()
                return a[1] < b[1]
            os = [self.order_of(s, k) for k in ks]
            try:
                ix = sorted(range(len(xs)), key=functools.cmp_to_key(lambda i, j: -1 if less(os[i], os[j]) else 1 if less(os[j], os[i]) else 0), reverse=bool(rev))
            except Bad:
                R.append((s, ("exc", "TypeError", "not comparable")))
                continue
            out.append((s, tuple(xs[i] for i in ix)))
        return out

    def kl_method(self, st, v, name, args, node, R, kw=()):
        c = self.kl_get(st, v)
        if c is None:
            return None
        xs, kind = c[1], c[2]
        if name == "sort" and (self.client.order is not None or not kw and all(is_const(x) for x in xs)):
            return [(self.kl_new(s, v[1], kind, ys)[0], NONE) for s, ys in self.sort(st, xs, kw, node, R)]
        if name == "reverse":
            return [(self.kl_new(st, v[1], kind, xs[::-1])[0], NONE)]
        if name in ("append", "add", "insert", "appendleft") and args:
            x = args[-1]
            if kind == "set" and x in xs:
                return [(st, NONE)]
            if len(xs) >= 12:
                return [(self.kl_drop(st, v), NONE)]
            i = cval(args[0]) if name == "insert" and is_const(args[0]) else (0 if name == "appendleft" else len(xs))
            return [(self.kl_new(st, v[1], kind, xs[:i] + (x,) + xs[i:])[0], NONE)]
        if name == "popleft":
            name, args = "pop", (const(0),)
        if name == "pop" and not xs and kind == "list" and (not args or is_const(args[0])):
            R.append((st, ("exc", "IndexError", "pop from an empty list")))
            return []
        if name == "clear" and not args:
            return [(self.kl_new(st, v[1], kind, ())[0], NONE)]
        if name == "pop" and xs and (not args or is_const(args[0])):
            i = cval(args[0]) if args else -1
            if kind == "set" and len(xs) != 1 or not -len(xs) <= i < len(xs):
                return None
            i %= len(xs)
            return [(self.kl_new(st, v[1], kind, xs[:i] + xs[i + 1:])[0], xs[i])]
        if name in ("extend", "update") and len(args) == 1:
            more = self.kd_literal(st, args[0])
            if more is not None and len(xs) + len(more) <= 12:
                return [(self.kl_new(st, v[1], kind, xs + tuple(x for x in more if kind == "list" or x not in xs))[0], NONE)]
            return [(self.kl_drop(st, v), NONE)]
        if name == "copy":
            return [(st, (kind, xs))]
        if name in ("remove", "discard") and args and args[0] in xs:
            i = xs.index(args[0])
            return [(self.kl_new(st, v[1], kind, xs[:i] + xs[i + 1:])[0], NONE)]
        if name in ("remove", "discard") and args and self.client.distinct and all(x[0] in ("tok", "const") for x in xs + (args[0],)):
            if name == "remove":
                R.append((st, ("exc", "ValueError" if kind == "list" else "KeyError", "not in the %s" % kind)))
                return []
            return [(st, NONE)]
        if name in ("clear", "sort", "reverse", "remove", "discard", "pop"):
            return [(self.kl_drop(st, v), trim(("call", self.site(node), ("attr", v, name), tuple(args), ())))]
        return None

    def kd_set(self, st, v, items, rest):
        h = dict(st.heap)
        h[("kd", v[1], "")] = ("kdc", tuple(items), tuple(rest))
        facts = {a: b for a, b in st.facts.items() if a[0] == "type" and v[0] in ("kd", "kl") or not contains(a, v)}
        return st.but(heap=h, facts=facts)

    def kd_absent(self, k, rest):
        """is the constant key k known to be missing from the rest mappings?"""
        if k == ("restkey",):
            return None
        return not rest or (is_const(k) and cval(k) in self.client.absent)

    def kd_in(self, st, k, v):
        c = self.kd_get(st, v)
        if c is None:
            return None
        if any(a == k for a, _ in c[1]):
            return True
        if self.kd_absent(k, c[2]):
            return False if is_const(k) or not c[1] or self.kd_apart(k, [a for a, _ in c[1]]) else None
        return None

    def kd_apart(self, k, others):
        """are the tokens told apart by the client, as distinct keys?"""
        return self.client.distinct and k[0] == "tok" and all(a[0] == "tok" or is_const(a) for a in others)

    def kd_item(self, st, v, k, node, R, default=None, popping=False):
        """v[k] (default None) or v.get(k, default): [(state, value)]"""
        c = self.kd_get(st, v)
        for a, b in c[1]:
            if a == k:
                return [(st, b)]
        if self.kd_absent(k, c[2]) and (is_const(k) or not c[2] and self.kd_apart(k, [a for a, _ in c[1]])):
            if default is None and not popping:
                x = self.client.kd_missing(st, v, k)
                if x is not None:
                    return [(self.kd_store(st, v, k, x), x)]
            if default is None:
                R.append((st, ("exc", "KeyError", self.site(node))))
                return []
            return [(st, default)]
        return [(st, trim(("item", v, k)))]

    def kd_store(self, st, v, k, x):
        c = self.kd_get(st, v)
        items = [(a, (x if a == k else b)) for a, b in c[1]]
        if not any(a == k for a, _ in items):
            items.append((k, x))
        return self.kd_set(st, v, items, c[2])

    def kd_del(self, st, v, k):
        c = self.kd_get(st, v)
        return self.kd_set(st, v, [x for x in c[1] if x[0] != k], c[2])

    def kd_merge(self, st, items, rest, other):
        """contents after update(other)"""
        c = self.kd_get(st, other)
        if c is not None:
            more, mrest = c[1], c[2]
        elif other[0] == "kw":
            more, mrest = [(const(n), x) for n, x in other[1]], other[2]
        elif other[0] == "dict" and all(k != ("star",) for k, _ in other[1]):
            more, mrest = other[1], ()
        elif other[0] == "dict":
            more, mrest = (), (other,)
        else:
            more, mrest = (), (other,)
        items, rest = list(items), list(rest)
        for k, x in more:
            items = [y for y in items if y[0] != k] + [(k, x)]
        for r in mrest:
            if r not in rest:
                rest.append(r)
        return items, rest

    def kd_method(self, st, v, name, args, kw, node, R):
        """method call on a known dict: [(state, value)] or None"""
        c = self.kd_get(st, v)
        if c is None:
            return None
        if name in ("get", "pop", "setdefault") and 1 <= len(args) <= 2 and not kw:
            k = args[0]
            d = args[1] if len(args) == 2 else (None if name == "pop" else NONE)
            out = []
            for s, x in self.kd_item(st, v, k, node, R, d, name == "pop"):
                if name == "pop" and is_const(k):
                    s = self.kd_del(s, v, k)
                if name == "setdefault":
                    s = self.kd_store(s, v, k, x)
                out.append((s, x))
            return out
        if name == "copy" and not args:
            s, n = self.kd_new(st, ("copy", self.site(node), len(self.stack)), c[1], c[2])
            return [(s, n)]
        if name == "keys" and not args:
            return [(st, v)]
        if name == "clear":
            return [(self.kd_set(st, v, (), ()), NONE)]
        if name == "update":
            items, rest = c[1], c[2]
            for a in args:
                items, rest = self.kd_merge(st, items, rest, a)
            for n, x in kw:
                items, rest = self.kd_merge(st, items, rest, x if n is None else ("kw", ((n, x),), ()))
            return [(self.kd_set(st, v, items, rest), NONE)]
        if name == "items" and not c[2]:
            return [(st, ("list", tuple(("tuple", (k, x)) for k, x in c[1])))]
        if name == "values" and not c[2]:
            return [(st, ("list", tuple(x for k, x in c[1])))]
        if name == "items":
            return [(st, ("kditems", v))]
        return None

    def kd_flat(self, st, k):
        """expand **kd arguments"""
        out = []
        for n, v in k:
            c = self.kd_get(st, v) if n is None else None
            if c is None:
                out.append((n, v))
            else:
                out += [(cval(a) if is_const(a) else None, b) for a, b in c[1]] + [(None, r) for r in c[2]]
        return out

    def kd_literal(self, st, v):
        """elements of a value iterated over, when all are known"""
        if v[0] in ("tuple", "list", "vararg", "set") and not any(x[0] == "star" for x in v[1]):
            return list(v[1])
        c = self.kl_get(st, v)
        if c is not None:
            return list(c[1])
        c = self.kd_get(st, v)
        if c is not None and not c[2]:
            return [k for k, _ in c[1]]
        if v[0] == "call" and v[2][0] == "ext" and v[3] and not v[4] and not any(x[0] == "star" for x in v[3]):
            n = v[2][1]
            if n == "builtins.zip":
                xs = [self.kd_literal(st, x) for x in v[3]]
                return None if any(x is None for x in xs) else [("tuple", t) for t in zip(*xs)]
            if n in ("builtins.enumerate", "builtins.reversed") and len(v[3]) == 1:
                xs = self.kd_literal(st, v[3][0])
                if xs is not None:
                    return [("tuple", (const(i), x)) for i, x in enumerate(xs)] if n == "builtins.enumerate" else xs[::-1]
        return None

    def surely_distinct(self, st, v, xs):
        """a set has as many elements as were put into it only if no two of them are equal"""
        c = self.kl_get(st, v)
        if len(xs) < 2 or v[0] != "set" and (c is None or c[2] != "set"):
            return True
        return sum(not is_const(x) for x in xs) == 0 or self.client.distinct and all(is_const(x) or x[0] == "tok" for x in xs)

    def kd_fold(self, e, mod, depth=0):
        """value of a module-level constant collection"""
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, (ast.Set, ast.Tuple)):
            xs = [self.kd_fold(x, mod, depth + 1) for x in e.elts]
            if xs and all(x is not None and is_const(x) for x in xs):
                return ("set" if isinstance(e, ast.Set) else "tuple", tuple(xs))
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "tuple") and len(e.args) == 1:
            a = e.args[0]
            if isinstance(a, ast.List):
                a = ast.Tuple(a.elts, ast.Load())
            if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
                r = self.kd_fold_comp(a, mod, depth)
                return None if r is None else ("tuple" if e.func.id == "tuple" else "set", r)
            r = self.kd_fold(a, mod, depth + 1)
            return None if r is None or r[0] not in ("set", "tuple") else ("tuple" if e.func.id == "tuple" else "set", r[1])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.kd_fold(e.left, mod, depth + 1), self.kd_fold(e.right, mod, depth + 1)
            if a and b and a[0] == b[0] == "set":
                return ("set", a[1] + tuple(x for x in b[1] if x not in a[1]))
            return None
        if isinstance(e, ast.Attribute) and e.attr == "__annotations__":
            c = self.model.resolve_dotted(mod, ast.unparse(e.value))
            if isinstance(c, Class):
                xs = [x.target.id for x in c.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
                return ("tuple", tuple(const(x) for x in xs)) if xs else None
            return None
        if isinstance(e, (ast.Name, ast.Attribute)) and depth < 6:
            r = self.model.resolve_dotted(mod, ast.unparse(e))
            if isinstance(r, tuple) and r[0] == "value":
                x = r[1].assigns.get(r[2])
                return self.kd_fold(x, r[1], depth + 1) if x is not None else None
        return None

    def kd_fold_comp(self, e, mod, depth):
        """`key for key in <constants> if <tests on the start or end of key>`"""
        g = e.generators[0]
        if len(e.generators) != 1 or not isinstance(g.target, ast.Name) or not isinstance(e.elt, ast.Name) or e.elt.id != g.target.id:
            return None
        src = self.kd_fold(g.iter, mod, depth + 1)
        if src is None or src[0] not in ("set", "tuple"):
            return None

        def test(c, x):
            if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
                r = test(c.operand, x)
                return None if r is None else not r
            if isinstance(c, ast.BoolOp):
                rs = [test(y, x) for y in c.values]
                return None if None in rs else (all if isinstance(c.op, ast.And) else any)(rs)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == g.target.id \
                    and c.func.attr in ("startswith", "endswith") and len(c.args) == 1 and isinstance(c.args[0], ast.Constant) and isinstance(x, str):
                return getattr(x, c.func.attr)(c.args[0].value)
            return None
        out = []
        for x in src[1]:
            rs = [test(c, cval(x)) for c in g.ifs]
            if None in rs:
                return None
            if all(rs):
                out.append(x)
        return tuple(out)

    def kd_comp_loops(self, e, kind, st, R, elts):
        """any comprehension over generators and known collections, run as nested loops appending to a known list"""
        from .absint import Gen, Out, dedupe
        uid = ("comp", self.site(e), len(self.stack), self.nest)
        saved_env = st.env
        st0, acc = self.kl_new(st, uid, "acc", ())
        bail = []

        def level(i, states):
            o = Out()
            if i == len(e.generators):
                for s in states:
                    for s2, vs in self.evs(elts, s, o.rse):
                        c = self.kl_get(s2, acc)
                        if c is None or len(c[1]) >= 12:
                            bail.append(1)
                            continue
                        o.normal.append(self.kl_new(s2, uid, "acc", c[1] + (tuple(vs) if len(vs) > 1 else vs[0],))[0])
                return o
            g = e.generators[i]
            for s in states:
                for s1, it in self.ev(g.iter, s, o.rse):
                    if not self.iterable(s1, it, bool(g.is_async)):
                        bail.append(1)
                        continue

                    def body(sts, i=i, g=g):
                        oo = Out()
                        cur = sts
                        for c in g.ifs:
                            nxt = []
                            for x in cur:
                                for y, b in self.cond(c, x, oo.rse):
                                    (nxt if b else oo.normal).append(y)
                            cur = nxt
                        oo.absorb(level(i + 1, dedupe(cur)), True)
                        return oo
                    o.absorb(self.for_over(Gen(g, e), s1, it, bool(g.is_async), body=body), True)
            return o
        r = level(0, [st0])
        if bail:
            return None
        R += r.rse
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        out = []
        for s in dedupe(r.normal):
            c = self.kl_get(s, acc)
            env = dict(s.env)
            for n in names:
                if n in saved_env:
                    env[n] = saved_env[n]
                else:
                    env.pop(n, None)
            s = self.kl_drop(s, acc).but(env=env)
            if kind == "dict":
                items = {}
                for a, b in c[1]:
                    items[a] = b
                s, v = self.kd_new(s, uid, list(items.items()))
            else:
                xs = c[1] if kind != "set" else tuple(dict.fromkeys(c[1]))
                v = ("list" if kind in ("list", "gen") else "set", xs)
            out.append((s, v))
        return out

    def kd_comp(self, e, kind, st, R, elts):
        """comprehension over a known collection: [(state, value)] or None"""
        if len(e.generators) != 1 or e.generators[0].is_async:
            return self.kd_comp_loops(e, kind, st, R, elts)
        g = e.generators[0]
        saved_env = st.env
        R0 = []
        srcs = self.ev(g.iter, st, R0)
        plan = []
        for s, it in srcs:
            rest = ()
            if it[0] == "kditems":
                c = self.kd_get(s, it[1])
                xs = [("tuple", p) for p in c[1]]
                rest = c[2]
                if not (kind == "dict" and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2
                        and [ast.unparse(x) for x in g.target.elts] == [ast.unparse(x) for x in elts]):
                    return None
                xs += [("tuple", (("restkey",), r)) for r in rest]
            else:
                xs = self.kd_literal(s, it)
                if self.known_iterator(s, it) or xs is None and (it[0] == "gen" or self.client.step is not None and self.client.step(s, it, False) is not None):
                    return self.kd_comp_loops(e, kind, st, R, elts)
            if xs is None or len(xs) > 12:
                return None
            plan.append((s, xs))
        R += R0
        out = []
        for s, xs in plan:
            cur = [(s, (), ())]
            for x in xs:
                nxt = []
                for s1, acc, rest in cur:
                    for s2 in self.assign(g.target, x, s1, R, e):
                        ok = [s2]
                        for c in g.ifs:
                            t = []
                            for y in ok:
                                for z, b in self.cond(c, y, R):
                                    if b:
                                        t.append(z)
                                    else:
                                        nxt.append((z, acc, rest))
                            ok = t
                        for y in ok:
                            if x[0] == "tuple" and x[1] and x[1][0] == ("restkey",):
                                nxt.append((y, acc, rest + (x[1][1],)))
                                continue
                            for z, vs in self.evs(elts, y, R):
                                nxt.append((z, acc + ((tuple(vs) if len(vs) > 1 else vs[0]),), rest))
                cur = nxt
            names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for s1, acc, rest in cur:
                env = dict(s1.env)
                for n in names:
                    if n in saved_env:
                        env[n] = saved_env[n]
                    else:
                        env.pop(n, None)
                s1 = s1.but(env=env)
                if kind == "dict":
                    s1, v = self.kd_new(s1, ("comp", self.site(e), len(self.stack)), [(a, b) for a, b in acc], rest)
                else:
                    v = ("list", tuple(acc)) if kind in ("list", "gen") else ("set", tuple(dict.fromkeys(acc)))
                out.append((s1, v))
        return out
