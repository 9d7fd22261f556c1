"""Program model of /repo/a_sync: modules, symbols, classes, methods, resolution."""
import ast
import hashlib
import os

from .cy2ast import parse_cython

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "a_sync"


class AnalysisError(Exception):
    """The analysis cannot give a verdict (vanished anchor, unknown construct, state limit)."""


def mangle(cls, name):
    if cls and name.startswith("__") and not name.endswith("__"):
        return "_" + cls.lstrip("_") + name
    return name


class Func:
    def __init__(self, module, node, cls=None, outer=None):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.kind = getattr(node, "cy_kind", "def")
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_lambda = isinstance(node, ast.Lambda)
        self._gen = None
        if cls is not None and outer is None:
            self.qual = "%s.%s" % (cls.name, self.name)
        elif outer is not None:
            self.qual = "%s.<locals>.%s" % (outer.qual, self.name)
        else:
            self.qual = self.name

    @property
    def is_gen(self):
        if self._gen is None:
            self._gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(self.node))
        return self._gen

    @property
    def decorators(self):
        return [] if self.is_lambda else [ast.unparse(d) for d in self.node.decorator_list]

    @property
    def is_static(self):
        return any(d in ("staticmethod",) for d in self.decorators)

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(d in ("property", "functools.cached_property", "cached_property", "cached_property_unsafe")
                   or d.endswith(".cached_property") for d in self.decorators)

    @property
    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    @property
    def id(self):
        return "%s:%s" % (self.module.rel, self.qual)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return "<Func %s>" % self.id


def own_nodes(fn):
    """AST nodes of a function body, not descending into nested functions/classes (but into comprehensions)."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.GeneratorExp,)):
            pass
        todo.extend(ast.iter_child_nodes(n))


def scoped_walk(fn):
    """All nodes including nested functions."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for b in body:
        yield from ast.walk(b)


class Class:
    def __init__(self, module, node, outer=None):
        self.module, self.node, self.name = module, node, node.name
        self.outer = outer
        self.is_c = getattr(node, "cy_class", False)
        self.methods, self.setters, self.attrs, self.annots = {}, {}, {}, {}
        self.variants = {}  # method name -> the definitions of it in the branches of a conditional in the class body
        self.base_exprs = list(node.bases)
        self.keywords = {k.arg: k.value for k in node.keywords}

    @property
    def id(self):
        return "%s:%s" % (self.module.rel, self.name)

    def __repr__(self):
        return "<Class %s>" % self.id


class Module:
    def __init__(self, name, rel, tree, src):
        self.name, self.rel, self.tree, self.src = name, rel, tree, src
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self.nodes_func = {}
        self.c_funcs = {}
        self.annots = {}
        self.star_imports = []


def is_tc(test):
    s = ast.unparse(test)
    return s in ("TYPE_CHECKING", "typing.TYPE_CHECKING")


class Model:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.files = {}
        self._load()
        self._subs = None

    # -- loading ---------------------------------------------------------
    def _load(self):
        root = os.path.join(self.repo, PKG)
        found = {}
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "sphinx"))
            for f in sorted(files):
                if f.endswith((".py", ".pyx", ".pxd")):
                    found[os.path.join(d, f)] = None
        names = set(found)
        pxds = []
        for p in sorted(names):
            rel = os.path.relpath(p, self.repo)
            src = open(p, encoding="utf-8").read()
            self.files[rel] = hashlib.sha256(src.encode()).hexdigest()
            base, ext = os.path.splitext(rel)
            mod = base.replace(os.sep, ".")
            if mod.endswith(".__init__"):
                mod = mod[: -len(".__init__")]
            if ext == ".pxd":
                pxds.append((mod, rel, src, p))
                continue
            if ext == ".pyx" and p[:-1] in names:     # foo.py next to foo.pyx: never happens here
                raise AnalysisError("both %s and .py exist" % rel)
            try:
                if ext == ".py":
                    tree = ast.parse(src, rel)
                else:
                    tree = parse_cython(rel, src)
                    ast.fix_missing_locations(tree)
            except AnalysisError:
                raise
            except Exception as e:
                raise AnalysisError("cannot parse %s: %s" % (rel, e))
            m = Module(mod, rel, tree, src)
            self.modules[mod] = m
            self._index(m)
        for mod, rel, src, p in pxds:
            tree = parse_cython(rel, src, pxd=True)
            ast.fix_missing_locations(tree)
            self._index_pxd(mod, rel, tree)

    def _index(self, m):
        def stmts(body):
            for s in body:
                if isinstance(s, ast.If):
                    if is_tc(s.test):
                        # names imported only for typing still resolve annotations
                        for x in s.body:
                            if isinstance(x, (ast.Import, ast.ImportFrom)):
                                yield x
                        yield from stmts(s.orelse)
                    else:
                        yield from stmts(s.body)
                        yield from stmts(s.orelse)
                elif isinstance(s, ast.Try):
                    yield from stmts(s.body)
                    for h in s.handlers:
                        yield from stmts(h.body)
                    yield from stmts(s.orelse)
                    yield from stmts(s.finalbody)
                elif isinstance(s, ast.With):
                    yield from stmts(s.body)
                else:
                    yield s
        for s in stmts(m.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, s)
            elif isinstance(s, ast.ClassDef):
                self._add_class(m, s)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                self._add_import(m, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            m.assigns[n.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    m.assigns[s.target.id] = s.value
                if getattr(s, "cy_decl", False):
                    m.annots[s.target.id] = s.annotation.value

    def _overload(self, f):
        return any(ast.unparse(d) in ("overload", "typing.overload") for d in f.decorator_list)

    def _add_func(self, m, node, cls=None):
        if self._overload(node) or getattr(node, "cy_forward", False):
            return
        f = Func(m, node, cls)
        m.nodes_func[id(node)] = f
        self._nested(f)
        if cls is None:
            m.funcs[node.name] = f
        else:
            decs = [ast.unparse(d) for d in node.decorator_list]
            name = mangle(cls.name, node.name)
            if any(d.endswith((".setter", ".deleter")) for d in decs):
                cls.setters[name] = f
            else:
                cls.methods[name] = f
        return f

    def _nested(self, f):
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                g = Func(f.module, n, f.cls, f)
                f.module.nodes_func[id(n)] = g
                self._nested(g)
                continue
            todo.extend(ast.iter_child_nodes(n))

    def _add_class(self, m, node, outer=None):
        c = Class(m, node, outer)
        m.classes[node.name] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, s, c)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[mangle(c.name, t.id)] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    c.attrs[mangle(c.name, s.target.id)] = s.value
                if getattr(s, "cy_decl", False):
                    c.annots[mangle(c.name, s.target.id)] = s.annotation.value
                else:
                    c.annots.setdefault(mangle(c.name, s.target.id), ast.unparse(s.annotation))
            elif isinstance(s, ast.ClassDef):
                self._add_class(m, s, c)
            elif isinstance(s, ast.If) and ast.unparse(s.test) not in ("TYPE_CHECKING", "typing.TYPE_CHECKING"):
                for x in list(s.orelse) + list(s.body):
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = self._add_func(m, x, c)
                        if f is not None:
                            c.variants.setdefault(mangle(c.name, x.name), []).append(f)

    def _add_import(self, m, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    m.imports[a.asname] = a.name
                else:
                    m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            mod = s.module or ""
            if s.level:
                pkg = m.name.split(".")
                if not m.rel.endswith("__init__.py"):
                    pkg = pkg[:-1]
                pkg = pkg[: len(pkg) - (s.level - 1)]
                mod = ".".join(pkg + ([mod] if mod else []))
            for a in s.names:
                if a.name == "*":
                    m.star_imports.append(mod)
                else:
                    m.imports[a.asname or a.name] = mod + "." + a.name

    def _index_pxd(self, mod, rel, tree):
        m = self.modules.get(mod)
        if m is None:
            return
        for s in tree.body:
            if isinstance(s, ast.ClassDef):
                c = m.classes.get(s.name)
                if c is None:
                    continue
                c.is_c = True
                if not c.base_exprs:
                    c.base_exprs = list(s.bases)
                for x in s.body:
                    if isinstance(x, ast.AnnAssign):
                        c.annots[mangle(c.name, x.target.id)] = x.annotation.value
                    elif isinstance(x, ast.FunctionDef):
                        f = c.methods.get(mangle(c.name, x.name))
                        if f is not None:
                            f.pxd_ret = getattr(x, "cy_ret", None)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                before = dict(m.imports)
                self._add_import(m, s)
                m.imports.update(before)
            elif isinstance(s, ast.FunctionDef):
                pass

    # -- lookup ----------------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisError("module %s vanished" % name)
        return m

    def func(self, mod, qual):
        m = self.module(mod)
        parts = qual.split(".")
        if len(parts) == 1:
            f = m.funcs.get(parts[0])
        else:
            c = m.classes.get(parts[0])
            f = self.find_method(c, mangle(c.name, parts[1])) if c else None
        if f is None:
            raise AnalysisError("anchor %s in %s vanished" % (qual, mod))
        return f

    def cls(self, mod, name):
        c = self.module(mod).classes.get(name)
        if c is None:
            raise AnalysisError("class %s in %s vanished" % (name, mod))
        return c

    def resolve_name(self, m, name, seen=()):
        """-> Func | Class | ('module', name) | ('ext', dotted) | ('value', module, expr) | None"""
        if (m.name, name) in seen:
            return None
        seen = seen + ((m.name, name),)
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.assigns:
            v = m.assigns[name]
            if isinstance(v, ast.Name) and v.id != name:
                r = self.resolve_name(m, v.id, seen)
                if r is not None:
                    return r
            if isinstance(v, ast.Attribute):
                r = self.resolve_dotted(m, ast.unparse(v), seen)
                if isinstance(r, (Func, Class)) or (isinstance(r, tuple) and r[0] == "ext"):
                    return r
            return ("value", m, name)
        if name in m.imports:
            return self.resolve_abs(m.imports[name], seen)
        for sm in m.star_imports:
            if sm in self.modules:
                r = self.resolve_name(self.modules[sm], name, seen)
                if r is not None:
                    return r
        return None

    def resolve_abs(self, dotted, seen=()):
        if dotted in self.modules:
            # the package may bind the submodule's name to something else (a function of the same name)
            par, _, last = dotted.rpartition(".")
            if par in self.modules:
                p = self.modules[par]
                if last in p.funcs or last in p.classes or p.imports.get(last, dotted) != dotted:
                    r = self.resolve_name(p, last, seen)
                    if isinstance(r, (Func, Class)):
                        return r
            return ("module", dotted)
        if not dotted.startswith(PKG + ".") and dotted != PKG:
            return ("ext", dotted)
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                r = self.resolve_name(self.modules[mn], parts[i], seen)
                if r is None:
                    # submodule attribute
                    return ("ext", dotted)
                if i == len(parts) - 1:
                    return r
                return ("ext", dotted)
        return ("ext", dotted)

    def resolve_dotted(self, m, dotted, seen=()):
        parts = dotted.split(".")
        r = self.resolve_name(m, parts[0], seen)
        for p in parts[1:]:
            if isinstance(r, tuple) and r[0] == "module":
                r = self.resolve_abs(r[1] + "." + p, seen)
            elif isinstance(r, tuple) and r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            elif isinstance(r, Class):
                r = self.find_method(r, p)
            else:
                return None
        return r

    def bases(self, c):
        out = []
        for b in c.base_exprs:
            if isinstance(b, ast.Subscript):
                b = b.value
            try:
                t = ast.unparse(b)
            except Exception:
                continue
            r = self.resolve_dotted(c.module, t)
            out.append(r if r is not None else ("ext", t))
        return out

    def mro(self, c):
        """Approximate C3: linearise by the merge algorithm over in-package classes."""
        def lin(c, seen):
            if c in seen:
                return [c]
            bs = [b for b in self.bases(c) if isinstance(b, Class)]
            seqs = [lin(b, seen | {c}) for b in bs] + [list(bs)]
            out = [c]
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            return out
        return lin(c, frozenset())

    def find_method(self, c, name, after=None):
        for k in self._mro_after(c, after):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
            if name in k.methods:
                return None
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def find_annot(self, c, name):
        for k in self.mro(c):
            if name in k.annots:
                return k, k.annots[name]
        return None

    def _mro_after(self, c, after):
        l = self.mro(c)
        if after is not None and after in l:
            l = l[l.index(after) + 1:]
        return l

    def subclasses(self, c):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if k is not c and c in self.mro(k):
                    out.append(k)
        return out

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.nodes_func.values():
                yield f

    def is_subclass(self, c, base_name):
        """c: Class or ext name; base_name: simple name."""
        if isinstance(c, Class):
            for k in self.mro(c):
                if k.name == base_name:
                    return True
                for b in self.bases(k):
                    if isinstance(b, tuple) and b[1].split(".")[-1] == base_name:
                        return True
        return False
