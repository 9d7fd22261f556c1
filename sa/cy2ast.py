"""Parse Cython source with Cython's own parser and convert it to a Python ``ast``.

Only parsing is done (no compilation, no execution).  C level constructs are kept as:
  * casts            -> Call(Name('__cast__'), [Constant(type), operand])
  * C variable decl  -> AnnAssign(annotation=Constant(type)), attribute ``cy_decl=True``
  * cdef/cpdef func  -> FunctionDef with ``cy_kind`` in {'cdef','cpdef'}, ``cy_ret``, ``cy_except``
  * cdef class       -> ClassDef with ``cy_class=True``
  * cimport          -> Import/ImportFrom with ``cimport=True``
An unknown node kind raises ConversionError: the analysis must not skip code silently.
"""
import ast
from io import StringIO

from Cython.Compiler import Errors, Parsing
from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor
from Cython.Compiler.TreeFragment import StringParseContext


class ConversionError(Exception):
    pass


def parse_cython(path, src, pxd=False):
    ctx = StringParseContext("x")
    Errors.init_thread()
    sd = StringSourceDescriptor(path, src)
    scope = ctx.find_module("x", pos=(sd, 1, 0), need_pxd=False)
    ctx.language_level = 3
    s = PyrexScanner(StringIO(src), sd, source_encoding="UTF-8", scope=scope, context=ctx,
                     initial_pos=(sd, 1, 0), parse_comments=False)
    tree = Parsing.p_module(s, pxd, "x")
    return Converter(path).module(tree)


_BIN = {"Add": ast.Add, "Sub": ast.Sub, "Mul": ast.Mult, "Div": ast.Div, "Mod": ast.Mod, "Pow": ast.Pow,
        "MatMult": ast.MatMult}
_OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod,
        "**": ast.Pow, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift,
        ">>": ast.RShift, "@": ast.MatMult}
_CMP = {"==": ast.Eq, "!=": ast.NotEq, "<>": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt,
        ">=": ast.GtE, "in": ast.In, "not_in": ast.NotIn, "is": ast.Is, "is_not": ast.IsNot}


class Converter:
    def __init__(self, path):
        self.path = path

    # -- helpers ---------------------------------------------------------
    def fail(self, n, what="node"):
        raise ConversionError("%s:%s: cannot convert %s %s" % (
            self.path, getattr(n, "pos", (None, "?"))[1], what, type(n).__name__))

    def at(self, new, n):
        pos = getattr(n, "pos", None)
        line, col = (pos[1], pos[2]) if pos else (1, 0)
        new.lineno = new.end_lineno = line
        new.col_offset = new.end_col_offset = col
        return new

    def module(self, t):
        m = ast.Module(body=self.block(t.body), type_ignores=[])
        return m

    def block(self, n):
        out = []
        if n is None:
            return out
        k = type(n).__name__
        if k == "StatListNode":
            for s in n.stats:
                out.extend(self.block(s))
            return out
        r = self.stmt(n)
        if isinstance(r, list):
            out.extend(r)
        elif r is not None:
            out.append(r)
        return out

    def body(self, n):
        b = self.block(n)
        return b or [self.at(ast.Pass(), n)]

    # -- types -----------------------------------------------------------
    def typ(self, t):
        if t is None:
            return None
        k = type(t).__name__
        if k == "CSimpleBaseTypeNode":
            name = t.name
            if name is None:
                return None
            if t.module_path:
                name = ".".join(list(t.module_path) + [name])
            if t.is_basic_c_type:
                pre = ""
                if t.signed == 0:
                    pre = "unsigned "
                name = pre + {-1: "short ", 0: "", 1: "long ", 2: "long long "}.get(t.longness, "") + name
                name = name.replace("long int", "long").replace("long long int", "long long")
            return str(name)
        if k == "TemplatedTypeNode":
            return self.typ(t.base_type_node)
        if k == "CConstOrVolatileTypeNode":
            return self.typ(t.base_type)
        if k == "CComplexBaseTypeNode":
            ptr = ""
            d = t.declarator
            while type(d).__name__ == "CPtrDeclaratorNode":
                ptr += "*"
                d = d.base
            return (self.typ(t.base_type) or "object") + ptr
        if k == "CTupleBaseTypeNode":
            return "tuple"
        self.fail(t, "type")

    def declarator(self, d):
        """-> (name, pointer suffix, default, func declarator or None)"""
        k = type(d).__name__
        if k == "CNameDeclaratorNode":
            return str(d.name), "", d.default, None
        if k == "CPtrDeclaratorNode":
            n, p, df, f = self.declarator(d.base)
            return n, p + "*", df, f
        if k == "CFuncDeclaratorNode":
            n, p, df, f = self.declarator(d.base)
            return n, p, df, d
        if k == "CArrayDeclaratorNode":
            n, p, df, f = self.declarator(d.base)
            return n, p + "[]", df, f
        self.fail(d, "declarator")

    # -- function arguments ----------------------------------------------
    def arg(self, a):
        name, ptr, default, _ = self.declarator(a.declarator)
        t = None
        if name == "":
            # bare identifier was parsed as a type
            bt = a.base_type
            while type(bt).__name__ != "CSimpleBaseTypeNode":
                bt = getattr(bt, "base_type_node", None) or getattr(bt, "base_type", None)
            name = str(bt.name)
        else:
            t = self.typ(a.base_type)
        if t:
            t += ptr
        ann = None
        if t:
            ann = self.at(ast.Constant(t), a)
        elif a.annotation is not None:
            ann = self.expr(a.annotation)
        r = self.at(ast.arg(arg=name, annotation=ann), a)
        r.cy_type = t
        d = a.default if a.default is not None else default
        return r, (self.expr(d) if d is not None else None)

    def arguments(self, n, args, star=None, starstar=None):
        pos, kwo, defaults, kwd, ponly = [], [], [], [], []
        for a in args:
            r, d = self.arg(a)
            if a.kw_only:
                kwo.append(r)
                kwd.append(d)
            else:
                (ponly if getattr(a, "pos_only", 0) else pos).append(r)
                if d is not None:
                    defaults.append(d)
        def sa(x):
            if x is None:
                return None
            ann = self.expr(x.annotation) if getattr(x, "annotation", None) is not None else None
            r = self.at(ast.arg(arg=str(x.name), annotation=ann), x)
            r.cy_type = None
            return r
        return ast.arguments(posonlyargs=ponly, args=pos, vararg=sa(star), kwonlyargs=kwo,
                             kw_defaults=kwd, kwarg=sa(starstar), defaults=defaults)

    def decos(self, n):
        return [self.expr(d.decorator) for d in (getattr(n, "decorators", None) or [])]

    # -- statements ------------------------------------------------------
    def stmt(self, n):
        k = type(n).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.fail(n, "statement")
        return m(n)

    def s_PassStatNode(self, n): return self.at(ast.Pass(), n)
    def s_BreakStatNode(self, n): return self.at(ast.Break(), n)
    def s_ContinueStatNode(self, n): return self.at(ast.Continue(), n)
    def s_ExprStatNode(self, n): return self.at(ast.Expr(self.expr(n.expr)), n)
    def s_GlobalNode(self, n): return self.at(ast.Global(names=[str(x) for x in n.names]), n)
    def s_NonlocalNode(self, n): return self.at(ast.Nonlocal(names=[str(x) for x in n.names]), n)
    def s_ReturnStatNode(self, n):
        return self.at(ast.Return(self.expr(n.value) if n.value is not None else None), n)
    def s_DelStatNode(self, n): return self.at(ast.Delete([self.expr(a, ast.Del()) for a in n.args]), n)
    def s_AssertStatNode(self, n):
        v = getattr(n, "value", None)
        return self.at(ast.Assert(self.expr(n.condition), self.expr(v) if v is not None else None), n)
    def s_ReraiseStatNode(self, n): return self.at(ast.Raise(None, None), n)
    def s_RaiseStatNode(self, n):
        return self.at(ast.Raise(self.expr(n.exc_type) if n.exc_type is not None else None,
                                 self.expr(n.cause) if n.cause is not None else None), n)

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            return self.imp(n)
        return self.at(ast.Assign([self.expr(n.lhs, ast.Store())], self.expr(n.rhs)), n) \
            if getattr(n.lhs, "annotation", None) is None else self.annassign(n)

    def annassign(self, n):
        return self.at(ast.AnnAssign(self.expr(n.lhs, ast.Store()), self.expr(n.lhs.annotation.expr),
                                     self.expr(n.rhs), 1), n)

    def s_CascadedAssignmentNode(self, n):
        return self.at(ast.Assign([self.expr(x, ast.Store()) for x in n.lhs_list], self.expr(n.rhs)), n)

    def s_InPlaceAssignmentNode(self, n):
        return self.at(ast.AugAssign(self.expr(n.lhs, ast.Store()), _OPS[n.operator](), self.expr(n.rhs)), n)

    def imp(self, n):
        i = n.rhs
        mod = str(i.module_name.value)
        return self.at(ast.Import([ast.alias(mod, str(n.lhs.name) if str(n.lhs.name) != mod.split(".")[0] else None)]), n)

    def s_FromImportStatNode(self, n):
        names = [ast.alias(str(a), str(t.name) if str(t.name) != str(a) else None) for a, t in n.items]
        r = self.at(ast.ImportFrom(str(n.module.module_name.value), names, 0), n)
        lvl = n.module.level
        r.level = lvl if lvl and lvl > 0 else 0
        return r

    def s_FromCImportStatNode(self, n):
        names = [ast.alias(str(a), str(b) if b else None) for _, a, b in n.imported_names]
        r = self.at(ast.ImportFrom(str(n.module_name), names, n.relative_level or 0), n)
        r.cimport = True
        return r

    def s_CImportStatNode(self, n):
        r = self.at(ast.Import([ast.alias(str(n.module_name), str(n.as_name) if n.as_name else None)]), n)
        r.cimport = True
        return r

    def s_CDefExternNode(self, n): return None
    def s_CTypeDefNode(self, n): return None
    def s_CStructOrUnionDefNode(self, n): return None
    def s_CEnumDefNode(self, n): return None

    def s_CVarDefNode(self, n):
        out = []
        bt = self.typ(n.base_type)
        for d in n.declarators:
            name, ptr, default, f = self.declarator(d)
            if f is not None:   # forward declaration of a C function (pxd)
                fd = self.at(ast.FunctionDef(name=name, args=self.arguments(n, f.args), body=[self.at(ast.Pass(), n)],
                                             decorator_list=[], returns=None, type_params=[]), n)
                fd.cy_kind = "cpdef" if getattr(n, "overridable", 0) else "cdef"
                fd.cy_ret, fd.cy_forward = bt, True
                out.append(fd)
                continue
            r = self.at(ast.AnnAssign(self.at(ast.Name(name, ast.Store()), n),
                                      self.at(ast.Constant((bt or "object") + ptr), n),
                                      self.expr(default) if default is not None else None, 1), n)
            r.cy_decl = True
            r.cy_visibility = n.visibility
            out.append(r)
        return out

    def s_DefNode(self, n):
        cls = ast.AsyncFunctionDef if getattr(n, "is_async_def", False) else ast.FunctionDef
        ret = n.return_type_annotation
        r = self.at(cls(name=str(n.name), args=self.arguments(n, n.args, n.star_arg, n.starstar_arg),
                        body=self.body(n.body), decorator_list=self.decos(n),
                        returns=self.expr(ret) if ret is not None else None, type_params=[]), n)
        r.cy_kind = "def"
        r.end_lineno = self.last_line(r)
        return r

    def last_line(self, r):
        m = r.lineno
        for x in ast.walk(r):
            m = max(m, getattr(x, "lineno", m))
        return m

    def s_CFuncDefNode(self, n):
        name, ptr, default, f = self.declarator(n.declarator)
        r = self.at(ast.FunctionDef(name=name, args=self.arguments(n, f.args), body=self.body(n.body),
                                    decorator_list=self.decos(n), returns=None, type_params=[]), n)
        r.cy_kind = "cpdef" if n.overridable else "cdef"
        r.cy_ret = (self.typ(n.base_type) or "object") + ptr
        r.cy_except = f.exception_check
        r.end_lineno = self.last_line(r)
        return r

    def bases(self, b):
        if b is None:
            return []
        return [self.expr(x) for x in b.args]

    def s_CClassDefNode(self, n):
        r = self.at(ast.ClassDef(name=str(n.class_name), bases=self.bases(n.bases), keywords=[],
                                 body=self.body(n.body) if n.body is not None else [self.at(ast.Pass(), n)],
                                 decorator_list=self.decos(n), type_params=[]), n)
        r.cy_class = True
        r.end_lineno = self.last_line(r)
        return r

    def s_PyClassDefNode(self, n):
        kw = []
        mc = getattr(n, "mkw", None)
        b = n.bases
        bases = []
        if b is not None:
            bases = [self.expr(x) for x in b.args] if type(b).__name__ == "TupleNode" else [self.expr(b)]
        if mc is not None and type(mc).__name__ == "DictNode":
            for i in mc.key_value_pairs:
                kw.append(ast.keyword(str(i.key.value), self.expr(i.value)))
        r = self.at(ast.ClassDef(name=str(n.name), bases=bases, keywords=kw, body=self.body(n.body),
                                 decorator_list=self.decos(n), type_params=[]), n)
        r.end_lineno = self.last_line(r)
        return r

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            orelse = [self.at(ast.If(self.expr(c.condition), self.body(c.body), orelse), c)]
        return orelse

    def s_WhileStatNode(self, n):
        return self.at(ast.While(self.expr(n.condition), self.body(n.body), self.block(n.else_clause)), n)

    def for_(self, n, is_async):
        it = n.iterator
        seq = it.sequence
        cls = ast.AsyncFor if is_async else ast.For
        return self.at(cls(self.expr(n.target, ast.Store()), self.expr(seq), self.body(n.body),
                           self.block(n.else_clause)), n)

    def s_ForInStatNode(self, n): return self.for_(n, False)
    def s_AsyncForStatNode(self, n): return self.for_(n, True)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = None
            if c.pattern:
                ps = c.pattern if isinstance(c.pattern, list) else [c.pattern]
                pat = self.expr(ps[0]) if len(ps) == 1 else self.at(ast.Tuple([self.expr(p) for p in ps], ast.Load()), c)
            name = None
            if c.target is not None:
                name = str(c.target.name)
            hs.append(self.at(ast.ExceptHandler(pat, name, self.body(c.body)), c))
        return self.at(ast.Try(self.body(n.body), hs, self.block(n.else_clause), []), n)

    def s_TryFinallyStatNode(self, n):
        b = self.body(n.body)
        if len(b) == 1 and isinstance(b[0], ast.Try) and not b[0].finalbody:
            b[0].finalbody = self.body(n.finally_clause)
            return b[0]
        return self.at(ast.Try(b, [], [], self.body(n.finally_clause)), n)

    def s_WithStatNode(self, n):
        cls = ast.AsyncWith if n.is_async else ast.With
        tgt = self.expr(n.target, ast.Store()) if n.target is not None else None
        return self.at(cls([ast.withitem(self.expr(n.manager), tgt)], self.body(n.body)), n)

    # -- expressions -----------------------------------------------------
    def expr(self, n, ctx=None):
        k = type(n).__name__
        m = getattr(self, "e_" + k, None)
        if m is not None:
            r = m(n, ctx or ast.Load())
            if not hasattr(r, "lineno"):
                self.at(r, n)
            return r
        if k.endswith("Node") and k[:-4] in _BIN or k in ("MulNode", "IntBinopNode", "ModNode", "PowNode"):
            op = _OPS[n.operator]()
            return self.at(ast.BinOp(self.expr(n.operand1), op, self.expr(n.operand2)), n)
        if hasattr(n, "operator") and hasattr(n, "operand1") and hasattr(n, "operand2"):
            return self.at(ast.BinOp(self.expr(n.operand1), _OPS[n.operator](), self.expr(n.operand2)), n)
        self.fail(n, "expression")

    def e_NameNode(self, n, c): return ast.Name(str(n.name), c)
    def e_AttributeNode(self, n, c): return ast.Attribute(self.expr(n.obj), str(n.attribute), c)
    def e_NoneNode(self, n, c): return ast.Constant(None)
    def e_NullNode(self, n, c): return ast.Name("NULL", ast.Load())
    def e_BoolNode(self, n, c): return ast.Constant(bool(n.value))
    def e_IntNode(self, n, c): return ast.Constant(int(str(n.value).rstrip("uUlL"), 0))
    def e_FloatNode(self, n, c): return ast.Constant(float(n.value))
    def e_StringNode(self, n, c): return ast.Constant(str(n.value))
    def e_UnicodeNode(self, n, c): return ast.Constant(str(n.value))
    def e_IdentifierStringNode(self, n, c): return ast.Constant(str(n.value))
    def e_BytesNode(self, n, c):
        v = n.value
        return ast.Constant(bytes(v) if isinstance(v, (bytes, bytearray)) else str(v).encode())
    def e_CharNode(self, n, c): return ast.Constant(str(n.value))
    def e_EllipsisNode(self, n, c): return ast.Constant(...)
    def e_TupleNode(self, n, c): return ast.Tuple([self.expr(a, c) for a in n.args], c)
    def e_ListNode(self, n, c): return ast.List([self.expr(a, c) for a in n.args], c)
    def e_SetNode(self, n, c): return ast.Set([self.expr(a) for a in n.args])
    def e_DictNode(self, n, c):
        return ast.Dict([self.expr(i.key) for i in n.key_value_pairs],
                        [self.expr(i.value) for i in n.key_value_pairs])
    def e_MergedDictNode(self, n, c):
        ks, vs = [], []
        for d in n.keyword_args:
            if type(d).__name__ == "DictNode":
                for i in d.key_value_pairs:
                    ks.append(self.expr(i.key)); vs.append(self.expr(i.value))
            else:
                ks.append(None); vs.append(self.expr(d))
        return ast.Dict(ks, vs)
    def e_MergedSequenceNode(self, n, c):
        els = []
        for a in n.args:
            kk = type(a).__name__
            if kk in ("ListNode", "TupleNode", "SetNode"):
                els += [self.expr(x) for x in a.args]
            else:
                els.append(self.at(ast.Starred(self.expr(a), ast.Load()), a))
        return ast.List(els, ast.Load())
    def e_AsTupleNode(self, n, c): return ast.Tuple([self.at(ast.Starred(self.expr(n.arg), ast.Load()), n)], c)
    def e_StarredUnpackingNode(self, n, c): return ast.Starred(self.expr(n.target, c), c)
    def e_IndexNode(self, n, c): return ast.Subscript(self.expr(n.base), self.expr(n.index), c)
    def e_SliceIndexNode(self, n, c):
        f = lambda x: self.expr(x) if x is not None else None
        return ast.Subscript(self.expr(n.base), self.at(ast.Slice(f(n.start), f(n.stop), None), n), c)
    def e_SliceNode(self, n, c):
        f = lambda x: self.expr(x) if x is not None and type(x).__name__ != "NoneNode" else None
        return ast.Slice(f(n.start), f(n.stop), f(n.step))
    def e_SimpleCallNode(self, n, c):
        return ast.Call(self.expr(n.function), [self.expr(a) for a in n.args], [])
    def e_GeneralCallNode(self, n, c):
        args = self.seq(n.positional_args)
        kws = []
        kw = n.keyword_args
        if kw is not None:
            parts = kw.keyword_args if type(kw).__name__ == "MergedDictNode" else [kw]
            for d in parts:
                if type(d).__name__ == "DictNode":
                    for i in d.key_value_pairs:
                        kws.append(ast.keyword(str(i.key.value), self.expr(i.value)))
                else:
                    kws.append(ast.keyword(None, self.expr(d)))
        return ast.Call(self.expr(n.function), args, kws)
    def seq(self, p):
        k = type(p).__name__
        if k == "TupleNode":
            out = []
            for a in p.args:
                out.append(self.expr(a))
            if getattr(p, "mult_factor", None) is not None:
                self.fail(p, "call args")
            return out
        if k == "AsTupleNode":
            a = p.arg
            if type(a).__name__ in ("ListNode", "MergedSequenceNode"):
                return self.e_MergedSequenceNode(a, None).elts if type(a).__name__ == "MergedSequenceNode" \
                    else [self.expr(x) for x in a.args]
            return [self.at(ast.Starred(self.expr(a), ast.Load()), p)]
        if k == "AddNode":
            return self.seq(p.operand1) + self.seq(p.operand2)
        return [self.at(ast.Starred(self.expr(p), ast.Load()), p)]
    def e_NotNode(self, n, c): return ast.UnaryOp(ast.Not(), self.expr(n.operand))
    def e_UnaryMinusNode(self, n, c):
        o = self.expr(n.operand)
        if isinstance(o, ast.Constant) and isinstance(o.value, (int, float)):
            return ast.Constant(-o.value)
        return ast.UnaryOp(ast.USub(), o)
    def e_UnaryPlusNode(self, n, c): return ast.UnaryOp(ast.UAdd(), self.expr(n.operand))
    def e_TildeNode(self, n, c): return ast.UnaryOp(ast.Invert(), self.expr(n.operand))
    def e_BoolBinopNode(self, n, c):
        op = ast.And() if n.operator == "and" else ast.Or()
        vals = []
        for o in (n.operand1, n.operand2):
            e = self.expr(o)
            if isinstance(e, ast.BoolOp) and type(e.op) is type(op) and o is n.operand2:
                vals += e.values
            else:
                vals.append(e)
        return ast.BoolOp(op, vals)
    def e_PrimaryCmpNode(self, n, c):
        ops, comps = [_CMP[n.operator]()], [self.expr(n.operand2)]
        x = n.cascade
        while x is not None:
            ops.append(_CMP[x.operator]())
            comps.append(self.expr(x.operand2))
            x = x.cascade
        return ast.Compare(self.expr(n.operand1), ops, comps)
    def e_CondExprNode(self, n, c):
        return ast.IfExp(self.expr(n.test), self.expr(n.true_val), self.expr(n.false_val))
    def e_AwaitExprNode(self, n, c): return ast.Await(self.expr(n.arg))
    def e_YieldExprNode(self, n, c): return ast.Yield(self.expr(n.arg) if n.arg is not None else None)
    def e_YieldFromExprNode(self, n, c): return ast.YieldFrom(self.expr(n.arg))
    def e_AssignmentExpressionNode(self, n, c):
        a = n.assignment
        return ast.NamedExpr(self.expr(a.lhs, ast.Store()), self.expr(n.rhs))
    def e_TypecastNode(self, n, c):
        ptr = ""
        d = n.declarator
        while type(d).__name__ == "CPtrDeclaratorNode":
            ptr += "*"; d = d.base
        return ast.Call(self.at(ast.Name("__cast__", ast.Load()), n),
                        [self.at(ast.Constant((self.typ(n.base_type) or "object") + ptr), n), self.expr(n.operand)], [])
    def e_JoinedStrNode(self, n, c): return ast.JoinedStr([self.expr(v) for v in n.values])
    def e_FormattedValueNode(self, n, c):
        conv = ord(n.conversion_char) if n.conversion_char else -1
        return ast.FormattedValue(self.expr(n.value), conv,
                                  self.expr(n.format_spec) if n.format_spec is not None else None)
    def e_LambdaNode(self, n, c):
        return ast.Lambda(self.arguments(n, n.args, n.star_arg, n.starstar_arg), self.expr(n.result_expr))
    def e_ProxyNode(self, n, c): return self.expr(n.arg)
    def e_CloneNode(self, n, c): return self.expr(n.arg)
    def e_AnnotationNode(self, n, c): return self.expr(n.expr)
    def e_ImportNode(self, n, c):
        return ast.Call(self.at(ast.Name("__import__", ast.Load()), n), [ast.Constant(str(n.module_name.value))], [])

    # comprehension: nested loop statements ending in an append / yield
    def comp(self, loop):
        gens = []
        cur = loop
        while True:
            k = type(cur).__name__
            if k in ("ForInStatNode", "AsyncForStatNode"):
                gens.append(ast.comprehension(self.expr(cur.target, ast.Store()), self.expr(cur.iterator.sequence),
                                              [], 1 if k == "AsyncForStatNode" else 0))
                cur = cur.body
            elif k == "IfStatNode":
                gens[-1].ifs.append(self.expr(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif k == "StatListNode" and len(cur.stats) == 1:
                cur = cur.stats[0]
            elif k == "ExprStatNode":
                cur = cur.expr
            else:
                return gens, cur
    def e_ComprehensionNode(self, n, c):
        gens, last = self.comp(n.loop)
        if type(last).__name__ == "DictComprehensionAppendNode":
            return ast.DictComp(self.expr(last.key_expr), self.expr(last.value_expr), gens)
        kind = str(n.type) + str(getattr(n.type, "name", ""))
        cls = ast.SetComp if "set" in kind.lower() else ast.ListComp
        return cls(self.expr(last.expr), gens)
    def e_GeneratorExpressionNode(self, n, c):
        gens, last = self.comp(n.loop)
        return ast.GeneratorExp(self.expr(last.arg), gens)
