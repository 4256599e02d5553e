"""Translate a parsed Cython module (Cython.Compiler parse tree, no code is
compiled or run) to a Python ast.Module.

C-level declarations are kept as facts on the side: a cdef class gets
`_cy_fields` {name: ctype} (from the .pxd and the class body), functions get
`_cy_argtypes`.  A construct the translation does not know raises CyUnsupported
for the enclosing function only; the function is then marked opaque.
"""
import ast
from Cython.Compiler import Nodes, ExprNodes
from Cython.Compiler.TreeFragment import parse_from_strings


class CyUnsupported(Exception):
    pass


BINOPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod,
          '**': ast.Pow, '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift,
          '@': ast.MatMult}
CMPOPS = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq,
          'in': ast.In, 'not_in': ast.NotIn, 'is': ast.Is, 'is_not': ast.IsNot}


class Conv(object):
    def __init__(self, filename):
        self.filename = filename
        self.warnings = []
        self.locals = None

    def at(self, new, node):
        pos = getattr(node, 'pos', None)
        line = pos[1] if pos else 0
        col = pos[2] if pos else 0
        new.lineno, new.col_offset = line, col
        new.end_lineno, new.end_col_offset = line, col
        return new

    # ------------------------------------------------------------ expressions
    def expr(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise CyUnsupported('expression %s at line %s' % (type(n).__name__, n.pos[1] if n.pos else '?'))
        r = m(n)
        return self.at(r, n)

    def e_NameNode(self, n):
        return ast.Name(id=str(n.name), ctx=ast.Load())

    def e_IntNode(self, n):
        v = str(n.value).rstrip('uUlL')
        return ast.Constant(value=int(v, 0))

    def e_FloatNode(self, n):
        return ast.Constant(value=float(n.value))

    def e_BoolNode(self, n):
        return ast.Constant(value=bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(value=None)

    def e_EllipsisNode(self, n):
        return ast.Constant(value=Ellipsis)

    def e_UnicodeNode(self, n):
        return ast.Constant(value=str(n.value))
    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return ast.Constant(value=bytes(n.value) if isinstance(n.value, bytes) else str(n.value))

    def e_AttributeNode(self, n):
        return ast.Attribute(value=self.expr(n.obj), attr=str(n.attribute), ctx=ast.Load())

    def e_IndexNode(self, n):
        return ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index), ctx=ast.Load())

    def e_SliceIndexNode(self, n):
        sl = self.at(ast.Slice(lower=self.expr(n.start) if n.start is not None else None,
                               upper=self.expr(n.stop) if n.stop is not None else None, step=None), n)
        return ast.Subscript(value=self.expr(n.base), slice=sl, ctx=ast.Load())

    def e_SliceNode(self, n):
        def o(x):
            return None if x is None or isinstance(x, ExprNodes.NoneNode) else self.expr(x)
        return ast.Slice(lower=o(n.start), upper=o(n.stop), step=o(n.step))

    def e_SimpleCallNode(self, n):
        return ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n):
        args = []
        pa = n.positional_args
        if isinstance(pa, ExprNodes.AsTupleNode):
            args = [self.at(ast.Starred(value=self.expr(pa.arg), ctx=ast.Load()), n)]
        elif isinstance(pa, ExprNodes.TupleNode):
            args = [self.expr(a) for a in pa.args]
        else:
            raise CyUnsupported('call arguments')
        kws = []
        ka = n.keyword_args
        if ka is not None:
            if isinstance(ka, ExprNodes.DictNode):
                for it in ka.key_value_pairs:
                    kws.append(self.at(ast.keyword(arg=str(it.key.value), value=self.expr(it.value)), n))
            else:
                kws.append(self.at(ast.keyword(arg=None, value=self.expr(ka)), n))
        return ast.Call(func=self.expr(n.function), args=args, keywords=kws)

    def e_TupleNode(self, n):
        return ast.Tuple(elts=[self.expr(a) for a in n.args], ctx=ast.Load())

    def e_ListNode(self, n):
        return ast.List(elts=[self.expr(a) for a in n.args], ctx=ast.Load())

    def e_SetNode(self, n):
        return ast.Set(elts=[self.expr(a) for a in n.args])

    def e_DictNode(self, n):
        return ast.Dict(keys=[self.expr(i.key) for i in n.key_value_pairs],
                        values=[self.expr(i.value) for i in n.key_value_pairs])

    def e_PrimaryCmpNode(self, n):
        ops, comps = [CMPOPS[n.operator]()], [self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMPOPS[c.operator]())
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.expr(n.operand1), ops=ops, comparators=comps)

    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == 'and' else ast.Or()
        return ast.BoolOp(op=op, values=[self.expr(n.operand1), self.expr(n.operand2)])

    def e_NotNode(self, n):
        return ast.UnaryOp(op=ast.Not(), operand=self.expr(n.operand))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(op=ast.USub(), operand=self.expr(n.operand))

    def e_UnaryPlusNode(self, n):
        return ast.UnaryOp(op=ast.UAdd(), operand=self.expr(n.operand))

    def e_CondExprNode(self, n):
        return ast.IfExp(test=self.expr(n.test), body=self.expr(n.true_val), orelse=self.expr(n.false_val))

    def binop(self, n):
        return ast.BinOp(left=self.expr(n.operand1), op=BINOPS[n.operator](), right=self.expr(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = binop
    e_IntBinopNode = e_BitwiseOrNode = e_NumBinopNode = e_MatMultNode = binop

    def e_TypecastNode(self, n):
        return self.expr(n.operand)

    def e_ComprehensionNode(self, n):
        gens, append = self._gens(n.loop)
        if isinstance(append, ExprNodes.DictComprehensionAppendNode):
            it = append.dict_item
            return ast.DictComp(key=self.expr(it.key), value=self.expr(it.value), generators=gens)
        e = self.expr(append.expr)
        ty = getattr(getattr(n, 'type', None), 'name', 'list')
        if 'set' in str(ty):
            return ast.SetComp(elt=e, generators=gens)
        return ast.ListComp(elt=e, generators=gens)

    def e_InlinedGeneratorExpressionNode(self, n):
        raise CyUnsupported('inlined generator')

    def e_GeneratorExpressionNode(self, n):
        loop = n.loop
        gens, y = self._gens(loop)
        if isinstance(y, (ExprNodes.YieldExprNode,)):
            e = self.expr(y.arg)
        else:
            raise CyUnsupported('generator body')
        return ast.GeneratorExp(elt=e, generators=gens)

    def _gens(self, loop):
        gens = []
        cur = loop
        while True:
            if isinstance(cur, Nodes.ForInStatNode):
                it = cur.iterator
                seq = it.sequence if hasattr(it, 'sequence') else it
                gens.append(ast.comprehension(target=self.target(cur.target), iter=self.expr(seq), ifs=[], is_async=0))
                cur = cur.body
            elif isinstance(cur, Nodes.StatListNode) and len(cur.stats) == 1:
                cur = cur.stats[0]
            elif isinstance(cur, Nodes.IfStatNode) and len(cur.if_clauses) == 1 and cur.else_clause is None:
                gens[-1].ifs.append(self.expr(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif isinstance(cur, Nodes.ExprStatNode):
                return gens, cur.expr
            else:
                return gens, cur

    def e_JoinedStrNode(self, n):
        return ast.JoinedStr(values=[self.expr(v) for v in n.values])

    def e_FormattedValueNode(self, n):
        return ast.FormattedValue(value=self.expr(n.value), conversion=-1, format_spec=None)

    def e_LambdaNode(self, n):
        raise CyUnsupported('lambda')

    # ------------------------------------------------------------ targets
    def target(self, n):
        t = self.expr(n)
        for x in ast.walk(t):
            pass
        return self._store(t)

    def _store(self, t):
        if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
            t.ctx = ast.Store()
        elif isinstance(t, (ast.Tuple, ast.List)):
            t.ctx = ast.Store()
            for e in t.elts:
                self._store(e)
        else:
            raise CyUnsupported('target')
        return t

    # ------------------------------------------------------------ statements
    def stmts(self, n):
        if n is None:
            return []
        if isinstance(n, Nodes.StatListNode):
            out = []
            for x in n.stats:
                out.extend(self.stmts(x))
            return out
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise CyUnsupported('statement %s at line %s' % (type(n).__name__, n.pos[1] if n.pos else '?'))
        r = m(n)
        if r is None:
            return []
        if isinstance(r, list):
            return r
        return [self.at(r, n)]

    def body(self, n):
        r = self.stmts(n)
        return r or [self.at(ast.Pass(), n)] if n is not None else r

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.expr(n.expr))

    def s_SingleAssignmentNode(self, n):
        if isinstance(n.rhs, ExprNodes.ImportNode):
            return ast.Import(names=[ast.alias(name=str(n.rhs.module_name.value), asname=str(n.lhs.name))])
        return ast.Assign(targets=[self.target(n.lhs)], value=self.expr(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.target(x) for x in n.lhs_list], value=self.expr(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.target(n.lhs), op=BINOPS[n.operator](), value=self.expr(n.rhs))

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.expr(n.value) if n.value is not None else None)

    def s_IfStatNode(self, n):
        cur = self.stmts(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            cur = [self.at(ast.If(test=self.expr(c.condition), body=self.body(c.body), orelse=cur), c)]
        return cur

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if hasattr(it, 'sequence') else it
        return ast.For(target=self.target(n.target), iter=self.expr(seq), body=self.body(n.body),
                       orelse=self.stmts(n.else_clause) if n.else_clause is not None else [])

    def s_WhileStatNode(self, n):
        return ast.While(test=self.expr(n.condition), body=self.body(n.body),
                         orelse=self.stmts(n.else_clause) if n.else_clause is not None else [])

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_AssertStatNode(self, n):
        return ast.Assert(test=self.expr(n.condition), msg=None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.expr(n.exc_type) if n.exc_type is not None else None, cause=None)

    def s_DelStatNode(self, n):
        ts = []
        for a in n.args:
            t = self.expr(a)
            t.ctx = ast.Del()
            ts.append(t)
        return ast.Delete(targets=ts)

    def s_CVarDefNode(self, n):
        out = []
        if self.locals is not None:
            self.fields_of(n, self.locals)
        for d in n.declarators:
            dd = d
            if getattr(dd, 'default', None) is not None:
                out.append(self.at(ast.Assign(
                    targets=[self.at(ast.Name(id=str(dd.name), ctx=ast.Store()), n)],
                    value=self.expr(dd.default)), n))
        return out

    def s_CImportStatNode(self, n):
        return self.at(ast.Import(names=[ast.alias(name=str(n.module_name), asname=str(n.as_name) if n.as_name else None)]), n)

    def s_FromCImportStatNode(self, n):
        names = []
        for it in n.imported_names:
            nm, asn = str(it[1]), it[2]
            names.append(ast.alias(name=nm, asname=str(asn) if asn else None))
        return ast.ImportFrom(module=str(n.module_name), names=names, level=0)

    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value)
        if mod == '__future__':
            return None
        return ast.ImportFrom(module=mod, names=[ast.alias(name=str(nm), asname=str(t.name) if str(t.name) != str(nm) else None)
                                                 for nm, t in n.items], level=0)

    def s_DefNode(self, n):
        return self.function(n, str(n.name), n.args, n.body, getattr(n, 'star_arg', None), getattr(n, 'starstar_arg', None),
                             decorators=n.decorators)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        return self.function(n, str(d.base.name), d.args, n.body, None, None)

    def function(self, n, name, cargs, body, star, starstar, decorators=None):
        args, defaults, types = [], [], {}
        for a in cargs:
            d = a.declarator
            nm = getattr(d, 'name', None)
            bt = a.base_type
            if not nm:
                # `def f(self)`: the name was parsed as a type
                nm = bt.name
                ty = None
            else:
                ty = getattr(bt, 'name', None)
                mp = getattr(bt, 'module_path', None)
                if ty and mp:
                    ty = '.'.join(list(mp) + [ty])
            args.append(self.at(ast.arg(arg=str(nm), annotation=None), n))
            types[str(nm)] = str(ty) if ty else None
            if a.default is not None:
                defaults.append(self.expr(a.default))
        fa = ast.arguments(posonlyargs=[], args=args,
                           vararg=self.at(ast.arg(arg=str(star.name), annotation=None), n) if star else None,
                           kwonlyargs=[], kw_defaults=[],
                           kwarg=self.at(ast.arg(arg=str(starstar.name), annotation=None), n) if starstar else None,
                           defaults=defaults)
        decs = [self.expr(d.decorator) for d in (decorators or [])]
        saved, self.locals = self.locals, {}
        try:
            b = self.body(body)
        except CyUnsupported as e:
            self.warnings.append('%s: %s' % (name, e))
            b = None
        f = ast.FunctionDef(name=name, args=fa, body=b or [self.at(ast.Pass(), n)], decorator_list=decs,
                            returns=None, type_comment=None)
        f.type_params = []
        f = self.at(f, n)
        f._opaque = b is None
        f._cy_argtypes = types
        f._cy_locals = self.locals
        self.locals = saved
        return f

    def s_CClassDefNode(self, n):
        fields = {}
        body = []
        for x in (n.body.stats if n.body is not None and isinstance(n.body, Nodes.StatListNode) else ([n.body] if n.body is not None else [])):
            if isinstance(x, Nodes.CVarDefNode):
                self.fields_of(x, fields)
            else:
                body.extend(self.stmts(x))
        bases = []
        if getattr(n, 'bases', None) is not None:
            bases = [self.expr(b) for b in n.bases.args]
        c = ast.ClassDef(name=str(n.class_name), bases=bases, keywords=[], body=body or [self.at(ast.Pass(), n)], decorator_list=[])
        c.type_params = []
        c = self.at(c, n)
        c._cy_fields = fields
        return c

    def fields_of(self, x, fields):
        bt = x.base_type
        ty = getattr(bt, 'name', None)
        mp = getattr(bt, 'module_path', None)
        if ty and mp:
            ty = '.'.join(list(mp) + [ty])
        for d in x.declarators:
            nm = getattr(d, 'name', None)
            if nm:
                fields[str(nm)] = str(ty)

    def s_PyClassDefNode(self, n):
        c = ast.ClassDef(name=str(n.name), bases=[self.expr(b) for b in n.bases.args] if n.bases is not None else [],
                         keywords=[], body=self.body(n.body), decorator_list=[])
        c.type_params = []
        return c

    def s_CompilerDirectivesNode(self, n):
        return self.stmts(n.body)


def pxd_fields(text):
    """{class: {field: ctype}} declared in a .pxd"""
    out = {}
    tree = parse_from_strings('parameter', text)
    c = Conv('pxd')
    for x in tree.body.stats if isinstance(tree.body, Nodes.StatListNode) else [tree.body]:
        if isinstance(x, Nodes.CClassDefNode) and x.body is not None:
            f = {}
            st = x.body.stats if isinstance(x.body, Nodes.StatListNode) else [x.body]
            for y in st:
                if isinstance(y, Nodes.CVarDefNode):
                    # method declarations have function declarators; their names are nested, skip them
                    if all(hasattr(d, 'name') for d in y.declarators):
                        c.fields_of(y, f)
            out[str(x.class_name)] = f
    return out


def convert(name, text, filename):
    tree = parse_from_strings(name, text)
    c = Conv(filename)
    body = []
    st = tree.body.stats if isinstance(tree.body, Nodes.StatListNode) else [tree.body]
    for x in st:
        try:
            body.extend(c.stmts(x))
        except CyUnsupported as e:
            c.warnings.append(str(e))
    m = ast.Module(body=body, type_ignores=[])
    for n in ast.walk(m):
        if isinstance(n, (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.alias, ast.comprehension)) and not hasattr(n, 'lineno'):
            n.lineno = n.col_offset = n.end_lineno = n.end_col_offset = 0
    return m, c.warnings
