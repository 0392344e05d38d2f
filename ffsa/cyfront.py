"""Cython source -> Python ast, using Cython's own parser (no compilation).

C declarations become annotated assignments with annotation 'c:<type>', casts
become calls of __cast__('<type>', x), address-of becomes __addr__(x).
"""
import ast
from io import StringIO


class Unsupported(Exception):
    pass


def _parse(path):
    from Cython.Compiler import Errors, Parsing
    from Cython.Compiler.TreeFragment import StringParseContext
    from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor
    with open(path, encoding='utf-8') as f:
        code = f.read()
    Errors.init_thread()
    ctx = StringParseContext('mod')
    ctx.set_language_level(3)
    sd = StringSourceDescriptor(path, code)
    scope = ctx.find_module('mod', pos=(sd, 1, 0), need_pxd=False)
    sc = PyrexScanner(StringIO(code), sd, source_encoding='UTF-8', scope=scope, context=ctx, initial_pos=(sd, 1, 0))
    return Parsing.p_module(sc, None, 'mod')


_BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow,
        '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift, '@': ast.MatMult}
_CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'is': ast.Is,
        'is_not': ast.IsNot, 'is not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn, 'not in': ast.NotIn}


class Conv:
    def __init__(self):
        self.types = {}     # C type aliases

    def at(self, node, n):
        n.lineno = n.end_lineno = node.pos[1] if getattr(node, 'pos', None) else 1
        n.col_offset = n.end_col_offset = 0
        return n

    def ctype(self, bt, decl=None):
        t = type(bt).__name__
        name = ''
        if t == 'CQualifierTypeNode' or t == 'CConstOrVolatileTypeNode':
            name = self.ctype(bt.base_type)
        elif t == 'CSimpleBaseTypeNode':
            name = bt.name or ''
            mod = '.'.join(list(bt.module_path) + [name]) if getattr(bt, 'module_path', None) else name
            name = self.types.get(mod, mod)
            if bt.is_basic_c_type:
                if bt.signed == 0 and name in ('int', 'char', 'short', 'long'):
                    name = 'unsigned ' + name
                if bt.longness and name.endswith('int'):
                    name = ('unsigned ' if bt.signed == 0 else '') + 'long ' * bt.longness
        elif t == 'MemoryViewSliceTypeNode':
            name = self.ctype(bt.base_type_node) + '[:]'
        else:
            name = '?'
        d = decl
        while d is not None and type(d).__name__ in ('CPtrDeclaratorNode',):
            name += '*'
            d = d.base
        return name.strip()

    def dname(self, d):
        while type(d).__name__ in ('CPtrDeclaratorNode', 'CFuncDeclaratorNode', 'CArrayDeclaratorNode', 'CReferenceDeclaratorNode'):
            d = d.base
        return d

    # ---- expressions
    def e(self, n):
        if n is None:
            return None
        f = getattr(self, 'e_' + type(n).__name__, None)
        if f is None:
            if hasattr(n, 'operator') and hasattr(n, 'operand1'):
                op = n.operator
                if op in ('and', 'or'):
                    return self.e_BoolBinopNode(n)
                return self.at(n, ast.BinOp(self.e(n.operand1), _BIN[op](), self.e(n.operand2)))
            return self.unsupported(n, type(n).__name__)
        try:
            r = f(n)
        except Exception as x:
            return self.unsupported(n, '%s: %s' % (type(n).__name__, x))
        return self.at(n, r)

    def unsupported(self, n, why):
        """a construct this front end does not translate: analyses reaching it give no verdict"""
        c = ast.Call(ast.Name('__unsupported__', ast.Load()), [ast.Constant(why)], [])
        for y in ast.walk(c):
            self.at(n, y)
        return c

    def e_NameNode(self, n): return ast.Name(n.name, ast.Load())
    def e_AttributeNode(self, n): return ast.Attribute(self.e(n.obj), n.attribute, ast.Load())
    def e_IntNode(self, n): return ast.Constant(int(str(n.value).rstrip('uUlL'), 0))
    def e_FloatNode(self, n): return ast.Constant(float(n.value))
    def e_BoolNode(self, n): return ast.Constant(bool(n.value))
    def e_NoneNode(self, n): return ast.Constant(None)
    def e_EllipsisNode(self, n): return ast.Constant(...)
    def e_UnicodeNode(self, n): return ast.Constant(str(n.value))
    def e_StringNode(self, n): return ast.Constant(str(getattr(n, 'unicode_value', None) or n.value))
    def e_IdentifierStringNode(self, n): return ast.Constant(str(n.value))
    def e_BytesNode(self, n): return ast.Constant(bytes(n.value.byteencode() if hasattr(n.value, 'byteencode') else n.value))
    def e_CharNode(self, n): return ast.Constant(ord(n.value) if not isinstance(n.value, int) else n.value)
    def e_TupleNode(self, n): return ast.Tuple([self.e(x) for x in n.args], ast.Load())
    def e_ListNode(self, n): return ast.List([self.e(x) for x in n.args], ast.Load())
    def e_SetNode(self, n): return ast.Set([self.e(x) for x in n.args])

    def e_MergedDictNode(self, n):
        ks, vs = [], []
        for x in n.keyword_args:
            if type(x).__name__ == 'DictNode':
                ks += [self.e(i.key) for i in x.key_value_pairs]
                vs += [self.e(i.value) for i in x.key_value_pairs]
            else:
                ks.append(None)
                vs.append(self.e(x))
        return ast.Dict(ks, vs)

    def e_ImagNode(self, n): return ast.Constant(complex(0, float(n.value)))
    def e_YieldFromExprNode(self, n): return ast.YieldFrom(self.e(n.arg))
    def e_AwaitExprNode(self, n): return ast.Await(self.e(n.arg))

    def e_DictNode(self, n):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs], [self.e(i.value) for i in n.key_value_pairs])

    def e_SimpleCallNode(self, n):
        return ast.Call(self.e(n.function), [self.e(x) for x in n.args], [])

    def e_GeneralCallNode(self, n):
        pos = n.positional_args
        args = self.starred(pos)
        kws = []
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for i in kw.key_value_pairs:
                    kws.append(ast.keyword(str(i.key.value), self.e(i.value)))
            elif type(kw).__name__ == 'MergedDictNode':
                for x in kw.keyword_args:
                    if type(x).__name__ == 'DictNode':
                        kws += [ast.keyword(str(i.key.value), self.e(i.value)) for i in x.key_value_pairs]
                    else:
                        kws.append(ast.keyword(None, self.e(x)))
            else:
                kws.append(ast.keyword(None, self.e(kw)))
        return ast.Call(self.e(n.function), args, kws)

    def starred(self, n):
        t = type(n).__name__
        if t == 'AsTupleNode':
            return self.starred(n.arg)
        if t == 'MergedSequenceNode':
            return [y for x in n.args for y in self.starred(x)]
        if t in ('TupleNode', 'ListNode', 'SetNode'):
            return [self.e(x) for x in n.args]
        if t == 'AddNode':
            return self.starred(n.operand1) + self.starred(n.operand2)
        return [ast.Starred(self.e(n), ast.Load())]

    def e_AsTupleNode(self, n): return self.e(n.arg)

    def e_MergedSequenceNode(self, n):
        xs = self.starred(n)
        ty = str(getattr(n, 'type', ''))
        return ast.Set(xs) if 'set' in ty else ast.List(xs, ast.Load()) if 'list' in ty else ast.Tuple(xs, ast.Load())
    def e_StarredUnpackingNode(self, n): return ast.Starred(self.e(n.target), ast.Load())
    def e_IndexNode(self, n): return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())

    def e_SliceIndexNode(self, n):
        return ast.Subscript(self.e(n.base), ast.Slice(self.e(n.start), self.e(n.stop), None), ast.Load())

    def e_SliceNode(self, n):
        g = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return ast.Slice(g(n.start), g(n.stop), g(n.step))

    def e_PrimaryCmpNode(self, n):
        ops, comps = [_CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(_CMP[c.operator]())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, comps)

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(ast.And() if n.operator == 'and' else ast.Or(), [self.e(n.operand1), self.e(n.operand2)])

    def e_NotNode(self, n): return ast.UnaryOp(ast.Not(), self.e(n.operand))
    def e_UnaryMinusNode(self, n): return ast.UnaryOp(ast.USub(), self.e(n.operand))
    def e_UnaryPlusNode(self, n): return ast.UnaryOp(ast.UAdd(), self.e(n.operand))
    def e_TildeNode(self, n): return ast.UnaryOp(ast.Invert(), self.e(n.operand))
    def e_CondExprNode(self, n): return ast.IfExp(self.e(n.test if hasattr(n, 'test') else n.condition), self.e(n.true_val), self.e(n.false_val))

    def e_TypecastNode(self, n):
        ty = self.ctype(n.base_type, n.declarator) if n.base_type is not None else '?'
        return ast.Call(ast.Name('__cast__', ast.Load()), [ast.Constant(ty), self.e(n.operand)], [])

    def e_AmpersandNode(self, n):
        return ast.Call(ast.Name('__addr__', ast.Load()), [self.e(n.operand)], [])

    def e_SizeofTypeNode(self, n):
        return ast.Call(ast.Name('__sizeof__', ast.Load()), [ast.Constant(self.ctype(n.base_type, n.declarator))], [])

    def e_SizeofVarNode(self, n):
        if type(n.operand).__name__ == 'NameNode' and str(n.operand.name) in self.types:
            return ast.Call(ast.Name('__sizeof__', ast.Load()), [ast.Constant(self.types[str(n.operand.name)])], [])
        return ast.Call(ast.Name('__sizeofvar__', ast.Load()), [self.e(n.operand)], [])

    def e_JoinedStrNode(self, n):
        return ast.JoinedStr([self.e(x) for x in n.values])

    def e_FormattedValueNode(self, n):
        conv = {'r': 114, 's': 115, 'a': 97}.get(n.conversion_char or '', -1)
        fs = None
        if n.format_spec is not None:
            fs = self.e(n.format_spec)
            if not isinstance(fs, ast.JoinedStr):
                fs = ast.JoinedStr([fs])
        return ast.FormattedValue(self.e(n.value), conv, fs)

    def _comp(self, loop):
        gens = []
        cur = loop
        while True:
            t = type(cur).__name__
            if t == 'ForInStatNode':
                gens.append(ast.comprehension(self.store(cur.target), self.e(cur.iterator.sequence), [], 0))
                cur = cur.body
            elif t == 'IfStatNode' and len(cur.if_clauses) == 1:
                gens[-1].ifs.append(self.e(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif t == 'StatListNode' and len(cur.stats) == 1:
                cur = cur.stats[0]
            elif t == 'ExprStatNode':
                return gens, cur.expr
            else:
                return gens, cur

    def e_GeneratorExpressionNode(self, n):
        gens, leaf = self._comp(n.loop)
        return ast.GeneratorExp(self.e(leaf.arg), gens)

    def e_ComprehensionNode(self, n):
        gens, leaf = self._comp(n.loop)
        t = type(leaf).__name__
        if t == 'DictComprehensionAppendNode':
            return ast.DictComp(self.e(leaf.dict_item.key), self.e(leaf.dict_item.value), gens)
        ty = str(getattr(n, 'type', ''))
        if 'set' in ty:
            return ast.SetComp(self.e(leaf.expr), gens)
        return ast.ListComp(self.e(leaf.expr), gens)

    def e_InlinedGeneratorExpressionNode(self, n): return self.e(n.gen)

    def e_LambdaNode(self, n):
        return ast.Lambda(self.args(n.args, n), self.e(n.result_expr))

    def e_YieldExprNode(self, n): return ast.Yield(self.e(n.arg))
    def e_AnnotationNode(self, n): return self.e(n.expr)
    def e_AssignmentExpressionNode(self, n): return ast.NamedExpr(self.store(n.assignment.lhs), self.e(n.assignment.rhs))

    def store(self, n):
        x = self.e(n)
        for y in ast.walk(x):
            if isinstance(y, (ast.Tuple, ast.List, ast.Starred)) or y is x:
                if hasattr(y, 'ctx'):
                    y.ctx = ast.Store()
        if isinstance(x, (ast.Tuple, ast.List)):
            for y in ast.walk(x):
                if isinstance(y, ast.Name):
                    y.ctx = ast.Store()
        return x

    # ---- statements
    def body(self, n):
        if n is None:
            return []
        if isinstance(n, list):
            return [y for x in n for y in self.s(x)]
        return self.s(n) or [self.at(n, ast.Pass())]

    def s(self, n):
        f = getattr(self, 's_' + type(n).__name__, None)
        try:
            r = f(n) if f is not None else ast.Expr(self.unsupported(n, type(n).__name__))
        except Exception as x:
            r = ast.Expr(self.unsupported(n, '%s: %s' % (type(n).__name__, x)))
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        for x in r:
            if not hasattr(x, 'lineno'):
                self.at(n, x)
        return r

    def s_StatListNode(self, n): return [y for x in n.stats for y in self.s(x)]
    def s_PassStatNode(self, n): return ast.Pass()
    def s_FromCImportStatNode(self, n):
        names = []
        for imp in n.imported_names:
            nm, as_ = imp[1], imp[2]
            names.append(ast.alias(str(nm), str(as_) if as_ else None))
            if as_:
                self.types[str(as_)] = str(nm)
        return ast.ImportFrom('c:' + str(n.module_name), names, n.relative_level or 0)

    def s_CImportStatNode(self, n): return ast.Import([ast.alias('c:' + str(n.module_name), str(n.as_name) if n.as_name else str(n.module_name))])

    def s_FromImportStatNode(self, n):
        return ast.ImportFrom(str(n.module.module_name.value), [ast.alias(str(a), str(t.name) if str(t.name) != str(a) else None) for a, t in n.items],
                              max(0, n.module.level or 0))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            mn = str(n.rhs.module_name.value)
            return ast.Import([ast.alias(mn, str(n.lhs.name) if str(n.lhs.name) != mn.split('.')[0] else None)])
        return ast.Assign([self.store(n.lhs)], self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n): return ast.Assign([self.store(x) for x in n.lhs_list], self.e(n.rhs))
    def s_InPlaceAssignmentNode(self, n): return ast.AugAssign(self.store(n.lhs), _BIN[n.operator](), self.e(n.rhs))
    def s_ExprStatNode(self, n): return ast.Expr(self.e(n.expr))
    def s_ReturnStatNode(self, n): return ast.Return(self.e(n.value))
    def s_BreakStatNode(self, n): return ast.Break()
    def s_ContinueStatNode(self, n): return ast.Continue()
    def s_GlobalNode(self, n): return ast.Global([str(x) for x in n.names])
    def s_NonlocalNode(self, n): return ast.Nonlocal([str(x) for x in n.names])
    def s_DelStatNode(self, n):
        xs = [self.e(x) for x in n.args]
        for x in xs:
            if hasattr(x, 'ctx'):
                x.ctx = ast.Del()
        return ast.Delete(xs)

    def s_WithStatNode(self, n):
        body, items = n, []
        while type(body).__name__ == 'WithStatNode':
            items.append(ast.withitem(self.e(body.manager), self.store(body.target) if body.target is not None else None))
            body = body.body
            if type(body).__name__ == 'StatListNode' and len(body.stats) == 1 and type(body.stats[0]).__name__ == 'WithStatNode':
                body = body.stats[0]
        return ast.With(items, self.body(body))
    def s_AssertStatNode(self, n):
        return ast.Assert(self.e(n.condition), self.e(getattr(n, 'value', None)) if getattr(n, 'value', None) is not None else None)

    def s_ReraiseStatNode(self, n): return ast.Raise(None, None)
    def s_RaiseStatNode(self, n):
        x = self.e(n.exc_type) if n.exc_type is not None else None
        return ast.Raise(x, self.e(n.cause) if getattr(n, 'cause', None) is not None else None)

    def s_IfStatNode(self, n):
        orelse = self.body(n.else_clause) if n.else_clause is not None else []
        for cl in reversed(n.if_clauses):
            x = self.at(cl, ast.If(self.e(cl.condition), self.body(cl.body), orelse))
            orelse = [x]
        return orelse

    def s_ForInStatNode(self, n):
        return ast.For(self.store(n.target), self.e(n.iterator.sequence), self.body(n.body),
                       self.body(n.else_clause) if n.else_clause is not None else [])

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition), self.body(n.body), self.body(n.else_clause) if n.else_clause is not None else [])

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            ty = None
            if pat:
                es = [self.e(x) for x in pat]
                ty = es[0] if len(es) == 1 else ast.Tuple(es, ast.Load())
            hs.append(self.at(c, ast.ExceptHandler(ty, str(c.target.name) if c.target is not None else None, self.body(c.body))))
        return ast.Try(self.body(n.body), hs, self.body(n.else_clause) if n.else_clause is not None else [], [])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(self.body(n.body), [], [], self.body(n.finally_clause))

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            ty = 'c:' + self.ctype(n.base_type, d)
            nd = self.dname(d)
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            if type(d).__name__ == 'CArrayDeclaratorNode' and d.dimension is not None:
                v = ast.Call(ast.Name('__carray__', ast.Load()), [ast.Constant(ty[2:]), self.e(d.dimension)], [])
                for y in ast.walk(v):
                    self.at(n, y)
                out.append(self.at(n, ast.Assign([ast.Name(str(nd.name), ast.Store())], v)))
                continue
            dflt = nd.default if getattr(nd, 'default', None) is not None else getattr(d, 'default', None)
            out.append(self.at(n, ast.AnnAssign(ast.Name(str(nd.name), ast.Store()), ast.Constant(ty),
                                                self.e(dflt) if dflt is not None else None, 1)))
        return out

    def s_GILStatNode(self, n): return self.s(n.body)
    def s_CTypeDefNode(self, n):
        self.types[str(self.dname(n.declarator).name)] = self.ctype(n.base_type, n.declarator)
        return []

    def s_FusedTypeNode(self, n): return []
    def s_CStructOrUnionDefNode(self, n): return []

    def s_CEnumDefNode(self, n):
        out, last = [], ast.Constant(-1)
        for i in n.items:
            last = self.e(i.value) if i.value is not None else ast.BinOp(last, ast.Add(), ast.Constant(1))
            out.append(self.at(i, ast.Assign([ast.Name(str(i.name), ast.Store())], last)))
        return out

    def s_ForFromStatNode(self, n):
        lo, hi = self.e(n.bound1), self.e(n.bound2)
        one, up = ast.Constant(1), '<' in n.relation1
        if '=' not in n.relation1:
            lo = ast.BinOp(lo, ast.Add() if up else ast.Sub(), one)
        if '=' in n.relation2:
            hi = ast.BinOp(hi, ast.Add() if up else ast.Sub(), one)
        step = self.e(n.step) if n.step is not None else one
        if not up:
            step = ast.UnaryOp(ast.USub(), step)
        r = ast.Call(ast.Name('range', ast.Load()), [lo, hi, step], [])
        for y in ast.walk(r):
            self.at(n, y)
        return ast.For(self.store(n.target), r, self.body(n.body), self.body(n.else_clause) if n.else_clause is not None else [])
    def s_CDefExternNode(self, n): return []

    def args(self, args, fn):
        pos, dfl = [], []
        vararg = kwarg = None
        kwonly, kwd = [], []
        for a in args:
            nd = self.dname(a.declarator)
            name = str(nd.name) if nd.name else ''
            ty = None
            if not name:
                name = str(a.base_type.name)
            elif type(a.base_type).__name__ != 'CSimpleBaseTypeNode' or a.base_type.name:
                ty = 'c:' + self.ctype(a.base_type, a.declarator)
            ann = ast.Constant(ty) if ty else None
            if getattr(a, 'annotation', None) is not None:
                ann = self.e(a.annotation)
            arg = self.at(a, ast.arg(name, ann))
            if getattr(a, 'kw_only', 0):
                kwonly.append(arg)
                kwd.append(self.e(a.default) if a.default is not None else None)
            else:
                pos.append(arg)
                if a.default is not None:
                    dfl.append(self.e(a.default))
        if getattr(fn, 'star_arg', None) is not None:
            vararg = ast.arg(str(fn.star_arg.name))
        if getattr(fn, 'starstar_arg', None) is not None:
            kwarg = ast.arg(str(fn.starstar_arg.name))
        return ast.arguments([], pos, vararg, kwonly, kwd, kwarg, dfl)

    def decos(self, n):
        return [self.e(d.decorator) for d in (n.decorators or [])]

    def s_DefNode(self, n):
        ret = self.e(n.return_type_annotation) if getattr(n, 'return_type_annotation', None) is not None else None
        return self.at(n, ast.FunctionDef(str(n.name), self.args(n.args, n), self.body(n.body), self.decos(n), ret, None))

    def s_CFuncDefNode(self, n):
        d = n.declarator
        ty = self.ctype(n.base_type)
        x = d
        while type(x).__name__ != 'CFuncDeclaratorNode':
            ty += '*' if type(x).__name__ == 'CPtrDeclaratorNode' else ''
            x = x.base
        name = str(self.dname(x).name)
        f = ast.FunctionDef(name, self.args(x.args, n), self.body(n.body), self.decos(n), ast.Constant('c:' + ty) if ty else None, None)
        self.at(n, f)
        f.is_cfunc = True
        return f

    def s_CClassDefNode(self, n):
        bases = [self.e(x) for x in n.bases.args] if n.bases is not None else []
        return self.at(n, ast.ClassDef(str(n.class_name), bases, [], self.body(n.body) or [ast.Pass()], self.decos(n)))

    def s_PyClassDefNode(self, n):
        bases = [self.e(x) for x in n.bases.args] if n.bases is not None else []
        return self.at(n, ast.ClassDef(str(n.name), bases, [], self.body(n.body) or [ast.Pass()], self.decos(n)))

    def s_PropertyNode(self, n):
        out = self.body(n.body)
        for f in out:
            if isinstance(f, ast.FunctionDef) and f.name in ('__get__', '__set__'):
                f.decorator_list = [ast.Name('property', ast.Load()) if f.name == '__get__' else ast.Attribute(ast.Name(str(n.name), ast.Load()), 'setter', ast.Load())]
                f.name = str(n.name)
        return out


def parse_pyx(path):
    tree = _parse(path)
    c = Conv()
    body = c.s(tree.body) if tree.body is not None else []
    m = ast.Module(body, [])
    ast.fix_missing_locations(m)
    return m


if __name__ == '__main__':
    import sys
    print(ast.unparse(parse_pyx(sys.argv[1])))
