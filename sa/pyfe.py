"""Python front end: the ast of the repository's Python modules (and of the reference
specifications) lowered to the common IR."""
import ast
import os
from fractions import Fraction
from .ir import N, Param, Func


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.names = {}          # name -> ('import', qualified) | ('func', key) | ('class', Class) | ('const', IR)


class Class:
    def __init__(self, name, bases, module):
        self.name, self.bases, self.module = name, bases, module
        self.methods = {}        # name -> Func
        self.getters = {}
        self.setters = {}
        self.consts = {}


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMP = {ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'isnot',
       ast.In: 'in', ast.NotIn: 'notin'}


def frac(v):
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(repr(v))


class Lower:
    def __init__(self, path, modname):
        self.path, self.mod = path, modname
        self.n = 0

    def L(self, n):
        return (self.path, getattr(n, 'lineno', 0))

    # -------------------------------------------------------- expressions
    def E(self, n):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            return N('unknown', self.L(n), what=type(n).__name__)
        r = m(n)
        r.loc = self.L(n)
        return r

    def x_Constant(self, n):
        v = n.value
        if v is None:
            return N('none')
        if v is True or v is False:
            return N('num', v=Fraction(int(v)), isbool=True)
        if isinstance(v, (int, float)):
            if v != v or v in (float('inf'), float('-inf')):
                return N('str', v='float:%r' % v)
            return N('num', v=frac(v), isfloat=isinstance(v, float))
        if isinstance(v, str):
            return N('str', v=v)
        if isinstance(v, bytes):
            return N('str', v='b' + repr(v))
        return N('unknown', what='constant')

    def x_Name(self, n):
        return N('name', id=n.id, ty='')

    def x_Attribute(self, n):
        return N('fld', b=self.E(n.value), n=n.attr, ty='')

    def x_Subscript(self, n):
        s = n.slice
        return N('idx', b=self.E(n.value), i=self.E(s), ty='')

    def x_Slice(self, n):
        f = lambda x: self.E(x) if x is not None else N('none')
        return N('slice', lo=f(n.lower), hi=f(n.upper), st=f(n.step))

    def x_BinOp(self, n):
        return N('bin', op=OPS[type(n.op)], a=self.E(n.left), b=self.E(n.right), int=False)

    def x_UnaryOp(self, n):
        e = self.E(n.operand)
        if isinstance(n.op, ast.Not):
            return N('not', e=e)
        if isinstance(n.op, ast.USub):
            if e.k == 'num':
                return N('num', v=-e.v, isfloat=e.__dict__.get('isfloat'))
            return N('neg', e=e)
        if isinstance(n.op, ast.UAdd):
            return e
        return N('unknown', what='~')

    def x_BoolOp(self, n):
        return N('and' if isinstance(n.op, ast.And) else 'or', xs=[self.E(v) for v in n.values])

    def x_Compare(self, n):
        xs = [n.left] + list(n.comparators)
        out = []
        for i, op in enumerate(n.ops):
            out.append(N('cmp', self.L(n), op=CMP[type(op)], a=self.E(xs[i]), b=self.E(xs[i + 1])))
        return out[0] if len(out) == 1 else N('and', xs=out)

    def x_IfExp(self, n):
        return N('cond', c=self.E(n.test), a=self.E(n.body), b=self.E(n.orelse))

    def x_List(self, n):
        return N('list', items=[self.E(x) for x in n.elts], ty='')

    def x_Tuple(self, n):
        return N('list', items=[self.E(x) for x in n.elts], ty='tuple')

    def x_Set(self, n):
        return N('list', items=[self.E(x) for x in n.elts], ty='set')

    def x_Dict(self, n):
        return N('dict', items=[(self.E(k) if k is not None else N('none'), self.E(v)) for k, v in zip(n.keys, n.values)])

    def x_Call(self, n):
        args = []
        star = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                star = True
                args.append(N('star', self.L(a), e=self.E(a.value)))
            else:
                args.append(self.E(a))
        kw = {}
        for k in n.keywords:
            kw[k.arg if k.arg is not None else '**'] = self.E(k.value)
        f = self.E(n.func)
        recv = f.b if f.k == 'fld' else None
        name = f.n if f.k == 'fld' else (f.id if f.k == 'name' else '')
        return N('call', fn=f, name=name, recv=recv, key=None, args=args, kw=kw, star=star, kws=list(kw.values()))

    def comp(self, n, kind, elt):
        gens = []
        for g in n.generators:
            gens.append((self.E(g.target), self.E(g.iter), [self.E(c) for c in g.ifs]))
        return N('comp', kind=kind, elt=elt, gens=gens, parts=[x for g in gens for x in [g[0], g[1]] + g[2]])

    def x_ListComp(self, n):
        return self.comp(n, 'list', self.E(n.elt))

    def x_GeneratorExp(self, n):
        return self.comp(n, 'gen', self.E(n.elt))

    def x_SetComp(self, n):
        return self.comp(n, 'set', self.E(n.elt))

    def x_DictComp(self, n):
        return self.comp(n, 'dict', N('list', self.L(n), items=[self.E(n.key), self.E(n.value)], ty='tuple'))

    def x_JoinedStr(self, n):
        ps = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = None
                if v.format_spec is not None:
                    z = v.format_spec.values
                    if len(z) == 1 and isinstance(z[0], ast.Constant):
                        spec = z[0].value
                    elif z:
                        ps.append(N('unknown', self.L(n), what='format specification'))
                ps.append(N('fval', self.L(n), e=self.E(v.value), spec=spec))
            else:
                ps.append(self.E(v))
        return N('fstr', parts=ps)

    def x_Lambda(self, n):
        return N('lam', params=self.params(n.args), body=N('block', self.L(n), body=[N('ret', self.L(n), v=self.E(n.body))], scope=True))

    def x_NamedExpr(self, n):
        t = self.E(n.target)
        return N('assigne', s=N('assign', self.L(n), lhs=t, rhs=self.E(n.value), op=None, lty=''), e=t)

    def x_Starred(self, n):
        return N('star', e=self.E(n.value))

    def x_Yield(self, n):
        return N('yield', v=self.E(n.value) if n.value is not None else N('none'))

    # -------------------------------------------------------- statements
    def B(self, ss, loc=None):
        out = []
        for s in ss:
            r = self.S(s)
            if r is not None:
                out.append(r)
        return N('block', loc, body=out, scope=True)

    def S(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return N('unknown', self.L(n), what=type(n).__name__)
        r = m(n)
        if r is not None and r.loc is None:
            r.loc = self.L(n)
        return r

    def s_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return None
        return N('expr', e=self.E(n.value))

    def s_Pass(self, n):
        return None

    def s_Global(self, n):
        return None

    def s_Assign(self, n):
        rhs = self.E(n.value)
        if len(n.targets) == 1:
            return N('assign', lhs=self.E(n.targets[0]), rhs=rhs, op=None, lty='')
        self.n += 1
        tmp = '$t%d' % self.n
        loc = self.L(n)
        body = [N('assign', loc, lhs=N('name', loc, id=tmp, ty=''), rhs=rhs, op=None, lty='')]
        for t in n.targets:
            body.append(N('assign', loc, lhs=self.E(t), rhs=N('name', loc, id=tmp, ty=''), op=None, lty=''))
        return N('block', loc, body=body)

    def s_AnnAssign(self, n):
        if n.value is None:
            return None
        return N('assign', lhs=self.E(n.target), rhs=self.E(n.value), op=None, lty='')

    def s_AugAssign(self, n):
        return N('assign', lhs=self.E(n.target), rhs=self.E(n.value), op=OPS[type(n.op)], lty='')

    def s_If(self, n):
        return N('if', c=self.E(n.test), a=self.B(n.body), b=self.B(n.orelse))

    def s_For(self, n):
        return N('pyfor', tgt=self.E(n.target), it=self.E(n.iter), body=self.B(n.body), orelse=self.B(n.orelse) if n.orelse else None)

    def s_While(self, n):
        return N('while', c=self.E(n.test), body=self.B(n.body))

    def s_Return(self, n):
        return N('ret', v=self.E(n.value) if n.value is not None else None)

    def s_Break(self, n):
        return N('brk')

    def s_Continue(self, n):
        return N('cont')

    def s_Raise(self, n):
        return N('raise', v=self.E(n.exc) if n.exc is not None else None)

    def s_Delete(self, n):
        return N('del', xs=[self.E(t) for t in n.targets])

    def s_Assert(self, n):
        return N('if', c=N('not', self.L(n), e=self.E(n.test)), a=N('block', self.L(n), body=[N('raise', self.L(n), v=N('name', self.L(n), id='AssertionError', ty=''))]),
                 b=N('block', self.L(n), body=[]))

    def s_With(self, n):
        items = [(self.E(i.context_expr), self.E(i.optional_vars) if i.optional_vars is not None else None) for i in n.items]
        return N('with', items=items, body=self.B(n.body), ctxs=[i[0] for i in items])

    def s_Try(self, n):
        hs = [(self.E(h.type) if h.type is not None else None, h.name, self.B(h.body)) for h in n.handlers]
        return N('try', body=self.B(n.body), handlers=hs, orelse=self.B(n.orelse) if n.orelse else None, fin=self.B(n.finalbody) if n.finalbody else None,
                 hbodies=[h[2] for h in hs])

    def s_Import(self, n):
        out = []
        for a in n.names:
            out.append((a.asname or a.name.split('.')[0], a.name if a.asname else a.name.split('.')[0]))
        return N('import', names=out)

    def s_ImportFrom(self, n):
        return N('import', names=[(a.asname or a.name, '%s.%s' % (n.module or '', a.name)) for a in n.names])

    def s_FunctionDef(self, n):
        return N('assign', lhs=N('name', self.L(n), id=n.name, ty=''), rhs=N('lam', self.L(n), params=self.params(n.args), body=self.B(n.body), name=n.name), op=None, lty='')

    def params(self, a, skipself=False):
        pos = list(getattr(a, 'posonlyargs', [])) + list(a.args)
        nd = len(pos) - len(a.defaults)
        out = []
        for i, p in enumerate(pos):
            out.append(Param(p.arg, '', False, self.E(a.defaults[i - nd]) if i >= nd else None))
        if a.vararg:
            out.append(Param(a.vararg.arg, '', False, None, 'var'))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append(Param(p.arg, '', False, self.E(d) if d is not None else None, 'kwonly'))
        if a.kwarg:
            out.append(Param(a.kwarg.arg, '', False, None, 'kw'))
        return out[1:] if skipself else out


def load_module(prog, path, modname, relpath):
    src = open(path).read()
    tree = ast.parse(src, path)
    lw = Lower(relpath, modname)
    M = Module(modname, relpath)
    M.tree = tree
    prog.modules[modname] = M

    def fn(n, cls):
        deco = [ast.unparse(d) for d in n.decorator_list]
        sm = 'staticmethod' in deco
        key = '%s:%s%s' % (modname, (cls + '.') if cls else '', n.name)
        if any(d.endswith('.setter') for d in deco):
            key += '.setter'
        f = Func(key, n.name, cls, lw.params(n.args, skipself=bool(cls) and not sm), lw.B(n.body), (relpath, n.lineno), 'py', deco=deco)
        f.module = M
        f.selfname = n.args.args[0].arg if cls and not sm and n.args.args else None
        f.static = sm
        f.node = n
        f.gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        prog.pyfuncs[key] = f
        return f

    def top(body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                M.names[n.name] = ('func', fn(n, None))
            elif isinstance(n, ast.ClassDef):
                C = Class(n.name, [ast.unparse(b) for b in n.bases], M)
                M.names[n.name] = ('class', C)
                for x in n.body:
                    if isinstance(x, ast.FunctionDef):
                        f = fn(x, n.name)
                        if 'property' in f.deco:
                            C.getters[x.name] = f
                        elif any(d.endswith('.setter') for d in f.deco):
                            C.setters[x.name] = f
                        else:
                            C.methods[x.name] = f
                    elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                        C.consts[x.targets[0].id] = lw.E(x.value)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a, q in lw.S(n).names:
                    M.names[a] = ('import', q)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                M.names[n.targets[0].id] = ('const', lw.E(n.value))
            elif isinstance(n, (ast.If, ast.Try)):
                top(n.body)
                if isinstance(n, ast.If):
                    top(n.orelse)
                else:
                    for h in n.handlers:
                        top(h.body)
    top(tree.body)
    return M


def load_package(prog, root, base='src/pyscal', pkg='pyscal'):
    prog.modules = getattr(prog, 'modules', {})
    prog.pyfuncs = getattr(prog, 'pyfuncs', {})
    d = os.path.join(root, base)
    for dp, dn, fn in os.walk(d):
        dn[:] = [x for x in sorted(dn) if x != '__pycache__']
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            full = os.path.join(dp, f)
            rel = os.path.relpath(full, d)[:-3].replace(os.sep, '.')
            name = pkg if rel == '__init__' else pkg + '.' + rel
            if name.endswith('.__init__'):
                name = name[:-9]
            load_module(prog, full, name, os.path.relpath(full, root))
    return prog
