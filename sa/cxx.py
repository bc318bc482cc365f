"""C++ front end: the real sources are parsed by clang with the build's flags; the
typed AST (JSON) is lowered to the common IR."""
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
from fractions import Fraction
from .ir import N, Param, Func

NS = 'pyscal_repo_ns'


def find_includes():
    inc = []
    for pat in ('/opt/venv/lib/python3*/site-packages/pybind11/include',
                '/opt/venv/include', '/usr/include/python3*', '/usr/local/include/python3*',
                '/opt/venv/include/python3*'):
        inc += sorted(glob.glob(pat))
    try:
        out = subprocess.run(['/opt/venv/bin/python', '-c',
                              'import sysconfig,pybind11;print(sysconfig.get_paths()["include"]);print(pybind11.get_include())'],
                             capture_output=True, text=True, timeout=60).stdout.split()
        inc += [o for o in out if os.path.isdir(o)]
    except Exception:
        pass
    return list(dict.fromkeys(inc))


def clang():
    for c in ('clang++-18', 'clang++', '/usr/lib/llvm-18/bin/clang++'):
        for p in os.environ.get('PATH', '').split(':') + ['']:
            f = os.path.join(p, c) if p else c
            if os.path.isabs(f) and os.path.exists(f):
                return f
    raise RuntimeError('no clang++')


def wrapper(srcs):
    seen, sysinc, out = set(), [], []

    def expand(path):
        path = os.path.realpath(path)
        if path in seen:
            return
        seen.add(path)
        out.append('#line 1 "%s"' % path)
        with open(path, errors='replace') as f:
            lines = f.read().split('\n')
        for i, l in enumerate(lines, 1):
            m = re.match(r'\s*#\s*include\s*([<"])([^>"]+)[>"]', l)
            if m:
                p = os.path.join(os.path.dirname(path), m.group(2))
                if m.group(1) == '"' and os.path.exists(p):
                    expand(p)
                    out.append('#line %d "%s"' % (i + 1, path))
                else:
                    sysinc.append('#include <%s>' % m.group(2))
                    out.append('')
            elif re.match(r'\s*#\s*pragma\s+once', l):
                out.append('')
            else:
                out.append(l)
    for s in srcs:
        expand(s)
    return ('\n'.join(dict.fromkeys(sysinc)) + '\nnamespace %s {\n' % NS + '\n'.join(out) + '\n}\n', sorted(seen))


def dump(srcs, incs, cachedir=None, rewrite=None):
    text, seen = wrapper(srcs)
    if rewrite:
        text = rewrite(text)
    h = hashlib.sha256((text + repr(incs)).encode()).hexdigest()[:24]
    if cachedir:
        cf = os.path.join(cachedir, 'ast-%s.json' % h)
        if os.path.exists(cf):
            with open(cf) as f:
                return f.read(), seen, text
    with tempfile.TemporaryDirectory() as td:
        w = os.path.join(td, 'w.cpp')
        with open(w, 'w') as f:
            f.write(text)
        cmd = [clang(), '-std=c++17', '-fsyntax-only', '-w'] + ['-I' + i for i in incs] + [
            w, '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + NS]
        r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError('clang failed: ' + r.stderr[:2000])
    if cachedir:
        os.makedirs(cachedir, exist_ok=True)
        tmp = cf + '.%d' % os.getpid()
        with open(tmp, 'w') as f:
            f.write(r.stdout)
        os.replace(tmp, cf)
        old = sorted(glob.glob(os.path.join(cachedir, 'ast-*.json')), key=os.path.getmtime)
        for o in old[:-10]:
            try:
                os.unlink(o)
            except OSError:
                pass
    return r.stdout, seen, text


INTTY = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'char', 'size_t', 'unsigned', 'long long',
         'unsigned long long', 'unsigned char', 'bool', 'unsigned short', 'signed char', 'std::size_t'}


def base_ty(t):
    t = t.replace('const ', '').replace('volatile ', '').replace('&', '').replace('struct ', '').replace('class ', '').strip()
    t = t.replace(NS + '::', '').replace('std::', '')
    t = re.sub(r'\s*const$', '', t)
    return t


def is_int(t):
    t = base_ty(t)
    return t in INTTY or t.endswith('size_type') or t.endswith('difference_type')


class Program:
    def __init__(self):
        self.funcs = {}        # key -> Func
        self.records = {}      # name -> [(field, type)]
        self.fieldtypes = {}
        self.globals = {}
        self.bindings = {}     # class -> list of dict(kind,name,targets)
        self.files = []
        self.unsupported = []


class Lower:
    def __init__(self, prog, wtext):
        self.p = prog
        self.file, self.line = None, 0
        self.wlines = [''] + wtext.split('\n')
        self.wmap = [(None, 0)] * (len(self.wlines) + 1)
        cur = (None, 0)
        for i, l in enumerate(self.wlines):
            m = re.match(r'#line (\d+) "(.*)"', l)
            if m:
                cur = (m.group(2), int(m.group(1)) - 1)
            elif cur[0]:
                cur = (cur[0], cur[1] + 1)
            self.wmap[i] = cur
        self.decl = {}         # id -> json node
        self.canon = {}        # decl id -> canonical id
        self.fkey = {}         # canonical id -> key
        self.rec_of = {}       # method id -> record name
        self.fld_of = {}
        self.fldinit = {}
        self.varname = {}
        self.bodies = []

    # -- locations
    def locs(self, doc):
        st = [doc]
        order = []

        def upd(l):
            if not l:
                return
            for k in ('spellingLoc', 'expansionLoc'):
                if k in l:
                    upd(l[k])
            if 'file' in l:
                self.file = l['file']
            if 'line' in l:
                self.line = l['line']

        def rec(n):
            upd(n.get('loc'))
            r = n.get('range')
            if r:
                upd(r.get('begin'))
                n['_loc'] = self.here()
                n['_phys'] = self.line
                upd(r.get('end'))
            else:
                n['_loc'] = self.here()
                n['_phys'] = self.line
            for x in n.get('inner', ()):
                rec(x)
        sys.setrecursionlimit(10000)
        rec(doc)

    def here(self):
        if self.file and self.file.endswith('/w.cpp') and self.line < len(self.wmap):
            return self.wmap[self.line]
        return (self.file, self.line)

    def collect(self, n, rec=None):
        k = n.get('kind')
        i = n.get('id')
        if i:
            self.decl.setdefault(i, n)
        if k == 'CXXRecordDecl' and n.get('name'):
            if n.get('completeDefinition'):
                self.p.records.setdefault(n['name'], [])
            rec = n['name']
        if k == 'FieldDecl':
            self.p.records.setdefault(rec, []).append((n.get('name'), n['type'].get('desugaredQualType', n['type']['qualType'])))
            self.fld_of[i] = (rec, n.get('name'))
            if n.get('hasInClassInitializer'):
                z = [y for y in n.get('inner', ()) if y.get('kind') and not y['kind'].endswith('Attr')]
                if z:
                    self.fldinit[i] = z[-1]
        if k in ('CXXMethodDecl', 'CXXConstructorDecl', 'FunctionDecl', 'CXXDestructorDecl'):
            c = n.get('previousDecl', i)
            c = self.canon.get(c, c)
            self.canon[i] = c
            if rec and c == i:
                self.rec_of[c] = rec
            body = [x for x in n.get('inner', ()) if x.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
            if body and not n.get('isImplicit'):
                self.bodies.append((n, c))
        if k == 'VarDecl' and rec is None:
            pass
        for x in n.get('inner', ()):
            self.collect(x, rec if k != 'NamespaceDecl' else None)

    def key_of(self, c, n):
        r = self.rec_of.get(c)
        nm = n.get('name', '')
        qt = n.get('type', {}).get('qualType', '')
        return ('%s::%s' % (r, nm) if r else nm), qt

    def run(self, docs):
        for d in docs:
            self.locs(d)
            self.collect(d)
        # field types
        for r, fl in self.p.records.items():
            for f, t in fl:
                self.p.fieldtypes[(r, f)] = t
        # keys (overloads by signature)
        for n, c in self.bodies:
            nm, qt = self.key_of(c, n)
            key = nm + qt[qt.index('('):] if '(' in qt else nm
            key = key.replace(NS + '::', '').replace('std::', '')
            self.fkey[c] = key
        for d in docs:
            for x in d.get('inner', ()):
                if x.get('kind') == 'VarDecl':
                    init = [y for y in x.get('inner', ()) if y.get('kind') and not y['kind'].endswith('Attr')]
                    if init:
                        self.p.globals[x['name']] = self.E(init[-1])
        for n, c in self.bodies:
            self.func(n, c)
        self.bind_tables(docs)

    def func(self, n, c):
        params = []
        inits = []
        body = None
        for x in n.get('inner', ()):
            if x['kind'] == 'ParmVarDecl':
                t = x['type']['qualType']
                byref = ('&' in t and not t.strip().startswith('const ')) or t.strip().endswith('*')
                params.append(Param(self.vn(x), t, byref))
            elif x['kind'] == 'CXXCtorInitializer':
                inits.append(x)
            elif x['kind'] in ('CompoundStmt', 'CXXTryStmt'):
                body = self.S(x)
        qt = n['type']['qualType']
        f = Func(self.fkey[c], n.get('name'), self.rec_of.get(c), params, body, n['_loc'], 'cxx', qt[:qt.index('(')].strip() if '(' in qt else '')
        f.static = n.get('storageClass') == 'static'
        for x in inits:
            fd = x.get('anyInit')
            inner = [y for y in x.get('inner', ()) if y.get('kind')]
            if fd and inner and inner[0]['kind'] == 'CXXDefaultInitExpr' and not [y for y in inner[0].get('inner', ()) if y.get('kind')]:
                inner = [self.fldinit[fd['id']]] if fd.get('id') in self.fldinit else []
            if fd and inner:
                f.inits.append((fd.get('name'), self.E(inner[0])))
        self.p.funcs[f.key] = f

    def vn(self, d):
        i = d['id']
        if i not in self.varname:
            self.varname[i] = '%s#%d' % (d.get('name', '_'), len(self.varname))
        return self.varname[i]

    # -- statements
    def S(self, n):
        k = n.get('kind')
        loc = n.get('_loc')
        inner = n.get('inner', [])
        if k is None or k == 'NullStmt':
            return N('block', loc, body=[])
        if k == 'CompoundStmt':
            return N('block', loc, body=[self.S(x) for x in inner], scope=True)
        if k == 'DeclStmt':
            out = []
            for d in inner:
                if d['kind'] == 'VarDecl':
                    init = [y for y in d.get('inner', ()) if y.get('kind') and not y['kind'].endswith('Attr')]
                    t = d['type'].get('desugaredQualType', d['type']['qualType'])
                    out.append(N('decl', d['_loc'], name=self.vn(d), ty=t, isref='&' in d['type']['qualType'] or '&' in t,
                                 init=self.E(init[-1]) if init and 'init' in d else None, static=d.get('storageClass') == 'static'))
                elif d['kind'] in ('CXXRecordDecl', 'UsingDecl', 'TypedefDecl', 'TypeAliasDecl', 'UsingDirectiveDecl', 'StaticAssertDecl'):
                    pass
                else:
                    out.append(N('unknown', d['_loc'], what=d['kind']))
            return N('block', loc, body=out)
        if k == 'IfStmt':
            i = 0
            pre = []
            if n.get('hasInit'):
                pre.append(self.S(inner[i])); i += 1
            if n.get('hasVar'):
                pre.append(self.S(inner[i])); i += 1
            c = self.E(inner[i]); a = self.S(inner[i + 1])
            b = self.S(inner[i + 2]) if n.get('hasElse') else N('block', loc, body=[])
            s = N('if', loc, c=c, a=a, b=b)
            return N('block', loc, body=pre + [s], scope=True) if pre else s
        if k == 'ForStmt':
            init, cv, c, inc, body = inner
            return N('for', loc, init=self.S(init) if init.get('kind') and init['kind'] in ('DeclStmt',) else self.SE(init),
                     c=self.E(c) if c.get('kind') else None, inc=self.SE(inc), body=self.S(body))
        if k == 'WhileStmt':
            return N('while', loc, c=self.E(inner[-2]), body=self.S(inner[-1]))
        if k == 'DoStmt':
            return N('dowhile', loc, c=self.E(inner[1]), body=self.S(inner[0]))
        if k == 'CXXForRangeStmt':
            parts = [x for x in inner]
            rng = None
            for x in parts:
                if x.get('kind') == 'DeclStmt':
                    v = x['inner'][0]
                    if v.get('name', '').startswith('__range'):
                        rng = self.E(v['inner'][-1])
            lv = parts[-2]['inner'][0]
            t = lv['type'].get('qualType')
            return N('foreach', loc, var=self.vn(lv), ty=lv['type'].get('desugaredQualType', t), isref='&' in t or '&' in lv['type'].get('desugaredQualType', ''),
                     it=rng, body=self.S(parts[-1]), cxx=True)
        if k == 'SwitchStmt':
            return self.switch(n)
        if k == 'ReturnStmt':
            return N('ret', loc, v=self.E(inner[0]) if inner else None)
        if k == 'BreakStmt':
            return N('brk', loc)
        if k == 'ContinueStmt':
            return N('cont', loc)
        if k == 'CXXTryStmt':
            hs = []
            for x in inner[1:]:
                b = [y for y in x.get('inner', ()) if y.get('kind') == 'CompoundStmt']
                hs.append((None, None, self.S(b[0]) if b else N('block', loc, body=[])))
            return N('try', loc, body=self.S(inner[0]), handlers=hs, orelse=None, fin=None)
        if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt', 'GotoStmt', 'AttributedStmt'):
            return N('unknown', loc, what=k)
        return self.SE(n)

    def switch(self, n):
        inner = n['inner']
        c = self.E(inner[-2])
        body = inner[-1].get('inner', [])
        # groups of (labels, stmts); only the no-fallthrough form is lowered exactly
        groups = []
        cur = None
        for x in body:
            labels = []
            while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    labels.append(self.E(x['inner'][0]))
                    x = x['inner'][-1]
                else:
                    labels.append(None)
                    x = x['inner'][0]
            if labels:
                cur = [labels, []]
                groups.append(cur)
            if cur is None:
                return N('unknown', n['_loc'], what='switch')
            cur[1].append(x)
        chain = None
        default = N('block', n['_loc'], body=[])
        arms = []
        for labels, st in groups:
            last = st[-1].get('kind') if st else None
            low = [self.S(x) for x in st if x.get('kind') != 'BreakStmt']
            if st and last not in ('BreakStmt', 'ReturnStmt') and (labels, st) is not groups[-1] and groups[-1][1] is not st:
                if not (st and last == 'CompoundStmt' and st[-1].get('inner') and st[-1]['inner'][-1].get('kind') in ('BreakStmt', 'ReturnStmt')):
                    return N('unknown', n['_loc'], what='switch-fallthrough')
            arms.append((labels, N('block', n['_loc'], body=low)))
        for labels, b in arms:
            if None in labels:
                default = b
        res = default
        for labels, b in reversed(arms):
            if None in labels:
                continue
            cond = None
            for l in labels:
                e = N('cmp', n['_loc'], op='==', a=c, b=l)
                cond = e if cond is None else N('or', n['_loc'], xs=[cond, e])
            res = N('if', n['_loc'], c=cond, a=b, b=res)
        return N('swblock', n['_loc'], body=[res])

    def SE(self, n):
        """expression statement"""
        if not n or not n.get('kind'):
            return N('block', None, body=[])
        k = n['kind']
        loc = n.get('_loc')
        if k in ('ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr', 'ConstantExpr'):
            return self.SE(n['inner'][0])
        if k == 'BinaryOperator' and n['opcode'] == '=':
            return N('assign', loc, lhs=self.E(n['inner'][0]), rhs=self.E(n['inner'][1]), op=None, lty=n['inner'][0]['type']['qualType'])
        if k == 'BinaryOperator' and n['opcode'] == ',':
            return N('block', loc, body=[self.SE(n['inner'][0]), self.SE(n['inner'][1])])
        if k == 'CompoundAssignOperator':
            return N('assign', loc, lhs=self.E(n['inner'][0]), rhs=self.E(n['inner'][1]), op=n['opcode'][:-1],
                     lty=n['inner'][0]['type'].get('desugaredQualType', n['inner'][0]['type']['qualType']),
                     cty=n.get('computeResultType', {}).get('qualType', ''))
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return N('assign', loc, lhs=self.E(n['inner'][0]), rhs=N('num', loc, v=Fraction(1)), op=n['opcode'][0], lty='int', cty='int')
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n)
            args = n['inner'][1:]
            if op == 'operator=':
                return N('assign', loc, lhs=self.E(args[0]), rhs=self.E(args[1]), op=None, lty=args[0]['type']['qualType'])
            if op in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
                return N('assign', loc, lhs=self.E(args[0]), rhs=self.E(args[1]), op=op[8], lty='', cty='')
            if op in ('operator++', 'operator--') and self.pts(args[:1]):
                return N('assign', loc, lhs=self.E(args[0]), rhs=N('num', loc, v=Fraction(1)), op=op[8], lty='', cty='')
        if k == 'CXXThrowExpr':
            return N('raise', loc, v=self.E(n['inner'][0]) if n.get('inner') else None)
        if k == 'CXXDeleteExpr':
            return N('del', loc, xs=[self.E(n['inner'][0])], arr=n.get('isArray', False))
        if k == 'ConditionalOperator':
            i = n['inner']
            return N('if', loc, c=self.E(i[0]), a=self.SE(i[1]), b=self.SE(i[2]))
        return N('expr', loc, e=self.E(n))

    def opname(self, n):
        x = n['inner'][0]
        while x.get('kind') not in ('DeclRefExpr', None):
            x = x['inner'][0]
        return x.get('referencedDecl', {}).get('name', '')

    # -- expressions
    def ty(self, n):
        t = n.get('type', {})
        return t.get('desugaredQualType', t.get('qualType', ''))

    def E(self, n):
        k = n.get('kind')
        loc = n.get('_loc')
        inner = n.get('inner', [])
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
                 'CXXStdInitializerListExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr'):
            return self.E(inner[-1] if k == 'SubstNonTypeTemplateParmExpr' else inner[0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr'):
            ck = n.get('castKind')
            e = self.E(inner[0])
            if ck == 'FloatingToIntegral':
                return N('cast', loc, to='int', e=e)
            if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
                return N('cast', loc, to='bool', e=e)
            return e
        if k == 'IntegerLiteral':
            return N('num', loc, v=Fraction(int(n['value'])))
        if k == 'FloatingLiteral':
            return N('num', loc, v=self.fl(n))
        if k == 'CXXBoolLiteralExpr':
            return N('num', loc, v=Fraction(1 if n['value'] else 0), isbool=True)
        if k == 'CharacterLiteral':
            return N('num', loc, v=Fraction(int(n['value'])))
        if k == 'StringLiteral':
            try:
                return N('str', loc, v=json.loads(n['value']))
            except Exception:
                return N('str', loc, v=n['value'])
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return N('none', loc)
        if k == 'CXXThisExpr':
            return N('this', loc)
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            rk = r.get('kind')
            if rk in ('ParmVarDecl', 'VarDecl', 'BindingDecl'):
                d = self.decl.get(r['id'])
                if d is not None and r['name'] in self.p.globals and r['id'] not in self.varname:
                    return N('glob', loc, name=r['name'])
                if d is None:
                    return N('glob', loc, name=r['name'])
                return N('name', loc, id=self.vn(d), ty=self.ty(n))
            if rk in ('FunctionDecl', 'CXXMethodDecl'):
                return N('fref', loc, name=r['name'], key=self.fkey.get(self.canon.get(r['id'], r['id'])), ty=r.get('type', {}).get('qualType', ''))
            if rk == 'EnumConstantDecl':
                return N('glob', loc, name=r['name'])
            return N('unknown', loc, what='DeclRef ' + str(rk))
        if k == 'MemberExpr':
            if not inner:
                return N('unknown', loc, what='static member')
            b = self.E(inner[0])
            if n.get('isArrow') and b.k != 'this':
                b = N('deref', loc, e=b)
            mid = n.get('referencedMemberDecl')
            return N('fld', loc, b=b, n=n['name'], rec=self.fld_of.get(mid, (None,))[0], mid=mid, ty=self.ty(n))
        if k == 'ArraySubscriptExpr':
            return N('idx', loc, b=self.E(inner[0]), i=self.E(inner[1]), ty=self.ty(n))
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                return N('incdec', loc, op=op[0], post=n.get('isPostfix', False), e=self.E(inner[0]))
            e = self.E(inner[0])
            if op == '-':
                return N('neg', loc, e=e)
            if op == '+':
                return e
            if op == '!':
                return N('not', loc, e=e)
            if op == '&':
                return N('addr', loc, e=e)
            if op == '*':
                return N('deref', loc, e=e)
            return N('unknown', loc, what='unary ' + op)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=':
                return N('assigne', loc, s=self.SE(n), e=self.E(inner[0]))
            a, b = self.E(inner[0]), self.E(inner[1])
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return N('cmp', loc, op=op, a=a, b=b)
            if op in ('&&', '||'):
                return N('and' if op == '&&' else 'or', loc, xs=[a, b])
            if op in ('+', '-', '*', '/', '%'):
                return N('bin', loc, op=op, a=a, b=b, int=is_int(self.ty(n)))
            if op == ',':
                return N('unknown', loc, what='comma')
            return N('bin', loc, op=op, a=a, b=b, int=True)
        if k == 'CompoundAssignOperator':
            return N('assigne', loc, s=self.SE(n), e=self.E(inner[0]))
        if k == 'ConditionalOperator':
            return N('cond', loc, c=self.E(inner[0]), a=self.E(inner[1]), b=self.E(inner[2]))
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n)
            args = inner[1:]
            if op == 'operator[]':
                return N('idx', loc, b=self.E(args[0]), i=self.E(args[1]), ty=self.ty(n))
            if op == 'operator()':
                # functor / lambda call
                callee = inner[0]
                while callee.get('kind') != 'DeclRefExpr' and callee.get('inner'):
                    callee = callee['inner'][0]
                return N('call', loc, fn=None, name='operator()', recv=self.E(args[0]), args=[self.E(a) for a in args[1:]],
                         key=self.fkey.get(self.canon.get(callee.get('referencedDecl', {}).get('id'))), kw={}, ty=self.ty(n))
            if op in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
                return N('assigne', loc, s=self.SE(n), e=self.E(args[0]))
            if op in ('operator+', 'operator-', 'operator*', 'operator/') and len(args) == 2:
                return N('bin', loc, op=op[8], a=self.E(args[0]), b=self.E(args[1]), int=False)
            if op in ('operator++', 'operator--') and self.pts(args[:1]):
                return N('incdec', loc, op=op[8], post=len(args) > 1, e=self.E(args[0]))
            if op == 'operator->' and len(args) == 1:
                return self.E(args[0])
            if op == 'operator*' and len(args) == 1:
                return N('deref', loc, e=self.E(args[0]))
            if op in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
                return N('cmp', loc, op=op[8:], a=self.E(args[0]), b=self.E(args[1]))
            return N('call', loc, fn=None, name=op, recv=None, key=None, args=[self.E(a) for a in args], kw={}, ty=self.ty(n))
        if k == 'CXXMemberCallExpr':
            m = inner[0]
            while m.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                m = m['inner'][0]
            if m.get('kind') != 'MemberExpr':
                return N('unknown', loc, what='member call')
            mid = m.get('referencedMemberDecl')
            key = self.fkey.get(self.canon.get(mid, mid))
            b = m['inner'][0] if m.get('inner') else None
            recv = self.E(b) if b else None
            if m.get('isArrow') and recv is not None and recv.k != 'this':
                recv = N('deref', loc, e=recv)
            bt = self.ty(b) if b else ''
            return N('call', loc, fn=None, name=m['name'], recv=recv, rty=bt, key=key, mid=mid, argpt=self.pts(inner[1:]),
                     args=[self.E(a) for a in inner[1:] if a.get('kind') != 'CXXDefaultArgExpr'], kw={}, ty=self.ty(n),
                     argref=[self.nonconst_lvalue(a) for a in inner[1:]])
        if k == 'CallExpr':
            c = inner[0]
            while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
                c = c['inner'][0]
            if c.get('kind') == 'DeclRefExpr':
                r = c['referencedDecl']
                key = self.fkey.get(self.canon.get(r['id'], r['id']))
                if r.get('kind') in ('VarDecl', 'ParmVarDecl'):
                    return N('call', loc, fn=self.E(c), name=r['name'], recv=None, key=None, args=[self.E(a) for a in inner[1:]], kw={}, ty=self.ty(n))
                return N('call', loc, fn=None, name=r['name'], recv=None, key=key, args=[self.E(a) for a in inner[1:] if a.get('kind') != 'CXXDefaultArgExpr'], kw={},
                         ty=self.ty(n), argref=[self.nonconst_lvalue(a) for a in inner[1:]], argpt=self.pts(inner[1:]))
            if c.get('kind') == 'MemberExpr':
                return N('call', loc, fn=None, name=c['name'], recv=self.E(c['inner'][0]) if c.get('inner') else None, rty='', key=self.fkey.get(self.canon.get(c.get('referencedMemberDecl'))),
                         mid=None, args=[self.E(a) for a in inner[1:]], kw={}, ty=self.ty(n))
            return N('unknown', loc, what='call')
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            t = base_ty(self.ty(n))
            args = [self.E(a) for a in inner if a.get('kind') != 'CXXDefaultArgExpr']
            ct = n.get('ctorType', {}).get('qualType', '')
            return N('ctor', loc, ty=t, args=args, lst=n.get('initializer_list', False) or n.get('list', False), argpt=self.pts([a for a in inner if a.get('kind') != 'CXXDefaultArgExpr']))
        if k == 'InitListExpr':
            t = base_ty(self.ty(n))
            items = inner
            if not items and 'array_filler' in n:
                items = [x for x in n['array_filler'] if x.get('kind') and x.get('kind') != 'ImplicitValueInitExpr']
                return N('list', loc, items=[self.E(x) for x in items], ty=t, filled=True)
            if t in self.p.records:
                return N('struct', loc, name=t, vals=[self.E(x) for x in items])
            return N('list', loc, items=[self.E(x) for x in items], ty=t)
        if k == 'ImplicitValueInitExpr':
            return N('num', loc, v=Fraction(0))
        if k == 'CXXScalarValueInitExpr':
            return N('num', loc, v=Fraction(0))
        if k == 'CXXNewExpr':
            sz = inner[0] if n.get('isArray') and inner else None
            return N('new', loc, ty=self.ty(n), size=self.E(sz) if sz else None, zero=any(x.get('kind') in ('ImplicitValueInitExpr', 'InitListExpr') for x in inner[1:]))
        if k == 'CXXThrowExpr':
            return N('unknown', loc, what='throw expr')
        if k == 'CXXDefaultArgExpr':
            return N('defarg', loc)
        if k == 'LambdaExpr':
            for x in inner:
                if x.get('kind') == 'CXXRecordDecl':
                    for m in x.get('inner', ()):
                        if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()':
                            ps = [Param(self.vn(y), y['type']['qualType'], '&' in y['type']['qualType'] and not y['type']['qualType'].startswith('const ')) for y in m.get('inner', ()) if y['kind'] == 'ParmVarDecl']
                            body = [y for y in m.get('inner', ()) if y['kind'] == 'CompoundStmt']
                            return N('lam', loc, params=ps, body=self.S(body[0]) if body else self.S(inner[-1]))
            return N('unknown', loc, what='lambda')
        if k == 'UnaryExprOrTypeTraitExpr':
            return N('unknown', loc, what='sizeof')
        return N('unknown', loc, what=str(k))

    def pts(self, args):
        """which arguments are iterators ('it') or pointers ('ptr')"""
        out = []
        for a in args:
            t = a.get('type', {})
            q = (t.get('desugaredQualType', ''), t.get('qualType', ''))
            out.append('it' if any('iterator' in x for x in q) else 'ptr' if any(x.rstrip().endswith('*') for x in q) else '')
        return out if any(out) else []

    def nonconst_lvalue(self, a):
        """argument expression is an lvalue that is not read (so bound by reference)"""
        return a.get('valueCategory') == 'lvalue' and 'const ' not in a.get('type', {}).get('qualType', '')

    def fl(self, n):
        v = n['value']
        # exact literal text when it can be recovered from the source range
        try:
            b = n['range']['begin']
            b = b.get('spellingLoc', b)
            ln = self.wlines[n['_phys']]
            tok = ln[b['col'] - 1:b['col'] - 1 + b['tokLen']].rstrip('fFlL')
            if abs(float(tok) - float(v)) <= 1e-5 * abs(float(v)):
                return Fraction(tok)
        except Exception:
            pass
        return Fraction(str(v))

    # -- pybind tables: every .def*("name", &Class::member) call
    def bind_tables(self, docs):
        def rec(n, out):
            if n.get('kind') == 'CXXMemberCallExpr':
                m = n['inner'][0]
                while m.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                    m = m['inner'][0]
                nm = m.get('name', '')
                if nm.startswith('def'):
                    name, targets, consts = None, [], []
                    for a in n['inner'][1:]:
                        s = self.find_str(a)
                        tg = self.find_member(a)
                        if tg:
                            targets.append(tg)
                        elif s is not None and name is None:
                            name = s
                    out.append({'kind': nm, 'name': name, 'targets': targets, 'loc': n['_loc'], 'node': n})
            for x in n.get('inner', ()):
                rec(x, out)
        for d in docs:
            for x in d.get('inner', ()):
                if x.get('kind') == 'FunctionDecl' and 'pybind11_init' in x.get('name', ''):
                    out = []
                    rec(x, out)
                    cls = x['name'].replace('pybind11_init_', '')
                    self.p.bindings.setdefault(cls, []).extend(out)
                    for b in out:
                        nd = b.pop('node')
                        b['argnames'], b['defaults'] = self.pyargs(nd), self.pydefaults(nd)

    def pyargs(self, n):
        """py::arg names/defaults in a def call"""
        res = []

        def rec(x):
            if x.get('kind') in ('CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'CXXConstructExpr') and base_ty(self.ty(x)) in ('pybind11::arg', 'arg'):
                s = self.find_str(x)
                res.append(s)
                return
            for y in x.get('inner', ()):
                rec(y)
        for a in n['inner'][1:]:
            rec(a)
        return res

    def pydefaults(self, n):
        """literal defaults of py::arg("name") = value"""
        res = {}

        def isarg(x):
            if x.get('kind') in ('CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'CXXConstructExpr') and base_ty(self.ty(x)) in ('pybind11::arg', 'arg'):
                return self.find_str(x)
            for y in x.get('inner', ()):
                if x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr', 'CXXConstructExpr'):
                    r = isarg(y)
                    if r is not None:
                        return r
            return None

        def lit(x):
            if x.get('kind') == 'CXXBoolLiteralExpr':
                return 1.0 if x.get('value') else 0.0
            if x.get('kind') in ('IntegerLiteral', 'FloatingLiteral'):
                return float(x['value'])
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '-':
                v = lit(x['inner'][0])
                return None if v is None else -v
            if x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr') and x.get('inner'):
                return lit(x['inner'][0])
            return None

        def rec(x):
            if x.get('kind') == 'CXXOperatorCallExpr' and len(x.get('inner', ())) == 3:
                nm = isarg(x['inner'][1])
                if nm is not None:
                    v = lit(x['inner'][2])
                    if v is not None:
                        res[nm] = v
                    return
            for y in x.get('inner', ()):
                rec(y)
        for a in n['inner'][1:]:
            rec(a)
        return res

    def find_str(self, n):
        k = n.get('kind')
        if k == 'StringLiteral':
            try:
                return json.loads(n['value'])
            except Exception:
                return n['value']
        if k in ('ImplicitCastExpr', 'ParenExpr', 'CXXConstructExpr', 'CXXFunctionalCastExpr', 'MaterializeTemporaryExpr', 'CXXTemporaryObjectExpr'):
            for x in n.get('inner', ()):
                r = self.find_str(x)
                if r is not None:
                    return r
        return None

    def find_member(self, n):
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
            x = n['inner'][0]
            while x.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                x = x['inner'][0]
            if x.get('kind') == 'DeclRefExpr':
                r = x['referencedDecl']
                return {'name': r['name'], 'kind': r['kind'], 'key': self.fkey.get(self.canon.get(r['id'], r['id'])),
                        'rec': self.fld_of.get(r['id'], (None,))[0]}
            return None
        for x in n.get('inner', ()):
            if n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'MaterializeTemporaryExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr'):
                r = self.find_member(x)
                if r:
                    return r
        return None


def decode(text):
    dec = json.JSONDecoder()
    i, docs = 0, []
    while i < len(text):
        while i < len(text) and text[i].isspace():
            i += 1
        if i >= len(text):
            break
        if text[i] != '{':
            i = text.index('\n', i) + 1
            continue
        d, i = dec.raw_decode(text, i)
        docs.append(d)
    return docs


def load_reference(repo, prog, path, cachedir=None):
    """reference C++ definitions: functions of `path` in place of the repository's, all others as they are"""
    import copy
    incs = [os.path.dirname(path), os.path.join(repo, 'lib', 'voro++')] + find_includes()
    ref = Program()
    text, seen, wtext = dump([path], incs, cachedir)
    lw = Lower(ref, wtext)
    lw.run(decode(text))
    out = copy.copy(prog)
    out.funcs = dict(prog.funcs)
    out.own = {k: f for k, f in ref.funcs.items() if any(True for x in f.body.body) or f.name == f.cls}
    out.funcs.update(out.own)
    return out


def load(repo='/repo', cachedir=None, rewrite=None):
    src = os.path.join(repo, 'src', 'pyscal')
    cpps = sorted(glob.glob(os.path.join(src, '*.cpp')))
    # class sources first, bindings last
    cpps.sort(key=lambda p: (p.endswith('_binding.cpp'), p))
    incs = [os.path.join(repo, 'lib', 'voro++'), src] + find_includes()
    prog = Program()
    try:
        groups = [dump(cpps, incs, cachedir, rewrite)]
    except RuntimeError:
        groups = []
        for c in cpps:
            groups.append(dump([c], incs, cachedir, rewrite))
    for text, seen, wtext in groups:
        lw = Lower(prog, wtext)
        lw.run(decode(text))
        prog.files += [s for s in seen if s not in prog.files]
    return prog


class NoCapacity(Exception):
    pass


def small(text, cap=2):
    """the same sources with the capacity of the neighbor arrays replaced by `cap`"""
    ms = re.findall(r'\bMAXNUMBEROFNEIGHBORS\s*=\s*(\d+)\s*;', text)
    ms += re.findall(r'#\s*define\s+MAXNUMBEROFNEIGHBORS\s+(\d+)', text)
    if len(set(ms)) != 1:
        raise NoCapacity()
    n = int(ms[0])
    for k in (-1, 0, 1):
        text = re.sub(r'(?<![\w.])%d(?![\w.])' % (n + k), str(cap + k), text)
    return text
