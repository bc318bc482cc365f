"""Value-flow summaries for Python code (the repository's Python layer and the
reference specifications).  Shares memory, loops, joins and recurrences with `Ev`."""
import re
from .ir import N, walk as irwalk, Param
from . import terms as X
from .terms import (T, mk, num, ZERO, ONE, add, sub, mul, neg, div, NOT, AND, OR, ite, ite_any, EQ, LT,
                    truth, fn, seq, one, seq_items, append, length, index, field, SUM, ANY, subst, P, CTX)
from .ev import Ev, Ref, W, Unsupported, NONE, THIS, MATH, comps, Loop

MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'update', 'add', 'clear', 'reverse', 'setdefault'}
NPALIAS = {
    'numpy.array': 'id', 'numpy.asarray': 'id', 'list': 'id', 'tuple': 'id', 'float': 'id', 'numpy.float64': 'id', 'copy.copy': 'id', 'copy.deepcopy': 'id',
    'numpy.sqrt': 'sqrt', 'math.sqrt': 'sqrt', 'numpy.abs': 'abs', 'abs': 'abs', 'numpy.absolute': 'abs', 'numpy.cos': 'cos', 'numpy.sin': 'sin', 'math.cos': 'cos',
    'math.sin': 'sin', 'numpy.exp': 'exp', 'math.exp': 'exp', 'numpy.ceil': 'ceil', 'math.ceil': 'ceil', 'numpy.floor': 'floor', 'math.floor': 'floor',
    'pow': 'pow', 'math.pow': 'pow', 'numpy.power': 'pow', 'math.log': 'log', 'numpy.log': 'log', 'int': 'trunc', 'numpy.rint': 'round', 'numpy.arccos': 'acos',
    'math.acos': 'acos', 'math.atan2': 'atan2', 'numpy.arctan2': 'atan2', 'math.fabs': 'abs', 'numpy.square': 'square',
}
CONSTS = {'numpy.pi': 'pi', 'math.pi': 'pi'}
# library functions that do not fail on the values they are given
TOTAL = {'len', 'append', 'str', 'numpy.array', 'range', 'numpy.sum', 'sum', 'list', 'isinstance', 'enumerate', 'zip', 'print', 'set', 'dict', '.append', 'warnings.warn', 'mut:append', 'ret:append'}
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'max', 'min', 'sum', 'any', 'all', 'sorted', 'isinstance', 'str', 'bool', 'dict', 'set', 'print', 'getattr',
            'hasattr', 'setattr', 'open', 'map', 'reversed', 'type', 'round', 'repr', 'next', 'iter', 'super', 'filter', 'object', 'int', 'float', 'list', 'tuple', 'abs', 'pow',
            'ValueError', 'TypeError', 'RuntimeError', 'Exception', 'KeyError', 'IndexError', 'AttributeError', 'FileNotFoundError', 'RuntimeWarning', 'NotImplementedError',
            'UserWarning', 'OSError', 'IOError', 'AssertionError', 'ImportError', 'StopIteration', 'DeprecationWarning', 'slice', 'callable', 'bytes', 'divmod', 'ord', 'chr', 'True', 'False'}


class PyEv(Ev):
    """bindings: object with .system (name -> binding) and .atom or None"""

    def __init__(self, prog, abstr=None, maxrounds=8, unroll=4, bind=None, spec=False, intr=None):
        Ev.__init__(self, prog, abstr, maxrounds, unroll)
        self.lang = 'py'
        self.bind = bind
        self.spec = spec
        self.intr = intr or {}
        self.cur = None
        self.rootcls = {}

    # -------------------------------------------------------------- running
    def run(self, func, this=THIS, args=None, cls=None):
        self.topcls = cls or (self.class_of(func))
        self.rootcls = {THIS: self.topcls} if self.topcls else {}
        self.cur = func
        return Ev.run(self, func, this, args)

    comps = 0
    handles = {}

    def class_of(self, f):
        if f.cls and getattr(f, 'module', None) is not None:
            c = f.module.names.get(f.cls)
            if c and c[0] == 'class':
                return c[1]
        return None

    def param_term(self, p, nm):
        return mk('param', nm)

    def _run(self, func, this, args):
        self.modstack = [func]
        self.handles = {}
        env = {}
        if getattr(func, 'selfname', None):
            env[func.selfname] = Ref(this)
        self.this = this
        self.func = func
        for p in func.params:
            if args is not None and p.name in args:
                env[p.name] = args[p.name]
            else:
                env[p.name] = mk('param', p.name) if p.kind in ('pos', 'kwonly') else mk('param', '*' + p.name)
        for nm in self.mutated_names(func.body):
            if nm in env and isinstance(env[nm], T) and env[nm].op == 'param':
                env[nm] = Ref(env[nm])
        self.begin_frame(env)
        env['$yield'] = seq()
        self.stack.append(func.key)
        self.mutset = [self.mutated_names(func.body)]
        self.block(func.body, env)
        self.stack.pop()
        from .ev import Summary
        s = Summary()
        r = env.get('$yield') if getattr(func, 'gen', False) else env.get('$ret', NONE)
        s.ret = self.contents(self.materialise(r))
        s.outs = {}
        s.effects = [w for w in self.log if not (w.sig and w.sig[0][0] in ('local', 'new'))]
        for w in s.effects:
            if w.kind == 'call':
                w.val = tuple(self.contents(a) if isinstance(a, T) else a for a in w.val)
            elif w.kind in ('=', 'app', '+') and isinstance(w.val, T):
                w.val = self.contents(w.val)
        s.notes = self.notes
        s.env = env
        return s

    def contents(self, v, seen=()):
        """replace references to objects created here by their contents"""
        if not isinstance(v, T) or len(seen) > 4:
            return v
        ts = set()
        X.walk(v, ts)
        mp = {}
        for t in ts:
            if t.op != 'new' or t not in self.rootcls:
                continue
            if t in seen:
                mp[t] = mk('glob', 'unset')
                continue
            try:
                c = self.load(t)
                if c is not t:
                    mp[t] = self.contents(c, seen + (t,))
            except (Unsupported, X.TooBig):
                continue
        return X.subst(v, mp) if mp else v

    def materialise(self, v):
        if isinstance(v, Ref):
            return self.load(v.path)
        if isinstance(v, tuple):
            return mk('ext', 'lambda')
        if isinstance(v, T) and v.op == 'new':
            return self.load(v)
        return v

    def mutated_names(self, body):
        c = body.__dict__.setdefault('_mut', None)
        if c is not None:
            return c
        out = set()
        loops = []
        for x in irwalk(body):
            t = None
            if x.k == 'assign':
                ts = [x.lhs]
                while ts:
                    y = ts.pop()
                    if y.k == 'list':
                        ts += y.items
                    elif y.k in ('fld', 'idx'):
                        out |= self.rootnames(y)
            elif x.k == 'call' and x.recv is not None and x.name in MUT:
                out |= self.rootnames(x.recv)
            elif x.k == 'del':
                for y in x.xs:
                    if y.k in ('fld', 'idx'):
                        out |= self.rootnames(y)
            elif x.k == 'pyfor':
                loops.append(x)
        ch = True
        while ch:
            ch = False
            for l in loops:
                t = self.rootnames(l.tgt)
                if t & out:
                    its = [l.it]
                    if l.it.k == 'call' and l.it.name in ('enumerate', 'zip', 'list', 'reversed'):
                        its = l.it.args
                    for i in its:
                        if i.k in ('name', 'fld', 'idx'):
                            r = self.rootnames(i)
                            if not r <= out:
                                out |= r
                                ch = True
        body._mut = out
        return out

    def rootnames(self, e):
        if e is not None and e.k == 'list':
            r = set()
            for i in e.items:
                r |= self.rootnames(i)
            return r
        return Ev.rootnames(self, e)

    def modified(self, nodes):
        out = Ev.modified(self, nodes)
        for n in nodes:
            if n is None:
                continue
            for x in irwalk(n):
                if x.k == 'pyfor':
                    out |= self.rootnames(x.tgt)
                elif x.k == 'assign' and x.lhs.k == 'list':
                    out |= self.rootnames(x.lhs)
                elif x.k == 'import':
                    out |= {a for a, q in x.names}
                elif x.k == 'yield':
                    out.add('$yield')
        return out

    # -------------------------------------------------------------- names
    def newroot(self, v, loc, env, cls=None, nm='obj'):
        self.ctr += 1
        root = mk('new', self.ctr, 'py')
        if cls is not None:
            self.rootcls[root] = cls
        if v is not None:
            self.write(root, v, loc, env)
        return root

    def e_name(self, e, env):
        if e.id in env:
            v = env[e.id]
            if isinstance(v, Ref):
                if v.path is self.this:
                    return v.path
                if v.path in self.rootcls:
                    return v.path
                return self.load(v.path)
            if isinstance(v, tuple):
                return v
            return X.simp(v) if isinstance(v, T) else v
        return self.globalname(e.id)

    def globalname(self, nm):
        M = self.modstack[-1].module if self.modstack and getattr(self.modstack[-1], 'module', None) else None
        if M is not None and nm in M.names:
            k, v = M.names[nm]
            if k == 'import':
                return mk('glob', self.resolve(v))
            if k == 'func':
                return mk('pyfn', v.key)
            if k == 'class':
                return mk('pycls', v.module.name + '.' + v.name)
            if k == 'const':
                return self.ex(v, {})
        if nm in BUILTINS or nm in self.intr:
            return mk('glob', nm)
        return mk('undef', nm)

    def resolve(self, q):
        """follow package re-exports: qualified name -> canonical"""
        return q

    def lookup(self, q):
        """repo object named by qualified name"""
        if q in self.prog.modules:
            return ('module', self.prog.modules[q])
        if '.' in q:
            m, n = q.rsplit('.', 1)
            if m in self.prog.modules:
                r = self.prog.modules[m].names.get(n)
                if r is not None and r[0] == 'import':
                    return self.lookup(r[1])
                return r
        return None

    def e_fld(self, e, env):
        if e.b.k in ('name', 'fld'):
            q = self.dotted(e, env)
            if q is not None:
                return self.globvalue(q)
        base = self.baseval(e.b, env)
        c = self.cls_of_base(base)
        if c is not None:
            if e.n in c.getters:
                return self.call_py(c.getters[e.n], [], {}, env, e.loc, this=base)
            if e.n in c.methods:
                return mk('bound', base, e.n)
            if self.bind is not None and base.op in ('this', 'new', 'param') and self.bind.method(c, e.n) is not None:
                return mk('bound', base, e.n)
            if e.n in c.consts and not self.written(mk('fld', base, e.n)):
                return self.ex(c.consts[e.n], {})
            b = self.bound_attr(c, e.n)
            if b is not None:
                return self.bound_get(base, b, e.n)
            return self.load(mk('fld', base, e.n))
        if base.op in ('this', 'new', 'param', 'local', 'fld', 'idx') and self.is_path(base):
            return self.load(mk('fld', base, e.n))
        return field(base, e.n)

    def written(self, path):
        return any(w.path is path for w in self.log)

    def is_path(self, t):
        while t.op in ('fld', 'idx'):
            t = t.args[0]
        return t.op in ('this', 'param', 'local', 'new', 'glob')

    def globvalue(self, q):
        if q in CONSTS:
            return self.prog.pi
        r = self.lookup(q)
        if r is not None:
            if r[0] == 'func':
                return mk('pyfn', r[1].key)
            if r[0] == 'class':
                return mk('pycls', r[1].module.name + '.' + r[1].name)
            if r[0] == 'const':
                return self.ex(r[1], {})
        return mk('glob', q)

    def dotted(self, e, env):
        """qualified name of a module attribute expression, or None"""
        ch = []
        x = e
        while x.k == 'fld':
            ch.append(x.n)
            x = x.b
        if x.k != 'name':
            return None
        if x.id in env:
            v = env[x.id]
            if isinstance(v, T) and v.op == 'glob':
                return '.'.join([v.args[0]] + ch[::-1])
            return None
        M = getattr(self.modstack[-1], 'module', None)
        if M is None or x.id not in M.names:
            return None
        k, v = M.names[x.id]
        if k == 'import':
            return '.'.join([v] + ch[::-1])
        if k == 'class':
            return '.'.join([v.module.name + '.' + v.name] + ch[::-1])
        return None

    def baseval(self, b, env):
        """path (preferred) or value of a base expression"""
        t = self.lv(b, env) if b.k in ('name', 'fld', 'idx') else None
        if isinstance(t, Ref):
            p = t.path
            if self.spec and self.plainmem(p):
                return p
            if self.is_path(p):
                # objects held by fields: dereference python objects
                v = self.load(p)
                if v.op in ('new', 'this') or v in self.rootcls:
                    return v
                if p.op in ('fld', 'idx', 'local', 'new', 'param', 'this', 'glob'):
                    return p
            elif p.op == 'poly':
                # one of several objects
                return self.load(p)
            return p
        return self.ex(b, env)

    def plainmem(self, p):
        """storage of the C++ object a specification talks about: no references inside"""
        while p.op in ('fld', 'idx'):
            p = p.args[0]
        return p.op == 'this' and not self.rootcls

    def cls_of_base(self, base):
        return self.rootcls.get(base)

    def bound_attr(self, c, n):
        if self.bind is None:
            return None
        return self.bind.attr(c, n)

    def bound_get(self, base, b, n):
        kind, fields = b
        if kind == 'field':
            return self.load(mk('fld', base, fields))
        return mk('ext', 'get:' + n, *[self.load(mk('fld', base, f)) for f in fields[0]])

    # -------------------------------------------------------------- lvalues
    def lv(self, e, env):
        k = e.k
        if k == 'name':
            v = env.get(e.id)
            if isinstance(v, Ref):
                return v
            return ('env', e.id)
        if k == 'fld':
            q = self.dotted(e, env)
            if q is not None:
                return Ref(self.globvalue(q))
            base = self.baseval(e.b, env)
            c = self.cls_of_base(base)
            if c is not None:
                if e.n in c.getters:
                    v = self.ex(e, env)
                    return Ref(v)
                b = self.bound_attr(c, e.n)
                if b is not None:
                    if b[0] == 'field':
                        return Ref(mk('fld', base, b[1]))
                    return Ref(self.bound_get(base, b, e.n))
            return Ref(mk('fld', base, e.n))
        if k == 'idx':
            if e.i.k == 'slice':
                return Ref(self.ex(e, env))
            base = self.baseval(e.b, env)
            if isinstance(base, tuple):
                raise Unsupported('index of lambda')
            return Ref(mk('idx', base, self.ex(e.i, env)) if self.is_path(base) else index(base, self.ex(e.i, env)))
        if k == 'list':
            raise Unsupported('tuple lvalue')
        v = self.ex(e, env)
        if isinstance(v, tuple):
            return v
        return Ref(v)

    def promote(self, e, env):
        """make the storage of base expression e a path we can write through"""
        if e.k == 'name':
            v = env.get(e.id)
            if isinstance(v, Ref):
                p = v.path
                w = self.load(p) if p is not self.this else p
                if w.op in ('new',) and w is not p:
                    return w
                return p
            if v is None:
                g = self.globalname(e.id)
                if g.op == 'undef':
                    g = self.newroot(g, None, env)
                    env[e.id] = Ref(g)
                return g
            if isinstance(v, T):
                if v.op in ('new', 'this') or v in self.rootcls:
                    return v
                root = self.newroot(v, None, env)
                env[e.id] = Ref(root)
                return root
            raise Unsupported('store through %s' % e.id)
        if e.k == 'fld':
            base = self.promote(e.b, env)
            c = self.cls_of_base(base)
            if c is not None:
                b = self.bound_attr(c, e.n)
                if b is not None and b[0] == 'field':
                    return mk('fld', base, b[1])
            p = mk('fld', base, e.n)
            if self.spec and self.plainmem(p):
                return p
            v = self.load(p)
            if v.op in ('new',) or v in self.rootcls:
                return v
            return p
        if e.k == 'idx':
            base = self.promote(e.b, env)
            p = mk('idx', base, self.ex(e.i, env))
            if self.spec and self.plainmem(p):
                return p
            v = self.load(p)
            if v.op in ('new',) or v in self.rootcls:
                return v
            return p
        v = self.ex(e, env)
        if v.op in ('new', 'this') or self.is_path(v):
            return v
        return self.newroot(v, e.loc, env)

    def assign(self, lhs, v, env, loc):
        k = lhs.k
        if k == 'list':
            vals = v
            its = lhs.items
            for i, t in enumerate(its):
                self.assign(t, index(vals, num(i)) if isinstance(vals, T) else vals, env, loc)
            return
        if k == 'name':
            cur = env.get(lhs.id)
            if isinstance(cur, Ref) and isinstance(v, T) and cur.path.op == 'new' and v.op != 'new' and cur.path not in self.rootcls:
                if self.live(env) is ONE and False:
                    pass
                self.write(cur.path, v, loc, env)
                return
            if isinstance(v, T) and lhs.id in self.mutset[-1] and v.op not in ('new', 'glob', 'pyfn') and v not in self.rootcls and not (cur is not None and isinstance(cur, T)):
                if v.op == 'this':
                    env[lhs.id] = Ref(v)
                    return
                root = self.newroot(v, loc, env)
                env[lhs.id] = Ref(root)
                return
            self.setenv(env, lhs.id, v)
            return
        if k == 'fld':
            base = self.promote(lhs.b, env)
            c = self.cls_of_base(base)
            if c is not None:
                if lhs.n in c.setters:
                    return self.call_py(c.setters[lhs.n], [v], {}, env, loc, this=base)
                b = self.bound_attr(c, lhs.n)
                if b is not None:
                    if b[0] == 'field':
                        self.write(mk('fld', base, b[1]), v, loc, env)
                        return
                    return self.bound_call(base, 'set:' + lhs.n, [v], b[1][1], b[1][2], env, loc)
            if isinstance(v, tuple):
                v = mk('ext', 'lambda')
            self.write(mk('fld', base, lhs.n), v, loc, env)
            return
        if k == 'idx':
            base = self.promote(lhs.b, env)
            if isinstance(v, tuple):
                v = mk('ext', 'lambda')
            if lhs.i.k == 'slice':
                self.write(base, mk('ext', 'setslice', self.load(base), self.ex(lhs.i, env), v), loc, env)
                return
            self.write(mk('idx', base, self.ex(lhs.i, env)), v, loc, env)
            return
        raise Unsupported('assignment target %s' % k)

    def s_assign(self, s, env):
        if s.op is None:
            if s.lhs.k == 'name' and s.rhs.k == 'name' and isinstance(env.get(s.rhs.id), (Ref, tuple)):
                v = env[s.rhs.id]
                if isinstance(v, tuple) or isinstance(v.path, T) and self.live(env) is ONE:
                    env[s.lhs.id] = v
                    return
            if s.lhs.k == 'list' and s.rhs.k == 'list' and len(s.lhs.items) == len(s.rhs.items):
                vs = [self.ex(x, env) for x in s.rhs.items]
                for t, v in zip(s.lhs.items, vs):
                    self.assign(t, v, env, s.loc)
                return
            if self.spec and s.lhs.k == 'name' and s.rhs.k == 'idx':
                v = self.argval(s.rhs, env)
                if isinstance(v, Ref):
                    env[s.lhs.id] = v
                    return
            v = self.ex(s.rhs, env)
        else:
            a = self.ex(s.lhs, env)
            b = self.ex(s.rhs, env)
            v = self.binop(s.op, a, b, False, s.loc)
        self.assign(s.lhs, v, env, s.loc)

    # -------------------------------------------------------------- operators
    def binop(self, op, a, b, isint, loc):
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('operator on function')
        if op == '+':
            if a.op == 'str' and b.op == 'str':
                return mk('str', a.args[0] + b.args[0])
            if a.op == 'seq' and b.op == 'seq':
                return seq(*(seq_items(a) + seq_items(b)))
            if a.op in ('seq', 'str') or b.op in ('seq', 'str') or a.op == 'fn' and a.args[0] in ('concat', 'fmt') or b.op == 'fn' and b.args[0] in ('concat', 'fmt'):
                return self.concat(a, b)
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            if a.op == 'seq' or b.op == 'seq' or a.op == 'str' or b.op == 'str':
                return fn('repeatseq', a, b)
            return mul(a, b)
        if op == '/':
            return div(a, b)
        if op == '//':
            if self.spec and X.isint(a) and X.isint(b):
                return fn('idiv', a, b)
            return fn('floor', div(a, b))
        if op == '%':
            if a.op == 'str':
                return fn('fmt', a, *( [i.args[1] for i in seq_items(b)] if b.op == 'seq' and all(i.op == 'one' for i in seq_items(b)) else [b]))
            return fn('imod', a, b)
        if op == '**':
            return fn('pow', a, b)
        return fn('op' + op, a, b)

    def concat(self, a, b):
        its = []
        for x in (a, b):
            if x.op == 'fn' and x.args[0] == 'concat':
                its.extend(x.args[1:])
            else:
                its.append(x)
        out = []
        for x in its:
            if out and out[-1].op == 'str' and x.op == 'str':
                out[-1] = mk('str', out[-1].args[0] + x.args[0])
            elif out and out[-1].op == 'seq' and x.op == 'seq':
                out[-1] = seq(*(seq_items(out[-1]) + seq_items(x)))
            else:
                out.append(x)
        return out[0] if len(out) == 1 else fn('concat', *out)

    def compare(self, op, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('compare function')
        if op in ('==', 'is'):
            return EQ(a, b)
        if op in ('!=', 'isnot'):
            return NOT(EQ(a, b))
        if op in ('in', 'notin'):
            r = self.contains(a, b)
            return r if op == 'in' else NOT(r)
        return Ev.compare(self, op, a, b)

    def contains(self, a, b):
        if b.op == 'range':
            lo, hi, st = b.args
            if st is ONE:
                return mul(NOT(LT(a, lo)), LT(a, hi))
        if b.op == 'seq' and all(i.op == 'one' for i in seq_items(b)):
            r = ONE
            for i in seq_items(b):
                r = mul(r, NOT(mul(i.args[0], EQ(a, i.args[1]))))
            return NOT(r)
        if b.op == 'seq' and len(seq_items(b)) == 1 and seq_items(b)[0].op == 'forseg':
            x, (dom, body) = X.open_bind(seq_items(b)[0].args[0])
            bi = seq_items(body)
            if len(bi) == 1 and bi[0].op == 'one':
                return ANY(x, AND(dom, bi[0].args[0], EQ(a, bi[0].args[1])))
        if b.op == 'poly':
            d = P(b)
            inds = [z for m in d for z, e in m if X.is_ind(z)]
            if inds:
                z = inds[0]
                hi, lo = self.split(b, z)
                return ite(z, self.contains(a, hi), self.contains(a, lo))
        return truth(mk('ext', 'in', a, b))

    def split(self, t, z):
        hi, lo = {}, {}
        for m, c in P(t).items():
            nm = tuple(q for q in m if q[0] is not z)
            hi[nm] = hi.get(nm, X.F0) + c
            if len(nm) == len(m):
                lo[nm] = lo.get(nm, X.F0) + c
        return X.unP(hi), X.unP(lo)

    def cond(self, e, env):
        v = self.ex(e, env)
        if isinstance(v, tuple):
            return ONE
        if v.op in ('this', 'new', 'bound', 'pyfn'):
            return ONE
        return truth(v)

    # `a or b` / `a and b` as values
    def e_and(self, e, env):
        if all(self.boolish(x) for x in e.xs):
            return Ev.e_and(self, e, env)
        return Ev.e_and(self, e, env)

    def boolish(self, e):
        return True

    # -------------------------------------------------------------- expressions
    def e_list(self, e, env):
        its = []
        for x in e.items:
            if x.k == 'star':
                v = self.ex(x.e, env)
                its.extend(seq_items(v))
            else:
                v = self.exv(x, env)
                its.append(one(v))
        return seq(*its)

    def exv(self, e, env):
        v = self.ex(e, env)
        if isinstance(v, tuple):
            return mk('ext', 'lambda', self.lamterm(v))
        return v

    def lamterm(self, v):
        _, lam, env = v
        new = dict(env)
        ps = []
        for i, p in enumerate(lam.params):
            t = mk('sym', '$lam%d' % i, '')
            new[p.name] = t
        self.begin_frame(new)
        G = self.G
        try:
            self.block(lam.body, new)
            return new['$ret']
        except Unsupported:
            return mk('str', 'lambda')
        finally:
            self.G = G

    def e_dict(self, e, env):
        return mk('dict', tuple((self.exv(k, env), self.exv(v, env)) for k, v in e.items))

    def e_fstr(self, e, env):
        r = mk('str', '')
        for p in e.parts:
            if p.k == 'fval':
                v = self.exv(p.e, env)
                if p.spec:
                    v = fn('str', v, mk('str', p.spec))
                elif v.op != 'str':
                    v = fn('str', v)
            else:
                v = self.exv(p, env)
            r = self.concat(r, v) if not (r.op == 'str' and r.args[0] == '') else v
        return r

    def e_slice(self, e, env):
        return mk('slice', self.ex(e.lo, env), self.ex(e.hi, env), self.ex(e.st, env))

    def e_idx(self, e, env):
        if e.i.k == 'slice':
            b = self.exv(e.b, env)
            s = self.ex(e.i, env)
            lo, hi, st = s.args
            if st is NONE or st is ONE:
                if b.op == 'seq' and all(i.op == 'one' and i.args[0] is ONE for i in seq_items(b)) and all(x is NONE or x.op == 'num' for x in (lo, hi)):
                    f = lambda x: None if x is NONE else int(x.args[0])
                    return seq(*seq_items(b)[f(lo):f(hi)])
                if b.op == 'str' and all(x is NONE or x.op == 'num' for x in (lo, hi)):
                    f = lambda x: None if x is NONE else int(x.args[0])
                    return mk('str', b.args[0][f(lo):f(hi)])
                if lo is NONE:
                    lo = ZERO
                return mk('ext', 'slice', b, lo, hi)
            return mk('ext', 'slice3', b, lo, hi, st)
        r = self.lv(e, env)
        return self.loadval(r.path)

    def loadval(self, path):
        if self.is_path(path):
            return self.load(path)
        return Ev.loadval(self, path)

    def e_star(self, e, env):
        return mk('ext', 'star', self.exv(e.e, env))

    def e_yield(self, e, env):
        v = self.exv(e.v, env)
        self.setenv(env, '$yield', append(env['$yield'], v))
        return NONE

    def e_lam(self, e, env):
        return ('lam', e, env)

    def iterate(self, itv, ref=None):
        """description of an iterable: list of segments (iv|None, dom, element)"""
        if itv.op == 'range':
            lo, hi, st = itv.args
            if lo.op == 'num' and hi.op == 'num' and st.op == 'num' and st.args[0]:
                r = range(int(lo.args[0]), int(hi.args[0]), int(st.args[0]))
                if len(r) <= self.unroll:
                    return [(None, ONE, num(k)) for k in r]
            iv = self.new_iv('n')
            if st is ONE and X.poly_nonneg(lo):
                dom = LT(iv, hi)
                if lo is not ZERO:
                    dom = mul(dom, NOT(LT(iv, lo)))
                return [(iv, dom, iv)]
            if st.op == 'num':
                v = add(lo, mul(st, iv))
                return [(iv, LT(v, hi) if st.args[0] > 0 else LT(hi, v), v)]
            v = add(lo, mul(st, iv))
            return [(iv, ite(LT(ZERO, st), LT(v, hi), LT(hi, v)), v)]
        if itv.op == 'enum':
            segs = self.iterate(itv.args[0])
            out = []
            base = itv.args[1]
            for n, (iv, dom, el) in enumerate(segs):
                if iv is None:
                    out.append((None, dom, X.tup(add(base, num(n)), el)))
                elif len(segs) == 1 and (el.op == 'idx' or el is iv or True) and self.dense(iv, dom):
                    out.append((iv, dom, X.tup(add(base, iv), el)))
                else:
                    y = X.fresh_iv('n')
                    out.append((iv, dom, X.tup(add(base, SUM(y, mul(LT(y, iv), subst(dom, {iv: y})))), el)))
            return out
        if itv.op == 'zip':
            segs = [self.iterate(a) for a in itv.args]
            if all(len(s) == len(segs[0]) and all(x[0] is None for x in s) for s in segs):
                return [(None, AND(*[s[k][1] for s in segs]), X.tup(*[s[k][2] for s in segs])) for k in range(len(segs[0]))]
            iv = self.new_iv('n')
            dom = ONE
            els = []
            for a in itv.args:
                dom = mul(dom, LT(iv, length(a)))
                els.append(index(a, iv))
            return [(iv, dom, X.tup(*els))]
        if itv.op == 'seq':
            its = seq_items(itv)
            if all(i.op == 'one' for i in its) and len(its) <= 24:
                return [(None, i.args[0], i.args[1]) for i in its]
            out = []
            for i in its:
                if i.op == 'one':
                    out.append((None, i.args[0], i.args[1]))
                elif i.op == 'forseg':
                    x, (dom, body) = X.open_bind(i.args[0])
                    bi = seq_items(body)
                    if len(bi) == 1 and bi[0].op == 'one':
                        iv = self.new_iv('n')
                        s = {x: iv}
                        out.append((iv, subst(mul(dom, bi[0].args[0]), s), subst(bi[0].args[1], s)))
                    else:
                        out = None
                        break
                else:
                    if i.args[0] is ONE:
                        iv = self.new_iv('n')
                        out.append((iv, LT(iv, length(i.args[1])), index(i.args[1], iv)))
                    else:
                        out = None
                        break
            if out is not None and len(out) <= 24:
                return out
        iv = self.new_iv('n')
        return [(iv, LT(iv, length(itv)), index(itv, iv))]

    def dense(self, iv, dom):
        return X.dense_from_zero(iv, dom)

    def e_comp(self, e, env):
        if e.kind == 'dict':
            return mk('dictof', self._comp(e, 0, dict(env)))
        r = self._comp(e, 0, dict(env))
        if e.kind == 'set':
            return mk('ext', 'set', r)
        return r

    def _comp(self, e, k, env):
        if k == len(e.gens):
            return seq(one(self.exv(e.elt, env)))
        tgt, it, ifs = e.gens[k]
        itv = self.iterval(it, env)
        segs = self.iterate(itv)
        items = []
        for iv, dom, el in segs:
            e2 = dict(env)
            G, save = self.G, CTX.lits
            CTX.push(X.conj_lits(dom))
            self.bindtgt(tgt, el, e2)
            c = dom
            for f in ifs:
                v = self.cond(f, e2)
                c = mul(c, v)
                CTX.push(X.conj_lits(v))
            if iv is not None:
                lp = Loop(e, iv, len(self.log))
                self.loops.append(lp)
                self.comps += 1
            self.G = mul(G, c)
            body = self._comp(e, k + 1, e2)
            self.G = G
            CTX.lits = save
            if iv is not None:
                self.loops.pop()
                self.comps -= 1
                bi = seq_items(body)
                if len(bi) == 1 and bi[0].op == 'one':
                    items.append(X.forseg(iv, mul(c, bi[0].args[0]), seq(one(bi[0].args[1]))))
                else:
                    items.append(X.forseg(iv, c, body))
            else:
                for b in seq_items(body):
                    g = X.guard_item(b, c)
                    if g is not None:
                        items.append(g)
        return seq(*items)

    def bindtgt(self, tgt, el, env):
        if tgt.k == 'list':
            for i, t in enumerate(tgt.items):
                self.bindtgt(t, index(el, num(i)), env)
        elif tgt.k == 'name':
            env[tgt.id] = el
        else:
            raise Unsupported('loop target')

    def iterval(self, it, env):
        """value of an iterable, keeping references to list storage"""
        if it.k in ('name',):
            v = env.get(it.id)
            if isinstance(v, Ref):
                return self.load(v.path)
        v = self.ex(it, env)
        if isinstance(v, tuple):
            raise Unsupported('iterating a function')
        if v in self.handles:
            r = self.lines(v)
            if r is not None:
                return r
        return v

    # -------------------------------------------------------------- statements
    def iterspec(self, it, env):
        """segments of an iterable where elements of stored lists are paths"""
        if it.k == 'call' and it.fn.k == 'name' and it.fn.id == 'enumerate' and it.fn.id not in env and len(it.args) == 1:
            segs = self.iterspec(it.args[0], env)
            out = []
            for n, (iv, dom, el) in enumerate(segs):
                if iv is None:
                    out.append((None, dom, ('tup', num(n), el)))
                elif len(segs) == 1 and (isinstance(el, Ref) or self.dense(iv, dom)):
                    out.append((iv, dom, ('tup', iv, el)))
                else:
                    return self.iterate(self.iterval(it, env))
            return out
        if it.k == 'call' and it.fn.k == 'name' and it.fn.id == 'zip' and it.fn.id not in env and len(it.args) > 1 and not it.kw:
            parts = [self.iterspec(a, env) if a.k in ('name', 'fld', 'idx') else None for a in it.args]
            if all(p is not None and len(p) == 1 and p[0][0] is not None and isinstance(p[0][2], Ref) for p in parts):
                iv = self.new_iv('n')
                dom, els = ONE, []
                for v, d, el in [p[0] for p in parts]:
                    dom = AND(dom, subst(d, {v: iv}))
                    els.append(Ref(subst(el.path, {v: iv})))
                return [(iv, dom, ('tup',) + tuple(els))]
        if it.k in ('name', 'fld', 'idx'):
            b = self.baseval(it, env) if it.k != 'name' else (env[it.id].path if isinstance(env.get(it.id), Ref) else None)
            if b is not None and self.is_path(b):
                v = self.load(b)
                if v.op == 'new':
                    b, v = v, self.load(v)
                if v.op == 'seq' and all(i.op == 'one' for i in seq_items(v)) and len(seq_items(v)) <= 24 and all(i.args[0] is ONE for i in seq_items(v)):
                    return [(None, ONE, Ref(mk('idx', b, num(k)))) for k in range(len(seq_items(v)))]
                iv = self.new_iv('n')
                return [(iv, LT(iv, length(v)), Ref(mk('idx', b, iv)))]
        return self.iterate(self.iterval(it, env))

    def bindloop(self, tgt, el, env, s):
        if isinstance(el, Ref):
            if tgt.k == 'name':
                if tgt.id in self.mutset[-1]:
                    env[tgt.id] = el
                else:
                    env[tgt.id] = self.load(el.path)
                    if isinstance(env[tgt.id], T) and env[tgt.id].op in ('new',):
                        pass
                return
            el = self.load(el.path)
        if isinstance(el, tuple):
            if tgt.k == 'list':
                for t, x in zip(tgt.items, el[1:]):
                    self.bindloop(t, x, env, s)
                return
            el = X.tup(*[self.load(x.path) if isinstance(x, Ref) else x for x in el[1:]])
        if tgt.k == 'list':
            for i, t in enumerate(tgt.items):
                self.bindloop(t, index(el, num(i)), env, s)
            return
        if tgt.k == 'name':
            if tgt.id in self.mutset[-1] and isinstance(el, T) and el.op not in ('new',) and not X.is01(el) and el.op not in ('num', 'iv'):
                env[tgt.id] = Ref(self.newroot(el, s.loc, None))
            else:
                env[tgt.id] = el
            return
        raise Unsupported('loop target')

    def s_pyfor(self, s, env):
        segs = self.iterspec(s.it, env)
        hasbrk = self.has(s.body, ('brk',))
        names = self.rootnames(s.tgt)
        if all(x[0] is None for x in segs):
            Lb, Lc = env['$Lb'], env['$Lc']
            outer = self.live(env)
            env['$Lb'] = outer
            for (iv, dom, el) in segs:
                env['$Lc'] = ONE
                if dom is ONE:
                    self.bindloop(s.tgt, el, env, s)
                    if self.live(env) is ZERO:
                        break
                    self.sub(s.body, env)
                else:
                    ea = dict(env)
                    G, save = self.G, CTX.lits
                    self.G = mul(G, dom)
                    CTX.push(X.conj_lits(dom))
                    self.bindloop(s.tgt, el, ea, s)
                    self.sub(s.body, ea)
                    CTX.lits = save
                    self.G = G
                    self.merge(dom, ea, dict(env), env)
            if s.orelse is not None:
                env['$Lc'] = ONE
                self.sub(s.orelse, env)
            env['$Lb'], env['$Lc'] = Lb, Lc
            return
        if len(segs) != 1:
            raise Unsupported('loop over a mixed sequence')
        iv, dom, el = segs[0]
        brkflag = None
        self.runloop(s, env, iv, dom, lambda e: self.bindloop(s.tgt, el, e, s), [s.body], None, skip=names)
        if s.orelse is not None:
            if hasbrk:
                raise Unsupported('for-else with break')
            self.sub(s.orelse, env)
        for n in names:
            env[n] = mk('loopvar', mk('str', n), iv) if False else env.get(n, mk('undef', n))

    def s_with(self, s, env):
        for c, t in s.items:
            v = self.exv(c, env)
            if t is not None:
                self.assign(t, v, env, s.loc)
        self.sub(s.body, env)
        for c, t in s.items:
            self.event('exit', [], env, s.loc)

    def event(self, name, args, env, loc):
        self.log.append(W('call', name, tuple(a if isinstance(a, T) else NONE for a in args), self.curguard(env), tuple(l.iv for l in self.loops), loc, ()))

    def s_try(self, s, env):
        """An exception is taken to be raised by the first statement that can fail; the
        statements after it are then not executed"""
        start = len(self.log)
        e0 = dict(env)
        eb = env
        ss = list(s.body.body) if s.handlers and s.body.k == 'block' else None
        key = []
        if ss is None:
            self.sub(s.body, eb)
        else:
            save = CTX.lits
            while ss:
                e0 = dict(eb)
                self.stmt(ss.pop(0), eb)
                for w in self.log[start:]:
                    if w.kind == 'call' and w.path[:4] in ('ext:', 'py:p') and w.extra is not None and w.path[4:] not in TOTAL and w.extra not in key:
                        key.append(w.extra)
                if key or eb.get('$dead') or self.live(eb) is ZERO:
                    break
            key = key[:6]
        prev = ONE
        conds = []
        for h in s.handlers:
            ty = self.exv(h[0], env) if h[0] is not None else NONE
            if ty.op == 'glob' and ty.args[0] in ('Exception', 'BaseException', 'builtins.Exception'):
                ty = NONE
            if not key and ty is NONE and not any(x.k in ('idx', 'import', 'with', 'raise') for x in irwalk(s.body)):
                # nothing in there that can fail
                c = ZERO
            else:
                c = truth(mk('ext', 'exc', ty, *key))
            conds.append(mul(prev, c))
            prev = mul(prev, NOT(c))
        if ss is not None:
            if ss and not eb.get('$dead'):
                G = self.G
                self.G = mul(G, prev)
                CTX.push(X.conj_lits(prev))
                for x in ss:
                    self.stmt(x, eb)
                    if eb.get('$dead'):
                        break
                self.G = G
            CTX.lits = save
        dead = eb.pop('$dead', False)
        prev = ONE
        for h, c in zip(s.handlers, conds):
            if dead:
                c = prev
            prev = mul(prev, NOT(c))
            eh = dict(e0)
            # names first bound in the body keep that binding
            for k2, v2 in env.items():
                if k2 not in eh:
                    eh[k2] = v2
            if h[1]:
                eh[h[1]] = mk('ext', 'excval')
            G, save = self.G, CTX.lits
            self.G = mul(G, c)
            CTX.push(X.conj_lits(c))
            self.sub(h[2], eh)
            CTX.lits = save
            self.G = G
            if eh.get('$dead') and not dead:
                env.setdefault('$assume', []).append(NOT(c))
                continue
            tgt = {}
            self.merge(c, eh, dict(env), env)
            dead = False
        if s.orelse is not None:
            self.sub(s.orelse, env)
        if s.fin is not None:
            self.sub(s.fin, env)
        if dead and not s.handlers:
            env['$dead'] = True

    def s_import(self, s, env):
        for a, q in s.names:
            env[a] = mk('glob', q)

    def s_raise(self, s, env):
        v = NONE
        if s.v is not None:
            e = s.v
            if e.k == 'call':
                e = e.fn
            q = self.dotted(e, env) if e.k == 'fld' else (e.id if e.k == 'name' else None)
            v = mk('str', q or '?')
        self.log.append(W('raise', 'raise', (v,), self.curguard(env), tuple(l.iv for l in self.loops), s.loc, ()))
        L = self.live(env)
        if L is ONE:
            env['$dead'] = True
        else:
            env.setdefault('$assume', []).append(NOT(L))
            env['$Lr'] = mul(env['$Lr'], NOT(L))

    def s_ret(self, s, env):
        v = self.ex(s.v, env) if s.v is not None else NONE
        if isinstance(v, tuple):
            v = mk('ext', 'lambda')
        self.setenv(env, '$ret', v)
        L = self.live(env)
        env['$Lr'] = ZERO if L is ONE else ite(L, ZERO, env['$Lr'])

    def s_del(self, s, env):
        for x in s.xs:
            if x.k == 'idx':
                b = self.promote(x.b, env)
                self.write(b, mk('ext', 'delitem', self.load(b), self.ex(x.i, env)), s.loc, env)
            elif x.k == 'fld':
                b = self.promote(x.b, env)
                self.write(mk('fld', b, x.n), mk('undef', x.n), s.loc, env)

    # -------------------------------------------------------------- calls
    def e_bin(self, e, env):
        m = {'+': ('__add__', '__radd__'), '-': ('__sub__', '__rsub__'), '*': ('__mul__', '__rmul__'), '/': ('__truediv__', '__rtruediv__')}.get(e.op)
        if m:
            for x, y, n in ((e.a, e.b, m[0]), (e.b, e.a, m[1])):
                if x.k == 'name' and x.id in env:
                    try:
                        b = self.baseval(x, env)
                    except Unsupported:
                        continue
                    c = self.cls_of_base(b) if isinstance(b, T) else None
                    if c is not None and n in c.methods:
                        return self.call_py(c.methods[n], [self.argval(y, env)], {}, env, e.loc, this=b)
        return super().e_bin(e, env)

    def e_call(self, e, env):
        f = e.fn
        if f.k == 'name':
            if f.id in self.intr and f.id not in env:
                return self.intr[f.id](self, e, env)
            if f.id in env:
                v = env[f.id]
                if isinstance(v, tuple) and v[0] == 'lam':
                    return self.call_lam(v, e, env)
                if isinstance(v, Ref):
                    v = self.load(v.path)
                return self.call_value(v, e, env)
            g = self.globalname(f.id)
            return self.call_value(g, e, env)
        if f.k == 'fld':
            q = self.dotted(f, env)
            if q is not None:
                return self.call_value(self.globvalue(q), e, env)
            if f.b.k == 'call' and f.b.fn.k == 'name' and f.b.fn.id == 'super':
                args = [self.exv(a, env) for a in e.args]
                self.event('ext:super.' + f.n, args, env, e.loc)
                return NONE
            base = self.baseval(f.b, env)
            if isinstance(base, tuple):
                raise Unsupported('method of function')
            c = self.cls_of_base(base)
            if c is not None:
                if f.n in c.methods:
                    return self.call_method(c.methods[f.n], base, e, env)
                m = self.bind.method(c, f.n) if self.bind is not None else None
                if m is not None:
                    args = [self.footed(a, self.bind.boundfoot(c, f.n, i), env) for i, a in enumerate(e.args)]
                    return self.bound_call(base, f.n, args, m[0], m[1], env, e.loc)
            return self.method(e, env, base)
        v = self.ex(f, env)
        if isinstance(v, tuple) and v[0] == 'lam':
            return self.call_lam(v, e, env)
        return self.call_value(v, e, env)

    def bound_call(self, base, name, args, refs, mods, env, loc):
        """C++ method through the binding: opaque in its inputs, clobbers its mod set"""
        if name in ('get_atoms', 'get_all_atoms') and not args:
            iv = X.fresh_iv('n')
            return seq(X.forseg(iv, LT(iv, self.load(mk('fld', base, 'real_nop' if name == 'get_atoms' else 'nop'))),
                                seq(one(index(self.load(mk('fld', base, 'atoms')), iv)))))
        if name == 'cget_atom' and len(args) == 1:
            return index(self.load(mk('fld', base, 'atoms')), args[0])
        return self.opaque('cpp:' + name, base, args, refs, mods, env, loc)

    def footed(self, a, foot, env):
        """an argument of which only some attributes matter"""
        if foot is None:
            return self.exv(a, env)
        v = self.lv(a, env) if a.k in ('name', 'idx') else None
        if isinstance(v, Ref):
            return self.atomof(v, foot)
        return self.atomof(self.exv(a, env), foot)

    def atomof(self, v, foot):
        if isinstance(v, Ref):
            if v.path.op == 'this' or not self.is_path(v.path):
                v = self.plain(v)
            else:
                return mk('ext', 'of', *[self.load(mk('fld', v.path, n)) for n in sorted(foot)])
        return mk('ext', 'of', *[self.fieldof(v, n) for n in sorted(foot)])

    def fieldof(self, v, n):
        if v.op == 'cur':
            for l in self.loops:
                if l.iv is v.args[0]:
                    return self.load(mk('fld', v.args[1], n), l.start)
        return X.field(v, n)

    def opaque(self, name, base, args, refs, mods, env, loc):
        ins = list(args) + [self.load(mk('fld', base, f)) for f in sorted(refs | mods)]
        t = mk('ext', name, *ins)
        ivs = tuple(l.iv for l in self.loops)
        g = self.curguard(env)
        if mods or base is None or name.startswith('py:') and re.split(r'[.:]', name)[-1] in self.lab.effectful():
            # a call without effects is no event; its value carries everything
            w = W('call', name, tuple(ins), g, ivs, loc, ())
            w.extra = t
            self.log.append(w)
        for fl in sorted(mods):
            p = mk('fld', base, fl)
            self.log.append(W('=', p, mk('post', t, mk('str', fl)), g, ivs, loc))
        return t

    def argvals(self, e, env):
        args, kw = [], {}
        for a in e.args:
            if a.k == 'star':
                v = self.exv(a.e, env)
                if v.op == 'seq' and all(i.op == 'one' for i in seq_items(v)):
                    args.extend(i.args[1] for i in seq_items(v))
                else:
                    args.append(mk('ext', 'star', v))
            else:
                args.append(self.argval(a, env))
        for k, a in e.kw.items():
            kw[k] = self.argval(a, env)
        return args, kw

    def argval(self, a, env):
        """arguments keep references to storage"""
        if a.k == 'name' and isinstance(env.get(a.id), Ref):
            r = env[a.id]
            return r
        if self.spec and a.k == 'idx':
            r = self.lv(a, env)
            if isinstance(r, Ref) and r.path.op == 'idx' and r.path.args[0].op == 'fld' and r.path.args[0].args[1] == 'atoms':
                return r
        return self.ex(a, env)

    def plain(self, v):
        if isinstance(v, Ref):
            return v.path if v.path in self.rootcls or v.path.op == 'this' else self.load(v.path)
        if isinstance(v, tuple):
            return mk('ext', 'lambda', self.lamterm(v))
        return v

    def call_value(self, v, e, env):
        if v.op == 'pyfn':
            f = self.prog.pyfuncs[v.args[0]]
            args, kw = self.argvals(e, env)
            return self.call_py(f, args, kw, env, e.loc)
        if v.op == 'bound':
            base, n = v.args
            c = self.cls_of_base(base)
            if n in c.methods:
                return self.call_method(c.methods[n], base, e, env)
            m = self.bind.method(c, n)
            if e.kw:
                raise Unsupported('keyword arguments of a bound method')
            args = [self.footed(a, self.bind.boundfoot(c, n, i), env) for i, a in enumerate(e.args)]
            return self.bound_call(base, n, args, m[0], m[1], env, e.loc)
        if v.op == 'fnsel':
            c, a, b = v.args
            G, save = self.G, CTX.lits
            r = []
            for g, w in ((c, a), (NOT(c), b)):
                self.G = mul(G, g)
                CTX.push(X.conj_lits(g))
                r.append(self.call_value(w, e, env))
                CTX.lits = save
            self.G = G
            if any(isinstance(x, tuple) for x in r):
                raise Unsupported('function value')
            return X.ite_any(c, *[self.plain(x) for x in r])
        if v.op == 'pycls':
            return self.instantiate(v.args[0], e, env)
        if v.op == 'glob':
            q = v.args[0]
            if '.' in q:
                m, n = q.rsplit('.', 1)
                r = self.lookup(m)
                if r is not None and r[0] == 'class' and n in r[1].methods:
                    # Class.method(self, ...)
                    args, kw = self.argvals(e, env)
                    f = r[1].methods[n]
                    if f.static:
                        return self.call_py(f, args, kw, env, e.loc)
                    return self.call_py(f, args[1:], kw, env, e.loc, this=args[0].path if isinstance(args[0], Ref) else args[0])
            return self.libcall(q, e, env)
        args, kw = self.argvals(e, env)
        return self.extapp('callv', [v] + [self.plain(a) for a in args], kw, env, e.loc)

    def instantiate(self, cname, e, env):
        m, n = cname.rsplit('.', 1)
        C = self.prog.modules[m].names[n][1]
        args, kw = self.argvals(e, env)
        root = self.newroot(None, e.loc, env, cls=C)
        # class-level constants are read through the class
        self.write(root, mk('object', mk('str', n)), e.loc, env)
        if '__init__' in C.methods:
            self.call_py(C.methods['__init__'], args, kw, env, e.loc, this=root)
        return root

    def call_method(self, f, base, e, env):
        args, kw = self.argvals(e, env)
        return self.call_py(f, args, kw, env, e.loc, this=base)

    def call_py(self, f, args, kw, env, loc, this=None):
        a = self.abstr.get(f.key)
        if a is not None or self.stack.count(f.key) >= 1 or len(self.stack) > 20:
            if callable(a):
                return a(self, f, args, kw, env, loc, this)
            pargs = self.bindargs(f, args, kw, env)
            st = []
            if a == 'proc':
                g = self.lab.ref.pyfuncs.get(f.key)
                if g is None or len(g.params) != len(f.params):
                    raise Unsupported('procedure ' + f.key)
                vals = []
                for p, q in zip(f.params, g.params):
                    if p.name in pargs:
                        z = self.lab.pyfoot(g, q.name) if isinstance(pargs[p.name], Ref) or isinstance(pargs[p.name], T) and pargs[p.name].op not in ('none', 'num', 'str', 'seq', 'this', 'new') else None
                        z = None if z is None or not z & self.lab.atomattrs() or z - self.lab.atomattrs() else z
                        vals.append(self.plain(pargs[p.name]) if z is None else self.atomof(pargs[p.name], z))
                if this is None:
                    return self.opaque('py:' + f.key, None, vals, set(), set(), env, loc)
                refs, mods = self.lab.pyeffects(g)
                return self.opaque('py:' + f.key, this, vals, refs, mods, env, loc)
            vals = [self.plain(pargs[p.name]) for p in f.params if p.name in pargs]
            if this is not None and a and a.startswith('state:'):
                st = [self.load(mk('fld', this, x)) for x in a[6:].split(',') if x]
            t = mk('ext', 'py:' + f.key, *(vals + st))
            w = W('call', 'py:' + f.key, tuple(vals), self.curguard(env), tuple(l.iv for l in self.loops), loc, ())
            w.extra = t
            self.log.append(w)
            return t
        new = {}
        for k, v in self.bindargs(f, args, kw, env).items():
            new[k] = v
        if f.selfname:
            new[f.selfname] = Ref(this)
        ms = self.mutated_names(f.body)
        for k in list(new):
            if k in ms and isinstance(new[k], T) and new[k].op not in ('new', 'this') and new[k] not in self.rootcls:
                new[k] = Ref(self.newroot(new[k], loc, env))
            elif isinstance(new[k], Ref) and k in f.rebound if hasattr(f, 'rebound') else False:
                pass
        # a parameter that is re-assigned must not overwrite the caller's storage
        for k in list(new):
            if isinstance(new[k], Ref) and k != f.selfname and new[k].path not in self.rootcls and self.reassigned(f.body, k):
                new[k] = self.load(new[k].path)
                if k in ms:
                    new[k] = Ref(self.newroot(new[k], loc, env))
        new['$yield'] = seq()
        G, othis = self.G, self.this
        self.G = self.curguard(env)
        save = CTX.lits
        CTX.push(X.conj_lits(self.live(env)))
        self.begin_frame(new)
        self.stack.append(f.key)
        self.modstack.append(f)
        self.mutset.append(ms)
        if this is not None:
            self.this = this
        try:
            self.block(f.body, new)
        finally:
            self.stack.pop()
            self.modstack.pop()
            self.mutset.pop()
            self.this = othis
            self.G = G
            CTX.lits = save
        if new.get('$dead'):
            env['$dead'] = True
        if new.get('$assume'):
            env.setdefault('$assume', []).extend(new['$assume'])
        r = new['$yield'] if f.gen else new['$ret']
        if isinstance(r, Ref):
            r = self.materialise(r)
        return r

    def reassigned(self, body, name):
        for x in irwalk(body):
            if x.k == 'assign' and x.lhs.k == 'name' and x.lhs.id == name:
                return True
        return False

    def bindargs(self, f, args, kw, env):
        out = {}
        pos = [p for p in f.params if p.kind == 'pos']
        rest = list(args)
        for p in pos:
            if rest:
                out[p.name] = rest.pop(0)
            elif p.name in kw:
                out[p.name] = kw[p.name]
            elif p.default is not None:
                self.modstack.append(f)
                out[p.name] = self.ex(p.default, {})
                self.modstack.pop()
            else:
                raise Unsupported('missing argument %s of %s' % (p.name, f.key))
        for p in f.params:
            if p.kind == 'var':
                out[p.name] = seq(*[one(self.plain(a)) for a in rest])
            elif p.kind == 'kwonly':
                out[p.name] = kw[p.name] if p.name in kw else self.ex(p.default, {})
            elif p.kind == 'kw':
                out[p.name] = mk('dict', tuple((mk('str', k), self.plain(v)) for k, v in kw.items() if k not in out))
        return out

    def call_lam(self, v, e, env):
        _, lam, cenv = v
        new = dict(cenv)
        args, kw = self.argvals(e, env)
        for p, a in zip(lam.params, args):
            new[p.name] = a
        for p in lam.params[len(args):]:
            new[p.name] = kw[p.name] if p.name in kw else (self.ex(p.default, {}) if p.default is not None else NONE)
        ms = self.mutated_names(lam.body)
        for p in lam.params:
            k = p.name
            if k in ms and isinstance(new[k], T) and new[k].op not in ('new', 'this') and new[k] not in self.rootcls:
                new[k] = Ref(self.newroot(new[k], e.loc, env))
        G = self.G
        self.G = self.curguard(env)
        save = CTX.lits
        self.begin_frame(new)
        self.mutset.append(ms)
        self.stack.append('lambda')
        try:
            if len(self.stack) > 25:
                raise Unsupported('recursion')
            self.block(lam.body, new)
        finally:
            self.stack.pop()
            self.mutset.pop()
            self.G = G
            CTX.lits = save
        if new.get('$dead'):
            env['$dead'] = True
        if new.get('$assume'):
            env.setdefault('$assume', []).extend(new['$assume'])
        r = new['$ret']
        return self.materialise(r) if isinstance(r, Ref) else r

    # -------------------------------------------------------------- library
    def extapp(self, name, args, kw, env, loc, pure=True):
        vals = list(args)
        for k in sorted(kw):
            v = self.plain(kw[k])
            if v is NONE and False:
                continue
            vals.append(mk('kwarg', k, v))
        if name in ('open', 'gzip.open', 'io.open', 'bz2.open') and vals:
            # mode by position, text mode and reading being the defaults
            md = [v for v in vals if v.op == 'kwarg' and v.args[0] == 'mode']
            if md and len(args) == 1:
                vals = [vals[0], md[0].args[1]] + [v for v in vals[1:] if v is not md[0]]
            if len(vals) == 2 and vals[1].op == 'str':
                m = vals[1].args[0]
                if name in ('open', 'io.open'):
                    m = m.replace('t', '')
                vals = vals[:1] if m == 'r' and name != 'gzip.open' else [vals[0], mk('str', m)]
        t = mk('ext', name, *vals)
        w = W('call', 'ext:' + name, tuple(vals), self.curguard(env), tuple(l.iv for l in self.loops), loc, ())
        w.extra = t
        self.log.append(w)
        if name in ('open', 'gzip.open', 'io.open', 'bz2.open') and not self.comps:
            r = self.handles.get(t)
            if r is None:
                r = self.handles[t] = mk('new', 'it%d' % len(self.handles), 'py')
            self.write(mk('fld', r, '$from'), ZERO, loc, env)
            self.write(mk('fld', r, '$pos'), ZERO, loc, env)
        return t

    def readline(self, h, env, loc):
        """next line of a file handle opened in this function"""
        r = self.handles.get(h)
        if r is None or self.comps:
            return None
        pos = self.load(mk('fld', r, '$pos'))
        v = index(mk('ext', 'lines', h, self.load(mk('fld', r, '$from'))), pos)
        self.write(mk('fld', r, '$pos'), add(pos, ONE), loc, env)
        return v

    def lines(self, h):
        r = self.handles.get(h)
        if r is None or self.comps:
            return None
        v = mk('ext', 'lines', h, self.load(mk('fld', r, '$from')))
        pos = self.load(mk('fld', r, '$pos'))
        return v if pos is ZERO else mk('ext', 'slice', v, pos, NONE)

    def libcall(self, q, e, env):
        if q in self.intr:
            return self.intr[q](self, e, env)
        args, kw = self.argvals(e, env)
        a = [self.plain(x) for x in args]
        n = NPALIAS.get(q)
        if n == 'id' and len(a) == 1:
            return a[0]
        if q in ('list', 'tuple') and not a:
            return seq()
        if n == 'trunc' and len(a) == 1:
            return fn('trunc', a[0])
        if n == 'square':
            return mul(a[0], a[0])
        if n and n != 'id' and not kw and a:
            return fn(n, *a)
        if q == 'next' and len(a) == 1:
            r = self.readline(a[0], env, e.loc)
            if r is not None:
                return r
        if q == 'len':
            return length(a[0])
        if q in ('sorted', 'numpy.sort') and len(a) == 1:
            r = self.sortterm(a[0], kw)
            if r is not None:
                return r
        if q == 'range':
            if len(a) == 1:
                return mk('range', ZERO, a[0], ONE)
            if len(a) == 2:
                return mk('range', a[0], a[1], ONE)
            return mk('range', *a)
        if q == 'enumerate':
            return mk('enum', a[0], a[1] if len(a) > 1 else self.plain(kw.get('start', ZERO)))
        if q == 'zip':
            return mk('zip', *a)
        if q == 'isinstance':
            if a[1].op == 'seq':
                r = ONE
                for i in seq_items(a[1]):
                    r = mul(r, NOT(truth(mk('ext', 'isinstance', a[0], i.args[1]))))
                return NOT(r)
            return truth(mk('ext', 'isinstance', a[0], a[1]))
        if q in ('max', 'min') and len(a) >= 2 and not kw:
            return fn(q, *a)
        if q in ('sum', 'numpy.sum') and len(a) == 1 and not kw:
            r = self.sumseq(a[0])
            if r is not None:
                return r
        if q in ('any', 'all') and len(a) == 1:
            r = self.anyseq(a[0], q)
            if r is not None:
                return r
        if q == 'bool':
            return truth(a[0])
        if q == 'str':
            return a[0] if a[0].op == 'str' else fn('str', a[0])
        if q == 'dict' and not a:
            return mk('dict', tuple((mk('str', k), self.plain(v)) for k, v in kw.items()))
        if q == 'set' and not a:
            return mk('ext', 'set', seq())
        if q in ('numpy.linalg.norm',) and len(a) == 1 and not kw:
            return fn('sqrt', self.dot(a[0], a[0]))
        if q in ('numpy.dot', 'numpy.inner', 'numpy.vdot') and len(a) == 2:
            return self.dot(a[0], a[1])
        if q == 'numpy.cross':
            return fn('cross', *a)
        if q == 'numpy.zeros' and len(a) == 1 and a[0].op == 'num':
            return seq(*[one(ZERO) for _ in range(int(a[0].args[0]))]) if a[0].args[0] <= 8 else mk('ext', q, *a)
        if q == 'setattr' and len(a) == 3:
            pass
        if q == 'print':
            return NONE
        if q in ('warnings.warn', 'warnings.info'):
            self.event('ext:' + q, [], env, e.loc)
            return NONE
        return self.extapp(q, a, kw, env, e.loc)

    def dot(self, a, b):
        if a.op == 'seq' and b.op == 'seq' and len(seq_items(a)) == len(seq_items(b)) and all(i.op == 'one' and i.args[0] is ONE for i in seq_items(a) + seq_items(b)):
            r = ZERO
            for x, y in zip(seq_items(a), seq_items(b)):
                r = add(r, mul(x.args[1], y.args[1]))
            return r
        return fn('dot', a, b)

    def sumseq(self, v):
        if v.op != 'seq':
            return None
        r = ZERO
        for i in seq_items(v):
            if i.op == 'one':
                r = add(r, mul(i.args[0], i.args[1]))
            elif i.op == 'forseg':
                x, (dom, body) = X.open_bind(i.args[0])
                s = self.sumseq(body)
                if s is None:
                    return None
                r = add(r, SUM(x, mul(dom, s)))
            else:
                return None
        return r

    def anyseq(self, v, q):
        if v.op != 'seq':
            return None
        f = (lambda z: z) if q == 'any' else NOT
        r = ONE
        for i in seq_items(v):
            if i.op == 'one':
                r = mul(r, NOT(mul(i.args[0], f(truth(i.args[1])))))
            elif i.op == 'forseg':
                x, (dom, body) = X.open_bind(i.args[0])
                bi = seq_items(body)
                if len(bi) != 1 or bi[0].op != 'one':
                    return None
                r = mul(r, NOT(ANY(x, AND(dom, bi[0].args[0], f(truth(bi[0].args[1]))))))
            else:
                return None
        return NOT(r) if q == 'any' else r

    def sortterm(self, v, kw):
        rev = False
        if kw:
            if set(kw) != {'reverse'} or not (isinstance(kw['reverse'], T) and kw['reverse'].op == 'num'):
                return None
            rev = bool(kw['reverse'].args[0])
        return mk('sorted', v, mk('str', 'desc' if rev else 'asc'))

    def method(self, e, env, base=None):
        n = e.name
        args, kw = self.argvals(e, env)
        a = [self.plain(x) for x in args]
        if n in ('append', 'extend', 'clear', 'insert', 'pop', 'remove', 'sort', 'update', 'add', 'reverse', 'setdefault'):
            p = self.promote(e.recv, env)
            old = self.load(p)
            if old.op in ('glob', 'ext') and n in ('add',):
                pass
            if n == 'append':
                self.write(p, append(old, a[0]), e.loc, env)
                return NONE
            if n == 'extend':
                self.write(p, seq(*(seq_items(old) + seq_items(a[0]))), e.loc, env)
                return NONE
            if n == 'clear':
                self.write(p, seq(), e.loc, env)
                return NONE
            if n == 'pop' and old.op == 'seq' and all(i.op == 'one' and i.args[0] is ONE for i in seq_items(old)) and seq_items(old) and (not a or a[0].op == 'num'):
                its = list(seq_items(old))
                v = its.pop(int(a[0].args[0]) if a else -1)
                self.write(p, seq(*its), e.loc, env)
                return v.args[1]
            if n == 'sort' and not a:
                r = self.sortterm(old, kw)
                if r is not None:
                    self.write(p, r, e.loc, env)
                    return NONE
            self.write(p, mk('ext', 'mut:' + n, old, *a), e.loc, env)
            return mk('ext', 'ret:' + n, old, *a)
        v = base if base is not None and not self.is_path(base) else (self.load(base) if base is not None and base.op != 'this' else self.ex(e.recv, env))
        if n == 'copy' and not a:
            return v
        if n in ('readline', 'readlines', 'seek') and v in self.handles and not kw and not self.comps:
            if n == 'readline' and not a:
                return self.readline(v, env, e.loc)
            if n == 'readlines' and not a:
                return self.lines(v)
            if n == 'seek' and len(a) == 1:
                r = self.handles[v]
                self.write(mk('fld', r, '$from'), a[0], e.loc, env)
                self.write(mk('fld', r, '$pos'), ZERO, e.loc, env)
                return NONE
        if n == 'astype' and len(a) == 1 and not kw:
            ty = a[0].args[0] if a[0].op in ('glob', 'str') else None
            if ty in ('str', 'numpy.str_', 'U'):
                return mk('ext', 'texts', v)
            if ty in ('int', 'numpy.int64', 'numpy.int32', 'numpy.int_', 'i'):
                return fn('trunc', v)
            if ty in ('float', 'numpy.float64', 'numpy.double', 'f8'):
                return v
        if n == 'tolist' and not a and not kw:
            return v
        if n == 'format' and v.op == 'str':
            return fn('fmt', v, *a)
        if n == 'get_q' and False:
            pass
        if n == 'keys' and not a:
            return v if v.op != 'dict' else seq(*[one(k) for k, _ in v.args[0]])
        if n in ('sum',) and not a and not kw:
            r = self.sumseq(v)
            if r is not None:
                return r
        return self.extapp('.' + n, [v] + a, kw, env, e.loc)
