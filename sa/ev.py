"""Value-flow summaries.

`Ev` walks a function's IR once per fixpoint round and builds its *gated value-flow
summary*: every memory write, call event, return value and raise, as canonical terms
over the function's inputs, guarded by the (joined) control condition and quantified by
the enclosing loop indices.  Branches are merged at joins (no path enumeration), loops
are summarised by recurrence classification (sum / append / last value / recurrence),
and loop-carried memory is found by a dependence test.  Repo callees are inlined.
"""
import re
import itertools
from .ir import N, walk as irwalk
from . import terms as X
from .terms import (T, mk, num, ZERO, ONE, add, sub, mul, neg, div, NOT, AND, OR, ite, ite_any, EQ, LT, LE,
                    truth, fn, seq, one, seq_items, append, length, index, field, SUM, ANY, subst, P, assume, CTX)

NONE = mk('none')
THIS = mk('this')


class Unsupported(Exception):
    pass


class Ref:
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path


class W:
    """one effect"""
    __slots__ = ('kind', 'path', 'val', 'guard', 'ivs', 'loc', 'sig', 'delta', 'extra', 'old')

    def __init__(self, kind, path, val, guard, ivs, loc, sig=None, delta=None, extra=None):
        self.kind, self.path, self.val, self.guard, self.ivs, self.loc = kind, path, val, guard, ivs, loc
        self.sig = sig if sig is not None else (signature(path) if isinstance(path, T) else ())
        self.delta = delta
        self.extra = extra
        self.old = None

    def __repr__(self):
        g = '' if self.guard is ONE else ' if %s' % X.show(self.guard)
        q = '' if not self.ivs else 'forall %s: ' % ','.join(X.show(i) for i in self.ivs)
        if self.kind in ('call', 'raise'):
            return '%s%s %s(%s)%s' % (q, self.kind, self.path if isinstance(self.path, str) else X.show(self.path), ', '.join(map(X.show, self.val)), g)
        if self.kind in ('+', 'app'):
            return '%s%s %s %s%s' % (q, X.show(self.path), '+=' if self.kind == '+' else '<<', X.show(self.delta), g)
        return '%s%s = %s%s' % (q, X.show(self.path), X.show(self.val) if isinstance(self.val, T) else self.val, g)


_sigc = {}


def signature(p):
    r = _sigc.get(p)
    if r is None:
        if p.op == 'fld':
            r = signature(p.args[0]) + (p.args[1],)
        elif p.op == 'idx':
            r = signature(p.args[0]) + ('[]',)
        elif p.op in ('local', 'param', 'this', 'new', 'glob'):
            r = ((p.op,) + tuple(a for a in p.args[:2]),)
        else:
            r = (('val', p.op),)
        _sigc[p] = r
    return r


def csig(p):
    """signature with constant indices kept apart"""
    out = []
    while p.op in ('fld', 'idx'):
        out.append(p.args[1] if p.op == 'fld' else (p.args[1].args[0] if p.args[1].op == 'num' else '[]'))
        p = p.args[0]
    out.append(signature(p)[0])
    out.reverse()
    return tuple(out)


def _wild(a):
    return a == '[]' or not isinstance(a, (str, tuple))


def compat(a, b):
    """may paths with these signatures denote overlapping memory (prefix-wise)"""
    for x, y in zip(a, b):
        if x == y:
            continue
        if _wild(x) and _wild(y) and (x == '[]' or y == '[]'):
            continue
        return False
    return True


def comps(p):
    out = []
    while p.op in ('fld', 'idx'):
        out.append(p)
        p = p.args[0]
    out.append(p)
    out.reverse()
    return out


SCALARS = ('int', 'double', 'bool', 'float', 'long', 'unsigned', 'size_t', 'char', 'short', 'auto')


def cbase(t):
    from .cxx import base_ty
    return base_ty(t)


def is_scalar_ty(t):
    t = cbase(t)
    return t in ('int', 'double', 'bool', 'float', 'long', 'unsigned int', 'unsigned long', 'size_t', 'char', 'short', 'long double',
                 'unsigned', 'long long', 'unsigned long long', 'unsigned char', 'unsigned short', 'signed char') or t.endswith('size_type') or t.endswith('difference_type') \
        or t.startswith('__normal_iterator<') or t.startswith('__gnu_cxx::__normal_iterator<') or t.endswith('::iterator') or t.endswith('::const_iterator')


MATH = {'sqrt': 'sqrt', 'pow': 'pow', 'fabs': 'abs', 'abs': 'abs', 'cos': 'cos', 'sin': 'sin', 'acos': 'acos', 'asin': 'asin',
        'atan2': 'atan2', 'atan': 'atan', 'tan': 'tan', 'exp': 'exp', 'log': 'log', 'cbrt': 'cbrt', 'floor': 'floor', 'trunc': 'trunc', 'ceil': 'ceil', 'max': 'max',
        'min': 'min', 'fmax': 'max', 'fmin': 'min', 'round': 'round', 'powf': 'pow', 'sqrtf': 'sqrt', 'log10': 'log10', 'hypot': 'hypot', 'fmod': 'fmod', 'erf': 'erf'}


class Loop:
    def __init__(self, node, iv, start):
        self.node, self.iv, self.start = node, iv, start
        self.preloads = {}


class Summary:
    def __init__(self):
        self.effects = []
        self.ret = None
        self.notes = []
        self.locs = {}


class Ev:
    def __init__(self, prog, abstr=None, maxrounds=8, unroll=4, inline=True):
        self.prog = prog
        self.abstr = abstr or {}
        self.maxrounds = maxrounds
        self.unroll = unroll
        self.flags = set()
        self.inline = inline
        self.lang = 'cxx'

    # ------------------------------------------------------------ driver
    def run(self, func, this=THIS, args=None):
        self.flags = set()
        for rnd in range(self.maxrounds):
            self.reset()
            before = set(self.flags)
            save = CTX.lits
            CTX.lits = []
            try:
                s = self._run(func, this, args)
            finally:
                CTX.lits = save
            if self.flags == before:
                return s
        s.notes.append('loop-carried memory did not stabilise')
        return s

    def reset(self):
        self.log = []
        self.loops = []
        self.stack = []
        self.G = ONE
        self.ctr = 0
        self.notes = []
        self.this = THIS
        self.newn = 0
        self.ivdepth = {}
        self.base = 0
        self.recs = []

    def note(self, what, loc=None):
        self.notes.append('%s%s' % (what, ' at %s:%s' % loc if loc else ''))

    def _run(self, func, this, args):
        env = {}
        self.this = this
        self.func = func
        for i, p in enumerate(func.params):
            nm = p.name.split('#')[0]
            if args is not None and nm in args:
                env[p.name] = args[nm]
            else:
                t = self.param_term(p, nm)
                env[p.name] = t
                if p.byref:
                    pass
        self.begin_frame(env)
        self.stack.append(func.key)
        for f, e in func.inits:
            t = self.prog.fieldtypes.get((func.cls, f), '')
            if e.k == 'list' and '[' in t:
                self.block(self.fillarray(f, e, [int(x) for x in re.findall(r'\[(\d+)\]', t)]), env)
                continue
            self.write(mk('fld', this, f), self.ex(e, env), func.loc)
        self.block(func.body, env)
        self.stack.pop()
        s = Summary()
        s.ret = env.get('$ret', NONE)
        s.outs = {}
        for p in func.params:
            if p.byref and isinstance(env.get(p.name), T):
                s.outs[p.name.split('#')[0]] = env[p.name]
        s.ret = self.final(s.ret)
        s.outs = {k: self.final(v) for k, v in s.outs.items()}
        s.effects = [w for w in self.log if not (w.sig and w.sig[0][0] in ('local', 'new'))]
        s.notes = self.notes
        s.env = env
        return s

    def fillarray(self, f, e, dims):
        """statements equivalent to the initialiser list of an array member"""
        from fractions import Fraction
        lit = lambda n: N('num', e.loc, v=Fraction(n))
        L = N('fld', e.loc, b=N('this', e.loc), n=f, rec=self.func.cls, ty='')
        body = None
        ivs = []
        for k, d in enumerate(dims):
            ivs.append('%s$%d' % (f, k))
            L = N('idx', e.loc, b=L, i=N('name', e.loc, id=ivs[-1], ty='int'), ty='')
        body = N('assign', e.loc, lhs=L, rhs=lit(0), op=None, lty='double')
        for v, d in reversed(list(zip(ivs, dims))):
            body = N('for', e.loc, init=N('block', e.loc, body=[N('decl', e.loc, name=v, ty='int', isref=False, init=lit(0), static=False)]),
                     c=N('cmp', e.loc, op='<', a=N('name', e.loc, id=v, ty='int'), b=lit(d)),
                     inc=N('assign', e.loc, lhs=N('name', e.loc, id=v, ty='int'), rhs=lit(1), op='+', lty='int', cty='int'), body=N('block', e.loc, body=[body]))
        out = [body]
        for k, x in enumerate(e.items):
            if len(dims) > 1:
                raise Unsupported('initialiser of a matrix')
            out.append(N('assign', e.loc, lhs=N('idx', e.loc, b=N('fld', e.loc, b=N('this', e.loc), n=f, rec=self.func.cls, ty=''), i=lit(k), ty=''), rhs=x, op=None, lty='double'))
        return N('block', e.loc, body=out)

    def final(self, v):
        return v

    def param_term(self, p, nm):
        if self.lang == 'cxx':
            t = cbase(p.ty)
            fl = ''
            if is_scalar_ty(t):
                if t not in ('double', 'float'):
                    fl += 'i'
                if t.startswith('unsigned') or t == 'size_t':
                    fl += 'n'
                if t == 'bool':
                    return truth(mk('sym', nm, 'i'))
                return mk('sym', nm, fl)
        return mk('param', nm)

    def begin_frame(self, env):
        env['$Lr'] = ONE
        env['$Lb'] = ONE
        env['$Lc'] = ONE
        env['$ret'] = NONE

    # ------------------------------------------------------------ liveness
    def live(self, env):
        # not simplified under the current context: the context already assumes liveness
        a, b, c = env['$Lr'], env['$Lb'], env['$Lc']
        if a is ONE and b is ONE:
            return c
        if a is ZERO or b is ZERO or c is ZERO:
            return ZERO
        save = CTX.lits
        CTX.lits = []
        try:
            return AND(a, b, c)
        finally:
            CTX.lits = save

    def merge(self, c, ea, eb, env):
        """env := ite(c, ea, eb)"""
        if ea.get('$dead') and not eb.get('$dead'):
            ea = eb
        elif eb.get('$dead') and not ea.get('$dead'):
            eb = ea
        for k in list(ea.keys() | eb.keys()):
            a, b = ea.get(k), eb.get(k)
            if a is b:
                env[k] = a
            elif k == '$dead':
                env[k] = bool(a and b)
            elif a is None or b is None:
                env[k] = a if b is None else b
            elif isinstance(a, T) and isinstance(b, T):
                env[k] = ite_any(c, a, b)
            elif isinstance(a, Ref) and isinstance(b, Ref):
                env[k] = a if a.path is b.path else Ref(ite_any(c, a.path, b.path))
            else:
                env[k] = self.merge_other(c, a, b)

    def merge_other(self, c, a, b):
        if isinstance(a, Ref):
            a = a.path
        if isinstance(b, Ref):
            b = b.path
        if isinstance(a, T) and isinstance(b, T):
            return ite_any(c, a, b)
        raise Unsupported('merge')

    # ------------------------------------------------------------ memory
    def curguard(self, env):
        L = self.live(env)
        if L is ONE:
            return self.G
        save = CTX.lits
        CTX.lits = []
        try:
            return mul(self.G, L)
        finally:
            CTX.lits = save

    def active(self):
        return {l.iv for l in self.loops}

    def write(self, path, val, loc, env=None, guard=None):
        g = guard if guard is not None else (self.curguard(env) if env is not None else self.G)
        if g is ZERO:
            return
        if path.op == 'poly':
            for m, c in P(path).items():
                objs = [a for a, e in m if not X.is_ind(a)]
                if len(objs) != 1:
                    raise Unsupported('write through a non-path')
                cond = X.unP({tuple((a, e) for a, e in m if X.is_ind(a)): c})
                self.write(objs[0], val, loc, env, mul(g, cond))
            return
        sig = signature(path)
        kind, delta = '=', None
        fl = self.flag_of(csig(path))
        if fl:
            cur = [t for t in X.walk(val) if t.op == 'cur' and t.args[1] is path]
            if cur:
                with assume(g):
                    old = self.load(path)
                    v2 = X.simp(val)
                if v2.op == 'seq' or old.op == 'seq':
                    io, iv_ = seq_items(old), seq_items(v2)
                    if len(iv_) >= len(io) and all(a is b for a, b in zip(io, iv_)):
                        kind, delta = 'app', seq(*iv_[len(io):])
                else:
                    try:
                        d = sub(v2, old)
                    except X.TooBig:
                        d = None
                    if d is not None and X.isnumeric(d) and not any(t.op == 'cur' and signature(t.args[1]) == sig for t in X.walk(d)):
                        kind, delta = '+', d
        w = W(kind, path, val, g, tuple(l.iv for l in self.loops), loc, sig, delta)
        self.log.append(w)

    def flag_of(self, cs):
        for l in reversed(self.loops):
            if self.flagged(l, cs):
                return l
        return None

    def flagged(self, l, cs):
        n = id(l.node)
        return any(m == n and len(s) == len(cs) and compat(s, cs) for (m, s) in self.flags)

    def load(self, path, upto=None):
        """value of path at the current point"""
        if path.op == 'poly':
            r = X.piecewise(path, lambda x: self.load(x, upto))
            if r is not None:
                return r
            return path
        if path.op not in ('fld', 'idx', 'local', 'param', 'this', 'new', 'glob'):
            return path
        root = path
        while root.op in ('fld', 'idx'):
            root = root.args[0]
        if root.op not in ('this', 'param', 'local', 'new', 'glob'):
            # projection of a pure value
            return path
        i = len(self.log) if upto is None else upto
        return self._load(path, signature(path), comps(path), i)

    def _load(self, path, sig, cp, i):
        loops = self.loops
        li = len(loops) - 1
        # innermost loop whose start is below i
        while i > 0 or li >= 0:
            while li >= 0 and loops[li].start >= i:
                l = loops[li]
                if self.root_inside(path, l):
                    pass
                else:
                    l.preloads.setdefault(path, sig)
                    if self.flagged(l, csig(path)):
                        return mk('cur', l.iv, path)
                li -= 1
            if i <= 0:
                break
            w = self.log[i - 1]
            i -= 1
            if w.kind in ('call', 'raise'):
                continue
            ws = w.sig
            n = min(len(ws), len(sig))
            if ws[:n] != sig[:n]:
                continue
            if w.kind == 'clob':
                return mk('post', w.val, path)
            m = self.match(w, path, cp)
            if m is None:
                continue
            cond, val, pat = m
            if cond is ONE and w.kind == '=' and isinstance(val, T) and not pat:
                return val
            rest = lambda: self._load(path, sig, cp, i)
            if val is None:
                return mk('memv', path, num(sum(1 for x in self.log[:i + 1] if x.sig[:n] == sig[:n])))
            return self.combine(w, cond, val, pat, rest, path)
        return self.initial(path)

    def root_inside(self, path, l):
        return False

    def initial(self, path):
        if path.op == 'fld' and path.args[1] in X.BOOLFIELDS:
            return truth(path)
        root = path
        while root.op in ('fld', 'idx'):
            root = root.args[0]
        if root.op == 'local':
            return mk('undef', root.args[0].split('#')[0])
        return path

    def match(self, w, path, cp):
        """(cond, value, remaining pattern ivs) of write w seen from path"""
        cw = comps(w.path)
        act = self.active()
        pat = [v for v in w.ivs if v not in act]
        if cw[0] is not cp[0]:
            return None
        n = min(len(cw), len(cp))
        eqs = []
        for k in range(1, n):
            a, b = cw[k], cp[k]
            if a.op != b.op:
                return None
            if a.op == 'fld':
                if a.args[1] != b.args[1]:
                    return None
            else:
                eqs.append((a.args[1], b.args[1]))
        sol = {}
        unsolved = set(pat)
        pending = list(eqs)
        rest = []
        progress = True
        while progress and pending:
            progress = False
            for e in list(pending):
                a, b = e
                a = subst(a, sol) if sol else a
                vs = [v for v in a.fv if v in unsolved]
                if not vs:
                    pending.remove(e)
                    rest.append((a, b))
                    progress = True
                    continue
                for v in vs:
                    c = P(a).get(((v, 1),))
                    if c in (1, -1) and sum(1 for mm in P(a) for x, _ in mm if v in x.fv) == 1:
                        r = sub(b, sub(a, mul(num(c), v)))
                        if r.fv & unsolved:
                            continue
                        sol[v] = mul(num(c), r)
                        unsolved.discard(v)
                        pending.remove(e)
                        progress = True
                        break
                if progress:
                    break
        cond = ONE
        for a, b in rest:
            c = EQ(a, b)
            if c is ZERO:
                return None
            cond = mul(cond, c)
        for a, b in pending:
            cond = mul(cond, EQ(subst(a, sol), b))
        S = (lambda t: subst(t, sol)) if sol else (lambda t: t)
        if CTX.lits:
            g = X.simp(S(w.guard))
        else:
            g = S(w.guard)
        cond = X.simp(mul(cond, g))
        if cond is ZERO:
            return None
        left = [v for v in pat if v in unsolved]
        val = S(w.delta if (w.kind in ('+', 'app') and pat) else w.val)
        if len(cw) < len(cp):
            for c in cp[len(cw):]:
                val = field(val, c.args[1]) if c.op == 'fld' else index(val, c.args[1])
        elif len(cw) > len(cp):
            suf = tuple(c.args[1] if c.op == 'fld' else S(c.args[1]) for c in cw[len(cp):])
            return (cond, ('upd', suf, val), left)
        if val.op == 'idx' and val.args[0].op in ('local',):
            pass
        return (cond, val, left)

    def combine(self, w, cond, val, pat, rest, path):
        if isinstance(val, tuple):
            base = rest()
            if not pat and len(val[1]) == 1 and isinstance(val[1][0], T) and base.op == 'seq' and cond is ONE and w.kind == '=':
                its = seq_items(base)
                k = val[1][0]
                if k.op == 'num' and all(i.op == 'one' and i.args[0] is ONE for i in its) and 0 <= k.args[0] < len(its):
                    k = int(k.args[0])
                    return seq(*(its[:k] + (one(val[2]),) + its[k + 1:]))
            kind = w.kind if w.kind in ('+', 'app') and pat else '='
            if not pat:
                return mk('upd', base, val[1], val[2], cond)
            t = X.bind(pat[-1], cond, val[2], *[z for z in val[1] if isinstance(z, T)])
            for v in reversed(pat[:-1]):
                t = X.bind(v, cond, t)
            return mk('updall', t, base, tuple(z if not isinstance(z, T) else '[]' for z in val[1]), kind)
        closed = any(v not in self.active() for v in w.ivs)
        if w.kind == '+' and closed:
            s = mul(cond, val)
            for v in reversed(pat):
                s = SUM(v, s)
            return add(rest(), s)
        if w.kind == 'app' and closed:
            if not pat:
                items = [X.guard_item(i, cond) for i in seq_items(val)]
                r = rest()
                return seq(*(seq_items(r) + tuple(i for i in items if i is not None)))
            b = val
            g = cond
            for v in reversed(pat):
                b = seq(X.forseg(v, g, b))
                g = ONE
            r = rest()
            return seq(*(seq_items(r) + seq_items(b)))
        if not pat:
            return ite_any(cond, val, rest())
        # several iterations may write the cell: last writer
        if not (val.fv & set(pat)):
            c = cond
            for v in reversed(pat):
                c = ANY(v, c)
            return ite_any(c, val, rest())
        v = pat[-1]
        if len(pat) == 1:
            c, t = self.pick(v, cond, val)
            return ite_any(c, t, rest())
        return mk('memv', path, w.val, *w.ivs)

    def pick(self, v, cond, val):
        """value at the last v satisfying cond: (exists, value)"""
        if v not in val.fv:
            return ANY(v, cond), val
        d = P(cond)
        if len(d) == 1:
            (m, c), = d.items()
            if c == 1:
                # dense [v < n] : last index n-1
                tops = [a for a, e in m if a.op == 'lt' and P(a.args[0]).get(((v, 1),)) == 1 and sum(1 for mm in P(a.args[0]) for x, _ in mm if v in x.fv) == 1]
                others = [a for a, e in m if a not in tops and v in a.fv]
                if len(tops) == 1 and not others and 'n' in v.args[1]:
                    n = sub(v, tops[0].args[0])
                    lastv = sub(n, ONE)
                    g = X.unP({tuple((a, e) for a, e in m if a not in tops): X.F1})
                    return mul(g, LT(ZERO, n)), subst(val, {v: lastv})
                eqs = [a for a, e in m if a.op == 'eq' and abs(P(a.args[0]).get(((v, 1),), 0)) == 1 and sum(1 for mm in P(a.args[0]) for x, _ in mm if v in x.fv) == 1]
                if eqs:
                    p = eqs[0].args[0]
                    co = P(p)[((v, 1),)]
                    sol = mul(num(-co), sub(p, mul(num(co), v)))
                    return subst(cond, {v: sol}), subst(val, {v: sol})
        return ANY(v, cond), mk('pick', X.bind(v, cond, val))

    # ------------------------------------------------------------ statements
    def block(self, n, env):
        if n is None:
            return
        if n.k != 'block':
            return self.stmt(n, env)
        save = CTX.lits
        lastL = None
        for s in n.body:
            if env.get('$dead'):
                break
            L = self.live(env)
            if L is ZERO:
                break
            if L is not lastL and L is not ONE:
                CTX.push(X.conj_lits(L))
            lastL = L
            self.stmt(s, env)
            if env.get('$assume'):
                for c in env.pop('$assume'):
                    CTX.push(X.conj_lits(c))
        if n.__dict__.get('scope', False):
            CTX.lits = save if not self.keepctx(save) else CTX.lits
        else:
            pass
        CTX.lits = save if n.__dict__.get('scope', False) else CTX.lits

    def keepctx(self, save):
        return False

    def stmt(self, s, env):
        k = s.k
        if k == 'block':
            return self.block(s, env)
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.note('unsupported statement %s %s' % (k, s.__dict__.get('what', '')), s.loc)
            raise Unsupported('statement %s' % k)
        return m(s, env)

    def setenv(self, env, name, val):
        L = self.live(env)
        if L is ONE or name not in env:
            env[name] = val
        else:
            old = env[name]
            if isinstance(val, T) and isinstance(old, T):
                env[name] = ite_any(L, val, old)
            else:
                env[name] = val

    def s_swblock(self, s, env):
        for x in s.body:
            self.stmt(x, env)

    def s_decl(self, s, env):
        if s.isref:
            env[s.name] = self.lv(s.init, env)
            if isinstance(env[s.name], tuple):
                env[s.name] = ('alias', env[s.name][1])
            return
        if is_scalar_ty(s.ty) or s.ty.endswith('*'):
            if s.static:
                pt = mk('glob', 'static:' + s.name.split('#')[0])
                env[s.name] = Ref(pt)
                return
            if s.init is None:
                v = mk('undef', s.name.split('#')[0])
            else:
                v = self.ex(s.init, env)
                if cbase(s.ty) == 'bool':
                    v = truth(v)
            if s.ty.endswith('*') and isinstance(v, T) and v.op in ('new', 'local'):
                env[s.name] = v
                return
            env[s.name] = v
            return
        self.ctr += 1
        et = re.sub(r'(std::)?vector<|>|\[[^\]]*\]|const|\s', '', s.ty or '')
        root = mk('local', s.name, self.ctr, ':int') if self.lang == 'cxx' and self.is_intty(et) else mk('local', s.name, self.ctr)
        env[s.name] = Ref(root)
        if s.init is None or (s.init.k == 'ctor' and not s.init.args):
            v = self.default_value(s.ty)
        else:
            v = self.ex(s.init, env)
            v = self.coerce_agg(v, s.ty)
        if v is not None:
            self.write(root, v, s.loc, env)

    def coerce_agg(self, v, ty):
        return v

    def default_value(self, ty):
        t = cbase(ty)
        if t.startswith('vector<') or t.startswith('string') or t.startswith('basic_string'):
            return seq()
        if '[' in t:
            return None
        rec = self.prog.records.get(t)
        if rec is not None:
            ctor = [f for f in self.prog.funcs.values() if f.cls == t and f.name == t]
            if not ctor:
                vals = []
                for f, ft in rec:
                    d = self.default_value(ft)
                    vals.append((f, d if d is not None else mk('undef', f)))
                return mk('struct', t, tuple(vals))
        if is_scalar_ty(t):
            return None
        return mk('extnew', t)

    def elem_default(self, rty):
        t = cbase(rty)
        if t.startswith('vector<'):
            inner = t[7:-1].strip()
            if inner.startswith('vector<'):
                return seq()
            if is_scalar_ty(inner):
                return ZERO
            d = self.default_value(inner)
            return d if d is not None else mk('undef', inner)
        return ZERO

    def s_assign(self, s, env):
        if s.op is None:
            v = self.ex(s.rhs, env)
        else:
            a = self.ex(s.lhs, env)
            b = self.ex(s.rhs, env)
            v = self.binop(s.op, a, b, self.intop(s), s.loc)
            if s.lty and self.is_intty(s.lty) and not X.isint(v):
                v = fn('trunc', v)
        if self.lang == 'cxx' and cbase(s.lty or '') == 'bool':
            v = truth(v)
        self.assign(s.lhs, v, env, s.loc)

    def is_intty(self, t):
        from .cxx import is_int
        return is_int(t)

    def intop(self, s):
        return self.is_intty(s.__dict__.get('cty') or s.lty or '') if self.lang == 'cxx' else False

    def assign(self, lhs, v, env, loc):
        t = self.lv(lhs, env)
        if isinstance(t, tuple):
            nm = t[1]
            cur = env.get(nm)
            if isinstance(cur, tuple):
                self.setenv(env, cur[1], v)
            else:
                self.setenv(env, nm, v)
        else:
            self.write(t.path, v, loc, env)

    def lv(self, e, env):
        """Ref(path) or ('env', name)"""
        k = e.k
        if k == 'name':
            v = env.get(e.id)
            if isinstance(v, Ref):
                return v
            if isinstance(v, tuple):
                return ('env', v[1])
            if isinstance(v, T) and v.op in ('local', 'new') and e.__dict__.get('ty', '').endswith('*'):
                return ('env', e.id)
            return ('env', e.id)
        if k == 'fld':
            b = self.lvbase(e.b, env)
            return Ref(mk('fld', b, self.fname(e)))
        if k == 'idx':
            b = self.lvbase(e.b, env)
            return Ref(mk('idx', b, self.ex(e.i, env)))
        if k == 'glob':
            return Ref(mk('glob', e.name))
        if k == 'this':
            return Ref(self.this)
        if k == 'deref':
            r = self.ex(e.e, env)
            pos = self.itpos(r)
            if pos is not None:
                b = pos[0]
                return Ref(mk('idx', b.args[0], pos[1]) if b.args[0] is not NONE else index(b.args[1], pos[1]))
            return Ref(r)
        if k == 'cond':
            a, b = self.lv(e.a, env), self.lv(e.b, env)
            if isinstance(a, Ref) and isinstance(b, Ref):
                return Ref(ite_any(self.cond(e.c, env), a.path, b.path))
        if k == 'call':
            return self.lvcall(e, env)
        if k == 'assigne':
            self.stmt(e.s, env)
            return self.lv(e.e, env)
        if k == 'incdec':
            self.ex(e, env)
            return self.lv(e.e, env)
        v = self.ex(e, env)
        return Ref(v)

    def lvcall(self, e, env):
        if e.name in ('at', 'back', 'front', 'operator[]') and e.recv is not None and e.key is None:
            b = self.lvbase(e.recv, env)
            if e.name == 'back':
                return Ref(mk('idx', b, sub(length(self.load(b)), ONE)))
            if e.name == 'front':
                return Ref(mk('idx', b, ZERO))
            return Ref(mk('idx', b, self.ex(e.args[0], env)))
        v = self.ex(e, env)
        return Ref(v)

    def fname(self, e):
        return e.n

    def lvbase(self, e, env):
        t = self.lv(e, env)
        if isinstance(t, Ref):
            return t.path
        v = env.get(t[1])
        if isinstance(v, tuple):
            v = env.get(v[1])
        if isinstance(v, Ref):
            return v.path
        return v

    def s_expr(self, s, env):
        self.ex(s.e, env)

    def s_del(self, s, env):
        for x in s.xs:
            try:
                t = self.lv(x, env)
                p = t.path if isinstance(t, Ref) else env.get(t[1])
            except Unsupported:
                p = NONE
            self.log.append(W('call', 'delete', (p if isinstance(p, T) else NONE,), self.curguard(env), tuple(l.iv for l in self.loops), s.loc, ()))

    def s_if(self, s, env):
        c = self.cond(s.c, env)
        c = X.opaque(X.simp(c))
        if c is ONE:
            return self.sub(s.a, env)
        if c is ZERO:
            return self.sub(s.b, env)
        ea, eb = dict(env), dict(env)
        G = self.G
        save = CTX.lits
        for br, e2, cc in ((s.a, ea, c), (s.b, eb, NOT(c))):
            self.G = mul(G, cc)
            if self.G is ZERO:
                e2['$dead'] = True
                self.G = G
                continue
            CTX.push(X.conj_lits(cc))
            self.sub(br, e2)
            CTX.lits = save
            self.G = G
        self.merge(c, ea, eb, env)
        if ea.get('$dead') and not eb.get('$dead'):
            env.setdefault('$assume', []).append(NOT(c))
        elif eb.get('$dead') and not ea.get('$dead'):
            env.setdefault('$assume', []).append(c)

    def sub(self, n, env):
        if n is None:
            return
        save = CTX.lits
        self.block(n, env)
        CTX.lits = save

    def s_ret(self, s, env):
        v = self.ex(s.v, env) if s.v is not None else NONE
        self.setenv(env, '$ret', v)
        env['$Lr'] = X.opaque(ite(self.live(env), ZERO, env['$Lr'])) if self.live(env) is not ONE else ZERO

    def s_brk(self, s, env):
        env['$Lb'] = X.opaque(mul(env['$Lb'], NOT(self.live(env))))

    def s_cont(self, s, env):
        env['$Lc'] = X.opaque(mul(env['$Lc'], NOT(self.live(env))))

    def s_raise(self, s, env):
        v = self.ex(s.v, env) if s.v is not None else NONE
        self.log.append(W('raise', 'raise', (v,), self.curguard(env), tuple(l.iv for l in self.loops), s.loc, ()))
        L = self.live(env)
        if L is ONE:
            env['$dead'] = True
        else:
            # nothing after a raise matters: no later effect needs its negation as a guard
            env.setdefault('$assume', []).append(NOT(L))

    # ------------------------------------------------------------ loops
    def modified(self, nodes):
        """names of locals possibly modified in nodes (syntactic)"""
        out = set()
        for n in nodes:
            if n is None:
                continue
            for x in irwalk(n):
                if x.k == 'assign':
                    out |= self.rootnames(x.lhs)
                elif x.k in ('incdec', 'assigne'):
                    out |= self.rootnames(x.e)
                elif x.k == 'call':
                    ar = x.__dict__.get('argref') or []
                    vm = x.recv is not None and x.key is None and x.name in self.VECM
                    if not vm or x.name == 'swap':
                        for a, r in zip(x.args, ar):
                            if r:
                                out |= self.rootnames(a)
                    if x.recv is not None and not (vm and x.name in self.CONSTM):
                        out |= self.rootnames(x.recv)
                elif x.k == 'foreach':
                    if isinstance(x.__dict__.get('var'), str):
                        out.add(x.var)
                    elif x.__dict__.get('tgt') is not None:
                        out |= self.rootnames(x.tgt)
                elif x.k == 'with':
                    for it in x.items:
                        if it[1] is not None:
                            out |= self.rootnames(it[1])
                elif x.k == 'del':
                    for y in x.xs:
                        out |= self.rootnames(y)
        return out

    handles = {}

    def rebound(self, nodes, x):
        """is the pointer variable itself assigned (as opposed to what it points to)"""
        for n in nodes:
            for y in irwalk(n) if n is not None else ():
                if y.k == 'assign' and y.lhs.k == 'name' and y.lhs.id == x:
                    return True
                if y.k in ('incdec', 'assigne') and y.e.k == 'name' and y.e.id == x:
                    return True
                if y.k == 'call' and any(r and a.k == 'name' and a.id == x for a, r in zip(y.args, y.__dict__.get('argref') or [])):
                    return True
        return False

    def rootnames(self, e):
        while e is not None and e.k in ('fld', 'idx', 'deref'):
            e = e.b if e.k in ('fld', 'idx') else e.e
        if e is None:
            return set()
        if e.k == 'name':
            return {e.id}
        if e.k in ('list', 'tuple'):
            r = set()
            for i in e.items:
                r |= self.rootnames(i)
            return r
        if e.k == 'cond':
            return self.rootnames(e.a) | self.rootnames(e.b)
        if e.k == 'call' and e.recv is not None:
            return self.rootnames(e.recv)
        return set()

    def new_iv(self, flags='n'):
        self.ctr += 1
        iv = mk('iv', 'i%d' % self.ctr, flags)
        self.ivdepth[iv] = len(self.loops)
        return iv

    def s_for(self, s, env):
        env2 = env
        if s.init is not None:
            self.block(s.init, env2)
        shape = self.counted(s, env2)
        if shape is None:
            return self.genloop(s, env2, s.c, s.inc, False)
        var, start, step, bound, extra, incl = shape
        declared = s.init is not None and any(x.k == 'decl' and x.name == var for x in irwalk(s.init))
        if not declared and (extra or self.has(s.body, ('brk', 'ret'))):
            return self.genloop(s, env2, s.c, s.inc, False)
        st = self.ex(start, env2)
        mod = self.modified([s.body]) | {var}
        save = {k: env2.get(k) for k in mod}
        bd = self.ex(bound, env2)
        # bound must not depend on what the loop changes
        dep = any(x.k == 'name' and x.id in mod for x in irwalk(bound))
        if dep:
            return self.genloop(s, env2, s.c, s.inc, False)
        if incl:
            bd = add(bd, ONE) if step > 0 else sub(bd, ONE)
        walked = self.itpos(st, True)
        if walked is not None:
            upto = self.itpos(bd, True)
            if upto is None or upto[0] is not walked[0] or step < 0:
                raise Unsupported('iterator loop')
        if st.op == 'num' and bd.op == 'num':
            trips = (bd.args[0] - st.args[0]) / step
            import math
            trips = max(0, math.ceil(trips))
            if trips <= self.unroll and not extra and not self.has(s.body, ('brk',)):
                for t in range(trips):
                    env2[var] = num(st.args[0] + t * step)
                    self.sub(s.body, env2)
                    env2['$Lc'] = ONE if env2['$Lc'] is not ONE else env2['$Lc']
                env2[var] = num(st.args[0] + trips * step)
                return
        if step == 1 and walked is None and X.poly_nonneg(st):
            iv = self.new_iv('n')
            val = iv
            dom = LT(iv, bd)
            if st is not ZERO:
                dom = mul(dom, NOT(LT(iv, st)))
        else:
            iv = self.new_iv('n')
            val = add(st, mul(num(step), iv))
            dom = LT(val, bd) if step > 0 else LT(bd, val)
            if walked is not None:
                dom = LT(mul(num(step), iv), sub(bd, st))
        final = None
        self.runloop(s, env2, iv, dom, lambda e: e.__setitem__(var, val), [s.body], extra, bound_check=(bound, bd, incl, step), skip={var})
        if declared or extra:
            env2[var] = mk('undef', var.split('#')[0])
        elif step == 1:
            env2[var] = ite(LT(st, bd), bd, st)
        elif step == -1:
            env2[var] = ite(LT(bd, st), bd, st)
        else:
            d = div(sub(bd, st), num(step))
            env2[var] = add(st, mul(num(step), ite(LT(ZERO, d), fn('ceil', d), ZERO)))

    def has(self, n, kinds):
        """statement kinds belonging to this loop level"""
        st = [n]
        while st:
            x = st.pop()
            if x.k in kinds:
                return True
            if x.k in ('for', 'while', 'dowhile', 'foreach', 'lam'):
                if 'ret' in kinds:
                    pass
                else:
                    continue
            from .ir import children
            st.extend(children(x))
        return False

    def counted(self, s, env):
        """(var, start, step, bound, extra, inclusive)"""
        c = s.c
        extra = None
        if c is None:
            return None
        conds = [c]
        if c.k == 'and':
            conds = list(c.xs)
        inc = s.inc
        while inc is not None and inc.k == 'block' and len(inc.body) == 1:
            inc = inc.body[0]
        if inc is None or inc.k != 'assign' or inc.op not in ('+', '-', None) or inc.lhs.k != 'name':
            return None
        var = inc.lhs.id
        if inc.op is None:
            r = inc.rhs
            if r.k == 'bin' and r.op in '+-' and r.a.k == 'name' and r.a.id == var and r.b.k == 'num':
                step = r.b.v if r.op == '+' else -r.b.v
            elif r.k == 'bin' and r.op == '+' and r.b.k == 'name' and r.b.id == var and r.a.k == 'num':
                step = r.a.v
            else:
                return None
        else:
            if inc.rhs.k != 'num':
                return None
            step = inc.rhs.v if inc.op == '+' else -inc.rhs.v
        if step == 0 or step.denominator != 1:
            return None
        step = int(step)
        if var in self.modified([s.body]):
            return None
        if isinstance(env.get(var), Ref) or isinstance(env.get(var), tuple):
            return None
        for i, x in enumerate(conds):
            if x.k != 'cmp':
                continue
            a, b, op = x.a, x.b, x.op
            if b.k == 'name' and b.id == var:
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if a.k == 'name' and a.id == var and (step > 0 and op in ('<', '<=', '!=') or step < 0 and op in ('>', '>=', '!=')):
                if op == '!=' and abs(step) != 1:
                    continue
                if any(y.k == 'name' and y.id == var for y in irwalk(b)):
                    continue
                rest = conds[:i] + conds[i + 1:]
                return var, N('name', s.loc, id=var), step, b, rest, op in ('<=', '>=')
        return None

    def s_while(self, s, env):
        b = s.body
        while b is not None and b.k == 'block' and len(b.body) == 1 and b.body[0].k == 'block':
            b = b.body[0]
        if b is not None and b.k == 'block' and len(b.body) > 1 and b.body[-1].k == 'assign' and b.body[-1].lhs.k == 'name' and not self.has(b, ('cont',)):
            # the counter is advanced at the end of the body: a for loop
            f = N('for', s.loc, init=None, c=s.c, inc=b.body[-1], body=N('block', b.loc, body=b.body[:-1]))
            if self.counted(f, env) is not None:
                return self.s_for(f, env)
        self.genloop(s, env, s.c, None, False)

    def s_dowhile(self, s, env):
        self.genloop(s, env, s.c, None, True)

    def genloop(self, s, env, c, inc, post):
        # a while loop of the counted shape  (i declared outside, i += 1 last in the body)
        iv = self.new_iv('n')
        bodies = [s.body] + ([inc] if inc is not None else [])
        self.runloop(s, env, iv, ONE, None, bodies, [c] if (c is not None and not post) else None, postcond=c if post else None, cexprs=[c])

    def s_foreach(self, s, env):
        it = s.it
        L = self.lv(it, env)
        if isinstance(L, Ref):
            path = L.path
            n = length(self.load(path))
        else:
            v = env[L[1]]
            path = v
            n = length(v)
        iv = self.new_iv('n')
        dom = LT(iv, n)
        el = mk('idx', path, iv)

        def bindv(e):
            if s.isref:
                e[s.var] = Ref(el)
            else:
                v = self.load(el) if isinstance(L, Ref) else index(path, iv)
                if is_scalar_ty(s.ty):
                    e[s.var] = v
                else:
                    self.ctr += 1
                    root = mk('local', s.var, self.ctr)
                    e[s.var] = Ref(root)
                    self.write(root, v, s.loc, e)
        self.runloop(s, env, iv, dom, bindv, [s.body], None, skip={s.var})

    def runloop(self, node, env, iv, dom, bindvar, bodies, conds, postcond=None, cexprs=(), bound_check=None, skip=()):
        mod = self.modified(list(bodies) + [c for c in (conds or []) if c is not None] + [c for c in (cexprs or []) if c is not None]) - set(skip)
        env0 = dict(env)
        G0, CT0 = self.G, CTX.lits
        lp = Loop(node, iv, len(self.log))
        carried = {}
        e = dict(env)
        for x in mod:
            v = env.get(x)
            if isinstance(v, T) and v.op != 'this':
                if (v.op == 'new' or v in self.handles) and not self.rebound(bodies, x):
                    continue
                m = mk('mu', x, self.mufl(v), iv)
                carried[x] = m
                e[x] = m
        outerL = self.live(env)
        # escapes are relative to this loop
        e['$Lb'] = ONE
        e['$Lc'] = ONE
        Lr0 = env['$Lr']
        e['$Lr'] = ONE
        ret0 = env['$ret']
        nob = mk('hole', 'nob', iv, str(iv))     # "no earlier iteration left the loop"
        nobi = truth(nob)
        self.loops.append(lp)
        self.G = AND(G0, outerL, dom, nobi)
        CTX.push(X.conj_lits(outerL))
        CTX.push(X.conj_lits(dom))
        CTX.push([(nobi, True)])
        ctx_in = CTX.lits
        brk0 = ZERO
        if bindvar:
            bindvar(e)
        for c in conds or []:
            cv = self.cond(c, e)
            if cv is not ONE:
                e['$Lb'] = mul(e['$Lb'], cv)
        mid = dict(e)
        for b in bodies:
            if b is bodies[-1] and len(bodies) == 2:
                e['$Lc'] = ONE
            L = self.live(e)
            if L is not ONE:
                CTX.push(X.conj_lits(L))
            self.sub(b, e)
            CTX.lits = ctx_in
        e['$Lc'] = ONE
        if postcond is not None:
            L = self.live(e)
            with assume(L):
                cv = self.cond(postcond, e)
            e['$Lb'] = mul(e['$Lb'], ite(L, cv, ONE))
        self.loops.pop()
        self.G = G0
        CTX.lits = CT0
        e.pop('$assume', None)
        # ---- exits
        stay = AND(e['$Lb'], e['$Lr'])
        # dependence test for loop carried memory
        self.carried_memory(lp, dom, stay)
        leave = X.simp(mul(dom, NOT(stay)))
        retc = X.simp(mul(dom, NOT(e['$Lr'])))
        # ---- solve carried scalars
        live_in = mul(dom, nobi)
        sol_before, sol_final = {}, {}
        steps = {}
        for x, m in carried.items():
            v = e.get(x)
            if isinstance(v, Ref) or v is None or not isinstance(v, T):
                continue
            steps[x] = v
        # locals nobody reads before they are assigned again, here or after the loop
        for x in self.deadlocals(node, lp, steps, carried, leave, retc, e):
            del steps[x]
            env[x] = mk('undef', x.split('#')[0])
        # carried memory cells with an invariant path
        cells = self.solvable_cells(lp, iv)
        cellstep = {}
        for path in cells:
            self.loops.append(lp)
            with assume(AND(G0, outerL, dom, nobi)):
                v = self._load_in(path, lp)
            self.loops.pop()
            cellstep[path] = v
        cur = {}
        init = {}
        for x, v in steps.items():
            cur[('v', x)] = carried[x]
            with assume(AND(G0, outerL)):
                init[('v', x)] = X.simp(env0[x]) if isinstance(env0[x], T) else env0[x]
        for pth in cellstep:
            k = ('c', pth)
            cur[k] = mk('cur', iv, pth)
            with assume(AND(G0, outerL)):
                init[k] = self.load(pth, lp.start)
        st = {('v', x): v for x, v in steps.items()}
        st.update({('c', p): v for p, v in cellstep.items()})
        # a step is guarded by the loop domain and by not having left before
        unsolved = dict(st)
        order = []
        mset = set(cur.values())
        subs = {}

        def closed(t):
            return not any(y in mset for y in X.walk(t)) if t.h or True else True
        prog_ = True
        noesc = leave is ZERO
        while prog_ and unsolved:
            prog_ = False
            for k in list(unsolved):
                v = unsolved[k]
                v = self.sb(v, subs)
                r = self.solve(v, cur[k], init[k], iv, dom, nobi, noesc, mset)
                if r is None:
                    continue
                before, final = r
                subs[cur[k]] = before
                mset.discard(cur[k])
                sol_final[k] = final
                del unsolved[k]
                prog_ = True
        if unsolved:
            keys = sorted(unsolved, key=lambda k: (k[0], k[1] if isinstance(k[1], str) else k[1].id))
            self.recsolve(keys, {k: self.sb(unsolved[k], subs) for k in keys}, cur, init, iv, dom, nobi, subs, sol_final)
        # nobi -> not any earlier leave
        leave = self.sb(leave, subs)
        nobt = self.nobefore(iv, leave, nobi)
        fin = {('nob', str(iv)): (nobt, iv)} if nobt is not ONE else {('nob', str(iv)): (ONE, iv)}
        allsubs = subs
        if allsubs or nobt is not nobi:
            for i in range(lp.start, len(self.log)):
                w = self.log[i]
                self.log[i] = self.sbw(w, allsubs, fin)
            for k in sol_final:
                sol_final[k] = self.sb(self.sb(sol_final[k], allsubs), fin)
        # drop the in-loop writes to solved cells, add one closed write
        for k, v in sol_final.items():
            if k[0] == 'v':
                self.setenv_from(env, k[1], v, outerL)
        solvedcells = [k for k in sol_final if k[0] == 'c']
        if solvedcells:
            sc = {k[1] for k in solvedcells}
            last = {}
            keep = self.log[:lp.start]
            for w in self.log[lp.start:]:
                if w.kind in ('=', '+', 'app') and w.path in sc:
                    last[w.path] = w.loc
                    continue
                keep.append(w)
            self.log = keep
            for k in solvedcells:
                self.write(k[1], sol_final[k], last.get(k[1], node.loc), env)
        # locals changed through Ref merges etc.
        for x in list(e):
            if x not in env and not x.startswith('$'):
                pass
        # ---- returns
        if retc is not ZERO:
            rc = self.sb(self.sb(mul(retc, nobi), subs), fin)
            rv = e['$ret']
            rv = self.sb(self.sb(rv, subs), fin) if isinstance(rv, T) else rv
            ex_, val = self.pick(iv, rc, rv)
            self.setenv(env, '$ret', ite_any(ex_, val, env['$ret']))
            env['$Lr'] = mul(env['$Lr'], NOT(mul(outerL, ANY(iv, rc)) if iv in rc.fv else mul(outerL, rc)))

    def deadlocals(self, node, lp, steps, carried, leave, retc, e):
        cand = [x for x in steps if '#' in x and self.namecount(node, x)]
        if not cand:
            return []
        byref = {p.name for p in self.func.params if p.byref}
        cand = [x for x in cand if x not in byref]
        used = set()

        def see(t):
            if isinstance(t, T):
                X.walk(t, used)
            elif isinstance(t, tuple):
                for y in t:
                    see(y)
        for w in self.log[lp.start:]:
            see(w.path)
            see(w.val)
            see(w.guard)
            see(w.delta)
        see(leave)
        see(retc)
        see(e.get('$ret'))
        cs = set(cand)
        while True:
            vs = {}
            for x, v in steps.items():
                if x not in cs:
                    see(v)
            drop = [x for x in cs if carried[x] in used]
            if not drop:
                return [x for x in cand if x in cs]
            cs -= set(drop)

    def namecount(self, node, x):
        """all uses of the local x lie inside node"""
        nc = getattr(self.prog, '_namecount', None)
        if nc is None:
            nc = self.prog._namecount = {}
            for f in self.prog.funcs.values():
                if f.lang == 'cxx' and f.body is not None:
                    for y in irwalk(f.body):
                        if y.k == 'name':
                            nc[y.id] = nc.get(y.id, 0) + 1
            self.prog._loopcount = {}
        lc = self.prog._loopcount.get(id(node))
        if lc is None:
            lc = {}
            for y in irwalk(node):
                if y.k == 'name':
                    lc[y.id] = lc.get(y.id, 0) + 1
            self.prog._loopcount[id(node)] = lc
        return nc.get(x, 0) == lc.get(x, 0) and x in nc

    def setenv_from(self, env, name, v, L):
        self.setenv(env, name, v)

    def nobefore(self, iv, leave, nobi):
        """[no i' < iv left]"""
        if leave is ZERO:
            return ONE
        y = X.fresh_iv(iv.args[1])
        lv = subst(leave, {iv: y})
        # the escape condition of i' presupposes it was reached; the first leaving
        # index is the same whether or not reachability is demanded
        lv = self.dropnob(lv)
        return NOT(ANY(y, mul(LT(y, iv), lv)))

    def dropnob(self, t):
        tags = {a.args[2] for a in X.walk(t) if a.op == 'hole' and a.args[0] == 'nob'}
        return self.sb(t, {('nob', h): (ONE, ONE) for h in tags}) if tags else t

    def sb(self, t, mp):
        if not mp or not isinstance(t, T):
            return t
        save = CTX.lits
        CTX.lits = []
        try:
            return subst(t, mp)
        finally:
            CTX.lits = save

    def sbw(self, w, m1, m2):
        f = lambda t: self.sb(self.sb(t, m1), m2) if isinstance(t, T) else (tuple(f(y) for y in t) if isinstance(t, tuple) else t)
        n = W(w.kind, f(w.path) if isinstance(w.path, T) else w.path, f(w.val), f(w.guard), w.ivs, w.loc, w.sig if w.kind in ('call', 'raise', 'clob') else None, f(w.delta) if w.delta is not None else None, w.extra)
        return n

    def mufl(self, v):
        return 'i' if X.isint(v) else ''

    def solve(self, v, m, init, iv, dom, nobi, noesc, mset):
        """closed form of the recurrence m' = v : (value before iteration iv, final value)"""
        others = mset - {m}
        allt = X.walk(v)
        if any(o in allt for o in others):
            return None
        if v is m:
            return init, init
        y = X.fresh_iv(iv.args[1])
        D = mul(dom, nobi)           # iteration executed
        if m not in allt:
            # overwritten in every executed iteration
            if iv not in v.fv and not any(t.op == 'cur' and t.args[0] is iv for t in allt):
                ran_before = ANY(y, mul(LT(y, iv), subst(D, {iv: y})))
                return ite_any(ran_before, v, init), ite_any(ANY(iv, D) if iv in D.fv else D, v, init)
            c, val = self.pick(iv, D, v)
            yD = subst(D, {iv: y})
            pc, pv = self.pickbefore(iv, D, v)
            return ite_any(pc, pv, init), ite_any(c, val, init)
        # sequences
        if v.op == 'seq' or init.op == 'seq' and v.op == 'poly':
            its = seq_items(v)
            if its and its[0].op == 'spread' and its[0].args[0] is ONE and its[0].args[1] is m and not any(m in X.walk(i) for i in its[1:]):
                body = seq(*its[1:])
                fin = seq(*(seq_items(init) + (X.forseg(iv, D, body),)))
                bef = seq(*(seq_items(init) + (X.forseg(y, subst(mul(D, ONE), {iv: y}) if False else mul(LT(y, iv), subst(D, {iv: y})), subst(body, {iv: y})),)))
                return bef, fin
        try:
            d = sub(v, m)
        except X.TooBig:
            return None
        if not any(t is m for t in X.walk(d)):
            if not X.isnumeric(d):
                return None
            f = add(init, SUM(iv, mul(D, d)))
            b = add(init, SUM(y, mul(LT(y, iv), subst(mul(D, d), {iv: y}))))
            if noesc:
                # inside the loop the earlier iterations all ran: constant increments count
                if iv not in d.fv and 'n' in iv.args[1] and dom.op == 'lt' and P(dom.args[0]).get(((iv, 1),)) == 1:
                    b = add(init, mul(d, iv))
            return b, f
        # conditional overwrite: ite(c, w, m)
        pm = P(v)
        lin = all(sum(e for a, e in mm if a is m) <= 1 and not any(m in X.walk(a) for a, e in mm if a is not m) for mm in pm)
        if lin:
            co, rest = {}, {}
            for mm, c in pm.items():
                if any(a is m for a, e in mm):
                    co[tuple((a, e) for a, e in mm if a is not m)] = c
                else:
                    rest[mm] = c
            k = X.unP(co)
            rst = X.unP(rest)
            if X.is01(k):
                c = NOT(k)               # overwritten when c
                # rst must vanish when k
                if mul(k, rst) is ZERO or True and mul(c, rst) is rst:
                    with assume(c):
                        val = X.simp(rst)
                    Dc = mul(D, c)
                    if iv not in val.fv and not any(t.op == 'cur' and t.args[0] is iv for t in X.walk(val)):
                        bef = ANY(y, mul(LT(y, iv), subst(Dc, {iv: y}))) if iv in Dc.fv else Dc
                        return ite_any(bef, val, init), ite_any(ANY(iv, Dc) if iv in Dc.fv else Dc, val, init)
                    c1, v1 = self.pick(iv, Dc, val)
                    pc, pv = self.pickbefore(iv, Dc, val)
                    return ite_any(pc, pv, init), ite_any(c1, v1, init)
            if rst is ZERO:
                # product
                kk = add(mul(D, k), NOT(D))
                return (mul(init, mk('prod', X.bind(y, mul(LT(y, iv), subst(D, {iv: y})), subst(k, {iv: y})))),
                        mul(init, mk('prod', X.bind(iv, D, k))))
        return None

    def pickbefore(self, iv, D, v):
        y = X.fresh_iv(iv.args[1])
        c = mul(LT(y, iv), subst(D, {iv: y}))
        vv = subst(v, {iv: y})
        return ANY(y, c), mk('pick', X.bind(y, c, vv))

    def recsolve(self, keys, steps, cur, init, iv, dom, nobi, subs, final):
        """mutual recurrences: kept as an explicit recurrence term"""
        D = mul(dom, nobi)
        for k in keys:
            # closure of dependencies from k
            orderk = [k]
            i = 0
            while i < len(orderk):
                ts = X.walk(steps[orderk[i]]) | X.walk(D)
                for k2 in keys:
                    if k2 not in orderk and cur[k2] in ts:
                        orderk.append(k2)
                i += 1
            h = max([t.h for kk in orderk for t in (steps[kk], init[kk])] + [D.h])
            rv = {cur[kk]: mk('rv', h, j) for j, kk in enumerate(orderk)}
            body = [subst(self.deep(steps[kk], rv), {}) for kk in orderk]
            DD = self.deep(D, rv)
            rec = mk('rec', tuple(init[kk] for kk in orderk), X.bind(iv, DD, *body), h)
            final[k] = mk('fin', rec)
            self.recs.append(rec)
            subs[cur[k]] = mk('recat', rec, iv)

    def deep(self, t, mp):
        return subst(t, mp)

    # ------------------------------------------------------------ loop carried memory
    def last_iteration(self, w, stay):
        """a write after which the loop is left cannot be seen by a later iteration"""
        if stay is ONE or not isinstance(w.guard, T):
            return False
        try:
            if mul(w.guard, stay) is ZERO:
                return True
            with assume(w.guard):
                return X.simp(stay) is ZERO
        except X.TooBig:
            return False

    def carried_memory(self, lp, dom, stay=ONE):
        ws = [w for w in self.log[lp.start:]]
        if not ws:
            return
        if stay is not ONE and lp.preloads:
            ws = [w for w in ws if w.kind in ('call', 'raise', 'clob') or not self.last_iteration(w, stay)]
        for path, sig in lp.preloads.items():
            cs = csig(path)
            if self.flagged(lp, cs):
                continue
            for w in ws:
                if w.kind in ('call', 'raise'):
                    continue
                if w.kind == 'clob':
                    n = min(len(w.sig), len(sig))
                    if w.sig[:n] == sig[:n]:
                        self.flags.add((id(lp.node), cs))
                        break
                    continue
                n = min(len(w.sig), len(sig))
                if w.sig[:n] != sig[:n]:
                    continue
                if self.cross(w, path, lp, dom):
                    self.flags.add((id(lp.node), cs))
                    break

    def cross(self, w, path, lp, dom):
        """may w in another iteration of lp touch path in this one"""
        iv = lp.iv
        cw, cp = comps(w.path), comps(path)
        if cw[0] is not cp[0]:
            return False
        for a, b in zip(cw[1:], cp[1:]):
            if a.op != b.op:
                return False
            if a.op == 'fld':
                if a.args[1] != b.args[1]:
                    return False
                continue
            ia, ib = a.args[1], b.args[1]
            if ia is ib and self.injective(ia, iv):
                return False
            if ia.op == 'num' and ib.op == 'num' and ia is not ib:
                return False
        return True

    def injective(self, t, iv):
        """t is affine in iv with non zero constant coefficient and nothing else loop-varying"""
        d = P(t)
        c = d.get(((iv, 1),))
        if not c:
            return False
        for m in d:
            for a, e in m:
                if a is iv and m == ((iv, 1),):
                    continue
                if a.op in ('iv', 'mu', 'cur') and not (a.op == 'iv' and any(l.iv is a for l in self.loops)):
                    return False
                if iv in a.fv:
                    return False
                if any(x.op in ('mu', 'cur') for x in X.walk(a)):
                    return False
        return True

    def solvable_cells(self, lp, iv):
        """flagged cells with a loop-invariant path that no other write may alias"""
        out = []
        ws = [w for w in self.log[lp.start:] if w.kind in ('=', '+', 'app', 'clob')]
        for (nid, sig) in self.flags:
            if nid != id(lp.node):
                continue
            mine = [w for w in ws if compat(csig(w.path) if isinstance(w.path, T) else w.sig, sig)]
            if not mine or any(w.kind == 'clob' for w in mine):
                continue
            paths = {w.path for w in mine}
            if any(len(w.sig) != len(sig) for w in mine):
                continue
            if any(iv in p.fv or any(t.op in ('mu', 'cur') and iv in t.args for t in X.walk(p)) for p in paths):
                continue
            if any(any(v not in self.active() for v in w.path.fv) for w in mine):
                continue
            pl = list(paths)
            ok = True
            for i in range(len(pl)):
                for j in range(i + 1, len(pl)):
                    if self.may_equal(pl[i], pl[j]):
                        ok = False
            if ok:
                out += [t for t in sorted(paths, key=lambda t: t.id) if t not in out]
        return out

    def may_equal(self, a, b):
        ca, cb = comps(a), comps(b)
        if len(ca) != len(cb) or ca[0] is not cb[0]:
            return len(ca) != len(cb)
        for x, y in zip(ca[1:], cb[1:]):
            if x.op == 'idx' and EQ(x.args[1], y.args[1]) is ZERO:
                return False
            if x.op == 'fld' and x.args[1] != y.args[1]:
                return False
        return True

    def _load_in(self, path, lp):
        """value of path at the end of an iteration of lp in terms of cur"""
        save = list(lp.preloads)
        r = self._load(path, signature(path), comps(path), len(self.log))
        return r

    # ------------------------------------------------------------ expressions
    def cond(self, e, env):
        return truth(self.ex(e, env))

    def ex(self, e, env):
        m = getattr(self, 'e_' + e.k, None)
        if m is None:
            raise Unsupported('expression %s %s' % (e.k, e.__dict__.get('what', '')))
        return m(e, env)

    def e_num(self, e, env):
        return num(e.v)

    def e_str(self, e, env):
        return mk('str', e.v)

    def e_none(self, e, env):
        return NONE

    def e_this(self, e, env):
        return self.this

    def e_name(self, e, env):
        v = env.get(e.id)
        if v is None:
            raise Unsupported('unbound name %s' % e.id)
        if isinstance(v, Ref):
            return self.load(v.path)
        if isinstance(v, tuple):
            if v[0] == 'alias':
                return X.simp(env[v[1]])
            raise Unsupported('tuple name')
        return X.simp(v) if isinstance(v, T) else v

    def e_glob(self, e, env):
        g = self.prog.globals.get(e.name)
        if g is not None:
            if g.k in ('num', 'neg', 'bin', 'str'):
                return self.ex(g, {})
        return mk('glob', e.name)

    def e_fld(self, e, env):
        r = self.lv(e, env)
        return self.loadval(r.path)

    def e_idx(self, e, env):
        r = self.lv(e, env)
        return self.loadval(r.path)

    def loadval(self, path):
        """load a path; if its base is a pure value, project it"""
        root = path
        chain = []
        while root.op in ('fld', 'idx'):
            chain.append(root)
            root = root.args[0]
        if root.op in ('this', 'param', 'local', 'new', 'glob'):
            return self.load(path)
        v = root
        for c in reversed(chain):
            v = field(v, c.args[1]) if c.op == 'fld' else index(v, c.args[1])
        return v

    def e_bin(self, e, env):
        a, b = self.ex(e.a, env), self.ex(e.b, env)
        return self.binop(e.op, a, b, e.__dict__.get('int', False), e.loc)

    def binop(self, op, a, b, isint, loc):
        if op == '+':
            if a.op in ('seq', 'str') or b.op in ('seq', 'str'):
                return fn('concat', a, b)
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if isint:
                return fn('idiv', a, b)
            return div(a, b)
        if op == '%':
            return fn('imod', a, b)
        return fn('op' + op, a, b)

    def e_cmp(self, e, env):
        a, b = self.ex(e.a, env), self.ex(e.b, env)
        return self.compare(e.op, a, b)

    def compare(self, op, a, b):
        if op == '<':
            return LT(a, b)
        if op == '>':
            return LT(b, a)
        if op == '<=':
            return NOT(LT(b, a))
        if op == '>=':
            return NOT(LT(a, b))
        if op == '==':
            return EQ(a, b)
        if op == '!=':
            return NOT(EQ(a, b))
        raise Unsupported('compare ' + op)

    def e_and(self, e, env):
        r = ONE
        save = CTX.lits
        G = self.G
        for x in e.xs:
            v = self.cond(x, env)
            r = mul(r, v)
            if r is ZERO:
                break
            CTX.push(X.conj_lits(v))
            self.G = mul(self.G, v)
        CTX.lits = save
        self.G = G
        return r

    def e_or(self, e, env):
        r = ONE
        save = CTX.lits
        G = self.G
        for x in e.xs:
            v = self.cond(x, env)
            r = mul(r, NOT(v))
            if r is ZERO:
                break
            CTX.push(X.conj_lits(NOT(v)))
            self.G = mul(self.G, NOT(v))
        CTX.lits = save
        self.G = G
        return NOT(r)

    def e_not(self, e, env):
        return NOT(self.cond(e.e, env))

    def e_neg(self, e, env):
        return neg(self.ex(e.e, env))

    def e_cond(self, e, env):
        c = X.simp(self.cond(e.c, env))
        if c is ONE:
            return self.ex(e.a, env)
        if c is ZERO:
            return self.ex(e.b, env)
        G = self.G
        save = CTX.lits
        self.G = mul(G, c)
        CTX.push(X.conj_lits(c))
        a = self.ex(e.a, env)
        CTX.lits = save
        self.G = mul(G, NOT(c))
        CTX.push(X.conj_lits(NOT(c)))
        b = self.ex(e.b, env)
        CTX.lits = save
        self.G = G
        return ite_any(c, a, b)

    def e_cast(self, e, env):
        v = self.ex(e.e, env)
        return fn('trunc', v) if e.to == 'int' else truth(v)

    def e_incdec(self, e, env):
        old = self.ex(e.e, env)
        new = add(old, num(1 if e.op == '+' else -1))
        self.assign(e.e, new, env, e.loc)
        return old if e.post else new

    def e_assigne(self, e, env):
        self.stmt(e.s, env)
        return self.ex(e.e, env)

    def e_addr(self, e, env):
        r = self.lv(e.e, env)
        if isinstance(r, Ref):
            return r.path
        raise Unsupported('address of scalar local')

    def e_deref(self, e, env):
        v = self.ex(e.e, env)
        pos = self.itpos(v)
        if pos is not None:
            b = pos[0]
            return self.loadval(mk('idx', b.args[0], pos[1])) if b.args[0] is not NONE else index(b.args[1], pos[1])
        return self.loadval(v)

    def e_list(self, e, env):
        return seq(*[one(self.ex(x, env)) for x in e.items])

    def e_struct(self, e, env):
        fl = self.prog.records.get(e.name, [])
        vals = [self.ex(x, env) for x in e.vals]
        return mk('struct', e.name, tuple((f, v) for (f, _), v in zip(fl, vals)))

    def e_new(self, e, env):
        self.newn += 1
        root = mk('new', self.newn, 'new:int' if self.is_intty(cbase(e.ty).replace('*', '').strip()) else 'new')
        if e.size is not None:
            n = self.ex(e.size, env)
            t = cbase(e.ty).replace('*', '').strip()
            if not is_scalar_ty(t):
                d = self.default_value(t)
                iv = X.fresh_iv('n')
                self.write(root, seq(X.forseg(iv, LT(iv, n), seq(one(d)))), e.loc, env)
            elif e.zero:
                iv = X.fresh_iv('n')
                self.write(root, seq(X.forseg(iv, LT(iv, n), seq(one(ZERO)))), e.loc, env)
        self.log.append(W('call', 'new', (root,), self.curguard(env), tuple(l.iv for l in self.loops), e.loc, ()))
        return root

    def e_ctor(self, e, env):
        t = e.ty
        args = [self.ex(a, env) for a in e.args]
        if t.startswith('vector<'):
            if not args:
                return seq()
            if len(args) == 1 and not e.lst and args[0].op in ('num',) or (len(args) == 1 and not e.lst and X.isint(args[0])):
                iv = X.fresh_iv('n')
                return seq(X.forseg(iv, LT(iv, args[0]), seq(one(self.elem_default(t)))))
            if len(args) == 2 and not e.lst:
                if e.__dict__.get('argpt') and e.argpt[0]:
                    return self.elems(self.span(args[0], args[1]))
                iv = X.fresh_iv('n')
                return seq(X.forseg(iv, LT(iv, args[0]), seq(one(args[1]))))
            return args[0]
        if t.startswith('complex<'):
            return mk('struct', 'complex', (('re', args[0]), ('im', args[1] if len(args) > 1 else ZERO))) if args else ZERO
        rec = self.prog.records.get(t)
        if rec is not None:
            if len(args) == 1 and args[0].op in ('param', 'fld', 'idx', 'struct', 'upd', 'updall', 'poly', 'cur', 'pick'):
                return args[0]
            if not args:
                d = self.default_value(t)
                if d is not None:
                    return d
            c = [f for f in self.prog.funcs.values() if f.cls == t and f.name == t and len(f.params) == len(args)]
            if c:
                return mk('object', t, *args)
        if len(args) == 1 and t in ('basic_string<char>', 'string'):
            return args[0]
        return mk('ext', 'ctor:' + t, *args)

    def e_lam(self, e, env):
        return ('lam', e, env)

    def e_fref(self, e, env):
        return mk('fref', e.key or e.name)

    def e_defarg(self, e, env):
        return mk('defarg')

    # ------------------------------------------------------------ calls
    def e_call(self, e, env):
        # lambda held in a local
        tgt = None
        if e.name == 'operator()' and e.recv is not None and e.recv.k == 'name':
            tgt = env.get(e.recv.id)
        elif e.fn is not None and e.fn.k == 'name':
            tgt = env.get(e.fn.id)
        if isinstance(tgt, tuple) and tgt and tgt[0] == 'lam':
            return self.call_lambda(tgt, e, env)
        if e.key and e.key in self.abstr:
            a = self.abstr[e.key]
            if a == 'proc':
                return self.opaque_repo(self.prog.funcs[e.key], e, env)
            if a == 'pure':
                return self.pure_call(self.prog.funcs[e.key], e, env)
            return a(self, e, env)
        if e.key and e.key in self.prog.funcs:
            return self.call_repo(self.prog.funcs[e.key], e, env)
        if e.recv is not None:
            return self.method(e, env)
        return self.freefn(e, env)

    def call_lambda(self, tgt, e, env):
        _, lam, cenv = tgt
        return self.enter(lam.params, lam.body, e.args, env, env, 'lambda@%s' % (lam.loc,), share=True, loc=e.loc)

    def call_repo(self, f, e, env):
        if self.stack.count(f.key) >= 1 or len(self.stack) > 25:
            return self.opaque_repo(f, e, env)
        this = self.this
        if f.cls and not f.static:
            if e.recv is None or e.recv.k == 'this':
                newthis = self.this
            else:
                newthis = self.lvbase(e.recv, env)
        else:
            newthis = self.this
        return self.enter(f.params, f.body, e.args, env, {}, f.key, newthis=newthis, loc=e.loc)

    def enter(self, params, body, argn, env, cenv, key, newthis=None, share=False, loc=None):
        new = dict(env) if share else {}
        copyout = []
        for i, p in enumerate(params):
            if i >= len(argn) or argn[i].k == 'defarg':
                if p.default is not None:
                    new[p.name] = self.ex(p.default, {})
                    continue
                raise Unsupported('default argument')
            if p.byref:
                t = self.lv(argn[i], env)
                if isinstance(t, Ref):
                    new[p.name] = t
                else:
                    v = env[t[1]]
                    if isinstance(v, tuple):
                        v = env[v[1]]
                        t = ('env', env[t[1]][1])
                    new[p.name] = v
                    copyout.append((p.name, t[1]))
            else:
                v = self.ex(argn[i], env)
                if self.lang == 'cxx' and isinstance(v, T) and not is_scalar_ty(p.ty) and not p.ty.strip().endswith('*'):
                    if self.mutates(body, p.name):
                        self.ctr += 1
                        root = mk('local', p.name, self.ctr)
                        self.write(root, v, loc, env)
                        new[p.name] = Ref(root)
                    else:
                        new[p.name] = v
                else:
                    if self.lang == 'cxx' and self.is_intty(p.ty) and isinstance(v, T) and not X.isint(v):
                        pass
                    new[p.name] = v
        saved = {k: new.get(k) for k in ('$Lr', '$Lb', '$Lc', '$ret')} if share else None
        G, this = self.G, self.this
        self.G = self.curguard(env)
        save = CTX.lits
        CTX.push(X.conj_lits(self.live(env)))
        self.begin_frame(new)
        self.stack.append(key)
        if newthis is not None:
            self.this = newthis
        try:
            self.block(body, new)
        finally:
            self.stack.pop()
            self.this = this
            self.G = G
            CTX.lits = save
        ret = new['$ret']
        if new.get('$dead'):
            env['$dead'] = True
        if new.get('$assume'):
            env.setdefault('$assume', []).extend(new['$assume'])
        if share:
            for k in env:
                if not k.startswith('$') and k in new:
                    if new[k] is not env[k]:
                        self.setenv(env, k, new[k])
        for pn, an in copyout:
            if new[pn] is not env.get(an):
                self.setenv(env, an, new[pn])
        return ret

    def mutates(self, body, name):
        return name in self.modified([body])

    def pure_call(self, f, e, env):
        """a side-effect free helper kept as an uninterpreted symbol (verified on its own)"""
        ins, outs = [], []
        nm = f.name
        for a, p in zip(e.args, f.params):
            if p.byref and not self.constref(p):
                outs.append(a)
            else:
                ins.append(self.ex(a, env))
        for k, a in enumerate(outs):
            self.assign(a, fn('%s#%d' % (nm, k), *ins), env, e.loc)
        return fn(nm, *ins)

    def constref(self, p):
        return 'const' in p.ty

    def opaque_repo(self, f, e, env):
        args = []
        for i, a in enumerate(e.args):
            args.append(self.ex(a, env))
        ev = mk('ext', 'call:' + f.key, *args)
        self.log.append(W('call', f.key, tuple(args), self.curguard(env), tuple(l.iv for l in self.loops), e.loc, ()))
        for sig in sorted(self.modsigs(f), key=str):
            self.log.append(W('clob', None, ev, self.curguard(env), tuple(l.iv for l in self.loops), e.loc, sig))
        return ev

    def modsigs(self, f, seen=None):
        """signatures of this-> memory a repo function may write (syntactic, transitive)"""
        c = self.prog.__dict__.setdefault('_modsigs', {})
        if f.key in c:
            return c[f.key]
        c[f.key] = set()
        out = set()

        def sig(e):
            if e.k == 'this':
                return (('this',),)
            if e.k == 'fld':
                b = sig(e.b)
                return b + (e.n,) if b else None
            if e.k == 'idx':
                b = sig(e.b)
                return b + ('[]',) if b else None
            return None
        for x in irwalk(f.body):
            t = None
            if x.k == 'assign':
                t = x.lhs
            elif x.k == 'incdec':
                t = x.e
            elif x.k == 'call':
                if x.key and x.key in self.prog.funcs and (x.recv is None or x.recv.k == 'this'):
                    if x.key != f.key:
                        out |= self.modsigs(self.prog.funcs[x.key])
                elif x.recv is not None and x.name in ('push_back', 'emplace_back', 'clear', 'resize', 'assign', 'insert', 'erase', 'pop_back'):
                    t = x.recv
            if t is not None:
                s = sig(t)
                if s:
                    out.add(s)
        c[f.key] = out
        return out

    VECM = ('size', 'length', 'clear', 'push_back', 'emplace_back', 'resize', 'reserve', 'assign', 'begin', 'end', 'empty',
            'back', 'front', 'at', 'insert', 'pop_back', 'data', 'cbegin', 'cend', 'shrink_to_fit', 'swap', 'c_str')

    CONSTM = ('size', 'length', 'empty', 'at', 'back', 'front', 'begin', 'end', 'cbegin', 'cend', 'c_str', 'data')

    def method(self, e, env):
        n = e.name
        if n in self.VECM:
            r = self.lv(e.recv, env)
            if isinstance(r, Ref):
                path = r.path
                get = lambda: self.loadval(path)
            else:
                path = None
                get = lambda: env[r[1]]
            put = lambda v: self.write(path, v, e.loc, env) if path is not None else self.setenv(env, r[1], v)
            if n in ('size', 'length'):
                return length(get())
            if n == 'empty':
                return EQ(length(get()), ZERO)
            if n in ('push_back', 'emplace_back'):
                args = [self.ex(a, env) for a in e.args]
                if len(args) != 1:
                    t = cbase(e.rty)
                    v = mk('ext', 'emplace:' + t, *args)
                    el = t[7:-1] if t.startswith('vector<') else ''
                    fl = self.prog.records.get(el)
                    if fl and len(fl) == len(args):
                        v = mk('struct', el, tuple((f, a) for (f, _), a in zip(fl, args)))
                    elif el.startswith('complex'):
                        v = mk('struct', 'complex', (('re', args[0]), ('im', args[1])))
                else:
                    v = args[0]
                put(append(get(), v))
                return NONE
            if n == 'clear':
                put(seq())
                return NONE
            if n in ('reserve', 'shrink_to_fit'):
                return NONE
            if n == 'resize':
                old = get()
                m = self.ex(e.args[0], env)
                dv = self.ex(e.args[1], env) if len(e.args) > 1 else self.elem_default(e.rty)
                iv = X.fresh_iv('n')
                full = seq(X.forseg(iv, LT(iv, m), seq(one(dv))))
                if old.op == 'seq' and not old.args[0]:
                    put(full)
                else:
                    put(mk('resized', old, m, dv))
                return NONE
            if n == 'assign':
                a = [self.ex(x, env) for x in e.args]
                pt = e.__dict__.get('argpt') or []
                if len(a) == 2 and pt and pt[0]:
                    put(self.elems(self.span(a[0], a[1])))
                elif len(a) == 2:
                    iv = X.fresh_iv('n')
                    put(seq(X.forseg(iv, LT(iv, a[0]), seq(one(a[1])))))
                else:
                    put(a[0])
                return NONE
            if n in ('begin', 'cbegin'):
                return mk('begin', path, NONE) if path is not None else mk('begin', NONE, get())
            if n in ('end', 'cend'):
                return add(mk('begin', path, NONE) if path is not None else mk('begin', NONE, get()), length(get()))
            if n == 'insert':
                a = [self.ex(x, env) for x in e.args]
                pt = e.__dict__.get('argpt') or []
                pos = self.itpos(a[0])
                if pos is not None and path is not None and pos[0].args[0] is path and pos[1] is length(get()):
                    if len(a) == 3 and pt[1] and pt[2]:
                        put(seq(*(seq_items(get()) + seq_items(self.elems(self.span(a[1], a[2]))))))
                        return NONE
                    if len(a) == 2:
                        put(append(get(), a[1]))
                        return NONE
            if n in ('back', 'front', 'at'):
                return self.loadval(self.lvcall(e, env).path)
            if n == 'pop_back':
                v = get()
                iv = X.fresh_iv('n')
                put(seq(X.forseg(iv, LT(iv, sub(length(v), ONE)), seq(one(index(v, iv))))))
                return NONE
            if n in ('data', 'c_str'):
                return get()
            if n == 'swap' and len(e.args) == 1:
                q = self.lv(e.args[0], env)
                if isinstance(q, Ref):
                    v, w = get(), self.loadval(q.path)
                    put(w)
                    self.write(q.path, v, e.loc, env)
                else:
                    v, w = get(), env[q[1]]
                    put(w)
                    self.setenv(env, q[1], v)
                return NONE
            if n not in self.CONSTM:
                raise Unsupported('vector method ' + n)
        elif cbase(e.__dict__.get('rty') or '').startswith(('vector<', 'std::vector<')):
            raise Unsupported('vector method ' + n)
        return self.extcall(e, env)

    MUTRECV = {'put', 'setup', 'start', 'inc', 'init', 'plane', 'import', 'add', 'reset', 'clear_weight'}

    def extcall(self, e, env):
        """library call: opaque function of its arguments; lvalue arguments are outputs"""
        recv = None
        if e.recv is not None:
            recv = self.ex(e.recv, env)
            if isinstance(recv, tuple):
                raise Unsupported('call on lambda')
        args = []
        outs = []
        ar = e.__dict__.get('argref') or [False] * len(e.args)
        for a, r in zip(e.args, ar):
            v = self.ex(a, env)
            if isinstance(v, tuple):
                raise Unsupported('lambda argument')
            args.append(v)
            if r:
                outs.append(a)
        if e.name in ('operator<<', 'operator>>', 'printf', 'endl'):
            return NONE
        ivs = tuple(l.iv for l in self.loops)
        # outputs are not inputs
        ins = [mk('str', '$out') if r and isinstance(v, T) and v.op == 'undef' else v for v, r in zip(args, ar) if not r or e.name in ('compute_cell', 'setup')]
        t = mk('ext', e.name, *([recv] if recv is not None else []), *ins)
        self.log.append(W('call', 'ext:' + e.name, tuple([recv] if recv is not None else []) + tuple(ins), self.curguard(env), ivs, e.loc, ()))
        for j, a in enumerate(outs):
            tv = mk('ext', e.name + '#out%d' % j, *([recv] if recv is not None else []), *ins)
            k = self.lv(a, env)
            if isinstance(k, Ref):
                if k.path.op in ('fld', 'idx', 'local', 'new', 'glob'):
                    self.write(k.path, tv, e.loc, env)
            else:
                self.setenv(env, k[1], tv)
        if e.recv is not None and e.name in self.MUTRECV:
            k = self.lv(e.recv, env)
            tv = mk('ext', e.name + '#self', recv, *ins)
            if isinstance(k, Ref):
                self.write(k.path, tv, e.loc, env)
            else:
                self.setenv(env, k[1], tv)
        return t

    def freefn(self, e, env):
        n = e.name
        if n in MATH:
            a = [self.ex(x, env) for x in e.args]
            r = fn(MATH[n], *a)
            return r
        pt = e.__dict__.get('argpt') or []
        if n in ('sort', 'stable_sort') and len(e.args) >= 2:
            sp = self.span(self.ex(e.args[0], env), self.ex(e.args[1], env))
            if sp.path is None or not sp.whole:
                raise Unsupported('sorting part of a sequence')
            x, y = mk('sym', '$x', ''), mk('sym', '$y', '')
            key = mk('str', 'default')
            if len(e.args) > 2:
                key = self.comparator(e.args[2], env, x, y)
            self.write(sp.path, mk('sorted', sp.v, key), e.loc, env)
            return NONE
        if n in ('move', 'forward', 'ref', 'cref'):
            return self.ex(e.args[0], env)
        if n == 'swap' and len(e.args) == 2:
            a, b = self.ex(e.args[0], env), self.ex(e.args[1], env)
            self.assign(e.args[0], b, env, e.loc)
            self.assign(e.args[1], a, env, e.loc)
            return NONE
        if n in ('fill', 'fill_n') and len(e.args) == 3:
            v = self.ex(e.args[2], env)
            a = self.ex(e.args[0], env)
            sp = self.span(a, self.ex(e.args[1], env) if n == 'fill' else add(a, self.ex(e.args[1], env)))
            if sp.path is None:
                raise Unsupported('filling a temporary')
            if sp.whole:
                iv = X.fresh_iv('n')
                self.write(sp.path, seq(X.forseg(iv, LT(iv, sp.n), seq(one(v)))), e.loc, env)
            else:
                iv = self.new_iv('n')
                self.log.append(W('=', mk('idx', sp.path, add(sp.lo, iv)), v, mul(self.curguard(env), LT(iv, sp.n)), tuple(l.iv for l in self.loops) + (iv,), e.loc))
            return NONE
        if n == 'copy' and len(e.args) == 3:
            sp = self.span(self.ex(e.args[0], env), self.ex(e.args[1], env))
            to = self.itpos(self.ex(e.args[2], env), True)
            if to is None or to[0].op == 'begin' and to[0].args[0] is NONE:
                raise Unsupported('copy')
            iv = self.new_iv('n')
            p = to[0].args[0] if to[0].op == 'begin' else to[0]
            self.log.append(W('=', mk('idx', p, add(to[1], iv)), self.elem(sp, iv), mul(self.curguard(env), LT(iv, sp.n)), tuple(l.iv for l in self.loops) + (iv,), e.loc))
            return NONE
        if n == 'accumulate' and len(e.args) == 3:
            sp = self.span(self.ex(e.args[0], env), self.ex(e.args[1], env))
            iv = X.fresh_iv('n')
            return add(self.ex(e.args[2], env), SUM(iv, mul(LT(iv, sp.n), self.elem(sp, iv))))
        if n in ('any_of', 'all_of', 'none_of', 'count_if', 'count') and len(e.args) == 3:
            sp = self.span(self.ex(e.args[0], env), self.ex(e.args[1], env))
            iv = X.fresh_iv('n')
            el = self.elem(sp, iv)
            c = EQ(el, self.ex(e.args[2], env)) if n == 'count' else self.predicate(e.args[2], env, el)
            if n in ('count', 'count_if'):
                return SUM(iv, mul(LT(iv, sp.n), c))
            if n == 'all_of':
                return NOT(X.ANY(iv, mul(LT(iv, sp.n), NOT(c))))
            r = X.ANY(iv, mul(LT(iv, sp.n), c))
            return r if n == 'any_of' else NOT(r)
        if 'it' in pt:
            raise Unsupported('algorithm ' + n)
        if n in ('isnan', 'isinf', 'isfinite'):
            return truth(mk('ext', n, self.ex(e.args[0], env)))
        return self.extcall(e, env)

    def arraypath(self, a):
        if a.op in ('local', 'new'):
            return True
        d = 0
        while a.op == 'idx':
            a, d = a.args[0], d + 1
        if a.op != 'fld':
            return False
        return any(f == a.args[1] and t.count('[') > d for (_, f), t in self.prog.fieldtypes.items())

    def itpos(self, t, ptr=False):
        """(base, offset) of an iterator or pointer value"""
        if not isinstance(t, T):
            return None
        bs = [m[0][0] for m, c in P(t).items() if len(m) == 1 and m[0][1] == 1 and c == 1 and (m[0][0].op == 'begin' or ptr and self.arraypath(m[0][0]))]
        if len(bs) != 1:
            return None
        return bs[0], sub(t, bs[0])

    def span(self, a, b):
        """the elements between two iterators or pointers"""
        x, y = self.itpos(a, True), self.itpos(b, True)
        if x is None or y is None or x[0] is not y[0]:
            raise Unsupported('iterator range')
        base, lo = x
        s = N('span', None)
        s.lo, s.n, s.v, s.path, s.whole = lo, sub(y[1], lo), None, base, False
        if base.op == 'begin':
            s.path = base.args[0] if base.args[0] is not NONE else None
            s.v = self.loadval(s.path) if s.path is not None else base.args[1]
            s.whole = lo is ZERO and s.n is length(s.v)
        return s

    def elem(self, s, iv):
        return index(s.v, add(s.lo, iv)) if s.v is not None else self.loadval(mk('idx', s.path, add(s.lo, iv)))

    def elems(self, s):
        if s.whole:
            return s.v
        iv = X.fresh_iv('n')
        return seq(X.forseg(iv, LT(iv, s.n), seq(one(self.elem(s, iv)))))

    def predicate(self, node, env, x):
        if node.k == 'name' and isinstance(env.get(node.id), tuple) and env[node.id][0] == 'lam':
            node = env[node.id][1]
        if node.k != 'lam' or len(node.params) != 1:
            raise Unsupported('predicate')
        new = dict(env)
        new[node.params[0].name] = x
        n = len(self.log)
        self.begin_frame(new)
        self.block(node.body, new)
        if len(self.log) != n:
            raise Unsupported('predicate with effects')
        return truth(new['$ret'])

    def comparator(self, node, env, x, y):
        if node.k == 'name' and isinstance(env.get(node.id), tuple) and env[node.id][0] == 'lam':
            node = env[node.id][1]
        if node.k == 'ctor' and node.ty in self.prog.records:
            for f in self.prog.funcs.values():
                if f.cls == node.ty and f.name == 'operator()' and len(f.params) == 2:
                    new = {f.params[0].name: x, f.params[1].name: y}
                    self.begin_frame(new)
                    G, self.G = self.G, ONE
                    self.block(f.body, new)
                    self.G = G
                    return new['$ret']
        if node.k == 'lam':
            new = dict(env)
            new[node.params[0].name] = x
            new[node.params[1].name] = y
            self.begin_frame(new)
            self.block(node.body, new)
            return new['$ret']
        if node.k == 'fref' and node.key in self.prog.funcs:
            f = self.prog.funcs[node.key]
            new = {f.params[0].name: x, f.params[1].name: y}
            self.begin_frame(new)
            self.block(f.body, new)
            return new['$ret']
        raise Unsupported('comparison function')
