"""Hash-consed value terms in a canonical form.

A value is a polynomial with rational coefficients over interned atoms.  Boolean
conditions are 0/1 *indicator* atoms, so `ite(c,a,b)` is the polynomial
b + c*(a-b); indicators are idempotent and pairwise linear facts (a contradicts b,
a implies b) simplify their products.  Two programs that compute the same piecewise
polynomial therefore get the same interned term whatever the statement order, branch
shape, helper structure or local names were.
"""
from fractions import Fraction
from math import gcd

F0, F1 = Fraction(0), Fraction(1)


class TooBig(Exception):
    pass


class T:
    __slots__ = ('op', 'args', 'id', 'fv', 'h', '_poly')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]
LIMIT = 30000          # monomials per polynomial


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args = op, args
    _cnt[0] += 1
    t.id = _cnt[0]
    t._poly = None
    fv = frozenset()
    h = 0
    if op in ('iv', 'mu', 'bv', 'hole'):
        fv = frozenset((t,))
        if op == 'hole':
            for a in args:
                if isinstance(a, T):
                    fv |= a.fv
                    h = max(h, a.h)
    else:
        stack = list(args)
        while stack:
            a = stack.pop()
            if isinstance(a, T):
                if a.fv:
                    fv |= a.fv
                if a.h > h:
                    h = a.h
            elif isinstance(a, tuple):
                stack.extend(a)
    if op == 'bind':           # bind(bv, body...)
        fv = fv - {args[0]}
        h = h + 1
    t.fv = fv
    t.h = h
    _tab[key] = t
    return t


# ---------------------------------------------------------------- numbers, polys
def num(x):
    if isinstance(x, bool):
        x = int(x)
    return mk('num', Fraction(x))


ZERO, ONE = num(0), num(1)


def P(t):
    """dict monomial -> coefficient; a monomial is a tuple of (atom, exponent)."""
    if t._poly is None:
        if t.op == 'num':
            t._poly = {(): t.args[0]} if t.args[0] else {}
        elif t.op == 'poly':
            t._poly = dict(t.args[0])
        else:
            t._poly = {((t, 1),): F1}
    return t._poly


def _mkey(kv):
    m = kv[0]
    if len(m) == 1:
        return (m[0][0].id, m[0][1])
    r = []
    for a, e in m:
        r.append(a.id)
        r.append(e)
    return tuple(r)


def unP(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) > LIMIT:
        raise TooBig('polynomial with %d monomials' % len(d))
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=_mkey))
    return mk('poly', items)


def is_ind(a):
    return a.op in ('lt', 'eq', 'eqt', 'truth', 'any', 'opq01')


# context: polynomials known to be < 0 (or == 0) at the current program point.
class Ctx:
    def __init__(self):
        self._lits = []          # list of (atom, polarity)
        self._key = ()

    @property
    def lits(self):
        return self._lits

    @lits.setter
    def lits(self, v):
        if v is not self._lits:
            self._lits = v
            self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted((a.id, p) for a, p in self._lits))
        return self._key

    def push(self, lits):
        new = [l for l in lits if l not in self._lits]
        if new:
            self.lits = self._lits + new


CTX = Ctx()
_relcache = {}
POSITIVE = set()     # names of fields known positive
NONNEG = set()       # names of fields known non-negative
INTFIELDS = {':int'}    # names of fields of integer type
BOOLFIELDS = set()


def fieldname(t):
    if t.op == 'fld':
        return t.args[1]
    if t.op == 'idx':
        return fieldname(t.args[0])
    if t.op in ('new', 'local') and str(t.args[-1]).endswith(':int'):
        return ':int'
    return None


def ispos(t):
    if t.op in ('fld', 'idx'):
        return fieldname(t) in POSITIVE
    if t.op == 'fn' and t.args[0] == 'exp':
        return True
    if t.op == 'sym':
        return 'p' in t.args[1]
    return False


def isnonneg(t):
    if ispos(t) or is_ind(t):
        return True
    if t.op == 'len':
        return True
    if t.op == 'iv' or t.op == 'bv':
        return 'n' in t.args[1]
    if t.op == 'fn' and t.args[0] in ('abs', 'sqrt', 'norm'):
        return True
    if t.op in ('fld', 'idx'):
        return fieldname(t) in NONNEG
    if t.op == 'sym':
        return 'n' in t.args[1]
    if t.op == 'fn' and t.args[0] in ('trunc', 'idiv', 'floor', 'ceil'):
        return all(poly_nonneg(a) for a in t.args[1:])
    if t.op in ('sum',):
        return False
    return False


def poly_nonneg(t):
    return all(c >= 0 and all(isnonneg(a) or (isinstance(e, int) and e % 2 == 0) for a, e in m) for m, c in P(t).items())


def isint_atom(t):
    if is_ind(t):
        return True
    if t.op in ('len',):
        return True
    if t.op in ('iv', 'bv'):
        return True
    if t.op == 'fn' and t.args[0] in ('trunc', 'idiv', 'floor', 'ceil', 'imod', 'round'):
        return True
    if t.op in ('fld', 'idx'):
        return fieldname(t) in INTFIELDS
    if t.op in ('sym', 'mu'):
        return 'i' in t.args[1]
    if t.op == 'cur':
        return fieldname(t.args[1]) in INTFIELDS
    if t.op == 'sum':
        b = t.args[0]
        return isint(b.args[1])
    if t.op == 'fn' and t.args[0] in ('abs', 'max', 'min'):
        return all(isint(a) for a in t.args[1:])
    if t.op == 'sel':
        return isint(t.args[1]) and isint(t.args[2])
    return False


def isint(t):
    for m, c in P(t).items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not isint_atom(a) or not (isinstance(e, int) and e > 0):
                return False
    return True


def nonpos(d, strict=False):
    """provably <= 0 (or < 0) from signs of the atoms alone"""
    s = F0
    for m, c in d.items():
        if not m:
            s = c
            continue
        if c > 0:
            return False
        for a, e in m:
            if not (isnonneg(a) or (isinstance(e, int) and e % 2 == 0)):
                return False
    return s < 0 if strict else s <= 0


def dsub(a, b, lam=F1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) - lam * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def dadd(a, b, lam=F1):
    return dsub(a, b, -lam)


def _ratios(p, q):
    out = []
    for m, c in p.items():
        if m and m in q:
            r = q[m] / c
            if r not in out:
                out.append(r)
    return out


def _bound(a, pol):
    """(dict p, slack): literal says p <= slack-ish: returns p and k with p <= k;
    strict reals: p < 0 -> (p, 0, strict)"""
    p = P(a.args[0])
    integer = isint(a.args[0])
    if a.op == 'lt':
        if pol:
            return (dadd(p, {(): F1}), False) if integer else (p, True)     # p+1<=0 / p<0
        return (dsub({}, p), False)                                         # -p<=0
    return None


def implies_lit(a, pa, b):
    """value of literal atom b forced by literal (a,pa): 1, 0 or None"""
    if a is b:
        return 1 if pa else 0
    if a.op == 'eqt' and b.op == 'eqt':
        return _eqt_rel(a, b) if pa else None
    if a.op not in ('lt', 'eq') or b.op not in ('lt', 'eq'):
        return None
    q = P(b.args[0])
    if a.op == 'eq':
        if not pa:
            return None
        p = P(a.args[0])
        for lam in _ratios(p, q):
            r = dsub(q, p, lam)              # q == r
            if b.op == 'eq':
                if not r:
                    return 1
                if all(not m for m in r):
                    return 0
            else:
                if nonpos(r, True):
                    return 1
                if nonpos(dsub({}, r)):
                    return 0
        return None
    bd = _bound(a, pa)
    p, strict = bd                            # p <= 0 (or < 0)
    for lam in _ratios(p, q):
        if lam > 0:
            r = dsub(q, p, lam)              # q = lam p + r
            if b.op == 'lt':
                if nonpos(r, True) or (strict and nonpos(r)):
                    return 1
            else:
                if nonpos(r, True) or (strict and nonpos(r)):
                    return 0                  # q < 0 so q != 0
        elif lam < 0:
            r = dsub(q, p, lam)              # q = lam p + r, lam p >= 0
            if b.op == 'lt':
                if nonpos(dsub({}, r)):
                    return 0
                # integers: q >= r
            else:
                nr = dsub({}, r)
                if nonpos(nr, True) or (strict and nonpos(nr)):
                    return 0
    return None


def _eqt_rel(a, b):
    ta, tb = a.args, b.args
    for x, y in ((0, 1), (1, 0)):
        for u, v in ((0, 1), (1, 0)):
            if ta[x] is tb[u]:
                if ta[y] is tb[v]:
                    return 1
                if distinct_const(ta[y], tb[v]):
                    return 0
    return None


CONSTOPS = ('num', 'str', 'none')


def distinct_const(a, b):
    return a.op in CONSTOPS and b.op in CONSTOPS and a is not b


def rel(a, b):
    """relation of two positive indicator atoms: 0 contradiction, 'a'=>b implied
    (drop b), 'b' => a implied (drop a), None"""
    k = (a.id, b.id)
    r = _relcache.get(k, -1)
    if r != -1:
        return r
    v = implies_lit(a, True, b)
    if v == 0:
        r = 0
    elif v == 1:
        r = 'b'
    else:
        v = implies_lit(b, True, a)
        r = 0 if v == 0 else ('a' if v == 1 else None)
    _relcache[k] = r
    return r


def ctx_value(a):
    """value of indicator a forced by the context, or None"""
    for l, pol in CTX.lits:
        v = implies_lit(l, pol, a)
        if v is not None:
            return v
    if a.op == 'lt' and len(CTX.lits) > 1:
        # two-literal linear combination
        bs = []
        for l, pol in CTX.lits:
            if l.op == 'lt':
                bs.append(_bound(l, pol))
            elif l.op == 'eq' and pol:
                p = P(l.args[0])
                bs.append((p, False))
                bs.append((dsub({}, p), False))
        q = P(a.args[0])
        integer = isint(a.args[0])
        nq = dsub({}, q)
        if len(bs) <= 14:
            for i in range(len(bs)):
                for j in range(i + 1, len(bs)):
                    s = dadd(bs[i][0], bs[j][0])
                    st = bs[i][1] or bs[j][1]
                    r = dsub(q, s)             # q = s + r
                    if len(r) <= 1 and (nonpos(r, True) or (st and nonpos(r))):
                        return 1
                    r = dsub(nq, s)            # -q = s + r <= r   => q >= -r
                    if len(r) <= 1 and nonpos(r):
                        return 0
    return None


def _ctxsimp(t):
    """an indicator atom under the context"""
    if not CTX.lits:
        return t
    v = ctx_value(t)
    if v is None:
        return t
    return ONE if v else ZERO


def simp(t, lits=None):
    """simplify top-level indicators of t under the current context"""
    if not CTX.lits:
        return t
    d = P(t)
    atoms = {a for m in d for a, e in m if is_ind(a)}
    val = {}
    for a in atoms:
        v = ctx_value(a)
        if v is not None:
            val[a] = v
    if not val:
        return t
    r = {}
    for m, c in d.items():
        nm = []
        dead = False
        for a, e in m:
            if a in val:
                if val[a] == 0:
                    dead = True
                    break
            else:
                nm.append((a, e))
        if dead:
            continue
        nm = tuple(nm)
        r[nm] = r.get(nm, F0) + c
    return unP(r)


def _mulmono(m1, m2):
    """product of monomials -> (mono, extra poly dict or None) or None if zero"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    extra = None
    ind2 = []
    for a, e in m2:
        if is_ind(a):
            if a not in d:
                ind2.append(a)
        else:
            ne = d.get(a, 0) + e
            if ne == 0:
                d.pop(a, None)
            else:
                d[a] = ne
            if a.op == 'fn' and a.args[0] == 'sqrt' and not (ne in (0, 1)):
                k = ne // 2
                r = ne - 2 * k
                if r:
                    d[a] = r
                else:
                    d.pop(a, None)
                x = powi(a.args[1], k)
                extra = x if extra is None else mul(extra, x)
    if ind2:
        inds = [a for a in d if is_ind(a)]
        for b in ind2:
            keep = True
            for a in list(inds):
                r = rel(a, b)
                if r == 0:
                    return None
                if r == 'b':
                    keep = False
                    break
                if r == 'a':
                    inds.remove(a)
                    del d[a]
            if keep:
                inds.append(b)
                d[b] = 1
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id)), extra


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    r = dict(P(a))
    for m, c in P(b).items():
        r[m] = r.get(m, F0) + c
    return unP(r)


def neg(a):
    return unP({m: -c for m, c in P(a).items()})


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


_mulcache = {}


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _mulcache.get(k)
    if r is None:
        pa, pb = P(a), P(b)
        if len(pa) * len(pb) > 4 * LIMIT:
            raise TooBig('product too large')
        d = {}
        extras = []
        for m1, c1 in pa.items():
            for m2, c2 in pb.items():
                x = _mulmono(m1, m2)
                if x is None:
                    continue
                m, ex = x
                if ex is None:
                    d[m] = d.get(m, F0) + c1 * c2
                else:
                    extras.append((m, c1 * c2, ex))
        r = unP(d)
        for m, c, ex in extras:
            r = add(r, mul(unP({m: c}), ex))
        _mulcache[k] = r
    return r


def powi(a, n):
    if n < 0:
        return inv(powi(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def inv(a):
    d = P(a)
    if not d:
        return mk('fn', 'div0', ONE)
    if len(d) == 1:
        (m, c), = d.items()
        r = num(F1 / c)
        for x, e in m:
            if is_ind(x):
                return unP({((mk('den', a), -1),): F1})
            if x.op == 'fn' and x.args[0] == 'sqrt':
                # 1/sqrt(p) = sqrt(p)/p
                r = mul(r, powi(mul(x, inv(x.args[1])), e))
            elif x.op == 'den':
                r = mul(r, powi(x.args[0], -e)) if e < 0 else mul(r, unP({((x, -e),): F1}))
            else:
                r = mul(r, unP({((x, -e),): F1}))
        return r
    # normalise by the leading coefficient
    items = sorted(d.items(), key=lambda kv: tuple((x.id, e) for x, e in kv[0]))
    lead = items[-1][1]
    n = unP({m: c / lead for m, c in d.items()})
    return unP({((mk('den', n), -1),): F1 / lead})


def div(a, b):
    if b.op == 'num' and b.args[0]:
        return mul(a, num(F1 / b.args[0]))
    if a is b:
        return ONE
    q = exact_quotient(a, b)
    if q is not None:
        return q
    return mul(a, inv(b))


def exact_quotient(a, b):
    """c*b == a for rational c (cheap common case)"""
    da, db = P(a), P(b)
    if len(da) != len(db) or not da or len(db) == 1:
        return None
    r = None
    for m, c in da.items():
        if m not in db:
            return None
        x = c / db[m]
        if r is None:
            r = x
        elif r != x:
            return None
    return num(r)


# ---------------------------------------------------------------- booleans
def NOT(a):
    return sub(ONE, a)


def AND(*xs):
    r = ONE
    for x in xs:
        try:
            r = mul(r, x)
        except TooBig:
            r = mul(squeeze(r), squeeze(x))
        if r is ZERO:
            return r
    return r


def OR(*xs):
    r = ONE
    for x in xs:
        r = mul(r, NOT(x))
    return NOT(r)


def ite(c, a, b):
    if a is b:
        return a
    if c is ONE:
        return a
    if c is ZERO:
        return b
    m = merge_fn(c, a, b)
    if m is not None:
        return m
    try:
        return add(b, mul(c, sub(a, b)))
    except TooBig:
        return mk('sel', squeeze(c), a, b)


def squeeze(c):
    return mk('opq01', c) if c.op == 'poly' and not is_single(c) else c


def is_single(c):
    return len(P(c)) == 1


def merge_fn(c, a, b):
    """ite(c, k*f(x), k*f(y)) -> k*f(ite(c,x,y)) for unary maths functions"""
    pa, pb = P(a), P(b)
    if len(pa) != 1 or len(pb) != 1:
        return None
    (ma, ca), = pa.items()
    (mb, cb), = pb.items()
    if ca != cb or len(ma) != len(mb):
        return None
    da = [x for x in ma if x not in mb]
    db = [x for x in mb if x not in ma]
    if len(da) == 1 and len(db) == 1 and da[0][1] == db[0][1] == 1:
        x, y = da[0][0], db[0][0]
        if x.op == 'fn' and y.op == 'fn' and x.args[0] == y.args[0] and len(x.args) == 2 and len(y.args) == 2:
            inner = ite(c, x.args[1], y.args[1])
            rest = unP({tuple(z for z in ma if z not in da): ca})
            return mul(rest, fn(x.args[0], inner))
    return None


def _lift(f, p, depth=0):
    """apply predicate builder f to polynomial p, splitting on top-level indicators"""
    d = P(p)
    inds = []
    for m in d:
        for a, e in m:
            if is_ind(a) and a not in inds:
                inds.append(a)
    if not inds or depth > 7 or len(inds) > 9:
        return f(p)
    a = max(inds, key=lambda x: sum(1 for m in d if any(y is x for y, _ in m)))
    hi, lo = {}, {}
    for m, c in d.items():
        nm = tuple((x, e) for x, e in m if x is not a)
        hi[nm] = hi.get(nm, F0) + c
        if len(nm) == len(m):
            lo[nm] = lo.get(nm, F0) + c
    save = CTX.lits
    h = _lift(f, unP(hi), depth + 1)
    l = _lift(f, unP(lo), depth + 1)
    CTX.lits = save
    return ite(a, h, l)


def _posnorm(p):
    """divide out / clear powers of positive atoms"""
    d = P(p)
    if len(d) < 1:
        return p
    mins = {}
    atoms = {a for m in d for a, e in m if ispos(a)}
    for a in atoms:
        mins[a] = min(dict(m).get(a, 0) for m in d)
    if all(v == 0 for v in mins.values()):
        return p
    r = {}
    for m, c in d.items():
        dd = dict(m)
        for a, v in mins.items():
            ne = dd.get(a, 0) - v
            if ne:
                dd[a] = ne
            else:
                dd.pop(a, None)
        r[tuple(sorted(dd.items(), key=lambda ae: ae[0].id))] = c
    return unP(r)


def _lead(d):
    """deterministic leading monomial: bound/loop variables first, then id"""
    best = None
    for m, c in d.items():
        if not m:
            continue
        k = (max((2 if a.op in ('iv', 'bv') else 1) * 10 ** 9 + a.id for a, e in m), tuple(a.id for a, e in m))
        if best is None or k > best[0]:
            best = (k, c)
    return best[1] if best else F0


def _lt0(p):
    d = P(p)
    if not d:
        return ZERO
    if len(d) == 1 and () in d:
        return ONE if d[()] < 0 else ZERO
    if nonpos(d, True):
        return ONE
    if nonpos(dsub({}, d)):
        return ZERO
    p = _posnorm(p)
    d = P(p)
    if len(d) == 1 and () in d:
        return ONE if d[()] < 0 else ZERO
    if isint(p):
        g = 0
        for m, c in d.items():
            if m:
                g = gcd(g, int(c))
        c0 = d.get((), F0)
        k = -((c0) // g)          # ceil(-c0/g)
        r = {m: c / g for m, c in d.items() if m}
        r[()] = -Fraction(k)
        if _lead(r) < 0:
            n = dsub({}, r)
            n[()] = n.get((), F0) - 1
            q = unP(n)
            if nonpos(P(q), True):
                return ZERO
            return NOT(_ctxsimp(mk('lt', q)))
        q = unP(r)
        if nonpos(P(q), True):
            return ONE
        if nonpos(dsub({}, P(q))):
            return ZERO
        return _ctxsimp(mk('lt', q))
    l = abs(_lead(d))
    p = unP({m: c / l for m, c in d.items()})
    return _ctxsimp(mk('lt', p))


def lt0(p):
    return _lift(_lt0, p)


def LT(a, b):
    return lt0(sub(a, b))


def LE(a, b):
    return NOT(lt0(sub(b, a)))


def _eq0(p):
    d = P(p)
    if not d:
        return ONE
    if len(d) == 1 and () in d:
        return ZERO
    if nonpos(d, True) or nonpos(dsub({}, d), True):
        return ZERO
    p = _posnorm(p)
    d = P(p)
    if len(d) == 1 and () in d:
        return ZERO
    if isint(p):
        g = 0
        for m, c in d.items():
            if m:
                g = gcd(g, int(c))
        if d.get((), F0) % g:
            return ZERO
    l = _lead(d)
    p = unP({m: c / l for m, c in d.items()})
    return _ctxsimp(mk('eq', p))


def isnumeric(t):
    d = P(t)
    for m in d:
        for a, e in m:
            if a.op in ('str', 'none', 'seq', 'struct', 'dict', 'tuple'):
                return False
    return True


def EQ(a, b):
    if a is b:
        return ONE
    if isnumeric(a) and isnumeric(b) and a.op != 'none' and b.op != 'none':
        return _lift(_eq0, sub(a, b))
    return _eqt(a, b)


def _eqt(a, b):
    if a is b:
        return ONE
    if distinct_const(a, b):
        return ZERO
    for x, y, fl in ((a, b, 0), (b, a, 1)):
        d = P(x)
        inds = [z for m in d for z, e in m if is_ind(z)]
        if inds and x.op == 'poly':
            z = inds[0]
            hi, lo = {}, {}
            for m, c in d.items():
                nm = tuple(q for q in m if q[0] is not z)
                hi[nm] = hi.get(nm, F0) + c
                if len(nm) == len(m):
                    lo[nm] = lo.get(nm, F0) + c
            return ite(z, _eqt(unP(hi), y), _eqt(unP(lo), y))
    if a.op in ('seq', 'struct', 'tuple') and b.op in ('none', 'str', 'num') or b.op in ('seq', 'struct', 'tuple') and a.op in ('none', 'str', 'num'):
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return _ctxsimp(mk('eqt', a, b))


def is01(t):
    if t.op == 'num':
        return t.args[0] in (0, 1)
    if is_ind(t):
        return True
    d = P(t)
    for m in d:
        for a, e in m:
            if not is_ind(a):
                return False
    if len(d) > 40:
        return False
    return mul(t, t) is t


def truth(t):
    if is01(t):
        return t
    if t.op == 'none':
        return ZERO
    if t.op == 'str':
        return ONE if t.args[0] else ZERO
    if t.op == 'seq':
        return NOT(EQ(length(t), ZERO))
    if t.op == 'poly' or isint_atom(t) or t.op == 'num':
        if all(not (a.op in ('none', 'str', 'seq')) for m in P(t) for a, e in m):
            return NOT(EQ(t, ZERO))
        # piecewise over non numeric values
        d = P(t)
        inds = [z for m in d for z, e in m if is_ind(z)]
        if inds:
            z = inds[0]
            hi, lo = {}, {}
            for m, c in d.items():
                nm = tuple(q for q in m if q[0] is not z)
                hi[nm] = hi.get(nm, F0) + c
                if len(nm) == len(m):
                    lo[nm] = lo.get(nm, F0) + c
            return ite(z, truth(unP(hi)), truth(unP(lo)))
    return _ctxsimp(mk('truth', t))


def conj_lits(c):
    """literals implied by boolean polynomial c being 1"""
    out = []
    atoms = {a for m in P(c) for a, e in m if is_ind(a)}
    if len(atoms) > 14:
        return out
    for a in sorted(atoms, key=lambda x: x.id):
        x = mul(c, a)
        if x is c:
            out.append((a, True))
        elif x is ZERO:
            out.append((a, False))
    for a, pol in list(out):
        if a.op == 'opq01':
            out += conj_lits(a.args[0] if pol else NOT(a.args[0]))
    return out


OPAQUE = 3


def opaque(c):
    """one atom for a condition whose expansion is long (its value stays its definition)"""
    if c.op == 'poly' and len(P(c)) > OPAQUE:
        return mk('opq01', c)
    return c


class assume:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.save = CTX.lits
        CTX.push(conj_lits(self.c) if isinstance(self.c, T) else self.c)

    def __exit__(self, *a):
        CTX.lits = self.save


# ---------------------------------------------------------------- functions
EVEN = ('cos', 'abs')
ODD = ('sin', 'cbrt', 'round')


def fn(name, *args):
    if name == 'sqrt':
        a = args[0]
        if a.op == 'num' and a.args[0] >= 0:
            from math import isqrt
            n, dd = a.args[0].numerator, a.args[0].denominator
            if isqrt(n) ** 2 == n and isqrt(dd) ** 2 == dd:
                return num(Fraction(isqrt(n), isqrt(dd)))
        return mk('fn', 'sqrt', a)
    if name == 'abs':
        a = args[0]
        if a.op == 'num':
            return num(abs(a.args[0]))
        if poly_nonneg(a):
            return a
        if _lead(P(a)) < 0:
            a = neg(a)
        return mk('fn', 'abs', a)
    if name == 'cos' and args[0].op != 'num' and _lead(P(args[0])) < 0:
        return mk('fn', name, neg(args[0]))
    if name == 'sin' and args[0].op != 'num' and _lead(P(args[0])) < 0:
        return neg(mk('fn', name, neg(args[0])))
    if name == 'pow':
        b, e = args
        if e.op == 'num':
            v = e.args[0]
            if v.denominator == 1 and abs(v) <= 8:
                return powi(b, int(v))
            if v == Fraction(1, 2):
                return fn('sqrt', b)
            if v == Fraction(-1, 2):
                return inv(fn('sqrt', b))
        return mk('fn', 'pow', b, e)
    if name == 'trunc':
        a = args[0]
        if isint(a):
            return a
        if a.op == 'num':
            return num(int(a.args[0]))
        return _liftfn('trunc', a)
    if name == 'floor' or name == 'ceil':
        a = args[0]
        if isint(a):
            return a
        if a.op == 'num':
            import math
            return num(math.floor(a.args[0]) if name == 'floor' else math.ceil(a.args[0]))
        return mk('fn', name, a)
    if name == 'idiv':
        a, b = args
        if a.op == 'num' and b.op == 'num' and b.args[0]:
            q = a.args[0] / b.args[0]
            return num(int(q))
        if b is ONE:
            return a
        return mk('fn', 'idiv', a, b)
    if name == 'imod':
        a, b = args
        if a.op == 'num' and b.op == 'num' and b.args[0]:
            return num(a.args[0] % b.args[0])
        return mk('fn', 'imod', a, b)
    if name in ('max', 'min'):
        flat = []
        for a in args:
            if a.op == 'fn' and a.args[0] == name:
                flat.extend(a.args[1:])
            else:
                flat.append(a)
        consts = [a.args[0] for a in flat if a.op == 'num']
        rest = sorted({a for a in flat if a.op != 'num'}, key=lambda x: x.id)
        if consts:
            c = max(consts) if name == 'max' else min(consts)
            if not rest:
                return num(c)
            rest.append(num(c))
        if len(rest) == 1:
            return rest[0]
        return mk('fn', name, *rest)
    return mk('fn', name, *args)


def _liftfn(name, a):
    d = P(a)
    inds = sorted({z for m in d for z, e in m if is_ind(z)}, key=lambda x: x.id)
    if inds and len(inds) <= 5:
        z = inds[0]
        hi, lo = {}, {}
        for m, c in d.items():
            nm = tuple(q for q in m if q[0] is not z)
            hi[nm] = hi.get(nm, F0) + c
            if len(nm) == len(m):
                lo[nm] = lo.get(nm, F0) + c
        return add(mul(z, fn(name, unP(hi))), mul(NOT(z), fn(name, unP(lo))))
    return mk('fn', name, a)


# ---------------------------------------------------------------- binders
_fresh = [0]


def fresh_iv(flags='n'):
    _fresh[0] += 1
    return mk('iv', 'x%d' % _fresh[0], flags)


def bind(ivar, *parts):
    """close over ivar -> bind(bv, parts)"""
    h = max([p.h for p in parts] + [0])
    b = mk('bv', h, ivar.args[1])
    parts = tuple(subst(p, {ivar: b}) for p in parts)
    h2 = max([p.h for p in parts] + [0])
    if h2 != h:
        raise TooBig('binder height')
    return mk('bind', b, *parts)


def open_bind(b):
    x = fresh_iv(b.args[0].args[1])
    return x, tuple(subst(p, {b.args[0]: x}) for p in b.args[1:])


def SUM(ivar, body):
    """formal sum over ivar of body; body carries its own domain indicators"""
    d = P(body)
    out = ZERO
    groups = {}
    for m, c in d.items():
        inside = tuple((a, e) for a, e in m if ivar in a.fv)
        outside = tuple((a, e) for a, e in m if ivar not in a.fv)
        groups.setdefault(inside, {})[outside] = groups.get(inside, {}).get(outside, F0) + c
    for inside, od in groups.items():
        if not inside:
            # no dependence at all: formally divergent, keep explicit
            s = mk('sum', bind(ivar, ONE))
        else:
            s = mk('sum', bind(ivar, unP({inside: F1})))
        # count over [iv<n] for nonneg iv is n (if n>=0)
        s = _count(s)
        out = add(out, mul(unP(od), s))
    return out


def _count(s):
    b = s.args[0]
    bv, body = b.args[0], b.args[1]
    if body.op == 'lt' and 'n' in bv.args[1]:
        p = P(body.args[0])
        if p.get(((bv, 1),)) == 1:
            r = {m: -c for m, c in p.items() if m != ((bv, 1),)}
            t = unP(r)
            if bv not in t.fv and poly_nonneg(t):
                return t
    return s


def ANY(ivar, body):
    """exists iv. body  (boolean)"""
    if body is ZERO:
        return ZERO
    if ivar not in body.fv:
        return body
    return mk('any', bind(ivar, body))


# ---------------------------------------------------------------- sequences
def seq(*items):
    return mk('seq', tuple(items))


def one(v, g=ONE):
    return mk('one', g, v)


def seq_items(t):
    """items of t seen as a list"""
    if t.op == 'seq':
        return t.args[0]
    return (mk('spread', ONE, t),)


def guard_item(it, c):
    if c is ONE:
        return it
    if it.op in ('one', 'spread'):
        g = mul(c, it.args[0])
        if g is ZERO:
            return None
        return mk(it.op, g, it.args[1])
    if it.op == 'forseg':
        x, parts = open_bind(it.args[0])
        return forseg(x, mul(c, parts[0]), parts[1])
    return None


def forseg(ivar, dom, body):
    return mk('forseg', bind(ivar, dom, body))


def append(t, v, g=ONE):
    return seq(*(seq_items(t) + (one(v, g),)))


FNVAL = ('bound', 'pyfn', 'fnsel')


def ite_any(c, a, b):
    """ite over any values (sequences merge item-wise)"""
    if a is b or c is ONE:
        return a
    if c is ZERO:
        return b
    if a.op in FNVAL or b.op in FNVAL:
        return mk('fnsel', c, a, b)
    if a.op == 'seq' or b.op == 'seq':
        if isnumeric_scalar(a) or isnumeric_scalar(b):
            return ite(c, a, b)
        ia, ib = seq_items(a), seq_items(b)
        if a.op == 'seq' and b.op == 'seq' and len(ia) == len(ib) and all(x.op == 'one' and x.args[0] is ONE for x in ia + ib):
            return seq(*[one(ite_any(c, x.args[1], y.args[1])) for x, y in zip(ia, ib)])
        k = 0
        while k < len(ia) and k < len(ib) and ia[k] is ib[k]:
            k += 1
        if a.op != 'seq' and k == 0 or b.op != 'seq' and k == 0:
            if not (a.op == 'seq' and not ia) and not (b.op == 'seq' and not ib):
                return ite(c, a, b)
        items = list(ia[:k])
        for it in ia[k:]:
            items.append(guard_item(it, c))
        for it in ib[k:]:
            items.append(guard_item(it, NOT(c)))
        items = [i for i in items if i is not None]
        return seq(*items)
    if a.op == 'struct' and b.op == 'struct' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        return mk('struct', a.args[0], tuple((n, ite_any(c, x, y)) for (n, x), (_, y) in zip(a.args[1], b.args[1])))
    return ite(c, a, b)


def isnumeric_scalar(t):
    return t.op in ('num', 'none', 'str', 'lt', 'eq')


def length(t):
    if t.op == 'seq':
        r = ZERO
        for it in t.args[0]:
            r = add(r, _itemlen(it))
        return r
    if t.op == 'upd':
        return length(t.args[0])
    if t.op == 'sorted':
        return length(t.args[0])
    if t.op == 'arr':
        return length(t.args[0])
    if t.op == 'str':
        return num(len(t.args[0]))
    if t.op == 'poly':
        r = piecewise(t, length)
        if r is not None:
            return r
    return mk('len', t)


def _itemlen(it):
    if it.op == 'one':
        return it.args[0]
    if it.op == 'spread':
        return mul(it.args[0], length(it.args[1]))
    x, (dom, body) = open_bind(it.args[0])
    s = ZERO
    for i in seq_items(body):
        s = add(s, _itemlen(i))
    return SUM(x, mul(dom, s))


def piecewise(t, f):
    """apply f to each leaf of a piecewise non-numeric value: sum of ind*atom"""
    out = ZERO
    for m, c in P(t).items():
        objs = [a for a, e in m if not is_ind(a)]
        if len(objs) != 1 or dict(m)[objs[0]] != 1:
            if not objs:
                return None
            return None
        inds = unP({tuple((a, e) for a, e in m if is_ind(a)): c})
        out = add(out, mul(inds, f(objs[0])))
    return out


def field(t, name):
    if t.op == 'struct':
        for n, v in t.args[1]:
            if n == name:
                return v
    if t.op == 'upd':
        pass
    if t.op == 'poly':
        r = piecewise(t, lambda x: field(x, name))
        if r is not None:
            return r
    return mk('fld', t, name)


def index(t, i):
    if t.op == 'arr':
        return index(t.args[0], i)
    if t.op == 'seq':
        its = t.args[0]
        if all(x.op == 'one' and x.args[0] is ONE for x in its):
            if i.op == 'num' and i.args[0].denominator == 1:
                k = int(i.args[0])
                if -len(its) <= k < len(its):
                    return its[k].args[1]
        elif i.op == 'num' and i.args[0] >= 0 and all(x.op == 'one' and x.args[0] is ONE for x in its[:int(i.args[0]) + 1]) and len(its) > i.args[0]:
            return its[int(i.args[0])].args[1]
        if len(its) == 1 and its[0].op == 'forseg':
            x, (dom, body) = open_bind(its[0].args[0])
            bi = seq_items(body)
            if len(bi) == 1 and bi[0].op == 'one' and bi[0].args[0] is ONE:
                # dense comprehension over 0 <= x < n
                if dense_from_zero(x, dom):
                    return subst(bi[0].args[1], {x: i})
        if len(its) == 1 and its[0].op == 'spread' and its[0].args[0] is ONE:
            return index(its[0].args[1], i)
    if t.op == 'upd':
        base, path, v, g = t.args
        # path is a tuple of indices/fields
        if len(path) == 1 and isinstance(path[0], T):
            c = EQ(path[0], i)
            if c is ONE:
                return ite_any(g, v, index(base, i))
            if c is ZERO:
                return index(base, i)
            return ite_any(mul(g, c), v, index(base, i))
    if t.op == 'poly':
        r = piecewise(t, lambda x: index(x, i))
        if r is not None:
            return r
    return mk('idx', t, i)


def dense_from_zero(x, dom):
    """dom is exactly [x < n] (x >= 0)"""
    if 'n' not in x.args[1]:
        return False
    d = P(dom)
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][0].op == 'lt':
            p = P(m[0][0].args[0])
            return p.get(((x, 1),)) == 1 and sum(1 for mm in p for a, e in mm if a is x) == 1
    return False


# ---------------------------------------------------------------- substitution
def subst(t, mp, memo=None):
    """replace variable terms (iv/bv/mu/hole/sym...) and re-normalise"""
    deep = any(type(k) is tuple or k.op not in ('iv', 'bv', 'mu', 'hole') for k in mp)
    if not t.fv and not deep:
        return t
    if memo is None:
        memo = {}
    return _subst(t, mp, memo, deep)


def _subst(t, mp, memo, deep):
    r = mp.get(t)
    if r is not None:
        return r
    if not deep and (not t.fv or t.fv.isdisjoint(mp)):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    S = lambda x: _subst(x, mp, memo, deep)
    op, a = t.op, t.args
    if op in ('num', 'str', 'none', 'iv', 'bv', 'mu', 'sym', 'this', 'param', 'local'):
        r = t
    elif op == 'hole':
        r = mk('hole', *[S(x) if isinstance(x, T) else x for x in a])
        f = mp.get((a[0], a[2])) if len(a) > 2 else None
        if f is not None:
            r = f[0] if f[0] is ONE else subst(f[0], {f[1]: r.args[1]})
    elif op == 'poly':
        acc = {}
        for m, c in a[0]:
            ys = None
            for at, e in m:
                y = S(at.args[0]) if at.op == 'den' else S(at)
                if y is not (at.args[0] if at.op == 'den' else at):
                    ys = True
            if ys is None:
                acc[m] = acc.get(m, F0) + c
                continue
            x = num(c)
            for at, e in m:
                if at.op == 'den':
                    x = mul(x, powi(inv(S(at.args[0])), -e))
                else:
                    x = mul(x, powi(S(at), e))
                if x is ZERO:
                    break
            if x is not ZERO:
                for m2, c2 in P(x).items():
                    acc[m2] = acc.get(m2, F0) + c2
        r = unP(acc)
    elif op == 'den':
        r = mk('den', S(a[0]))
    elif op == 'lt':
        r = lt0(S(a[0]))
    elif op == 'eq':
        r = EQ(S(a[0]), ZERO)
    elif op == 'eqt':
        r = EQ(S(a[0]), S(a[1]))
    elif op == 'truth':
        r = truth(S(a[0]))
    elif op == 'opq01':
        r = opaque(S(a[0]))
    elif op == 'sel':
        r = ite_any(S(a[0]), S(a[1]), S(a[2]))
    elif op == 'any':
        x, (body,) = open_bind(a[0])
        r = ANY(x, S(body))
    elif op == 'sum':
        x, (body,) = open_bind(a[0])
        r = SUM(x, S(body))
    elif op == 'fn':
        r = fn(a[0], *[S(x) for x in a[1:]])
    elif op == 'fld':
        r = field(S(a[0]), a[1])
    elif op == 'idx':
        r = index(S(a[0]), S(a[1]))
    elif op == 'len':
        r = length(S(a[0]))
    elif op == 'forseg':
        x, (dom, body) = open_bind(a[0])
        r = forseg(x, S(dom), S(body))
    elif op == 'bind':
        x, parts = open_bind(t)
        r = bind(x, *[S(p) for p in parts])
    elif op == 'seq':
        items = []
        for it in a[0]:
            y = S(it)
            if y.op in ('one', 'spread') and y.args[0] is ZERO:
                continue
            if y.op == 'spread' and y.args[1].op == 'seq':
                for z in y.args[1].args[0]:
                    z = guard_item(z, y.args[0])
                    if z is not None:
                        items.append(z)
                continue
            items.append(y)
        r = seq(*items)
    else:
        r = mk(op, *[_substarg(x, S) for x in a])
    memo[t] = r
    return r


def _substarg(x, S):
    if isinstance(x, T):
        return S(x)
    if isinstance(x, tuple):
        return tuple(_substarg(y, S) for y in x)
    return x


def walk(t, seen=None):
    """all distinct subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return seen


# ---------------------------------------------------------------- printing
def show(t, d=0, lim=6):
    if not isinstance(t, T):
        return str(t)
    if d > lim:
        return '..'
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1, lim)
    if op == 'num':
        v = a[0]
        if v.denominator != 1 and v.denominator > 1000:
            return '%.10g' % float(v)
        return str(v)
    if op == 'poly':
        out = []
        for m, c in a[0][:14]:
            fs = []
            for x, e in m:
                fs.append(s(x) if e == 1 else '%s^%s' % (s(x), e))
            cs = s(num(c))
            if not fs:
                out.append(cs)
            elif c == 1:
                out.append('*'.join(fs))
            elif c == -1:
                out.append('-' + '*'.join(fs))
            else:
                out.append(cs + '*' + '*'.join(fs))
        if len(a[0]) > 14:
            out.append('...(%d terms)' % len(a[0]))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')'
    if op == 'str':
        return repr(a[0])
    if op == 'none':
        return 'None'
    if op == 'iv':
        return 'i_%s' % a[0]
    if op == 'bv':
        return 'k%s' % a[0]
    if op == 'mu':
        return 'mu<%s>' % (s(a[2]) if isinstance(a[2], T) else a[2])
    if op == 'this':
        return 'self'
    if op in ('param', 'local', 'sym'):
        return str(a[0])
    if op == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'lt':
        return '[%s<0]' % s(a[0])
    if op == 'eq':
        return '[%s==0]' % s(a[0])
    if op == 'eqt':
        return '[%s==%s]' % (s(a[0]), s(a[1]))
    if op == 'opq01':
        return s(a[0])
    if op == 'truth':
        return '[?%s]' % s(a[0])
    if op == 'fn':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if op == 'bind':
        return '%s: %s' % (s(a[0]), ', '.join(s(x) for x in a[1:]))
    if op == 'seq':
        return '[' + ', '.join(s(x) for x in a[0]) + ']'
    if op == 'one':
        return s(a[1]) if a[0] is ONE else '%s if %s' % (s(a[1]), s(a[0]))
    if op == 'struct':
        return '%s{%s}' % (a[0], ', '.join('%s=%s' % (n, s(v)) for n, v in a[1]))
    return '%s(%s)' % (op, ', '.join(_sa(x, s) for x in a))


def _sa(x, s):
    if isinstance(x, T):
        return s(x)
    if isinstance(x, tuple):
        return '(' + ', '.join(_sa(y, s) for y in x) + ')'
    return str(x)


NONE = mk('none')


def string(x):
    return mk('str', x)


def tup(*xs):
    return seq(*[one(x) for x in xs])
