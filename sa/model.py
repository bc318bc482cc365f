"""Disequality of value-flow summaries.

Two summaries with different normal forms may still denote the same function.  The
decision "these terms differ" is taken by random interpretation of the *terms* (Gulwani
and Necula style polynomial identity testing): leaves get random values of their declared
kind, unknown operations are interpreted by hashing (congruence), binders range over
bounded index sets.  Only terms are evaluated; no code of the repository is run.  A
difference found here is a witness that the summaries denote different functions; if none
is found the pair stays undecided and is never reported.
"""
import hashlib
import math
import random
from fractions import Fraction
from functools import cmp_to_key
from . import terms as X
from .terms import T, P, ONE, ZERO
from .ev import comps


class Abort(Exception):
    pass


class Raised(Exception):
    pass


CAP = 9


def hsh(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big')


def larger(k, n):
    """has the key more than n parts?"""
    todo = [k]
    while todo:
        x = todo.pop()
        n -= 1
        if n < 0:
            return True
        if isinstance(x, tuple):
            todo.extend(x)
    return False


def compact(key):
    """keys share parts that would be written out again and again"""
    if isinstance(key, tuple):
        return tuple(('#', hsh(c)) if isinstance(c, tuple) and larger(c, 90) else c for c in key)
    return key


class Op:
    """opaque value"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = compact(key)

    def __repr__(self):
        return 'Op%r' % (self.key,)


MISSING = object()


class Slice(Op):
    """part of a sequence"""
    __slots__ = ('base', 'lo', 'n')

    def __init__(self, key, base, lo, n):
        self.key, self.base, self.lo, self.n = key, base, lo, n


class Obj:
    """object or sequence with overlaid components"""
    __slots__ = ('base', 'over')

    def __init__(self, base, over):
        self.base, self.over = base, over

    def __repr__(self):
        return 'Obj(%r,%r)' % (self.base, self.over)


class Leaf:
    """initial memory at a concrete location (an aggregate)"""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Leaf%r' % (self.loc,)


class Dict:
    """a dictionary: canonical key -> (key, value), in order of insertion"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return 'Dict%r' % (list(self.d.values()),)


class Kw(Op):
    __slots__ = ('val',)

    def __init__(self, key, val):
        Op.__init__(self, key)
        self.val = val


def rnd(x):
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return repr(x)
        if x == int(x) and abs(x) < 1e12:
            return int(x)
        return float('%.8g' % x)
    return x


EMPTY = frozenset()


class Model:
    """dom: object with .leaf(model, loc) -> value or None, .length(model, loc) -> int or None"""

    def __init__(self, seed, dom, pools=None):
        self.seed = seed
        self.dom = dom
        self.pools = pools or {}
        self.vals = {}
        self.lens = {}
        self.size = 2 + seed % 3
        self.ties = 2 if seed % 4 == 1 else 0       # comparisons to be made with equal sides
        self.read = set()
        self.forced = {}
        self.salt = (frozenset(), 0)

    def rng(self, *key):
        if self.salt[1] and len(key) > 1 and isinstance(key[1], tuple):
            fs = [c for c in key[1] if isinstance(c, str)]
            if fs and fs[-1] in self.salt[0]:
                key = key + (self.salt[1],)
        return random.Random(hsh((self.seed,) + key))

    def leaf(self, loc):
        v = self.vals.get(loc)
        if v is None:
            v = self.dom.leaf(self, loc)
            if v is None:
                v = self.default(loc)
            self.vals[loc] = v
        return v

    def default(self, loc):
        last = [c for c in loc if isinstance(c, str)]
        nm = last[-1] if last else ''
        r = self.rng('leaf', loc)
        pk = loc if loc in self.pools else (('*',) + (nm,) if (('*', nm) in self.pools) else None)
        if pk is not None:
            pool = self.pools[pk]
            if r.random() < 0.8:
                return pool[r.randrange(len(pool))]
        if nm in X.BOOLFIELDS:
            return float(r.randrange(2))
        if nm in X.INTFIELDS:
            return float(r.choice([0, 1, 2, 3, 1, 2]))
        if nm in X.POSITIVE:
            return r.choice([1.0, 2.0, 3.5, 4.0])
        return Leaf(loc)

    def number(self, loc):
        """numeric reading of an initial location"""
        self.read.add(loc)
        if loc in self.forced:
            return self.forced[loc]
        r = self.rng("num", loc)
        return r.choice([0.0, 1.0, -1.0, 0.5, 1.5, 2.0, -0.5, 0.25, 3.0, r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(0, 1)])

    def length(self, loc):
        n = self.lens.get(loc)
        if n is None:
            n = self.dom.length(self, loc)
            if n is None:
                n = self.rng('len', loc).randrange(0, self.size + 1)
            self.lens[loc] = n
        return n


class Run:
    strict = frozenset()
    relative = False            # tiny values are told apart too

    def __init__(self, model):
        self.m = model
        self.log = []           # (loc, value)
        self.events = []
        self.snap = {}          # iv -> log length
        self.memo = {}
        self.vol = {}
        self.steps = 0

    # ------------------------------------------------------------ values
    def num(self, v):
        if isinstance(v, float):
            return v
        if isinstance(v, (int, Fraction)):
            return float(v)
        if isinstance(v, Leaf):
            return self.m.number(v.loc)
        if isinstance(v, Op):
            return ((hsh((self.m.seed, 'op', v.key)) % 4001) - 2000) / 512.0
        if isinstance(v, str):
            return ((hsh(('s', v)) % 4001) - 2000) / 256.0
        if v is None:
            return -77.125
        if isinstance(v, (Obj, list, tuple, dict, Dict)):
            return ((hsh((self.m.seed, 'agg', self.key(v))) % 4001) - 2000) / 512.0
        raise Abort('number of %r' % (v,))

    def key(self, v):
        """hashable canonical form"""
        if isinstance(v, float):
            return rnd(v)
        if isinstance(v, (str, int)) or v is None:
            return v
        if isinstance(v, Leaf):
            if self.isseq(v):
                return ('L',) + tuple(self.key(x) for x in self.items(v))
            if self.m.salt[0]:
                fs = [c for c in v.loc if isinstance(c, str)]
                if fs and fs[-1] in self.m.salt[0]:
                    return ('leaf', self.m.salt[1]) + v.loc
            return ('leaf',) + v.loc
        if isinstance(v, Op):
            return ('op', v.key)
        if isinstance(v, (list, tuple)):
            return ('L',) + tuple(self.key(x) for x in v)
        if isinstance(v, Obj):
            b = v.base
            if self.isseq(b) and all(isinstance(k, (int, float)) for k in v.over):
                return ('L',) + tuple(self.key(x) for x in self.items(v))
            items = []
            for k, x in v.over.items():
                kx = self.key(x)
                if kx != self.key(self.proj(b, k)):
                    items.append((str(k), kx))
            if not items:
                return self.key(b)
            return ('obj', self.key(b), tuple(sorted(items, key=repr)))
        if isinstance(v, Dict):
            return ('D',) + tuple(sorted(((k, self.key(x)) for k, (_, x) in v.d.items()), key=repr))
        if isinstance(v, dict):
            return ('struct',) + tuple((k, self.key(x)) for k, x in sorted(v.items()))
        raise Abort('key')

    def isseq(self, v):
        if isinstance(v, (list, tuple)):
            return True
        if isinstance(v, Leaf):
            return self.m.dom.isseq(v.loc)
        if isinstance(v, Obj):
            return self.isseq(v.base)
        return False

    def items(self, v):
        n = self.len(v)
        return [self.proj(v, k) for k in range(n)]

    def len(self, v):
        if isinstance(v, (list, tuple, str)):
            return len(v)
        if isinstance(v, Leaf):
            return self.m.length(v.loc)
        if isinstance(v, Obj):
            return self.len(v.base)
        if isinstance(v, Slice):
            return v.n
        if isinstance(v, Op):
            if isinstance(v.key, tuple) and len(v.key) == 3 and v.key[0] == 'proj' and v.key[2] == 'positions':
                return self.m.rng('natoms', v.key[1]).randrange(0, 4)
            return self.m.rng('oplen', v.key).randrange(0, self.m.size + 1)
        if isinstance(v, Dict):
            return len(v.d)
        if isinstance(v, (float, dict)) or v is None:
            return 0
        raise Abort('len')

    def proj(self, v, k):
        """component k (field name or integer index)"""
        if isinstance(k, float):
            if k == int(k):
                k = int(k)
        if isinstance(v, Obj):
            if isinstance(k, int) and k < 0:
                k += self.len(v)
            if k in v.over:
                return v.over[k]
            return self.proj(v.base, k)
        if isinstance(v, Dict):
            z = self.dkey(k)
            return v.d[z][1] if z in v.d else Op(('nokey', z))
        if isinstance(v, (list, tuple)):
            if isinstance(k, int):
                if -len(v) <= k < len(v):
                    return v[k]
                return Op(('oob', k))
            if isinstance(k, list) or isinstance(k, str):
                return Op(('proj', self.key(v), self.key(k)))
            return Op(('proj', self.key(v), self.key(k)))
        if isinstance(v, str) and isinstance(k, int) and -len(v) <= k < len(v):
            return v[k]
        if isinstance(v, Leaf):
            if not isinstance(k, (int, str)):
                k = self.key(k)
            if isinstance(k, int) and k < 0:
                k += self.len(v)
            return self.m.leaf(v.loc + (k,))
        if isinstance(v, dict):
            if k in v:
                return v[k]
            return Op(('nofield', k))
        if isinstance(v, Slice) and isinstance(k, int):
            if -v.n <= k < v.n:
                return self.proj(v.base, v.lo + k % v.n)
            return Op(('oob', k))
        if isinstance(v, Op):
            return Op(('proj', v.key, self.key(k)))
        if isinstance(v, float) and isinstance(k, str):
            raise Abort('attribute of a number')
        return Op(('proj', self.key(v), self.key(k)))

    def dkey(self, k):
        return repr(self.key(float(k) if isinstance(k, int) else k))

    def upd(self, v, path, x):
        if not path:
            return x
        k = path[0]
        if isinstance(v, Dict):
            d = dict(v.d)
            z = self.dkey(k)
            d[z] = (d[z][0] if z in d else k, self.upd(self.proj(v, k), path[1:], x))
            return Dict(d)
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if isinstance(v, list) and isinstance(k, int):
            if 0 <= k < len(v):
                w = list(v)
                w[k] = self.upd(v[k], path[1:], x)
                return w
            return v
        if isinstance(v, dict):
            w = dict(v)
            w[k] = self.upd(self.proj(v, k), path[1:], x)
            return w
        if not isinstance(k, (int, str)):
            k = repr(self.key(k))
        if isinstance(v, Obj):
            o = dict(v.over)
            o[k] = self.upd(self.proj(v, k), path[1:], x)
            return Obj(v.base, o)
        return Obj(v, {k: self.upd(self.proj(v, k), path[1:], x)})

    # ------------------------------------------------------------ memory
    def read(self, loc, upto=None):
        i = len(self.log) if upto is None else upto
        while i > 0:
            i -= 1
            l, v = self.log[i]
            n = min(len(l), len(loc))
            if l[:n] != loc[:n]:
                continue
            if len(l) <= len(loc):
                for k in loc[n:]:
                    v = self.proj(v, k)
                return v
            return self.upd(self.read(loc, i), l[n:], v)
        v = self.m.leaf(loc[:1])
        for k in loc[1:]:
            v = self.proj(v, k)
        return v

    def loc(self, path, env):
        out = []
        for c in comps(path):
            if c.op == 'fld':
                out.append(c.args[1])
            elif c.op == 'idx':
                k = self.ev(c.args[1], env)
                if isinstance(k, float):
                    if abs(k - round(k)) < 1e-9:
                        k = int(round(k))
                    else:
                        k = ('f', rnd(k))
                elif not isinstance(k, (int, str)):
                    k = repr(self.key(k))
                out.append(k)
            else:
                out.append(self.rootkey(c))
        return tuple(out)

    def rootkey(self, c):
        if c.op == 'this':
            return ('this',)
        return (c.op,) + tuple(a if not isinstance(a, T) else X.show(a) for a in c.args[:2])

    # ------------------------------------------------------------ evaluation
    def volatile(self, t):
        v = self.vol.get(t)
        if v is None:
            v = self.unbound(t)
            self.vol[t] = v
        return v

    def unbound(self, t):
        """loop values, recurrence slots and comparator arguments a term depends on"""
        v = self.vol.get(t)
        if v is not None:
            return v
        if t.op == 'cur' or t.op == 'rv' or t.op == 'sym' and t.args[0].startswith('$'):
            v = frozenset([t])
        else:
            v = EMPTY
            st = list(t.args)
            while st:
                a = st.pop()
                if isinstance(a, tuple):
                    st.extend(a)
                elif isinstance(a, T):
                    u = self.unbound(a)
                    if u:
                        v = v | u
            if v:
                if t.op == 'sorted':
                    v = frozenset(x for x in v if x.op != 'sym')
                elif t.op == 'rec':
                    v = frozenset(x for x in v if not (x.op == 'rv' and x.args[0] == t.args[2]))
        self.vol[t] = v
        return v

    def ev(self, t, env):
        op = t.op
        if op == 'num':
            a = t.args[0]
            return float(a)
        if op in ('iv', 'bv'):
            try:
                return env[t]
            except KeyError:
                raise Abort('free %s' % t)
        if op in ('rv',):
            return env[t]
        if t.fv:
            k = (t,) + tuple(env.get(v) for v in sorted(t.fv, key=lambda z: z.id))
        else:
            k = t
        vol = self.volatile(t)
        if not vol:
            r = self.memo.get(k, self)
            if r is not self:
                return r
        self.steps += 1
        if self.steps > 3000000:
            raise Abort('too many steps')
        r = getattr(self, 'v_' + op, self.v_other)(t, env)
        if not vol:
            self.memo[k] = r
        return r

    def n(self, t, env):
        return self.num(self.ev(t, env))

    def v_poly(self, t, env):
        tot = 0.0
        nonnum = MISSING
        cnt = 0
        live = {}
        for m, c in t.args[0]:
            dead = False
            rest = []
            for a, e in m:
                if X.is_ind(a):
                    if not self.ev(a, env):
                        dead = True
                        break
                else:
                    rest.append((a, e))
            if dead:
                continue
            k = tuple(rest)
            live[k] = live.get(k, 0) + c
        for rest, c in live.items():
            if not c:
                continue
            f = float(c)
            if len(rest) == 1 and rest[0][1] == 1 and c == 1:
                v = self.ev(rest[0][0], env)
                if not isinstance(v, float):
                    cnt += 1
                    nonnum = v
                    z = self.tensor(v)
                    tot = self.tadd(tot, z if z is not None else self.num(v))
                    continue
                tot = self.tadd(tot, v)
                cnt += 1
                continue
            for a, e in rest:
                v = self.ev(a, env)
                x = self.tensor(v)
                if x is None:
                    x = self.num(v)
                f = self.tmul(f, self.tpow(x, e))
            cnt += 1
            tot = self.tadd(tot, f)
        if nonnum is not MISSING and cnt == 1:
            return nonnum
        return tot

    def tensor(self, v):
        """nested lists of numbers"""
        if isinstance(v, float):
            return v
        if isinstance(v, list) and not v:
            return None
        if isinstance(v, list) or (isinstance(v, (Leaf, Obj)) and self.isseq(v)):
            its = v if isinstance(v, list) else self.items(v)
            out = []
            for x in its:
                y = self.tensor(x)
                if y is None:
                    return None
                out.append(y)
            return out or None
        return None

    def tdot(self, x, y):
        dx, dy = self.tdepth(x), self.tdepth(y)
        if dx == 0 or dy == 0:
            return self.tmul(x, y)
        if dx > 1:
            return [self.tdot(r, y) for r in x]
        if len(x) != len(y):
            raise Abort('shape')
        r = 0.0
        for p, q in zip(x, y):
            r = self.tadd(r, self.tmul(p, q))
        return r

    def tpow(self, x, e):
        if e == 1:
            return x
        if isinstance(x, list):
            return [self.tpow(z, e) for z in x]
        try:
            r = x ** float(e)
        except ZeroDivisionError:
            return math.nan
        except OverflowError:
            return math.inf
        except TypeError:
            raise Abort('power')
        if isinstance(r, complex):
            raise Abort('complex')
        return r

    def tdepth(self, x):
        return 1 + self.tdepth(x[0]) if isinstance(x, list) else 0

    def tmap(self, f, x, y):
        if not isinstance(x, list) and not isinstance(y, list):
            return f(x, y)
        dx, dy = self.tdepth(x), self.tdepth(y)
        if dx > dy:
            return [self.tmap(f, z, y) for z in x]
        if dy > dx:
            return [self.tmap(f, x, z) for z in y]
        if len(x) == len(y):
            return [self.tmap(f, p, q) for p, q in zip(x, y)]
        if len(x) == 1:
            return [self.tmap(f, x[0], q) for q in y]
        if len(y) == 1:
            return [self.tmap(f, p, y[0]) for p in x]
        raise Abort('shape')

    def tadd(self, x, y):
        if isinstance(x, float) and isinstance(y, float):
            return x + y
        if isinstance(x, float) and x == 0.0:
            return y
        return self.tmap(lambda p, q: p + q, x, y)

    def tmul(self, x, y):
        try:
            if isinstance(x, float) and isinstance(y, float):
                return x * y
            if isinstance(x, float) and x == 1.0:
                return y
            return self.tmap(lambda p, q: p * q, x, y)
        except OverflowError:
            return math.inf

    def zero(self, p, env):
        v = self.n(p, env)
        if v == 0:
            return 0.0
        if abs(v) < 1e-7:
            s = 0.0
            for m, c in P(p).items():
                f = abs(float(c))
                for a, e in m:
                    if X.is_ind(a):
                        continue
                    x = abs(self.n(a, env))
                    f *= x ** float(e) if e != 1 else x
                s += f
            if abs(v) <= 1e-9 * max(s, 1e-30):
                return 0.0
        return v

    def tie(self, p, env):
        """equal sides: an input not used so far takes the value of the other side"""
        m = self.m
        terms = P(p)
        for mono, c in terms.items():
            if len(mono) != 1 or mono[0][1] != 1 or mono[0][0].op not in ('fld', 'sym') or not c:
                continue
            a = mono[0][0]
            if a.op == 'sym':
                continue
            try:
                v = self.ev(a, env)
            except Abort:
                continue
            if not isinstance(v, Leaf) or v.loc in m.read or self.isseq(v):
                continue
            saved, self.memo = self.memo, dict(self.memo)
            old = set(m.read)
            try:
                x = m.number(v.loc)
                z = self.n(p, env)
                if z != z or abs(z) > 1e6:
                    continue
                m.forced[v.loc] = x - z / float(c)
                self.memo = dict(saved)
                if self.zero(p, env) != 0:
                    del m.forced[v.loc]
                    m.read = old
                    continue
                m.ties -= 1
                return
            except Abort:
                m.forced.pop(v.loc, None)
                continue
            finally:
                self.memo = saved

    def v_lt(self, t, env):
        if self.m.ties > 0:
            self.tie(t.args[0], env)
        z = self.zero(t.args[0], env)
        if z != z:
            raise Abort('comparison of an undefined value')
        return 1.0 if z < 0 else 0.0

    def v_eq(self, t, env):
        z = self.zero(t.args[0], env)
        if z != z:
            raise Abort('comparison of an undefined value')
        return 1.0 if z == 0 else 0.0

    def v_eqt(self, t, env):
        return 1.0 if self.same(self.ev(t.args[0], env), self.ev(t.args[1], env)) else 0.0

    def v_truth(self, t, env):
        v = self.ev(t.args[0], env)
        return self.truthy(v)

    def truthy(self, v):
        if isinstance(v, float):
            return 1.0 if v else 0.0
        if v is None:
            return 0.0
        if isinstance(v, (str, list, tuple, dict)):
            return 1.0 if v else 0.0
        if isinstance(v, Dict):
            return 1.0 if v.d else 0.0
        if self.isseq(v):
            return 1.0 if self.len(v) else 0.0
        return float(hsh((self.m.seed, 'truth', self.key(v))) & 1)

    def v_any(self, t, env):
        b = t.args[0]
        body = b.args[1]
        for k in self.range(b.args[0], body, env):
            e2 = dict(env)
            e2[b.args[0]] = k
            if self.n(body, e2):
                return 1.0
        return 0.0

    def v_sum(self, t, env):
        b = t.args[0]
        s = 0.0
        for k in self.range(b.args[0], b.args[1], env):
            e2 = dict(env)
            e2[b.args[0]] = k
            v = self.ev(b.args[1], e2)
            z = self.tensor(v) if isinstance(v, list) else None
            s = self.tadd(s, z if z is not None else self.num(v))
        return s

    def v_prod(self, t, env):
        b = t.args[0]
        s = 1.0
        for k in self.range(b.args[0], b.args[1], env):
            e2 = dict(env)
            e2[b.args[0]] = k
            if self.n(b.args[1], e2):
                s *= self.n(b.args[2], e2)
        return s

    def v_pick(self, t, env):
        b = t.args[0]
        r = None
        found = False
        for k in self.range(b.args[0], b.args[1], env):
            e2 = dict(env)
            e2[b.args[0]] = k
            if self.n(b.args[1], e2):
                r, found = e2, True
        if not found:
            return Op(('nopick',))
        return self.ev(b.args[2], r)

    def bound(self, iv, guard, env):
        """upper bound of iv wherever guard can be non-zero, or None"""
        best = 0.0
        for m, c in P(guard).items():
            bs = []
            for a, e in m:
                if a.op in ('lt', 'eq') and iv in a.fv:
                    p = P(a.args[0])
                    co = p.get(((iv, 1),))
                    if co is None or a.op == 'lt' and co < 0:
                        continue
                    if sum(1 for mm in p for x, _ in mm if iv in x.fv) != 1:
                        continue
                    e2 = dict(env)
                    e2[iv] = 0.0
                    try:
                        r = self.n(a.args[0], e2)
                    except Abort:
                        continue
                    # co*iv + r < 0   /  == 0
                    bs.append(math.ceil(-r / float(co) - 1e-9) if a.op == 'lt' else math.floor(-r / float(co) + 1e-9) + 1)
            if not bs:
                return None
            best = max(best, min(bs))
        return best

    def range(self, iv, guard, env):
        b = self.bound(iv, guard, env)
        if b is None:
            return self.probe(iv, guard, env)
        if b > 400:
            raise Abort('large range')
        return [float(k) for k in range(int(max(0, b)))]

    def v_rec(self, t, env):
        raise Abort('bare rec')

    def runrec(self, rec, env, upto):
        inits, b, h = rec.args
        iv = b.args[0]
        D = b.args[1]
        k = None
        c = None
        if not self.volatile(rec):
            k = ('rec', rec) + tuple(env.get(v) for v in sorted(rec.fv, key=lambda z: z.id))
            c = self.memo.get(k)
        if c is None:
            c = [[self.ev(x, env) for x in inits]]
            if k is not None:
                self.memo[k] = c
        if upto is not None:
            n = int(max(0, upto))
        else:
            bd = self.bound(iv, D, env)
            n = int(max(0, bd)) if bd is not None else 60
        if len(c) <= n:
            rvs = [X.mk('rv', h, j) for j in range(len(inits))]
            e2 = dict(env)
            while len(c) <= n:
                e2[iv] = float(len(c) - 1)
                st = c[-1]
                for r, v in zip(rvs, st):
                    e2[r] = v
                go = self.n(D, e2)
                if go and len(c) > 60 and upto is None and bd is None:
                    raise Abort('unbounded recurrence')
                c.append([self.ev(x, e2) for x in b.args[2:]] if go else st)
        return c[n]

    def probe(self, iv, guard, env):
        """no syntactic bound: until the condition has failed CAP times in a row"""
        quiet, k = 0, 0
        while quiet < CAP:
            if k > 60:
                raise Abort('unbounded range')
            v = self.ev(guard, dict(env) | {iv: float(k)})
            on = any(v) if isinstance(v, list) else bool(self.num(v))
            quiet = 0 if on else quiet + 1
            yield float(k)
            k += 1

    def v_fin(self, t, env):
        return self.runrec(t.args[0], env, None)[0]

    def v_recat(self, t, env):
        return self.runrec(t.args[0], env, self.n(t.args[1], env))[0]

    def v_fn(self, t, env):
        nm = t.args[0]
        if nm in ('max', 'min') and len(t.args) > 2:
            xs = [self.n(a, env) for a in t.args[1:]]
            return max(xs) if nm == 'max' else min(xs)
        if nm == 'dot':
            a, b = self.ev(t.args[1], env), self.ev(t.args[2], env)
            x, y = self.tensor(a), self.tensor(b)
            if x is not None and y is not None:
                return self.tdot(x, y)
            ks = [self.key(a), self.key(b)]
            if x is None and y is None:
                ks.sort(key=repr)
            return Op(('dot',) + tuple(ks))
        vals = [self.ev(a, env) for a in t.args[1:]]
        f = MATHF.get(nm)
        if f is not None and any(isinstance(v, list) for v in vals):
            ts = [self.tensor(v) if isinstance(v, list) else self.num(v) for v in vals]
            if all(z is not None for z in ts):
                if len(ts) == 1:
                    return self.tmap(lambda p, q: self.scalarf(f, p), ts[0], 0.0)
                if len(ts) == 2:
                    return self.tmap(lambda p, q: self.scalarf(f, p, q), ts[0], ts[1])
        if f is not None:
            try:
                xs = [self.num(v) for v in vals]
                r = f(*xs)
                if isinstance(r, complex):
                    raise Abort('complex')
                return float(r)
            except (ValueError, ZeroDivisionError, OverflowError):
                pass
        if nm == 'str':
            return self.text(vals[0], self.spec(vals[1]) if len(vals) > 1 else 's')
        if nm == 'fmt':
            if len(vals) == 2 and isinstance(vals[1], list):
                vals = [vals[0]] + vals[1]
            return self.fmt(vals[0], vals[1:])
        if nm == 'concat':
            out = []
            if all(isinstance(v, list) or self.isseq(v) for v in vals):
                for v in vals:
                    out.extend(self.items(v))
                return out
            if any(isinstance(v, str) for v in vals):
                return ''.join(self.text(v) for v in vals)
        if nm == 'cross':
            va, vb = self.vec(vals[0]), self.vec(vals[1])
            if va is not None and vb is not None and len(va) == len(vb) == 3:
                return [va[1] * vb[2] - va[2] * vb[1], va[2] * vb[0] - va[0] * vb[2], va[0] * vb[1] - va[1] * vb[0]]
        if nm == 'repeatseq':
            a, b = vals
            if isinstance(b, (list, str)):
                a, b = b, a
            if isinstance(a, (list, str)) and isinstance(b, float) and 0 <= b <= 50:
                return a * int(b)
        if nm in self.strict:
            raise Abort('uninterpreted ' + nm)
        k = tuple(self.key(v) for v in vals)
        if nm == 'dist':
            # the minimum image distance is symmetric
            k = tuple(sorted(k, key=repr))
        elif nm.startswith('disp') and nm[4:].isdigit():
            # and the displacement antisymmetric
            if repr(k[0]) > repr(k[1]):
                return -self.num(Op((nm, k[1], k[0])))
        return Op((nm,) + k)

    def scalarf(self, f, *xs):
        try:
            r = f(*xs)
        except (ValueError, ZeroDivisionError, OverflowError):
            return math.nan
        if isinstance(r, complex):
            raise Abort('complex')
        return float(r)

    def vec(self, v):
        if isinstance(v, (list, tuple)):
            return [self.num(x) for x in v]
        if self.isseq(v):
            return [self.num(x) for x in self.items(v)]
        return None

    def v_sym(self, t, env):
        if t in env:
            return env[t]
        nm, fl = t.args[0], t.args[1]
        loc = (('sym', nm),)
        if loc in self.m.vals:
            return self.m.vals[loc]
        v = self.m.dom.leaf(self.m, loc)
        if v is None:
            r = self.m.rng('sym', nm)
            pool = self.m.pools.get(loc)
            if pool and r.random() < 0.7:
                v = pool[r.randrange(len(pool))]
            elif 'i' in fl:
                v = float(r.choice([0, 1, 2, 1, 2, 3]))
            else:
                v = r.choice([0.0, 0.5, 1.0, 1.5, 2.0, -0.5, r.uniform(-2, 3)])
                if 'p' in fl or 'n' in fl:
                    v = abs(v)
        self.m.vals[loc] = v
        return v

    def v_opq01(self, t, env):
        return self.ev(t.args[0], env)

    def v_sel(self, t, env):
        return self.ev(t.args[1] if self.n(t.args[0], env) else t.args[2], env)

    def v_param(self, t, env):
        return self.m.leaf((self.rootkey(t),))

    v_this = v_param
    v_local = v_param
    v_new = v_param

    salt = None

    def v_undef(self, t, env):
        """what an unassigned variable holds; arbitrary"""
        return Op(('undef', self.salt) + tuple(str(a) for a in t.args))

    def v_glob(self, t, env):
        return Op(('glob', t.args[0]))

    def v_fld(self, t, env):
        v = self.ev(t.args[0], env)
        if t.args[1] == 'T':
            z = self.tensor(v)
            if self.tdepth(z) == 2:
                return [list(r) for r in zip(*z)]
            return Op(('numpy.transpose', self.key(v)))
        return self.proj(v, t.args[1])

    def v_idx(self, t, env):
        k = self.ev(t.args[1], env)
        if isinstance(k, float) and abs(k - round(k)) < 1e-9:
            k = int(round(k))
        elif isinstance(k, (Leaf, Op)):
            x = self.num(k)
            k = self.key(k) if x != int(x) else int(x)
        return self.proj(self.ev(t.args[0], env), k)

    def v_len(self, t, env):
        return float(self.len(self.ev(t.args[0], env)))

    def v_str(self, t, env):
        return t.args[0]

    def v_none(self, t, env):
        return None

    def v_seq(self, t, env):
        out = []
        for k, it in enumerate(t.args[0]):
            if k == 0 and it.op == 'spread' and len(t.args[0]) > 1:
                # elements appended to an object that has attributes, too
                v = self.ev(it.args[1], env)
                if isinstance(v, Obj) and isinstance(v.base, Op) and any(isinstance(x, str) for x in v.over):
                    own = {x: y for x, y in v.over.items() if isinstance(x, str)}
                    self.seqitem(it, env, out)
                    for it in t.args[0][1:]:
                        self.seqitem(it, env, out)
                    return Obj(out, own)
            self.seqitem(it, env, out)
        return out

    def seqitem(self, it, env, out):
        if it.op == 'one':
            if self.n(it.args[0], env):
                out.append(self.ev(it.args[1], env))
        elif it.op == 'spread':
            if self.n(it.args[0], env):
                v = self.ev(it.args[1], env)
                out.extend(self.items(v))
        elif it.op == 'forseg':
            b = it.args[0]
            for k in self.range(b.args[0], b.args[1], env):
                e2 = dict(env)
                e2[b.args[0]] = k
                if self.n(b.args[1], e2):
                    v = self.ev(b.args[2], e2)
                    out.extend(v if isinstance(v, list) else self.items(v))
        else:
            raise Abort('seq item %s' % it.op)
        if len(out) > 3000:
            raise Abort('long sequence')

    def v_struct(self, t, env):
        return {n: self.ev(v, env) for n, v in t.args[1]}

    def v_dict(self, t, env):
        d = {}
        for k, v in t.args[0]:
            if k is X.NONE:
                w = self.ev(v, env)
                if not isinstance(w, Dict):
                    raise Abort('unpacked dictionary')
                d.update(w.d)
                continue
            k = self.ev(k, env)
            d[self.dkey(k)] = (k, self.ev(v, env))
        return Dict(d)

    def v_dictof(self, t, env):
        d = {}
        for p in self.items(self.ev(t.args[0], env)):
            k = self.proj(p, 0)
            d[self.dkey(k)] = (k, self.proj(p, 1))
        return Dict(d)

    def v_upd(self, t, env):
        base, path, val, g = t.args
        b = self.ev(base, env)
        if not self.n(g, env):
            return b
        ks = []
        for k in path:
            ks.append(self.kv(k, env) if isinstance(k, T) else k)
        return self.upd(b, ks, self.ev(val, env))

    def kv(self, k, env):
        v = self.ev(k, env)
        if isinstance(v, float) and abs(v - round(v)) < 1e-9:
            return int(round(v))
        return v

    def v_updall(self, t, env):
        b, base, pat, kind = t.args
        state = [self.ev(base, env)]

        def go(b, env):
            iv, cond = b.args[0], b.args[1]
            for k in self.range(iv, cond, env):
                e2 = dict(env)
                e2[iv] = k
                if b.args[2].op == 'bind':
                    go(b.args[2], e2)
                    continue
                if not self.n(cond, e2):
                    continue
                it = iter(b.args[3:])
                ks = [self.kv(next(it), e2) if s == '[]' else s for s in pat]
                x = self.ev(b.args[2], e2)
                if kind != '=':
                    old = state[0]
                    for z in ks:
                        old = self.proj(old, z)
                    if kind == '+':
                        x = float(self.num(old) + self.num(x))
                    else:
                        x = list(self.items(old)) + list(self.items(x))
                state[0] = self.upd(state[0], ks, x)
        go(b, env)
        return state[0]

    def v_cur(self, t, env):
        iv, path = t.args
        if iv not in self.snap:
            raise Abort('cur outside its loop')
        return self.read(self.loc(path, env), self.snap[iv])

    def v_sorted(self, t, env):
        v = self.items(self.ev(t.args[0], env))
        key = t.args[1]
        if key.op == 'str':
            rev = key.args[0] == 'desc'
            if v and all(isinstance(z, str) for z in v):
                return sorted(v, reverse=rev)
            try:
                return sorted(v, key=lambda z: self.num(z), reverse=rev)
            except TypeError:
                raise Abort('sort')
        x, y = X.mk('sym', '$x', ''), X.mk('sym', '$y', '')

        def cmp(a, b):
            e2 = dict(env)
            e2[x], e2[y] = a, b
            if self.truthy(self.ev(key, e2)):
                return -1
            e2[x], e2[y] = b, a
            if self.truthy(self.ev(key, e2)):
                return 1
            return 0
        return sorted(v, key=cmp_to_key(cmp))

    def v_resized(self, t, env):
        v = self.items(self.ev(t.args[0], env))
        n = int(self.n(t.args[1], env))
        return (v + [self.ev(t.args[2], env)] * max(0, n - len(v)))[:n]

    def v_arr(self, t, env):
        return self.ev(t.args[0], env)

    def v_den(self, t, env):
        return self.ev(t.args[0], env)

    def v_ext(self, t, env):
        nm = t.args[0]
        vals = [self.ev(a, env) for a in t.args[1:]]
        if nm == 'slice' and all(isinstance(x, float) or x is None for x in vals[1:]) and (isinstance(vals[0], (list, str)) or self.isseq(vals[0])):
            v = vals[0] if isinstance(vals[0], (list, str)) else self.items(vals[0])
            f = lambda z: None if z is None else int(z)
            return v[f(vals[1]):f(vals[2])]
        if nm == 'slice' and isinstance(vals[0], (Op, Leaf, Obj)) and all(isinstance(x, float) and x == int(x) or x is None for x in vals[1:]):
            q = range(self.len(vals[0]))[slice(*[None if x is None else int(x) for x in vals[1:]])]
            return Slice((nm,) + tuple(self.key(v) for v in vals), vals[0], q.start, len(q))
        if nm == 'in' and isinstance(vals[1], Dict):
            return 1.0 if self.dkey(vals[0]) in vals[1].d else 0.0
        if nm == 'in' and isinstance(vals[0], str) and isinstance(vals[1], str):
            return 1.0 if vals[0] in vals[1] else 0.0
        if nm == 'in' and (isinstance(vals[1], list) or self.isseq(vals[1])):
            k = self.key(vals[0])
            return 1.0 if any(self.key(z) == k for z in self.items(vals[1])) else 0.0
        if nm == 'set':
            d = {}
            for z in self.items(vals[0]):
                d.setdefault(repr(self.key(z)), z)
            return [d[k] for k in sorted(d)]
        f = self.m.dom.ext(self.m, self, nm, vals) if hasattr(self.m.dom, 'ext') else None
        if f is not None:
            return f[0]
        if nm in self.strict:
            raise Abort('uninterpreted ' + nm)
        return Op((nm,) + tuple(self.key(v) for v in vals))

    def raw(self, t, env):
        """a call as such, whatever its result is known to look like"""
        if t.op == 'ext':
            return Op((t.args[0],) + tuple(self.key(self.ev(a, env)) for a in t.args[1:]))
        return self.ev(t, env)

    def v_range(self, t, env):
        lo, hi, st = (self.n(a, env) for a in t.args)
        if any(x != int(x) for x in (lo, hi, st)) or not st or abs(hi - lo) > 400:
            raise Abort('range')
        return [float(k) for k in range(int(lo), int(hi), int(st))]

    def v_enum(self, t, env):
        b = self.n(t.args[1], env)
        return [[b + k, x] for k, x in enumerate(self.items(self.ev(t.args[0], env)))]

    def v_zip(self, t, env):
        return [list(z) for z in zip(*[self.items(self.ev(a, env)) for a in t.args])]

    # ------------------------------------------------------------ text
    def text(self, v, spec='s'):
        """v formatted by a conversion such as d, f, 1.14f, s"""
        c = spec[-1:] or 's'
        if c in 'sr' and isinstance(v, str):
            try:
                return ('%' + spec.replace('r', 's')) % v
            except (ValueError, TypeError):
                raise Abort('format')
        if c in 'sr':
            if isinstance(v, float):
                v = '%d' % v if v == int(v) and abs(v) < 1e15 else repr(v) if v == v else 'nan'
            elif v is None:
                v = 'None'
            else:
                v = '<%s>' % hsh(('text', self.key(v)))
            return ('%' + spec.replace('r', 's')) % v if spec[:-1] else v
        if c in 'dfgeEGi':
            x = self.num(v)
            if x != x or math.isinf(x):
                return '%s' % x
            return ('%' + spec) % (int(x) if c in 'di' else x)
        raise Abort('format')

    def fmt(self, f, vals):
        import re
        if not isinstance(f, str):
            raise Abort('format')
        out, n, i = [], 0, 0
        if '%' in f:
            for m in re.finditer(r'%(%|[-+ 0#]*[0-9.]*[a-zA-Z])', f):
                out.append(f[i:m.start()])
                i = m.end()
                if m.group(1) == '%':
                    out.append('%')
                    continue
                if n >= len(vals):
                    raise Abort('format')
                out.append(self.text(vals[n], m.group(1)))
                n += 1
        else:
            for m in re.finditer(r'\{(\d*)(?::([^{}]*))?\}', f):
                out.append(f[i:m.start()])
                i = m.end()
                k = int(m.group(1)) if m.group(1) else n
                n += 1
                if k >= len(vals):
                    raise Abort('format')
                out.append(self.text(vals[k], self.spec(m.group(2))))
        if not n and len(vals):
            raise Abort('format')
        out.append(f[i:])
        return ''.join(out)

    def spec(self, z):
        z = z or 's'
        return z if z[-1].isalpha() else z + 's'

    def v_kwarg(self, t, env):
        v = self.ev(t.args[1], env)
        return Kw(('kw', t.args[0], self.key(v)), v)

    def v_other(self, t, env):
        if t.op in ('mu', 'memv', 'hole', 'loopend'):
            raise Abort(t.op)
        return Op((t.op,) + tuple(self.keyarg(a, env) for a in t.args))

    def keyarg(self, a, env):
        if isinstance(a, T):
            if a.op in ('bind',):
                raise Abort('bind')
            if a.op in ('fld', 'idx', 'this', 'param') and False:
                pass
            return self.key(self.ev(a, env))
        if isinstance(a, tuple):
            return tuple(self.keyarg(x, env) for x in a)
        return a

    def v_post(self, t, env):
        a, p = t.args
        key = self.key(self.raw(a, env))
        if p.op == 'str':
            return Op(('post', key, p.args[0]))
        loc = self.loc(p, env)
        root = ('post', hsh(key)) + loc[0]
        return self.m.leaf((root,) + tuple(loc[1:]))

    # ------------------------------------------------------------ effects
    def execute(self, effects, env=None, depth=0):
        env = env or {}
        i, n = 0, len(effects)
        while i < n:
            w = effects[i]
            if len(w.ivs) <= depth:
                self.one(w, env)
                i += 1
                continue
            iv = w.ivs[depth]
            j = i
            while j < n and len(effects[j].ivs) > depth and effects[j].ivs[depth] is iv:
                j += 1
            grp = effects[i:j]
            bd = 0
            for g in grp:
                b = self.bound(iv, g.guard, env)
                if b is None:
                    bd = None
                    break
                bd = max(bd, b)
            if bd is not None and bd > 400:
                raise Abort('large loop')
            k, quiet, before = -1, 0, -1
            while True:
                k += 1
                if bd is not None:
                    if k >= int(bd):
                        break
                else:
                    # no syntactic bound: until nothing has happened CAP times in a row
                    if k and self.fired == before:
                        quiet += 1
                    else:
                        quiet = 0
                    if quiet >= CAP:
                        break
                    if k > 60:
                        raise Abort('unbounded loop')
                    before = self.fired
                e2 = dict(env)
                e2[iv] = float(k)
                old = self.snap.get(iv)
                self.snap[iv] = len(self.log)
                # `cur` makes values depend on memory
                self.execute(grp, e2, depth + 1)
                if old is None:
                    self.snap.pop(iv, None)
                else:
                    self.snap[iv] = old
            i = j

    def one(self, w, env):
        self.steps += 1
        if self.steps > 3000000:
            raise Abort('too many steps')
        if w.kind == 'clob':
            return
        if not self.n(w.guard, env):
            return
        self.fired += 1
        if w.kind == 'raise':
            v = self.ev(w.val[0], env)
            raise Raised(v if isinstance(v, str) else '?')
        if w.kind == 'call':
            if self.want is not None and self.want(w.path):
                self.event(w.path, [self.ev(a, env) for a in w.val])
            return
        loc = self.loc(w.path, env)
        if w.kind == 'app' or w.kind == '+' or w.kind == '=':
            v = self.ev(w.val, env)
            self.log.append((loc, v))

    def event(self, path, vals):
        if path == 'ext:.writelines' and len(vals) == 2 and isinstance(vals[1], list):
            for x in vals[1]:
                self.event('ext:.write', [vals[0], x])
            return
        if path == 'ext:.write' and len(vals) == 2:
            # what reaches the file matters, not in how many pieces
            vals[1] = vals[1] if isinstance(vals[1], str) else self.text(vals[1])
            if not vals[1]:
                return
            h = self.key(vals[0])
            if self.events and self.events[-1][0] == path and self.events[-1][1][0] == h:
                self.events[-1] = (path, (h, self.events[-1][1][1] + vals[1]))
            else:
                self.events.append((path, (h, vals[1])))
            return
        self.events.append((path, tuple(self.key(v) for v in vals)))

    want = None
    fired = 0

    # ------------------------------------------------------------ comparison
    def same(self, a, b):
        if isinstance(a, (float, int)) and isinstance(b, (float, int)):
            if a == b:
                return True
            if a != a or b != b:
                # a quotient by zero: the real functions are undefined there
                return True
            if math.isinf(a) or math.isinf(b):
                return False
            if self.relative:
                return abs(a - b) <= 1e-9 * max(abs(a), abs(b))
            return abs(a - b) <= 1e-7 * max(1e-12, abs(a), abs(b)) or abs(a - b) < 1e-11
        if isinstance(a, float) and isinstance(b, Leaf) or isinstance(b, float) and isinstance(a, Leaf):
            return self.same(self.num(a), self.num(b))
        if isinstance(a, float) and isinstance(b, Op) or isinstance(b, float) and isinstance(a, Op):
            return self.same(self.num(a), self.num(b))
        if (isinstance(a, list) or self.isseq(a)) and (isinstance(b, list) or self.isseq(b)):
            x, y = self.items(a), self.items(b)
            if len(x) != len(y) or not all(self.same(p, q) for p, q in zip(x, y)):
                return False
            x, y = [{k: w for k, w in v.over.items() if isinstance(k, str)} if isinstance(v, Obj) else {} for v in (a, b)]
            return all(k in x and k in y and self.same(x[k], y[k]) for k in set(x) | set(y))
        if isinstance(a, dict) and isinstance(b, dict):
            return a.keys() == b.keys() and all(self.same(a[k], b[k]) for k in a)
        if isinstance(a, Dict) and isinstance(b, Dict):
            return a.d.keys() == b.d.keys() and all(self.same(a.d[k][1], b.d[k][1]) for k in a.d)
        if isinstance(a, Obj) or isinstance(b, Obj):
            ks = set()
            for z in (a, b):
                while isinstance(z, Obj):
                    ks |= set(z.over)
                    z = z.base
            ba, bb = a, b
            while isinstance(ba, Obj):
                ba = ba.base
            while isinstance(bb, Obj):
                bb = bb.base
            return self.same(ba, bb) and all(self.same(self.proj(a, k), self.proj(b, k)) for k in ks)
        return self.key(a) == self.key(b)


def _fmod(a, b):
    return math.fmod(a, b)


def _cbrt(x):
    return math.copysign(abs(x) ** (1 / 3.0), x)


MATHF = {'sqrt': math.sqrt, 'pow': lambda a, b: a ** b, 'abs': abs, 'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'acos': math.acos, 'asin': math.asin,
         'atan': math.atan, 'atan2': math.atan2, 'exp': lambda x: math.exp(min(x, 300)), 'log': math.log, 'log10': math.log10, 'cbrt': _cbrt,
         'floor': lambda x: float(math.floor(x + 1e-10)), 'ceil': lambda x: float(math.ceil(x - 1e-10)),
         'round': lambda x: float(math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)), 'trunc': lambda x: float(int(x + (1e-10 if x >= 0 else -1e-10))),
         'idiv': lambda a, b: float(int(a / b)), 'imod': lambda a, b: math.fmod(a, b), 'hypot': math.hypot, 'fmod': math.fmod, 'erf': math.erf,
         'max': max, 'min': min}
MATHF['max'] = lambda *a: max(a)
MATHF['min'] = lambda *a: min(a)
