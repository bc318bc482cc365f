"""Interpretation of library functions when terms are compared.  Only functions whose
meaning matters for telling equal programs apart are listed; all others are uninterpreted."""
import math


def nums(run, v):
    if isinstance(v, (list, tuple)) or run.isseq(v):
        out = []
        for x in run.items(v):
            y = nums(run, x)
            if y is None:
                return None
            out.append(y)
        return out
    if isinstance(v, float):
        return v
    return None


def opname(v):
    from .model import Op
    if isinstance(v, Op) and isinstance(v.key, tuple) and v.key and v.key[0] == 'glob':
        return v.key[1]
    return None


def interpret(m, run, nm, vals):
    g = ENGINE.get(nm)
    if g is not None:
        return g(m, run, nm, vals)
    f = TAB.get(nm)
    if f is None:
        return None
    return f(m, run, vals)


def i_isinstance(m, run, vals):
    v, t = vals
    n = opname(t)
    if n is None:
        return None
    if v is None:
        return (0.0,)
    if isinstance(v, str):
        return (1.0 if n == 'str' else 0.0,)
    if isinstance(v, (list,)):
        return (1.0 if n == 'list' else 0.0,)
    if isinstance(v, float):
        if n in ('str', 'list', 'dict', 'tuple', 'slice'):
            return (0.0,)
        if n == 'int':
            return (1.0 if v == int(v) and m.rng('isint', run.key(v)).random() < 0.7 else 0.0,)
        if n == 'float':
            return (0.0 if v == int(v) and m.rng('isint', run.key(v)).random() < 0.7 else 1.0,)
    return None


def i_prod(m, run, vals):
    v = nums(run, vals[0]) if len(vals) == 1 else None
    if v is None or any(isinstance(x, list) for x in v):
        return None
    r = 1.0
    for x in v:
        r *= x
    return (r,)


def i_sum(m, run, vals):
    def s(v):
        return sum(s(x) if isinstance(x, list) else x for x in v)
    v = nums(run, vals[0]) if len(vals) == 1 else None
    if not isinstance(v, list):
        return None
    return (float(s(v)),)


def i_strip(m, run, vals):
    if len(vals) == 1 and isinstance(vals[0], str):
        return (vals[0].strip(),)
    return None


def i_split(m, run, vals):
    if isinstance(vals[0], str) and all(isinstance(x, str) for x in vals):
        return ([x for x in vals[0].split(*vals[1:])],)
    return None


def i_join(m, run, vals):
    if isinstance(vals[0], str) and (isinstance(vals[1], list) or run.isseq(vals[1])):
        it = run.items(vals[1])
        if isinstance(vals[0], str):
            return (vals[0].join(run.text(x) for x in it),)
    return None


def i_argsort(m, run, vals):
    v = numeric(run, vals[0]) if len(vals) == 1 else None
    if v is None or any(isinstance(x, list) for x in v):
        return None
    return ([float(k) for k in sorted(range(len(v)), key=lambda k: v[k])],)


def i_combinations(m, run, vals):
    import itertools
    if len(vals) != 2 or not (isinstance(vals[0], list) or run.isseq(vals[0])) or vals[1] not in (2.0, 3.0):
        return None
    return ([list(c) for c in itertools.combinations(run.items(vals[0]), int(vals[1]))],)


def i_cross(m, run, vals):
    a, b = (nums(run, v) for v in vals[:2])
    if a and b and len(a) == len(b) == 3 and not isinstance(a[0], list) and not isinstance(b[0], list):
        return ([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]],)
    return None


def i_identity(m, run, vals):
    if len(vals) == 1 and isinstance(vals[0], float) and 0 <= vals[0] <= 6:
        n = int(vals[0])
        return ([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)],)
    return None


def i_minmax(f):
    def g(m, run, vals):
        if len(vals) != 1:
            return None
        v = numeric(run, vals[0])
        if not isinstance(v, list) or not v or any(isinstance(x, list) for x in v):
            return None
        return (float(f(v)),)
    return g


def i_callv(m, run, vals):
    # user-supplied callables: mostly conditions
    r = m.rng('callv', tuple(run.key(v) for v in vals))
    z = r.random()
    if z < 0.9:
        return (float(r.randrange(2)),)
    return None


def i_exc(m, run, vals):
    # any of the calls in the body may fail
    ks = [run.key(v) for v in vals]
    return (1.0 if any(m.rng('exc', ks[0], k).random() < 0.2 for k in ks[1:] or [None]) else 0.0,)


def i_lines(m, run, vals):
    from .model import Op
    k = tuple(run.key(v) for v in vals)
    n = m.rng('lines', k).choice([0, 11, 12, 22, 25])
    return ([Op(('line', i) + k) for i in range(n)],)


def i_items(m, run, vals):
    from .model import Leaf, Op
    from .model import Dict
    if len(vals) == 1 and isinstance(vals[0], Dict):
        return ([[k, v] for k, v in vals[0].d.values()],)
    if len(vals) != 1 or not isinstance(vals[0], (Leaf, Op)):
        return None
    r = m.rng('items', run.key(vals[0]))
    ks = ['id', 'type', 'x', 'y', 'z', 'extra']
    r.shuffle(ks)
    ks = ks[:r.choice([0, 2, 3, 4])]
    return ([[k, run.proj(vals[0], k)] for k in ks],)


def flat(v):
    return [y for x in v for y in (flat(x) if isinstance(x, list) else [x])]


def numeric(run, v):
    """a list of numbers; values of unknown kind are read as numbers"""
    if not (isinstance(v, list) or run.isseq(v)):
        return None
    out = []
    for x in run.items(v):
        if isinstance(x, list) or run.isseq(x):
            y = numeric(run, x)
            if y is None:
                return None
            out.append(y)
        elif isinstance(x, str) or x is None:
            return None
        else:
            out.append(run.num(x))
    return out


def reduction(f, empty=None):
    def g(m, run, vals):
        if len(vals) != 1:
            return None
        v = numeric(run, vals[0])
        if v is None:
            return None
        v = flat(v)
        if not v:
            return (empty,) if empty is not None else None
        return (float(f(v)),)
    return g


def i_sum2(m, run, vals):
    """sum(sequence, start): element by element, arrays componentwise"""
    if not 1 <= len(vals) <= 2 or not (isinstance(vals[0], list) or run.isseq(vals[0])):
        return None
    r = 0.0
    if len(vals) == 2:
        from .model import Kw
        r = vals[1].val if isinstance(vals[1], Kw) else vals[1]
        if not isinstance(r, float) and run.tensor(r) is None:
            return None
    for x in run.items(vals[0]):
        z = run.tensor(x)
        if isinstance(x, str):
            return None
        r = run.tadd(r, z if z is not None else run.num(x))
    return (r,)


def kwargs(vals):
    from .model import Kw
    return [v for v in vals if not isinstance(v, Kw)], {v.key[1]: v.val for v in vals if isinstance(v, Kw)}


def i_zeros(c):
    def g(m, run, vals):
        a, k = kwargs(vals)
        if len(a) != 1 or set(k) - {'dtype'}:
            return None
        d = [a[0]] if isinstance(a[0], float) else a[0]
        if not isinstance(d, list) or not all(isinstance(x, float) and 0 <= x <= 60 for x in d):
            return None

        def mk(d):
            return [mk(d[1:]) if len(d) > 1 else c for _ in range(int(d[0]))]
        return (mk(d),)
    return g


def i_histogram(m, run, vals):
    a, k = kwargs(vals)
    names = ['a', 'bins', 'range']
    d = dict(zip(names, a))
    d.update(k)
    if set(d) - set(names):
        return None
    x = numeric(run, d['a'])
    if x is None:
        return None
    x = flat(x)
    b = d.get('bins', 10.0)
    if isinstance(b, float):
        if b != int(b) or not 0 < b < 200:
            return None
        rg = d.get('range')
        if rg is None:
            rg = [min(x), max(x)] if x else [0.0, 1.0]
        rg = numeric(run, rg)
        if rg is None or len(rg) != 2:
            return None
        lo, hi = rg
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        if not lo < hi:
            return None
        n = int(b)
        edges = [lo + (hi - lo) * q / n for q in range(n)] + [hi]
    else:
        edges = numeric(run, b)
        if edges is None or len(edges) < 2 or any(p > q for p, q in zip(edges, edges[1:])):
            return None
        n = len(edges) - 1
    cnt = [0.0] * n
    for z in x:
        for q in range(n):
            if edges[q] <= z < edges[q + 1] or q == n - 1 and z == edges[n]:
                cnt[q] += 1
                break
    return ([cnt, edges],)


def i_unique(m, run, vals):
    a, k = kwargs(vals)
    if len(a) != 1 or set(k) - {'return_counts'} or not (isinstance(a[0], list) or run.isseq(a[0])):
        return None
    its = run.items(a[0])
    if its and all(isinstance(x, str) for x in its):
        pass
    elif all(isinstance(x, float) for x in its):
        pass
    else:
        return None
    u = sorted(set(its))
    if k.get('return_counts'):
        return ([u, [float(its.count(x)) for x in u]],)
    return (u,)


def i_inv(m, run, vals):
    if len(vals) != 1:
        return None
    a = run.tensor(vals[0])
    if a is None or run.tdepth(a) != 2 or any(len(r) != len(a) for r in a) or len(a) > 4:
        return None
    n = len(a)
    w = [list(r) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(a)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(w[r][c]))
        if abs(w[p][c]) < 1e-9:
            from .model import Abort
            raise Abort('singular matrix')
        w[c], w[p] = w[p], w[c]
        d = w[c][c]
        w[c] = [x / d for x in w[c]]
        for r in range(n):
            if r != c:
                f = w[r][c]
                w[r] = [x - f * y for x, y in zip(w[r], w[c])]
    return ([r[n:] for r in w],)


def i_det(m, run, vals):
    a = run.tensor(vals[0]) if len(vals) == 1 else None
    if a is None or len(a) != 3 or run.tdepth(a) != 2:
        return None
    (x, y, z), q, r = a[0], a[1], a[2]
    return (x * (q[1] * r[2] - q[2] * r[1]) - y * (q[0] * r[2] - q[2] * r[0]) + z * (q[0] * r[1] - q[1] * r[0]),)


def i_transpose(m, run, vals):
    z = run.tensor(vals[0]) if len(vals) == 1 else None
    if z is None or run.tdepth(z) != 2:
        return None
    return ([list(r) for r in zip(*z)],)


def i_diag(m, run, vals):
    z = run.tensor(vals[0]) if len(vals) == 1 else None
    if z is None:
        return None
    if run.tdepth(z) == 2:
        return ([r[i] for i, r in enumerate(z) if i < len(r)],)
    return ([[x if i == j else 0.0 for j in range(len(z))] for i, x in enumerate(z)],)


def i_round(m, run, vals):
    a, k = kwargs(vals)
    d = a[1] if len(a) > 1 else k.get('decimals', k.get('ndigits', 0.0))
    if not isinstance(d, float) or d != int(d):
        return None
    z = run.tensor(a[0])
    if z is None:
        return None
    return (run.tmap(lambda p, q: float(round(p, int(d))), z, 0.0),)


def i_product(m, run, vals):
    import itertools
    a, k = kwargs(vals)
    rep = int(k.get('repeat', 1.0))
    if set(k) - {'repeat'} or not all(isinstance(v, list) or run.isseq(v) for v in a):
        return None
    ls = [run.items(v) for v in a] * rep
    n = 1
    for x in ls:
        n *= len(x)
    if n > 400:
        return None
    return ([list(c) for c in itertools.product(*ls)],)


def i_dict(m, run, vals):
    from .model import Dict
    if len(vals) != 1:
        return None
    if isinstance(vals[0], Dict):
        return vals[0],
    if not isinstance(vals[0], list):
        return None
    d = {}
    for p in vals[0]:
        k = run.proj(p, 0)
        d[run.dkey(k)] = (k, run.proj(p, 1))
    return (Dict(d),)


def i_keys(m, run, vals):
    from .model import Dict
    return ([k for k, _ in vals[0].d.values()],) if isinstance(vals[0], Dict) else None


def i_values(m, run, vals):
    from .model import Dict
    return ([v for _, v in vals[0].d.values()],) if isinstance(vals[0], Dict) else None


def i_get(m, run, vals):
    from .model import Dict
    if isinstance(vals[0], Dict) and len(vals) > 1:
        z = run.dkey(vals[1])
        return (vals[0].d[z][1] if z in vals[0].d else vals[2] if len(vals) > 2 else None,)
    return None


def i_mutpop(m, run, vals):
    from .model import Dict
    if isinstance(vals[0], Dict) and len(vals) > 1:
        d = dict(vals[0].d)
        d.pop(run.dkey(vals[1]), None)
        return (Dict(d),)
    if isinstance(vals[0], list) and vals[0]:
        v = list(vals[0])
        k = -1 if len(vals) < 2 else int(run.num(vals[1]))
        if -len(v) <= k < len(v):
            v.pop(k)
            return (v,)
    return None


def i_retpop(m, run, vals):
    from .model import Dict
    if isinstance(vals[0], Dict) and len(vals) > 1:
        z = run.dkey(vals[1])
        if z in vals[0].d:
            return (vals[0].d[z][1],)
        return (vals[2],) if len(vals) > 2 else None
    if isinstance(vals[0], list) and vals[0]:
        k = -1 if len(vals) < 2 else int(run.num(vals[1]))
        if -len(vals[0]) <= k < len(vals[0]):
            return (vals[0][k],)
    return None


def i_setdefault(ret):
    def g(m, run, vals):
        from .model import Dict
        if not isinstance(vals[0], Dict) or len(vals) != 3:
            return None
        z = run.dkey(vals[1])
        if z in vals[0].d:
            return (vals[0].d[z][1] if ret else vals[0],)
        d = dict(vals[0].d)
        d[z] = (vals[1], vals[2])
        return (vals[2] if ret else Dict(d),)
    return g


def i_update(m, run, vals):
    from .model import Dict
    if len(vals) == 2 and isinstance(vals[0], Dict) and isinstance(vals[1], Dict):
        return (Dict({**vals[0].d, **vals[1].d}),)
    return None


def i_mutadd(m, run, vals):
    if len(vals) == 2 and isinstance(vals[0], list):
        d = {repr(run.key(z)): z for z in vals[0]}
        d.setdefault(repr(run.key(vals[1])), vals[1])
        return ([d[k] for k in sorted(d)],)
    return None


def i_mutinsert(m, run, vals):
    if len(vals) == 3 and isinstance(vals[0], list) and isinstance(vals[1], float):
        v = list(vals[0])
        v.insert(int(vals[1]), vals[2])
        return (v,)
    return None


def i_reversed(m, run, vals):
    if len(vals) == 1 and (isinstance(vals[0], list) or run.isseq(vals[0])):
        return (run.items(vals[0])[::-1],)
    return None


def i_slice3(m, run, vals):
    v = vals[0]
    if not (isinstance(v, (list, str)) or run.isseq(v)) or not all(x is None or isinstance(x, float) for x in vals[1:]):
        return None
    v = v if isinstance(v, (list, str)) else run.items(v)
    f = [None if x is None else int(x) for x in vals[1:]]
    return (v[f[0]:f[1]:f[2]],)


def i_count(m, run, vals):
    if len(vals) != 2:
        return None
    if isinstance(vals[0], str) and isinstance(vals[1], str):
        return (float(vals[0].count(vals[1])),)
    if isinstance(vals[0], list) or run.isseq(vals[0]):
        k = run.key(vals[1])
        return (float(sum(1 for z in run.items(vals[0]) if run.key(z) == k)),)
    return None


def i_index(m, run, vals):
    if len(vals) == 2 and isinstance(vals[0], list):
        k = run.key(vals[1])
        for i, z in enumerate(vals[0]):
            if run.key(z) == k:
                return (float(i),)
    return None


def i_texts(m, run, vals):
    def f(v):
        return [f(x) for x in v] if isinstance(v, list) else [f(x) for x in run.items(v)] if run.isseq(v) else run.text(v)
    if len(vals) == 1 and (isinstance(vals[0], list) or run.isseq(vals[0])):
        return (f(vals[0]),)
    return None


def stringop(n):
    def g(m, run, vals):
        if all(isinstance(v, str) for v in vals):
            r = getattr(vals[0], n)(*vals[1:])
            return (float(r) if isinstance(r, (bool, int)) else r,)
        return None
    return g


def i_where(m, run, vals):
    if len(vals) == 3 and isinstance(vals[0], float):
        return (vals[1] if vals[0] else vals[2],)
    return None


def i_round_scalar(m, run, vals):
    return i_round(m, run, vals)


def i_argminmax(f):
    def g(m, run, vals):
        v = numeric(run, vals[0]) if len(vals) == 1 else None
        if not v or any(isinstance(x, list) for x in v):
            return None
        return (float(v.index(f(v))),)
    return g


def i_norm(m, run, vals):
    if len(vals) != 1:
        return None
    z = run.tensor(vals[0])
    return (math.sqrt(sum(x * x for x in flat(z))),) if isinstance(z, list) else None


# -------------------------------------------------------------- what the engine returns
def shaped(n, kind):
    def one(r):
        if kind == 'count':
            return float(r.choice([0, 1, 2, 3, 5]))
        if kind == 'pos':
            return r.choice([0.5, 1.0, 1.5, r.uniform(0.1, 4)])
        return r.uniform(-2, 2)

    def g(m, run, nm, vals):
        r = m.rng('engine', nm, tuple(run.key(v) for v in vals))
        if n is None:
            return (one(r),)
        k = n if isinstance(n, int) else (int(m.leaf((('this',), n))) if n != '*' else r.randrange(1, 6))
        return ([one(r) for _ in range(k)],)
    return g


ENGINE = {'cpp:get_absdistance': shaped(None, 'pos'), 'cpp:get_absdistance_vector': shaped(3, 'any'), 'cpp:get_pairdistances': shaped('*', 'pos'),
          'cpp:ccalculate_cna': shaped(5, 'count'), 'cpp:cidentify_diamond_structure': shaped(11, 'count'), 'cpp:cget_qvals': shaped('real_nop', 'pos'),
          'cpp:cget_aqvals': shaped('real_nop', 'pos'), 'cpp:get_centrosymmetry': shaped('real_nop', 'pos')}


def boxshaped(m, run, nm, vals):
    from .dom import P_box
    return (P_box(m, None, m.rng('engine', nm, tuple(run.key(v) for v in vals))),)


def i_readfile(m, run, nm, vals):
    from .dom import P_box
    from .model import Op
    k = (nm,) + tuple(run.key(v) for v in vals)
    r = m.rng('engine', k)
    return ([[Op(('atom', i) + k) for i in range(r.choice([1, 2, 3, 200]))], P_box(m, None, r)],)


ENGINE['py:pyscal.core:System.box'] = boxshaped
ENGINE['py:pyscal.traj_process:read_file'] = i_readfile


MEAN = reduction(lambda v: math.fsum(v) / len(v))
SUMALL = reduction(math.fsum, 0.0)
def natoms(m, v):
    """number of atoms of an atoms object of the library"""
    from .model import Leaf, Op
    return m.rng('natoms', v.loc if isinstance(v, Leaf) else v.key).randrange(0, 4)


def i_symbols(m, run, vals):
    from .model import Leaf, Op
    from .model import Abort
    if len(vals) != 1 or not isinstance(vals[0], (Leaf, Op)):
        raise Abort('symbols')
    v = vals[0]
    r = m.rng('symbols', v.loc if isinstance(v, Leaf) else v.key)
    return ([r.choice(['Fe', 'Au', 'Cu']) for _ in range(natoms(m, v))],)


TAB = {'lines': i_lines, '.items': i_items, '.get_chemical_symbols': i_symbols, 'callv': i_callv, 'exc': i_exc, 'isinstance': i_isinstance, 'numpy.prod': i_prod, 'numpy.sum': i_sum, 'sum': i_sum, '.strip': i_strip, '.split': i_split, '.join': i_join, 'numpy.argsort': i_argsort,
       'itertools.combinations': i_combinations, 'numpy.cross': i_cross, 'numpy.identity': i_identity, 'numpy.eye': i_identity, 'max': i_minmax(max), 'min': i_minmax(min),
       'numpy.max': i_minmax(max), 'numpy.min': i_minmax(min)}
TAB.update({'numpy.sum': SUMALL, '.sum': SUMALL, 'math.fsum': SUMALL, 'sum': i_sum2, 'numpy.mean': MEAN, 'numpy.average': MEAN, '.mean': MEAN, 'statistics.mean': MEAN,
            'numpy.amax': TAB['max'], 'numpy.amin': TAB['min'], '.max': TAB['max'], '.min': TAB['min'], 'numpy.zeros': i_zeros(0.0), 'numpy.ones': i_zeros(1.0),
            'numpy.histogram': i_histogram, 'numpy.unique': i_unique, 'numpy.linalg.inv': i_inv, 'numpy.linalg.det': i_det, 'numpy.transpose': i_transpose,
            '.transpose': i_transpose, 'numpy.diag': i_diag, 'numpy.round': i_round, '.round': i_round, 'round': i_round, 'itertools.product': i_product, 'dict': i_dict,
            '.keys': i_keys, '.values': i_values, '.get': i_get, 'mut:pop': i_mutpop, 'ret:pop': i_retpop, 'mut:setdefault': i_setdefault(False),
            'ret:setdefault': i_setdefault(True), 'mut:update': i_update, 'mut:add': i_mutadd, 'mut:insert': i_mutinsert, 'reversed': i_reversed, 'slice3': i_slice3,
            '.count': i_count, '.index': i_index, 'texts': i_texts, 'numpy.where': i_where, 'numpy.argmin': i_argminmax(min), 'numpy.argmax': i_argminmax(max),
            'numpy.linalg.norm': i_norm, 'set': lambda m, run, vals: None})
for _n in ('startswith', 'endswith', 'replace', 'lower', 'upper', 'rstrip', 'lstrip', 'isdigit'):
    TAB['.' + _n] = stringop(_n)
