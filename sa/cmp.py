"""Agreement of two value-flow summaries (candidate = the repository, reference = the
specification): identical normal forms, or a distinguishing interpretation of the terms."""
import re
import time
from . import terms as X
from .terms import T, mk, ONE
from .ev import W, signature
from . import pylib
from .model import Model, Run, Abort, Raised


class Diff:
    def __init__(self, place, loc, got, want, seed, outcome=''):
        self.place, self.loc, self.got, self.want, self.seed, self.outcome = place, loc, got, want, seed, outcome

    def __str__(self):
        return '%s: got %s, specified %s' % (self.place, self.got, self.want)


class Result:
    def __init__(self):
        self.status = 'undecided'
        self.diffs = []
        self.reason = ''
        self.trials = 0
        self.aborted = 0
        self.hits = {}


def lastfield(sig):
    for c in reversed(sig):
        if isinstance(c, str) and c != '[]':
            return c
    return ''


def canon_ivs(s):
    """rename loop indices by nesting depth so that counters do not matter"""
    out = []
    for w in s.effects:
        mp = {iv: mk('iv', 'd%d' % k, iv.args[1]) for k, iv in enumerate(w.ivs)}
        f = lambda t: X.subst(t, mp) if isinstance(t, T) and t.fv else t
        out.append((w.kind if w.kind not in ('+', 'app') else '=', f(w.path) if isinstance(w.path, T) else w.path,
                    f(w.val) if isinstance(w.val, T) else tuple(f(a) if isinstance(a, T) else a for a in w.val), f(w.guard), tuple(mp[iv] for iv in w.ivs)))
    return out


def vocabulary(s, extra=(), ignore_raise=False):
    ts = set()
    for w in s.effects:
        if w.kind == 'raise' and ignore_raise:
            X.walk(w.guard, ts)
            continue
        for t in (w.path, w.guard, w.delta):
            if isinstance(t, T):
                X.walk(t, ts)
        if isinstance(w.val, T):
            X.walk(w.val, ts)
        elif w.val:
            for a in w.val:
                if isinstance(a, T):
                    X.walk(a, ts)
    for t in extra:
        if isinstance(t, T):
            X.walk(t, ts)
    v = set()
    for t in ts:
        if t.op == 'ext':
            v.add('ext:' + str(t.args[0]))
        elif t.op == 'fn':
            v.add('fn:' + t.args[0])
        elif t.op == 'fld':
            v.add('fld:' + t.args[1])
        elif t.op in ('glob',):
            v.add('glob:' + str(t.args[0]))
        elif t.op == 'undef':
            v.add('undef:')
    return v, ts


KNOWNFN = {'sqrt', 'pow', 'abs', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'atan2', 'exp', 'log', 'log10', 'cbrt', 'floor', 'ceil', 'round', 'trunc', 'idiv', 'imod',
           'hypot', 'fmod', 'erf', 'max', 'min', 'dot', 'concat', 'str', 'cross', 'fmt', 'div0'}


def pools(tsA, tsB):
    """constants each input is compared with"""
    out = {}
    for t in tsA | tsB:
        if t.op == 'eqt':
            for a, b in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
                if b.op in ('str', 'none', 'num') and a.op in ('param', 'fld', 'idx'):
                    k = None
                    if a.op == 'param':
                        k = (('param', a.args[0]),)
                    elif X.fieldname(a):
                        k = ('*', X.fieldname(a))
                    if k is not None:
                        v = b.args[0] if b.op == 'str' else (None if b.op == 'none' else float(b.args[0]))
                        out.setdefault(k, [])
                        if v not in out[k]:
                            out[k].append(v)
    for k in out:
        out[k].sort(key=repr)
    # numeric thresholds
    for t in tsA | tsB:
        if t.op in ('lt', 'eq'):
            d = X.P(t.args[0])
            if len(d) <= 2:
                c0 = float(d.get((), 0))
                ms = [m for m in d if m]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                    a = ms[0][0][0]
                    k = None
                    if a.op == 'param':
                        k = (('param', a.args[0]),)
                    elif a.op == 'sym':
                        k = (('sym', a.args[0]),)
                    if k is not None:
                        v = -c0 / float(d[ms[0]])
                        for z in (v, v + 1, v - 1):
                            if z not in out.setdefault(k, []):
                                out[k].append(z)
    return out


def compare(A, B, dom, trials=40, observed=None, events=None, ret=True, outs=True, fields=None, seed0=1, minimum=3, ignore_raise=False, show=None, more=1, secs=None, relative=False):
    """A: repository summary, B: reference summary"""
    R = Result()
    observed = observed or (lambda sig: True)
    vA, tA = vocabulary(A, [A.ret] + list(A.outs.values()), ignore_raise)
    vB, tB = vocabulary(B, [B.ret] + list(B.outs.values()), ignore_raise)
    fa = [w for w in canon_ivs(A) if relevant(w, observed, events)]
    fb = [w for w in canon_ivs(B) if relevant(w, observed, events)]
    if ignore_raise:
        fa, fb = ([w if w[0] != 'raise' else w[:2] + ((),) + w[3:] for w in z] for z in (fa, fb))
    if fa == fb and (not ret or A.ret is B.ret) and (not outs or list(A.outs.values()) == list(B.outs.values())):
        R.status = 'identical'
        return R
    new = set()
    # operations the reference does not use are admitted as long as they can be evaluated
    strict = set()
    for v in vA - vB:
        k, n = v.split(':', 1)
        if v == 'fn:repeatseq' or k == 'ext' and n in pylib.TAB and hasattr(dom, 'ext'):
            strict.add(n)
            continue
        if k == 'fn' and n in KNOWNFN:
            continue
        if k == 'fld' and (fields is None or n in fields):
            continue
        if k == 'undef' or v in ('glob:unset', 'ext:slice', 'ext:lines'):
            continue
        new.add(v)
    if new:
        R.status = 'undecided'
        R.reason = 'candidate uses operations outside the vocabulary of the specification: %s' % sorted(new)[:6]
        return R
    pl = pools(tA, tB)
    ok = through = 0
    t0 = time.time()
    for k in range(trials * more):
        if k >= trials and (through >= trials // 2 or secs and time.time() - t0 > secs):
            break
        if secs and ok >= max(minimum, 24) and time.time() - t0 > 2 * secs:
            break
        seed = seed0 * 1000 + k
        m = Model(seed, dom, pl)
        if hasattr(dom, 'prepare'):
            dom.prepare(m)
        ra, rb = Run(m), Run(m)
        ra.strict = strict
        ra.relative = relative
        ra.want = rb.want = events
        try:
            oa = outcome(ra, A, ret, outs)
            ob = outcome(rb, B, ret, outs)
        except Abort as ex:
            R.aborted += 1
            R.reason = str(ex)
            continue
        except RecursionError:
            R.aborted += 1
            R.reason = 'recursion'
            continue
        ok += 1
        through += oa[0] == 'ok'
        d = differ(ra, rb, oa, ob, A, B, observed, seed, ret, outs, ignore_raise)
        if d:
            R.diffs += d
            if len(R.diffs) >= 4:
                break
    R.trials, R.through = ok, through
    if R.diffs:
        R.status = 'differs'
    elif ok >= minimum:
        R.status = 'agree'
    else:
        R.status = 'undecided'
    return R


def stale(A, B, dom, res, trials, observed, ret):
    """does A's outcome change with the prior content of fields B sets and never reads?"""
    sets = {lastfield(w.sig) for w in B.effects if w.kind == '=' and w.sig} - {''}
    free = {f for f in sets if not readsvalue(B, f)}
    groups = [free] + [{f} for f in sorted(sets - free)]
    vA, tA = vocabulary(A, [A.ret] + list(A.outs.values()))
    vB, tB = vocabulary(B, [B.ret] + list(B.outs.values()))
    pl = pools(tA, tB)
    R = Result()
    R.status, R.diffs = 'agree', []
    for k in range(trials):
        seed = 1000 + k
        for group in groups:
            changed = []
            written = set()
            for S in (B, A):
                runs = []
                for salt in (0, 1):
                    m = Model(seed, dom, pl)
                    m.ties = 0
                    m.salt = (group, salt)
                    if hasattr(dom, 'prepare'):
                        dom.prepare(m)
                    r = Run(m)
                    try:
                        runs.append((r, outcome(r, S, ret, False)))
                    except (Abort, RecursionError):
                        break
                if len(runs) < 2:
                    break
                out = {}
                (ra, oa), (rb, ob) = runs
                if oa[0] == 'raise' or ob[0] == 'raise':
                    if oa[0] != ob[0]:
                        out['outcome'] = (oa[0], ob[0], None)
                else:
                    if ret and view(ra, oa[1]) != view(rb, ob[1]):
                        out['return value'] = (view(ra, oa[1]), view(rb, ob[1]), None)
                    la, lb = ({l for l, v in x.log if l[0][0] not in ('local', 'new') and observed(locsig(l))} for x in (ra, rb))
                    written |= la & lb
                    for l in sorted(written, key=lambda z: (len(z), repr(z))):
                        a, b = view(ra, ra.read(l)), view(rb, rb.read(l))
                        if a != b:
                            out[fmtloc(l)] = (a, b, writer(S, l))
                changed.append(out)
            if len(changed) < 2 or 'outcome' in changed[0]:
                R.aborted += 1
                continue
            R.trials += 1
            for at, (a, b, w) in changed[1].items():
                if at not in changed[0] and ('return value' == at or not any(at.startswith(z) or z.startswith(at) for z in changed[0])):
                    x, y = pair(a, b)
                    R.diffs.append(Diff(at, w, '%s or %s depending on earlier content' % (x, y), 'the same in both cases', seed))
                    R.status = 'differs'
                    break
        if len(R.diffs) > 2:
            break
    return R


def readsvalue(S, f):
    """does the summary consult the prior content of field f (other than by addressing it)?"""
    ts = set()
    for w in S.effects:
        for t in (w.guard, w.val):
            if isinstance(t, T):
                X.walk(t, ts)
            elif isinstance(t, tuple):
                for a in t:
                    if isinstance(a, T):
                        X.walk(a, ts)
    for t in [S.ret] + list(S.outs.values()):
        if isinstance(t, T):
            X.walk(t, ts)
    return any(t.op == 'fld' and X.fieldname(t) == f for t in ts)


def relevant(c, observed, events):
    kind, path = c[0], c[1]
    if kind == 'raise':
        return True
    if kind == 'call':
        return bool(events and events(path))
    if kind == 'clob':
        return False
    return observed(signature(path))


def outcome(r, S, ret, outs):
    try:
        r.execute(S.effects)
    except Raised as e:
        return ('raise', str(e))
    v = r.ev(S.ret, {}) if ret else None
    o = [r.ev(x, {}) for x in S.outs.values()] if outs else []
    return ('ok', v, o)


def locsig(loc):
    return tuple('[]' if not isinstance(c, str) and not (isinstance(c, tuple) and k == 0) else c for k, c in enumerate(loc))


def differ(ra, rb, oa, ob, A, B, observed, seed, ret, outs, ignore_raise=False):
    out = []
    if oa[0] != ob[0] or oa[0] == 'raise' and oa[1] != ob[1]:
        if ignore_raise and (oa[0] == 'raise') == (ob[0] == 'raise'):
            return out
        out.append(Diff('outcome', raiseloc(A), short(oa[:2] if oa[0] == 'raise' else 'returns'), short(ob[:2] if ob[0] == 'raise' else 'returns'), seed))
        return out
    if oa[0] == 'raise':
        return out
    if ret and not ra.same(oa[1], ob[1]):
        out.append(Diff('return value', None, *pair(view(ra, oa[1]), view(rb, ob[1])), seed))
    if outs:
        for k, (x, y) in enumerate(zip(oa[2], ob[2])):
            if not ra.same(x, y):
                out.append(Diff('output argument %d' % k, None, *pair(view(ra, x), view(rb, y)), seed))
    if ra.events != rb.events and ra.want is not None:
        out.append(Diff('calls', None, *pair(ra.events, rb.events), seed))
    locs = set()
    for r in (ra, rb):
        for l, v in r.log:
            if l[0][0] in ('local', 'new'):
                continue
            if observed(locsig(l)):
                locs.add(l)
    for l in sorted(locs, key=lambda z: (len(z), repr(z))):
        a, b = ra.read(l), rb.read(l)
        if not ra.same(a, b):
            sa, sb = view(ra, a), view(rb, b)
            out.append(Diff(fmtloc(l), writer(A, l), *pair(sa, sb), seed))
            if len(out) > 3:
                break
    return out


def writer(A, l):
    sig = locsig(l)
    best = None
    for w in A.effects:
        if w.kind in ('=', '+', 'app') and w.sig:
            s = w.sig[1:]
            t = sig[1:]
            n = min(len(s), len(t))
            if tuple(s[:n]) == tuple(t[:n]):
                best = w.loc or best
    return best


def raiseloc(A):
    for w in A.effects:
        if w.kind == 'raise':
            return w.loc
    return None


def fmtloc(l):
    s = l[0][0] if l[0][0] == 'this' else '.'.join(map(str, l[0]))
    for c in l[1:]:
        s += '.%s' % c if isinstance(c, str) else '[%s]' % (c,)
    return s


def view(r, v, d=0):
    try:
        if isinstance(v, (list,)) or r.isseq(v):
            o = getattr(v, 'over', {})
            return [view(r, x, d + 1) for x in r.items(v)[:12]] + [(k, view(r, o[k], d + 1)) for k in sorted(k for k in o if isinstance(k, str))]
        return r.key(v)
    except Abort:
        return repr(v)


def pair(a, b):
    """the two values, or their first differing parts when both are large"""
    if len(repr(a)) < 160 and len(repr(b)) < 160:
        return short(a), short(b)
    while isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and len(repr(a)) + len(repr(b)) > 120:
        d = [(x, y) for x, y in zip(a, b) if x != y]
        if not d or a and isinstance(a[0], str) and a[0] != b[0]:
            break
        a, b = d[0]
    return short(a), short(b)


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + '...'
