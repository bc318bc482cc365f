"""Runs the rules of one property, matches findings with the known-findings file and
writes the evidence."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from . import lab as labm
from .lab import Lab, Alarm, Timeout, Missing, VERIF
from . import ev, cmp, dom, terms as X


class Finding:
    """a violation: `key` identifies the construct independently of line numbers"""

    def __init__(self, rule, key, msg, loc=None, detail=None):
        self.rule, self.key, self.msg, self.loc, self.detail = rule, key, msg, loc, detail or {}

    def asdict(self, repo):
        l = None
        if self.loc:
            f = str(self.loc[0])
            f = f[len(repo) + 1:] if f.startswith(repo + '/') else f
            l = '%s:%s' % (f, self.loc[1])
        return dict(rule=self.rule, key=self.key, message=self.msg, location=l, detail=self.detail)


class Outcome:
    """what one rule analysed"""

    def __init__(self, rule):
        self.rule = rule
        self.findings = []
        self.obligations = 0        # obligations discharged or refuted
        self.undecided = []         # (what, why)
        self.functions = []
        self.note = ''
        self.how = ''
        self.wall = 0.0

    def find(self, key, msg, loc=None, **detail):
        self.findings.append(Finding(self.rule, key, msg, loc, detail))


SCRATCH = {'temp_neighbors', 'cells', 'nx', 'ny', 'nz', 'total_cells', 'reqdqs', 'lenqs', 'reqdaqs', 'lenaqs', 'rq_backup', 'isneighborset', 'head', 'sii',
           'lcutsmall', 'lcutlarge', 'lneigh', 'realQ6', 'imgQ6', 'faceverticenumbers', 'n3', 'n4', 'n5', 'n6', 'nn1', 'rstart', 'rstop', 'h', 'kb', 'sigma', 'rho', 'members', 'neighbor_cells',
           'next_neighbor_masks', 'next_neighbor_counts', 'masks', 'lattice_constant', 'minfrenkel', 'threshold', 'avgthreshold', 'n_r', 'n_phi', 'n_theta'}


class Compare:
    """repository function == reference function, on the observed state"""

    wrong = 'does not compute what is specified'

    def __init__(self, target, spec, obs=None, also=(), ignore=(), abstr=(), dom=None, lens=None, trials=48, timeout=100, ret=True, outs=True, args=None,
                 events=None, ignore_raise=True, modes=None, prep=None, minimum=3, known=None, name=None, calls=True, relative=False):
        self.target, self.spec, self.calls, self.relative = target, spec, calls, relative
        self.obs, self.also, self.ignore = obs, set(also), set(ignore)
        self.modes = modes if modes is not None else [dict(abstr)]
        self.dom, self.lens = dom or {}, lens or {}
        self.trials, self.timeout, self.ret, self.outs = trials, timeout, ret, outs
        self.events, self.ignore_raise = events, ignore_raise
        self.prep = prep
        self.minimum = minimum
        self.known, self.name = known, name

    @property
    def id(self):
        return 'same(%s)' % (self.name or self.target)

    def observed(self, lab):
        base = BASEFIELDS

        def f(sig):
            nm = cmp.lastfield(sig)
            if not nm:
                # whole-object writes
                return True
            if nm not in base:
                return False
            if self.obs is not None:
                return nm in self.obs or nm == 'atoms'
            if nm in self.ignore:
                return False
            return nm not in SCRATCH or nm in self.also
        return f

    def run(self, lab, tier, out):
        f = lab.resolve(self.target)
        out.functions.append(f.key)
        if self.spec != 'c++' and self.spec not in lab.specs:
            raise Missing('specification %s' % self.spec)
        last = ''
        share = self.timeout / float(len(self.modes))
        modes = list(self.modes)
        moved = {n for ab in modes for n, h in ab.items() if h == 'proc' and f.key not in [g.key for g in lab.cxxfuncs(n)] and any(not lab.cxxunchanged(g.key) for g in lab.cxxfuncs(n))}
        if moved:
            # work may have moved between this function and the ones it calls
            known = {n for n in moved if all(g.key in lab.procspec for g in lab.cxxfuncs(n))}
            if known:
                modes += [{n: h for n, h in ab.items() if n not in known} for ab in modes]
            share = self.timeout / float(len(self.modes))
        for k, abstr in enumerate(modes):
            try:
                with Alarm(max(5, share)):
                    r = self.once(lab, f, abstr, tier)
                    if r.status == 'differs' and self.known:
                        # does the difference consist of the recorded deviation and nothing else?
                        r2 = self.once(lab, f, abstr, tier, self.known)
                        if r2.status in ('identical', 'agree'):
                            out.obligations += 1
                            out.how = 'differs from the specification exactly as recorded (%s)' % self.known
                            d = r.diffs[0]
                            out.find('known:%s@%s' % (self.known, self.target), '%s does not compute what is specified: %s' % (f.key, d), d.loc or f.loc,
                                     function=f.key, place=d.place, got=str(d.got), specified=str(d.want), interpretation=d.seed, specification=self.spec)
                            return
                        if r2.status == 'differs':
                            r = r2
            except Timeout:
                last = 'time limit'
                continue
            except (ev.Unsupported, X.TooBig) as e:
                last = '%s %s' % (type(e).__name__, e)
                continue
            if r.status == 'undecided':
                last = r.reason
                continue
            if r.status == 'differs' and moved & set(abstr):
                last = 'differs, but so do functions it calls, and the two cannot be analysed together'
                continue
            out.obligations += 1
            if r.status == 'identical':
                out.how = 'identical normal forms'
            elif r.status == 'agree':
                out.how = 'not distinguished by %d interpretations (%d unusable)' % (r.trials, r.aborted)
            else:
                d = r.diffs[0]
                loc = d.loc or f.loc
                out.how = 'distinguished'
                seen = set()
                for d in r.diffs:
                    pl = generic(d.place)
                    if pl in seen:
                        continue
                    seen.add(pl)
                    out.find('%s@%s' % (pl, self.target), '%s %s: %s' % (f.key, self.wrong, d), d.loc or f.loc,
                             function=f.key, place=d.place, got=str(d.got), specified=str(d.want), interpretation=d.seed, specification=self.spec)
            return
        out.undecided.append((self.target, last))

    def once(self, lab, f, abstr, tier, spec=None):
        ab = lab.abstr_for(abstr, f)
        A, EA = lab.cxx_summary(f, ab) if f.lang == 'cxx' else lab.py_summary(f, ab)
        if (spec or self.spec) == 'c++':
            g = lab.cref.own.get(f.key)
            if g is None:
                raise Missing('reference definition of %s' % f.key)
            B, EB = lab.cxx_summary(g, ab, lab.cref)
        else:
            B, EB = lab.spec_summary(spec or self.spec, f, {g.key for m in self.modes for n, h in m.items() if h == 'proc' and n not in abstr for g in lab.cxxfuncs(n)})
        D = dom.CxxDom(lab.prog.fieldtypes, dict(self.dom), dict(self.lens))
        if self.prep:
            D.prepare = self.prep
        n = self.trials * (4 if tier == 'thorough' else 1)
        procs = {k for k, h in ab.items() if h == 'proc'}
        self.events = (lambda k: k in procs) if procs and self.calls else None
        return self.judge(A, B, D, n, lab)

    def judge(self, A, B, D, n, lab):
        return cmp.compare(A, B, D, trials=n, observed=self.observed(lab), events=self.events, ret=self.ret, outs=self.outs and bool(B.outs), fields=lab.fields | BASEFIELDS,
                           ignore_raise=self.ignore_raise, minimum=self.minimum, secs=self.timeout / 4.0, relative=self.relative)


class Stale(Compare):
    """no result depends on what an earlier calculation left in the fields this function sets:
    changing only the prior content of the fields the reference sets without consulting them
    changes nothing in the outcome (checked where the function departs from its reference)"""

    wrong = 'depends on what an earlier calculation left behind'

    @property
    def id(self):
        return 'stale(%s)' % (self.name or self.target)

    def judge(self, A, B, D, n, lab):
        r = Compare.judge(self, A, B, D, n, lab)
        if r.status != 'differs':
            return r
        return cmp.stale(A, B, D, r, trials=n, observed=self.observed(lab), ret=self.ret)


EFFECTS = ('ext:os.remove', 'ext:.write', 'ext:ase.io.write', 'ext:.command', 'ext:random.shuffle', 'ext:.writelines', 'ext:os.unlink', 'ext:setattr', 'ext:super.', 'ext:callv',
           'py:pyscal.traj_process:write_file', 'py:pyscal.formats')


class PyCompare:
    """function of the Python layer == its reference definition: attributes of the object
    (Python's and those kept by the engine), result, defaults, effects on files and on
    arguments, and whether it is refused"""

    def __init__(self, target, procs=(), dom=None, lens=None, trials=60, timeout=100, ret=True, args=None, ignore=(), modes=None, events=EFFECTS, minimum=6, prep=None,
                 known=None, name=None, defaults=True, only=None):
        self.target, self.procs = target, tuple(procs)
        self.dom, self.lens, self.trials, self.timeout, self.ret, self.args = dom or {}, lens or {}, trials, timeout, ret, args
        self.ignore, self.events, self.minimum, self.prep = set(ignore), events, minimum, prep
        self.modes = modes if modes is not None else ([self.procs] if self.procs else None)
        self.known, self.name, self.defaults = known, name, defaults
        self.only = only

    @property
    def id(self):
        return 'same(%s)' % (self.name or self.target)

    def key(self, k):
        m, n = (self.target.split(':')[0], k) if ':' not in k else k.split(':', 1)
        return '%s:%s' % (m, n)

    def run(self, lab, tier, out):
        f = lab.prog.pyfuncs.get(self.target)
        g = lab.ref.pyfuncs.get(self.target)
        if f is None or g is None:
            raise Missing('%s: no such Python function' % self.target)
        out.functions.append(f.key)
        last, held, r = '', None, None
        modes = self.modes or ['auto', ()]
        share = self.timeout / float(len(modes))
        for procs in modes:
            try:
                with Alarm(max(5, share)):
                    q = self.once(lab, f, g, procs, tier)
            except Timeout:
                last = 'time limit'
                continue
            except (ev.Unsupported, X.TooBig) as e:
                last = '%s %s' % (type(e).__name__, e)
                continue
            if q.status == 'undecided':
                last = q.reason
                continue
            if procs == 'auto' and q.status in ('differs', 'agree') and procs != modes[-1]:
                # equal up to calls of unchanged functions?  decided again with their bodies
                if q.samecalls or q.status == 'agree':
                    held = q
                continue
            r = q
            break
        r = r or held
        if r is None:
            out.undecided.append((self.target, last))
            return
        out.obligations += 1
        if r.status == 'identical':
            out.how = 'identical normal forms'
        elif r.status == 'agree':
            out.how = 'not distinguished by %d interpretations (%d unusable)' % (r.trials, r.aborted)
        else:
            out.how = 'distinguished'
            seen = set()
            for d in r.diffs:
                pl = generic(d.place)
                if pl in seen:
                    continue
                seen.add(pl)
                out.find('%s@%s' % (pl, self.target), '%s does not do what is specified: %s' % (f.key, d), d.loc or f.loc,
                         function=f.key, place=d.place, got=str(d.got), specified=str(d.want), interpretation=d.seed)

    def once(self, lab, f, g, procs, tier):
        if procs == 'auto':
            ab = {k: 'proc' for k in lab.ref.pyfuncs if not k.startswith('spec_') and '__init__' not in k and lab.unchanged(k)}
        else:
            ab = {self.key(k): 'proc' for k in procs if lab.unchanged(self.key(k))}
        ab.pop(self.target, None)
        A, EA = lab.py_summary(lab.prog, f, ab, self.args, like=g)
        B, EB = lab.py_summary(lab.ref, g, ab, self.args, like=g)
        if not self.defaults:
            A.outs = B.outs = {}
        D = dom.PyDom(lab, dict(self.dom), dict(self.lens))
        D.defaults = {'p%d' % k: pyvalue(p.default) for k, p in enumerate(g.params) if p.default is not None}
        if self.prep:
            D.prepare = self.prep
        universe = lab.pyfields | lab.fields | BASEFIELDS | {'@' + x for x in lab.pyfields}

        def observed(sig):
            nm = cmp.lastfield(sig)
            if not nm:
                return sig[0][0] not in ('local', 'new')
            if nm in self.ignore or nm in SCRATCH:
                return False
            if self.only is not None:
                return nm in self.only
            return nm in universe
        ev_ = self.events

        em = {'ext:.' + x for x in lab.effectful()}
        # methods that change nothing in their object but, say, write a file
        files = {'py:' + k for k, h in lab.ref.pyfuncs.items() if k.split('.')[-1].split(':')[-1] in lab.effectful() and not lab.pyeffects(h)[1]}

        def wanted(k):
            return k in em or any(k.startswith(e) for e in ev_) or k.startswith('py:') and k in files
        for S in (A, B):
            S.effects = [w for w in S.effects if w.kind == 'raise' or w.kind == 'call' and (wanted(w.path) or w.path.startswith('py:')) or
                         w.kind not in ('call', 'clob', 'raise') and observed(cmp.signature(w.path))]
        n = self.trials * (4 if tier == 'thorough' else 1)
        calls = [{w.path for w in S.effects if w.kind == 'call' and w.path.startswith('py:')} for S in (A, B)]
        for S in (A, B):
            S.effects = [w for w in S.effects if w.kind != 'call' or wanted(w.path)]
        r = cmp.compare(A, B, D, trials=n, observed=observed, events=wanted, ret=self.ret, outs=bool(B.outs), fields=universe, ignore_raise=True, minimum=self.minimum,
                        more=12, secs=self.timeout / 4.0)
        r.samecalls = calls[0] == calls[1]
        return r


def pyvalue(e):
    """value of a constant default"""
    if e.k == 'num':
        return float(e.v)
    if e.k == 'none':
        return None
    if e.k == 'str':
        return e.v
    if e.k == 'name' and e.id in ('True', 'False'):
        return float(e.id == 'True')
    if e.k == 'list':
        return [pyvalue(x) for x in e.items]
    return '$default'


def generic(place):
    import re
    return re.sub(r'\[[^\]]*\]', '[]', place)


class Bounds:
    """every store of the function into an array of fixed size has its index within the size"""
    CAP = 2

    def __init__(self, target, abstr=(), dom=None, lens=None, trials=60, timeout=100):
        self.target, self.abstr, self.dom, self.lens, self.trials, self.timeout = target, dict(abstr), dom or {}, lens or {}, trials, timeout

    @property
    def id(self):
        return 'within(%s)' % self.target

    def run(self, lab, tier, out):
        from .model import Model, Run, Abort, Raised
        import re
        f0 = lab.resolve(self.target)
        P = lab.smallprog
        f = P.funcs.get(f0.key)
        if f is None:
            raise Missing(f0.key)
        out.functions.append(f.key)
        dims = {}
        for (rec, n), t in P.fieldtypes.items():
            d = [int(x) for x in re.findall(r'\[(\d+)\]', t)]
            if d:
                dims[n] = d
        with Alarm(self.timeout):
            ab = lab.abstr_for(self.abstr, f0)
            A, E = lab.cxx_summary(f, ab, P)
        D = dom.CxxDom(P.fieldtypes, dict(self.dom), dict(self.lens))
        cap = float(self.CAP)
        D.over.setdefault('n_neighbors', lambda m, loc, r: float(r.choice([0, 1, 2, 2])))
        sites = [w for w in A.effects if w.kind not in ('call', 'clob', 'raise') and cmp.lastfield(cmp.signature(w.path)) in dims]
        ok = used = 0
        pl = cmp.pools(cmp.vocabulary(A)[1], set())
        seen = set()
        with Alarm(self.timeout):
            for k in range(self.trials * (4 if tier == 'thorough' else 1)):
                m = Model(9000 + k, D, pl)
                r = Run(m)
                try:
                    r.execute(A.effects)
                except Raised:
                    used += 1
                except (Abort, RecursionError):
                    continue
                ok += 1
                for l, v in r.log:
                    b = outside(l, dims, m)
                    if b and l[b[0]] not in seen:
                        seen.add(l[b[0]])
                        out.find('bound:%s@%s' % (l[b[0]], self.target), '%s stores into %s[%s], which has %d elements (neighbor capacity taken as %d): %s' % (
                            f.key, l[b[0]], b[1], b[2], self.CAP, cmp.fmtloc(l)), cmp.writer(A, l) or f0.loc, function=f.key, interpretation=9000 + k)
        if ok < 10:
            out.undecided.append((self.target, 'only %d usable interpretations' % ok))
            return
        out.obligations += 1
        out.how = '%d store sites into fixed-size members, %d interpretations (%d refused)' % (len(sites), ok, used)


class Defined:
    """nothing the function stores, returns, refuses or calls depends on what an unassigned variable holds"""

    def __init__(self, target, abstr=(), dom=None, lens=None, trials=40, timeout=100, prep=None):
        self.target, self.abstr, self.dom, self.lens, self.trials, self.timeout, self.prep = target, dict(abstr), dom or {}, lens or {}, trials, timeout, prep

    @property
    def id(self):
        return 'defined(%s)' % self.target

    def run(self, lab, tier, out):
        from .model import Model, Run, Abort, Raised
        py = not ('::' in self.target or self.target.startswith(('catom.', 'csystem.')))
        with Alarm(self.timeout):
            if py:
                f = lab.prog.pyfuncs.get(self.target)
                if f is None:
                    raise Missing(self.target)
                g = lab.ref.pyfuncs.get(self.target)
                ab = {k: 'proc' for k in lab.ref.pyfuncs if not k.startswith('spec_') and '__init__' not in k and k in lab.prog.pyfuncs}
                ab.pop(self.target, None)
                A, E = lab.py_summary(lab.prog, f, ab, None, like=g)
                D = dom.PyDom(lab, dict(self.dom), dict(self.lens))
            else:
                f = lab.resolve(self.target)
                A, E = lab.cxx_summary(f, lab.abstr_for(self.abstr, f))
                D = dom.CxxDom(lab.prog.fieldtypes, dict(self.dom), dict(self.lens))
        if self.prep:
            D.prepare = self.prep
        out.functions.append(f.key)
        voc, ts = cmp.vocabulary(A, [A.ret] + list(A.outs.values()))
        un = sorted({str(t.args[0]) for t in ts if t.op == 'undef'})
        if not un:
            out.obligations += 1
            out.how = 'no value depends on an unassigned variable'
            return
        pl = cmp.pools(ts, set())
        ok = 0
        observed = lambda sig: not cmp.lastfield(sig) or cmp.lastfield(sig) in (lab.fields | lab.pyfields | BASEFIELDS | {'@' + x for x in lab.pyfields})
        with Alarm(self.timeout):
            for k in range(self.trials * (4 if tier == 'thorough' else 1)):
                m = Model(7000 + k, D, pl)
                if hasattr(D, 'prepare'):
                    D.prepare(m)
                rs, os_ = [], []
                try:
                    for salt in (1, 2):
                        r = Run(m)
                        r.salt = salt
                        r.want = (lambda key: True) if py else None
                        os_.append(cmp.outcome(r, A, True, bool(A.outs)))
                        rs.append(r)
                except (Abort, RecursionError):
                    continue
                ok += 1
                d = cmp.differ(rs[0], rs[1], os_[0], os_[1], A, A, observed, 7000 + k, True, bool(A.outs), True)
                if d:
                    d = d[0]
                    out.find('undef:%s@%s' % (generic(d.place), self.target), '%s: %s depends on a variable no path has assigned (%s)' % (f.key, d.place, ', '.join(un)), d.loc or f.loc,
                             function=f.key, interpretation=7000 + k, variables=un)
                    break
        if ok < 6 and not out.findings:
            out.undecided.append((self.target, 'only %d usable interpretations' % ok))
            return
        out.obligations += 1
        out.how = 'unassigned variables %s do not reach a result in %d interpretations' % (', '.join(un), ok)


def outside(l, dims, m):
    """(position of the member, index, size) if a location lies outside its array"""
    for k, c in enumerate(l):
        if isinstance(c, str) and c in dims and k > 0:
            for d, x in zip(dims[c], l[k + 1:]):
                if isinstance(x, str):
                    break
                if isinstance(x, (int, float)) and not 0 <= x < d:
                    return k, x, d
    return None


class Lint:
    """a dataflow rule: fn(lab, out)"""

    def __init__(self, name, fn, timeout=120, about=''):
        self.id, self.fn, self.timeout, self.about = name, fn, timeout, about

    def run(self, lab, tier, out):
        with Alarm(self.timeout):
            self.fn(lab, out)


BASEFIELDS = set()


def basefields():
    p = os.path.join(VERIF, 'rules', 'basefields.json')
    if os.path.exists(p):
        BASEFIELDS.update(json.load(open(p)))


def child(lab, rule, tier, conn):
    t = time.time()
    out = Outcome(rule.id)
    try:
        rule.run(lab, tier, out)
    except Timeout:
        out.undecided.append((rule.id, 'time limit'))
    except Missing as e:
        out.undecided.append((rule.id, 'anchor not found: %s' % e))
    except (ev.Unsupported, X.TooBig) as e:
        out.undecided.append((rule.id, 'not analysable: %s %s' % (type(e).__name__, e)))
    except RecursionError:
        out.undecided.append((rule.id, 'not analysable: recursion limit'))
    except Exception as e:
        out.undecided.append((rule.id, 'analysis error: %s: %s' % (type(e).__name__, e)))
        out.note = traceback.format_exc()[-1500:]
    out.wall = round(time.time() - t, 2)
    conn.send((out.rule, [(f.rule, f.key, f.msg, f.loc, f.detail) for f in out.findings], out.obligations, out.undecided, out.functions, out.note, out.how, out.wall))
    conn.close()
    os._exit(0)


def runall(lab, rules, tier, jobs=8, budget=780):
    ctx = mp.get_context('fork')
    t0 = time.time()
    todo = list(enumerate(rules))
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < jobs:
            i, r = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(lab, r, tier, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time(), r)
        time.sleep(0.02)
        for i in list(live):
            p, a, t, r = live[i]
            done = False
            if a.poll():
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = None
                done = True
            elif not p.is_alive():
                res[i] = None
                done = True
            elif time.time() - t > getattr(r, 'timeout', 120) * 1.5 + 20 or time.time() - t0 > budget:
                p.kill()
                res[i] = None
                done = True
            if done:
                p.join(2)
                if p.is_alive():
                    p.kill()
                    p.join()
                a.close()
                del live[i]
        if time.time() - t0 > budget:
            for i, r in todo:
                res[i] = None
            todo = []
    outs = []
    for i, r in enumerate(rules):
        o = Outcome(r.id)
        v = res.get(i)
        if v is None:
            o.undecided.append((r.id, 'no result (time or memory)'))
        else:
            o.rule, fs, o.obligations, o.undecided, o.functions, o.note, o.how, o.wall = v
            o.findings = [Finding(*f) for f in fs]
        outs.append(o)
    return outs


def known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status', 'known') == 'known':
                    out.append(d)
    return out


def main(pid, rules, explanation, assumptions=(), level='static analysis', tier=None, only=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    repo = os.environ.get('PYSCAL_REPO', '/repo')
    basefields()
    try:
        lab = Lab(repo)
    except Exception as e:
        # sources that do not parse cannot be judged; building them is the build's business
        lab = None
        err = '%s: %s' % (type(e).__name__, e)
    outs = []
    if lab is not None:
        rs = [r for r in rules if only is None or only in r.id]
        outs = runall(lab, rs, tier, budget=780 if tier != 'thorough' else 5000)
    kn = known(pid)
    viol, knownhit = [], []
    for o in outs:
        for f in o.findings:
            k = [d for d in kn if d['key'] == f.key and d.get('rule', f.rule) == f.rule]
            (knownhit if k else viol).append((f, k[0] if k else None))
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    seen = set()
    for f, k in knownhit:
        if k['key'] not in seen:
            seen.add(k['key'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    n = 0
    for f, _ in viol:
        n += 1
        rp = os.path.join(evd, '%s-violation-%d.json' % (pid, n))
        with open(rp, 'w') as fh:
            json.dump(dict(property=pid, **f.asdict(repo)), fh, indent=1)
        d = f.asdict(repo)
        print('%s: %s [%s]' % (d['location'], f.msg, f.rule))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    fl = os.path.join(evd, '%s.json' % pid)
    fns = sorted({g for o in outs for g in o.functions})
    cov = dict(explanation=explanation, rules=len(outs), rules_decided=sum(1 for o in outs if o.obligations), obligations=sum(o.obligations for o in outs),
               functions_analysed=len(fns), functions=fns,
               decided=[dict(rule=o.rule, obligations=o.obligations, how=o.how, seconds=o.wall) for o in outs if o.obligations],
               undecided=[dict(rule=o.rule, what=str(a), why=str(b)) for o in outs for a, b in o.undecided],
               known_findings=sorted(seen))
    if lab is None:
        cov['undecided'] = [dict(rule='*', what='all', why='sources could not be parsed: ' + err)]
    e = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
             assumptions=list(assumptions), violations=[dict(f.asdict(repo)) for f, _ in viol])
    with open(fl, 'w') as fh:
        json.dump(e, fh, indent=1)
    for o in outs:
        if o.note and os.environ.get('SA_DEBUG'):
            print(o.rule, o.note[-500:])
        if os.environ.get('SA_DEBUG'):
            print('%-60s %6.2fs obl=%d %s %s' % (o.rule, o.wall, o.obligations, o.how, o.undecided))
    print('%s: %d rules, %d obligations decided, %d undecided, %d violations, %d known findings, %.1f s' % (
        pid, len(outs), cov['obligations'], len(cov['undecided']), len(viol), len(seen), time.time() - t0))
    return 1 if viol else 0
