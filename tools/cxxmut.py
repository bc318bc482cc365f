"""Mutation analysis of the engine rules: mutates one token of a C++ function in a copy of
the sources, runs the rules that look at that function, lists mutants nothing reports.
usage: cxxmut.py <function regex> [per-function limit] [jobs]"""
import importlib, os, random, re, shutil, subprocess, sys, tempfile, time
import multiprocessing as mp
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
os.chdir(H)
from sa import runner, lab as labm
from sa.lab import Lab

REPO = '/repo'


def rules():
    out = []
    for f in sorted(os.listdir('rules')):
        if re.match(r'p\d+\.py$', f):
            out += [(f[:-3].upper(), r) for r in importlib.import_module('rules.' + f[:-3]).RULES]
    return out


def extent(lines, start):
    d, seen = 0, False
    for i in range(start - 1, len(lines)):
        for c in re.sub(r'//.*', '', lines[i]):
            if c == '{':
                d, seen = d + 1, True
            elif c == '}':
                d -= 1
                if seen and d == 0:
                    return i
        if not seen and lines[i].rstrip().endswith(';'):
            return None
    return None


SUB = [(r'<=', ['<']), (r'>=', ['>']), (r'(?<![<-])<(?![<=\w])', ['<=']), (r'(?<![->])>(?![>=])', ['>=']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'(?<!\+)\+(?![+=])', ['-']), (r'(?<!-)-(?![-=>])', ['+']), (r'(?<=\w|\)|\])\s*\*\s*(?=[\w(])', ['/']), (r'/(?!/|\*)', ['*']),
       (r'\b(\d+)\b(?!\.)', ['N+1', 'N-1']), (r'\b(\d+\.\d+)\b', ['F']), (r'\b(\w*)x\b', ['Y']), (r'\b(\w*)y\b', ['X']), (r'\bti\b', ['tj']), (r'\btj\b', ['ti']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\breal_nop\b', ['nop']), (r'(?<!_)\bnop\b', ['real_nop'])]


def mutants(lines, a, b):
    out = []
    incom = False
    for i in range(a, b + 1):
        l = lines[i]
        if '/*' in l:
            incom = True
        if incom:
            if '*/' in l:
                incom = False
            continue
        code = l.split('//')[0]
        if 'throw ' in code or '.reserve(' in code:
            continue
        if not code.strip():
            continue
        for pat, reps in SUB:
            for m in re.finditer(pat, code):
                for r in reps:
                    o = m.group(0)
                    if r == 'N+1':
                        n = str(int(o) + 1)
                    elif r == 'N-1':
                        n = str(int(o) - 1)
                    elif r == 'F':
                        n = repr(float(o) * 1.5 + 0.1)
                    elif r in ('X', 'Y'):
                        n = o[:-1] + r.lower()
                        if not re.search(r'(diff|pos|box|^)[xyXY]$|vec|^[xy]$|n[xy]$', o):
                            continue
                    else:
                        n = r
                    out.append((i, code[:m.start()] + n + code[m.end():], '%s -> %s' % (o, n)))
        s = code.strip()
        if s.endswith(';') and not re.match(r'(int|double|bool|vector|complex|float|return|else|for|string)\b', s) and s not in (';',):
            out.append((i, re.sub(r'\S.*', ';', code), 'deleted'))
    return out


CANDS = {}


def one(job):
    key, path, i, text, what = job
    cands = CANDS[key]
    td = tempfile.mkdtemp(prefix='cm')
    t0 = time.time()
    try:
        os.makedirs(td + '/src')
        shutil.copytree(REPO + '/src/pyscal', td + '/src/pyscal', ignore=shutil.ignore_patterns('*.so', '__pycache__'))
        os.symlink(REPO + '/lib', td + '/lib')
        p = td + '/src/pyscal/' + os.path.basename(path)
        L = open(p).read().split('\n')
        orig = L[i]
        L[i] = text
        open(p, 'w').write('\n'.join(L))
        os.environ['PYSCAL_SA_CACHE'] = td + '/c'
        runner.basefields()
        try:
            lab = Lab(td)
        except RuntimeError as e:
            return (key, i, what, orig, 'nocompile', '')
        res = []
        for pid, r in cands:
            o = runner.Outcome(r.id)
            try:
                r.run(lab, 'quick', o)
            except labm.Timeout:
                res.append(pid + ':timeout')
                continue
            except Exception as e:
                res.append('%s:%s %s' % (pid, type(e).__name__, str(e)[:60]))
                continue
            if [f for f in o.findings if not f.key.startswith('known:')]:
                return (key, i, what, orig, 'caught', pid)
            res.append('%s:%s' % (pid, o.how[:30] if o.obligations else 'undecided ' + str(o.undecided)[:80]))
        return (key, i, what, orig, 'survived', '; '.join(res))
    finally:
        shutil.rmtree(td, ignore_errors=True)


def main():
    pat, lim, jobs = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 20, int(sys.argv[3]) if len(sys.argv) > 3 else 6
    runner.basefields()
    lab = Lab(REPO)
    by = {}
    for pid, r in rules():
        if isinstance(r, (runner.Compare,)):
            try:
                k = lab.resolve(r.target).key
            except labm.Missing:
                continue
            by.setdefault(k, [])
            if all(x.id != r.id or x.obs != r.obs for _, x in by[k]):
                by[k].append((pid, r))
    jl = []
    for k, f in sorted(lab.prog.funcs.items()):
        if not re.search(pat, k) or not f.loc:
            continue
        c = by.get(k)
        if not c:
            # rules of the callers
            from sa.ir import walk
            c = []
            for k2, f2 in lab.prog.funcs.items():
                if k2 in by and any(x.k == 'call' and getattr(x, 'key', None) == k for x in walk(f2.body)):
                    c += by[k2]
        if not c:
            print('no rule', k)
            continue
        path = f.loc[0] if f.loc[0].startswith('/') else REPO + '/' + f.loc[0]
        L = open(path).read().split('\n')
        e = extent(L, f.loc[1])
        if e is None:
            print('no extent', k, f.loc)
            continue
        ms = mutants(L, f.loc[1], e)
        random.Random(7).shuffle(ms)
        CANDS[k] = c[:3]
        jl += [(k, path, i, t, w) for i, t, w in ms[:lim]]
    print(len(jl), 'mutants', flush=True)
    tot = {}
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=1) as P:
        for key, i, what, orig, st, res in P.imap(one, jl):
            tot.setdefault(key, {}).setdefault(st, 0)
            tot[key][st] += 1
            if st == 'survived':
                print('  %s L%d [%s] %s   {%s}' % (key.split('(')[0], i + 1, what, orig.strip()[:110], res), flush=True)
    for k in tot:
        print(k.split('(')[0], tot[k])


main()
