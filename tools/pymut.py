"""Mutation analysis of the Python-layer rules: mutate one function of the repository's
source in memory, re-summarise, report mutants no rule distinguishes.
usage: pymut.py <function pattern> [per-function limit]"""
import ast
import copy
import os
import random
import sys
import time
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import pyfe, runner, ev, terms as X
from sa.lab import Lab, Alarm, Timeout
from sa.runner import PyCompare, Outcome, Missing


def sites(fn):
    out = []
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) or isinstance(n, ast.Call) and 'warn' in ast.unparse(n.func):
            skip |= {id(x) for x in ast.walk(n) if isinstance(x, (ast.Constant, ast.BinOp))}
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            out.append((n, 'cmp', sw[type(n.ops[0])]))
        elif isinstance(n, ast.BoolOp):
            out.append((n, 'bool', None))
        elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            out.append((n, 'bin', sw[type(n.op)]))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((n, 'const', not n.value))
            elif isinstance(n.value, (int, float)):
                out.append((n, 'const', n.value + 1))
            elif isinstance(n.value, str) and n.value:
                out.append((n, 'const', n.value + '_'))
        elif isinstance(n, (ast.If, ast.While)):
            out.append((n, 'neg', None))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                out.append((n, 'swap', None))
            if n.keywords:
                out.append((n, 'dropkw', None))
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append((n, 'retnone', None))
        if hasattr(n, 'body') and isinstance(n.body, list):
            for i, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.If, ast.For, ast.Continue, ast.Break)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    out.append((n, 'del', i))
        if getattr(n, 'orelse', None) and isinstance(n.orelse, list):
            out.append((n, 'noelse', None))
    return out


def apply(site):
    n, k, v = site
    if k == 'cmp':
        n.ops = [v()]
    elif k == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == 'bin':
        n.op = v()
    elif k == 'const':
        n.value = v
    elif k == 'neg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k == 'swap':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == 'dropkw':
        n.keywords = n.keywords[1:]
    elif k == 'retnone':
        n.value = None
    elif k == 'del':
        n.body[v] = ast.Pass()
    elif k == 'noelse':
        n.orelse = []


def desc(site):
    n, k, v = site
    try:
        s = ast.unparse(n.body[v] if k == 'del' else (n.test if k == 'neg' else n)) if k != 'noelse' else 'else of ' + ast.unparse(n)[:40]
    except Exception:
        s = '?'
    return '%s L%d: %s -> %s' % (k, getattr(n, 'lineno', 0), s.split('\n')[0][:90], v if not isinstance(v, type) else v.__name__)


def findfn(tree, key):
    mod, name = key.split(':')
    setter = name.endswith('.setter')
    name = name[:-7] if setter else name
    cls, _, fnn = name.rpartition('.')
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and n.name == cls or isinstance(n, ast.Module) and not cls:
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and f.name == fnn:
                    st = any('setter' in ast.unparse(d) for d in f.decorator_list)
                    if st == setter:
                        return f
    return None


def judge(lab, rules, tree, modname, rel, q):
    try:
        lw = pyfe
        src = ast.unparse(tree)
        import tempfile
        fd, p = tempfile.mkstemp(suffix='.py')
        os.write(fd, src.encode())
        os.close(fd)
        old = {k: v for k, v in lab.prog.pyfuncs.items()}
        for k in list(lab.prog.pyfuncs):
            if k.startswith(modname + ':'):
                del lab.prog.pyfuncs[k]
        pyfe.load_module(lab.prog, p, modname, rel)
        os.remove(p)
        st = []
        for r in rules:
            o = Outcome(r.id)
            try:
                r.run(lab, 'quick', o)
            except Timeout:
                o.undecided.append((r.id, 'time'))
            except Exception as e:
                o.undecided.append((r.id, '%s %s' % (type(e).__name__, e)))
            if o.findings:
                st = ['caught']
                break
            if o.undecided:
                st.append('undecided: ' + str(o.undecided[0][1])[:100])
        q.put(st or ['survived'])
    except Exception as e:
        q.put(['error %s' % e])
    q.close()
    q.join_thread()
    os._exit(0)


def main(pat, limit, rulemods=None, timeout=60):
    runner.basefields()
    lab = Lab(os.environ.get('PYSCAL_REPO', '/repo'))
    allrules = []
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'rules')
    import importlib
    for f in sorted(os.listdir(d)):
        if f[1:3].isdigit() and f.endswith('.py'):
            m = importlib.import_module('rules.' + f[:-3])
            allrules += [r for r in m.RULES if isinstance(r, PyCompare)]
    for key, f in list(lab.prog.pyfuncs.items()):
        if pat not in key or key.startswith('spec_'):
            continue
        modname = key.split(':')[0]
        M = lab.prog.modules[modname]
        base = M.tree
        fn0 = findfn(base, key)
        if fn0 is None:
            continue
        rules = [r for r in allrules if r.target == key] or [PyCompare(key, timeout=timeout)]
        # defaults included
        n = len(sites(fn0))
        idx = list(range(n))
        random.Random(1).shuffle(idx)
        idx = sorted(idx[:limit])
        ctx = mp.get_context('fork')
        live, res = [], {}
        todo = list(idx)
        while todo or live:
            while todo and len(live) < 8:
                i = todo.pop(0)
                t = copy.deepcopy(base)
                s = sites(findfn(t, key))[i]
                ds = desc(s)
                apply(s)
                q = ctx.Queue()
                p = ctx.Process(target=judge, args=(lab, rules, t, modname, M.path, q))
                p.start()
                live.append((i, ds, p, q, time.time()))
            time.sleep(0.02)
            for z in list(live):
                i, ds, p, q, t0 = z
                if not q.empty():
                    res[i] = (ds, q.get())
                elif not p.is_alive() and q.empty():
                    time.sleep(0.05)
                    res[i] = (ds, q.get()) if not q.empty() else (ds, ['died'])
                elif time.time() - t0 > timeout * len(rules) + 20:
                    p.kill()
                    res[i] = (ds, ['timeout'])
                else:
                    continue
                p.join(1)
                if p.is_alive():
                    p.kill()
                live.remove(z)
        c = sum(1 for v in res.values() if v[1] == ['caught'])
        print('%s: %d/%d caught' % (key, c, len(res)))
        for i in sorted(res):
            if res[i][1] != ['caught']:
                print('    ', res[i][0], res[i][1][:2])
        sys.stdout.flush()


if __name__ == '__main__':
    main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 40)
