"""Loads the repository (C++ through clang's AST, Python through ast) and the reference
specifications, and decides comparison rules."""
import os
import re
import signal
import sys
import time
import traceback
from . import cxx, pyfe, ev, pyev, cmp, dom, terms as X
from .terms import mk
from .cxx import is_int, base_ty
from .ev import Unsupported, Ref, NONE, THIS

sys.setrecursionlimit(20000)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


class Missing(Exception):
    pass


def findast(tree, name):
    import ast
    setter = name.endswith('.setter')
    name = name[:-7] if setter else name
    cls, _, fn = name.rpartition('.')
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and n.name == cls or isinstance(n, ast.Module) and not cls:
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and f.name == fn and any('setter' in ast.unparse(d) for d in f.decorator_list) == setter:
                    return f
    return None


from .ir import children as irchildren


class Bind:
    """what the C++ side of a class offers to its Python subclass: attributes as storage,
    methods with the members they read and write"""
    BASES = {'pyscal.csystem.System': 'csystem', 'pyscal.catom.Atom': 'catom'}

    def __init__(self, prog):
        self.prog = prog
        self.E = ev.Ev(prog)
        self.tab = {}
        self._refs = {}
        self._foot = {}

    def module_of(self, c):
        for b in c.bases:
            h, _, rest = b.partition('.')
            r = c.module.names.get(h)
            if r and r[0] == 'import':
                b = r[1] + ('.' + rest if rest else '')
                r = None
            if b in self.BASES:
                return self.BASES[b]
            if r is None and '.' in b:
                m, n = b.rsplit('.', 1)
                M = self.prog.modules.get(m)
                r = M.names.get(n) if M else None
            if r and r[0] == 'class':
                z = self.module_of(r[1])
                if z:
                    return z
        return None

    def find(self, c, n):
        mod = self.module_of(c)
        if mod is None:
            return None
        for b in self.prog.bindings.get(mod, []):
            if b['name'] == n:
                return b
        return None

    def refsof(self, f, seen=()):
        """members of the object a function reads or writes, transitively"""
        if f.key in self._refs:
            return self._refs[f.key]
        if f.key in seen:
            return set()
        out = set()
        from .ir import walk as irwalk
        for x in irwalk(f.body):
            if x.k == 'fld' and x.b.k == 'this':
                out.add(x.n)
            elif x.k == 'call' and x.key and x.key in self.prog.funcs:
                out |= self.refsof(self.prog.funcs[x.key], seen + (f.key,))
        if not seen:
            self._refs[f.key] = out
        return out

    def foot(self, f, i, seen=()):
        """members of its i-th argument that an engine function reads; None: any of them"""
        if i >= len(f.params) or f.body is None or f.params[i].byref or (f.key, i) in seen:
            return None
        k = (f.key, i)
        if k in self._foot:
            return self._foot[k]
        nm, out = f.params[i].name, set()

        def use(n):
            if n.k == 'name':
                return n.id != nm
            if n.k == 'fld' and n.b.k == 'name' and n.b.id == nm:
                out.add(n.n)
                return True
            if n.k == 'call':
                g = self.prog.funcs.get(n.key or '')
                r = n.recv
                if r is not None and r.k == 'name' and r.id == nm:
                    if g is None or g.body is None or self.modsof(g):
                        return False
                    out.update(self.refsof(g))
                    r = None
                ok = r is None or use(r)
                for j, a in enumerate(n.args):
                    if a.k == 'name' and a.id == nm:
                        z = self.foot(g, j, seen + (k,)) if g is not None else None
                        if z is None:
                            return False
                        out.update(z)
                    else:
                        ok = ok and use(a)
                return ok
            if n.k == 'assign':
                t = n.lhs
                while t.k in ('fld', 'idx'):
                    t = t.b
                if t.k == 'name' and t.id == nm:
                    return False
            return all(use(c) for c in irchildren(n))
        r = out if use(f.body) else None
        if not seen:
            self._foot[k] = r
        return r

    def pyattrs(self, fields):
        """attributes of a Python atom behind members of the engine's atom"""
        out = set()
        for b in self.prog.bindings.get('catom', []):
            if b['kind'] in ('def_readwrite', 'def_readonly'):
                if b['targets'] and b['targets'][0]['name'] in fields:
                    out.add(b['name'])
            elif b['kind'].startswith('def_property') and b['targets']:
                g = self.prog.funcs.get(b['targets'][0].get('key') or '')
                if g is not None and self.refsof(g) & fields:
                    out.add(b['name'])
        return out

    def boundfoot(self, c, n, i):
        """attributes of the i-th argument, an atom, that a bound engine method reads"""
        out = set()
        for b in self.prog.bindings.get(self.module_of(c) or '', []):
            if b['name'] == n:
                for t in b['targets']:
                    f = self.prog.funcs.get(t.get('key') or '')
                    if f is None or i >= len(f.params) or 'Atom' not in f.params[i].ty or 'vector' in f.params[i].ty:
                        return None
                    z = self.foot(f, i)
                    if z is None:
                        return None
                    out |= z
        return self.pyattrs(out) if out else None

    def modsof(self, f):
        return {s[1] for s in self.E.modsigs(f) if len(s) > 1 and isinstance(s[1], str)}

    def attr(self, c, n):
        b = self.find(c, n)
        if b is None or b['kind'] == 'def':
            return None
        t = b['targets'][0]
        if b['kind'] in ('def_readwrite', 'def_readonly'):
            return ('field', t['name'])
        return ('field', '@' + n)

    def props(self, fields, c, which):
        mod = self.module_of(c)
        out = set()
        for b in self.prog.bindings.get(mod, []):
            if b['kind'] == 'def_property' and b['targets'] and b['targets'][0].get('key') in self.prog.funcs:
                if self.refsof(self.prog.funcs[b['targets'][0]['key']]) & fields:
                    out.add('@' + b['name'])
        return out

    def propfields(self, c, n, store):
        """C++ members behind a property"""
        b = self.find(c, n)
        out = set()
        if b and b['kind'] == 'def_property':
            t = b['targets'][1 if store and len(b['targets']) > 1 else 0]
            f = self.prog.funcs.get(t.get('key') or '')
            if f is not None:
                out = self.modsof(f) if store else self.refsof(f)
        return out

    SCRATCH = {'cells'}

    def method(self, c, n):
        b = self.find(c, n)
        if b is None or b['kind'] != 'def':
            return None
        refs, mods = set(), set()
        for b2 in self.prog.bindings.get(self.module_of(c), []):
            if b2['name'] == n:
                for t in b2['targets']:
                    f = self.prog.funcs.get(t.get('key') or '')
                    if f is None:
                        return None
                    refs |= self.refsof(f)
                    mods |= self.modsof(f)
        refs |= self.props(refs, c, 'r')
        mods |= self.props(mods, c, 'w')
        return (refs, mods)


def attrs(f):
    from .ir import walk as irwalk
    c = f.__dict__.get('_attrs')
    if c is None:
        c = f._attrs = {x.n for x in irwalk(f.body) if x.k == 'fld'}
    return c


class Lab:
    def __init__(self, repo='/repo', python=True, specs=True):
        self.repo = repo
        t = time.time()
        import tempfile
        cache = os.environ.get('PYSCAL_SA_CACHE')
        if not cache:
            cache = os.path.join(VERIF, '.cache')
        try:
            os.makedirs(cache, exist_ok=True)
        except OSError:
            cache = tempfile.mkdtemp(prefix='sa')
        self.cache = cache
        self.prog = P = cxx.load(repo, cache)
        for (r, f), ty in P.fieldtypes.items():
            if is_int(re.sub(r'\[.*', '', ty)) or 'vector<int' in ty:
                X.INTFIELDS.add(f)
            if base_ty(ty) == 'bool':
                X.BOOLFIELDS.add(f)
        X.POSITIVE |= {'boxx', 'boxy', 'boxz'}
        X.NONNEG |= {'nop', 'real_nop', 'ghost_nop', 'n_neighbors'}
        P.pi = None
        for g in P.globals:
            if g == 'PI':
                P.pi = ev.Ev(P).ex(P.globals[g], {})
        self.fields = {f for (_, f) in P.fieldtypes}
        if python:
            pyfe.load_package(P, repo)
        self.bind = Bind(P)
        # reference definitions of the Python layer, under the names of the repository's modules
        import copy
        self.ref = R = copy.copy(P)
        R.modules, R.pyfuncs = {}, {}
        if python:
            pyfe.load_package(R, os.path.join(VERIF, 'specs'), base='ref')
        self.pyfields = set()
        for f in R.pyfuncs.values():
            self.pyfields |= attrs(f)
        self.specs = {}
        if specs:
            d = os.path.join(VERIF, 'specs')
            before = set(P.pyfuncs) if hasattr(P, 'pyfuncs') else set()
            for f in sorted(os.listdir(d)):
                if f.endswith('.py'):
                    m = 'spec_' + f[:-3]
                    pyfe.load_module(P, os.path.join(d, f), m, 'specs/' + f)
            for k, f in P.pyfuncs.items():
                if k.startswith('spec_'):
                    self.specs[f.name if not f.cls else f.cls + '.' + f.name] = f
        self.loadtime = time.time() - t

    # ------------------------------------------------------------ resolution
    def cxxfuncs(self, pat):
        """'Class::name', 'Class::name/2', 'Class::name/2:int' -> functions"""
        m = re.match(r'^(\w+)::(~?\w+)(?:/(\d+))?(?::(.*))?$', pat)
        if not m:
            return []
        cls, nm, n, ty = m.groups()
        out = []
        for f in self.prog.funcs.values():
            if f.cls == cls and f.name == nm and (n is None or len(f.params) == int(n)):
                if ty and not (f.params and base_ty(f.params[0].ty).startswith(ty)):
                    continue
                out.append(f)
        return out

    def bound(self, mod, name, kinds=None):
        return [b for b in self.prog.bindings.get(mod, []) if b['name'] == name and (kinds is None or b['kind'] in kinds)]

    def resolve(self, tgt):
        if '::' in tgt:
            fs = self.cxxfuncs(tgt)
            if len(fs) != 1:
                raise Missing('%s: %d candidates' % (tgt, len(fs)))
            return fs[0]
        m = re.match(r'^(catom|csystem)\.(\w+?)(?:\.(get|set))?(?:/(\d+))?(?::(.*))?$', tgt)
        if m:
            mod, nm, acc, n, ty = m.groups()
            c = []
            for b in self.bound(mod, nm):
                ts = b['targets']
                if acc == 'set':
                    ts = ts[1:2]
                elif acc == 'get' or b['kind'] == 'def':
                    ts = ts[:1]
                for t in ts:
                    if t['key'] and t['key'] in self.prog.funcs:
                        f = self.prog.funcs[t['key']]
                        if n is not None and len(f.params) != int(n):
                            continue
                        if ty and not (f.params and base_ty(f.params[0].ty).startswith(ty)):
                            continue
                        c.append(f)
            if len(c) != 1:
                raise Missing('%s: %d bound functions' % (tgt, len(c)))
            return c[0]
        f = self.prog.pyfuncs.get(tgt)
        if f is None:
            raise Missing('%s: no such Python function' % tgt)
        return f

    # ------------------------------------------------------------ abstractions
    def dist(self, E, e, env):
        i, j = E.ex(e.args[0], env), E.ex(e.args[1], env)
        for k, a in enumerate(e.args[2:5]):
            E.assign(a, self.dispterm(k, i, j), env, e.loc)
        return self.distterm(i, j)

    def dispterm(self, k, i, j):
        s = 1
        if i.id > j.id:
            i, j, s = j, i, -1
        return X.mul(X.num(s), X.mk('fn', 'disp%d' % k, i, j))

    def distterm(self, i, j):
        if i.id > j.id:
            i, j = j, i
        return X.mk('fn', 'dist', i, j)

    def abstr_for(self, names, target):
        ab = {}
        for n, how in names.items():
            for f in self.cxxfuncs(n):
                if f is target and how != 'proc':
                    continue
                ab[f.key] = self.dist if how == 'dist' else how
        return ab

    def intrinsics(self):
        lab = self

        def ex(E, a, env):
            v = E.exv(a, env)
            return E.materialise(v)

        def i_dist(E, e, env):
            return lab.distterm(ex(E, e.args[0], env), ex(E, e.args[1], env))

        def mkdisp(k):
            def f(E, e, env):
                return lab.dispterm(k, ex(E, e.args[0], env), ex(E, e.args[1], env))
            return f

        def i_pure(E, e, env):
            nm = e.args[0].v
            return X.fn(nm, *[ex(E, a, env) for a in e.args[1:]])

        def i_proc(E, e, env):
            fs = lab.cxxfuncs(e.args[0].v)
            if len(fs) != 1:
                raise Unsupported('procedure ' + e.args[0].v)
            f = fs[0]
            args = [ex(E, a, env) for a in e.args[1:]]
            if f.key in lab.open:
                # the candidate is analysed together with this procedure: so is the specification
                sf = lab.specs[lab.procspec[f.key]]
                return E.call_py(sf, ([THIS] if sf.params and sf.params[0].name == 'self' else []) + args, {}, env, e.loc)
            t = mk('ext', 'call:' + f.key, *args)
            ivs = tuple(l.iv for l in E.loops)
            E.log.append(ev.W('call', f.key, tuple(args), E.curguard(env), ivs, e.loc, ()))
            for sig in sorted(E.modsigs(f), key=str):
                E.log.append(ev.W('clob', None, t, E.curguard(env), ivs, e.loc, sig))
            return t

        def i_ext(E, e, env):
            return mk('ext', e.args[0].v, *[ex(E, a, env) for a in e.args[1:]])

        def i_out(E, e, env):
            env['$out%d' % int(e.args[0].v)] = ex(E, e.args[1], env)
            return NONE

        def i_ite(E, e, env):
            return X.ite_any(X.truth(ex(E, e.args[0], env)), ex(E, e.args[1], env), ex(E, e.args[2], env))

        def i_ind(E, e, env):
            return X.truth(ex(E, e.args[0], env))

        def i_complex(E, e, env):
            return mk('struct', 'complex', (('re', ex(E, e.args[0], env)), ('im', ex(E, e.args[1], env))))

        def i_rec(E, e, env):
            """REC('datom', dist=..., index=...)"""
            nm = e.args[0].v
            kw = {k: ex(E, v, env) for k, v in (e.__dict__.get('kw') or {}).items()}
            return mk('struct', nm, tuple((f, kw[f]) for f, _ in lab.prog.records[nm]))

        def i_idiv(E, e, env):
            return X.fn('idiv', ex(E, e.args[0], env), ex(E, e.args[1], env))

        def i_imod(E, e, env):
            return X.fn('imod', ex(E, e.args[0], env), ex(E, e.args[1], env))

        def i_trunc(E, e, env):
            return X.fn('trunc', ex(E, e.args[0], env))

        def i_cbrt(E, e, env):
            return X.fn('cbrt', ex(E, e.args[0], env))

        def i_sort(E, e, env):
            x, y = mk('sym', '$x', ''), mk('sym', '$y', '')
            f = e.args[1].v
            E.assign(e.args[0], mk('sorted', E.ex(e.args[0], env), X.LT(mk('fld', x, f), mk('fld', y, f))), env, e.loc)
            return NONE

        return {'CBRT': i_cbrt, 'SORT': i_sort, 'dist': i_dist, 'dispx': mkdisp(0), 'dispy': mkdisp(1), 'dispz': mkdisp(2), 'PURE': i_pure, 'PROC': i_proc, 'EXT': i_ext,
                'OUT': i_out, 'ite': i_ite, 'ind': i_ind, 'COMPLEX': i_complex, 'REC': i_rec, 'idiv': i_idiv, 'imod': i_imod, 'trunc': i_trunc}

    # ------------------------------------------------------------ summaries
    def args_for(self, f):
        """canonical positional names so that parameter names do not matter"""
        E = ev.Ev(self.prog)
        args = {}
        types = []
        for k, p in enumerate(f.params):
            nm = p.name.split('#')[0]
            args[nm] = E.param_term(p, 'p%d' % k)
            types.append(p)
        return args

    @property
    def cref(self):
        if self._cref is None:
            self._cref = cxx.load_reference(self.repo, self.prog, os.path.join(VERIF, 'specs', 'cxx', 'reference.cpp'), self.cache)
        return self._cref

    _cref = None

    @property
    def smallprog(self):
        if self._small is None:
            try:
                self._small = cxx.load(self.repo, self.cache, cxx.small)
            except cxx.NoCapacity:
                raise Missing('capacity of the neighbor arrays')
            self._small.pi = self.prog.pi
        return self._small

    _small = None

    def cxx_summary(self, f, abstr, prog=None):
        E = ev.Ev(prog or self.prog, abstr)
        return E.run(f, args=self.args_for(f)), E

    def py_summary(self, prog, f, abstr, args=None, like=None):
        """summary of a Python function; parameters are numbered so that their names do
        not matter, parameters the reference does not have keep their default"""
        E = pyev.PyEv(prog, abstr, bind=self.bind)
        E.lab = self
        cls = E.class_of(f)
        n = len(like.params) if like is not None else len(f.params)
        a = {}
        outs = {}
        for k, p in enumerate(f.params):
            if k < n:
                a[p.name] = mk('param', 'p%d' % k)
                E.modstack = [f]
                outs['default of argument %d' % k] = E.ex(p.default, {}) if p.default is not None else mk('str', '$required')
            else:
                if p.default is None:
                    raise Unsupported('additional argument %s' % p.name)
                E.modstack = [f]
                a[p.name] = E.ex(p.default, {})
        if args:
            for k, v in args.items():
                if k < len(f.params):
                    a[f.params[k].name] = v
        s = E.run(f, args=a, cls=cls)
        s.outs = outs
        return s, E

    def unchanged(self, key):
        """is the source of this Python function that of its reference definition?"""
        import ast
        out = []
        for P in (self.prog, self.ref):
            M = P.modules.get(key.split(':')[0])
            n = findast(M.tree, key.split(':')[1]) if M is not None else None
            if n is None:
                return False
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                b = b[1:]
            out.append((ast.dump(n.args), [ast.dump(x) for x in b]))
        return out[0] == out[1]

    def cxxhash(self, key):
        """digest of the body of a C++ function, without locations and local numbering"""
        import hashlib
        f = self.prog.funcs.get(key)
        if f is None or f.body is None:
            return None
        n = {}
        t = re.sub(r"(\w+)#(\w+)", lambda m: n.setdefault(m.group(0), 'v%d' % len(n)), repr([p.name for p in f.params]) + repr(f.inits) + repr(f.body))
        return hashlib.sha256(re.sub(r'0x[0-9a-f]+|\(lambda at [^)]*\)', '', t).encode()).hexdigest()[:20]

    def cxxunchanged(self, key):
        """is the source of this C++ function the one for which its rule was decided?"""
        if self._ch is None:
            import json
            p = os.path.join(VERIF, 'rules', 'cxxhash.json')
            self._ch = json.load(open(p)) if os.path.exists(p) else {}
        return key in self._ch and self._ch[key] == self.cxxhash(key)

    _ch = None

    def effectful(self):
        """names of methods of the package that change their object or write files"""
        if self._effm is None:
            out = {'shuffle', 'write', 'writelines', 'command'}
            src = {}
            from .ir import walk as irwalk
            for k, f in self.ref.pyfuncs.items():
                if k.startswith('spec_'):
                    continue
                called = {x.fn.n for x in irwalk(f.body) if x.k == 'call' and x.fn.k == 'fld'}
                src[k] = (f.name.split('.')[-1], called, bool(f.selfname and self.pyeffects(f)[1]))
            change = True
            while change:
                change = False
                for n, c, w in src.values():
                    if n not in out and not n.startswith('__') and (w or c & out):
                        out.add(n)
                        change = True
            self._effm = out
        return self._effm

    _effm = None
    _pyfoot = {}

    def pyeffects(self, f, seen=()):
        """(attributes read, attributes written) of the object a Python method works on"""
        from .ir import walk as irwalk
        c = f.__dict__.get('_eff')
        if c is not None:
            return c
        refs, mods = set(), set()
        if f.key in seen or not f.selfname:
            return refs, mods
        E = pyev.PyEv(self.ref)
        cls = E.class_of(f)
        stores = set()
        for x in irwalk(f.body):
            if x.k == 'assign':
                ts = [x.lhs]
                while ts:
                    t = ts.pop()
                    if t.k == 'list':
                        ts += t.items
                        continue
                    while t.k == 'idx':
                        t = t.b
                    if t.k == 'fld' and t.b.k == 'name' and t.b.id == f.selfname:
                        stores.add(t.n)
        def one(n, store):
            b = self.bind.attr(cls, n)
            (mods if store else refs).add(b[1] if b else n)
            if b and b[1].startswith('@'):
                (mods if store else refs).update(self.bind.propfields(cls, n, store))
        for x in irwalk(f.body):
            if x.k != 'fld' or x.b.k != 'name' or x.b.id != f.selfname:
                continue
            n = x.n
            m = cls.methods.get(n)
            if m is None and n in cls.getters and n not in stores:
                m = cls.getters[n]
            if m is not None:
                r, w = self.pyeffects(m, seen + (f.key,))
                refs |= r
                mods |= w
                continue
            if n in stores:
                g = cls.setters.get(n)
                if g is not None:
                    r, w = self.pyeffects(g, seen + (f.key,))
                    refs |= r
                    mods |= w
                    if n in cls.getters:
                        r, w = self.pyeffects(cls.getters[n], seen + (f.key,))
                        refs |= r
                else:
                    one(n, True)
                    one(n, False)
                continue
            bm = self.bind.method(cls, n)
            if bm is not None:
                refs |= bm[0]
                mods |= bm[1]
                continue
            one(n, False)
        if not seen:
            f._eff = (refs, mods)
        return refs, mods

    def atomattrs(self):
        return {b['name'] for b in self.prog.bindings.get('catom', []) if b['kind'] != 'def'}

    def pyfoot(self, f, nm, seen=()):
        """attributes of an argument a Python function reads; None: any of them"""
        k = (f.key, nm)
        if k in self._pyfoot:
            return self._pyfoot[k]
        if k in seen:
            return None
        out = set()
        cls = pyev.PyEv(self.ref).class_of(f) if f.selfname else None

        def use(n):
            if n.k == 'name':
                return n.id != nm
            if n.k == 'lambda':
                return False
            if n.k == 'fld' and n.b.k == 'name' and n.b.id == nm:
                out.add(n.n)
                return True
            if n.k == 'call' and n.fn.k == 'fld' and n.fn.b.k == 'name':
                if n.fn.b.id == nm:
                    return False
                if cls is not None and n.fn.b.id == f.selfname:
                    ok = all(use(v) for v in n.kw.values())
                    for j, a in enumerate(n.args):
                        if a.k == 'name' and a.id == nm:
                            g = cls.methods.get(n.fn.n)
                            z = None
                            if g is not None:
                                ps = [p.name for p in g.params if p.kind == 'pos']
                                z = self.pyfoot(g, ps[j], seen + (k,)) if j < len(ps) else None
                            elif self.bind.method(cls, n.fn.n) is not None:
                                z = self.bind.boundfoot(cls, n.fn.n, j)
                            if z is None:
                                return False
                            out.update(z)
                        else:
                            ok = ok and use(a)
                    return ok
            if n.k in ('assign', 'for', 'foreach'):
                t = n.lhs if n.k == 'assign' else n
                while t.k in ('fld', 'idx'):
                    t = t.b
                if t.k == 'name' and t.id == nm:
                    return False
            return all(use(c) for c in irchildren(n))
        r = out if use(f.body) and out else None
        if not seen:
            self._pyfoot[k] = r
        return r

    open = frozenset()
    _procspec = None

    @property
    def procspec(self):
        """specification of the engine procedures that specifications call"""
        if self._procspec is None:
            from rules.common import PROCSPEC
            self._procspec = {f.key: sp for n, sp in PROCSPEC.items() for f in self.cxxfuncs(n) if sp in self.specs}
        return self._procspec

    def spec_summary(self, spec, like, open=()):
        self.open = frozenset(open)
        sf = self.specs[spec]
        E = pyev.PyEv(self.prog, {}, spec=True, intr=self.intrinsics())
        ca = list(self.args_for(like).values())
        args = {}
        ps = list(sf.params)
        if ps and ps[0].name == 'self':
            args['self'] = THIS
            ps = ps[1:]
        for k, p in enumerate(ps):
            if k < len(ca):
                args[p.name] = ca[k]
        # structs passed by value in the specification are plain roots
        s = E.run(sf, args=args)
        outs = {k: v for k, v in sorted(s.env.items()) if k.startswith('$out')}
        s.outs = {k: v for k, v in outs.items() if isinstance(v, X.T)}
        return s, E


class Alarm:
    def __init__(self, secs):
        self.secs = int(secs)

    def __enter__(self):
        def h(*a):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.alarm(self.secs)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False
