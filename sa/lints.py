"""Dataflow rules that need no reference definition."""
import re
from . import cmp, cxx
from .ir import walk, children
from .lab import Missing


def memberuses(lab):
    """members read, and members stored, anywhere in the engine: name -> functions"""
    rd, wr = {}, {}
    for k, f in lab.prog.funcs.items():
        st = set()
        for x in walk(f.body):
            if x.k == 'assign':
                t = x.lhs
                while t.k == 'idx':
                    t = t.b
                if t.k == 'fld':
                    wr.setdefault((t.__dict__.get('rec'), t.n), set()).add(k)
                    if x.__dict__.get('op') in (None, '', '='):
                        st.add(id(t))
        for x in walk(f.body):
            if x.k == 'fld' and id(x) not in st:
                rd.setdefault((x.__dict__.get('rec'), x.n), set()).add(k)
    return rd, wr


def constructed(cls, skip=()):
    """every member without a constructor of its own that is read somewhere, or bound to a name, is assigned by the constructor"""
    def rule(lab, out):
        fs = [f for f in lab.prog.funcs.values() if f.cls == cls and f.name == cls and f.body is not None and list(walk(f.body))[1:]]
        if not fs:
            raise Missing('constructor of ' + cls)
        rd, wr = memberuses(lab)
        bound = {}
        for mod, bs in lab.prog.bindings.items():
            for b in bs:
                if b['kind'] in ('def_readwrite', 'def_readonly') and b['targets']:
                    bound[b['targets'][0].get('name')] = b['name']
        for f in fs:
            out.functions.append(f.key)
            S, E = lab.cxx_summary(f, {})
            done = {}
            for w in S.effects:
                if w.kind in ('=', '+', 'app') and w.sig:
                    done.setdefault(w.sig[1], []).append(w)
            for i in f.inits or ():
                n = getattr(i, 'n', None) or getattr(i, 'name', None)
                if n:
                    done.setdefault(n, [])
            n = 0
            for (rec, fld), t in sorted(lab.prog.fieldtypes.items()):
                if rec != cls or fld in skip:
                    continue
                b = cxx.base_ty(re.sub(r'\[.*', '', t))
                if not (b in cxx.INTTY or b in ('double', 'float') or '*' in t):
                    continue
                if '*' in t and not re.match(r'\w+ ?\*$', cxx.base_ty(t)):
                    continue
                used = rd.get((rec, fld))
                if not used and fld not in bound:
                    continue
                n += 1
                if fld not in done and fld not in lab.prog.__dict__.get('fieldinits', {}).get(rec, ()):
                    out.find('unassigned:%s.%s' % (cls, fld), 'constructor %s leaves member %s unassigned, which %s' % (
                        f.key, fld, 'is readable as "%s"' % bound[fld] if fld in bound else 'is read by ' + ', '.join(sorted(used))[:200]), f.loc)
            out.obligations += n
            out.how = '%d members read or bound, all assigned by %s' % (n, f.key)
    return rule


# ------------------------------------------------------------------ files and memory

import ast
import os

OPENERS = {'open', 'gzip.open', 'bz2.open', 'lzma.open', 'io.open', 'codecs.open', 'os.fdopen', 'zipfile.ZipFile', 'tarfile.open', 'gzip.GzipFile',
           'tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile', 'tempfile.SpooledTemporaryFile', 'os.popen', 'urllib.request.urlopen'}
CLOSEFNS = {'closing', 'contextlib.closing'}


def parents(tree):
    up = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    return up


def quiet(e):
    """evaluating this cannot fail: names, constants, displays and comparisons of them"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return all(quiet(x) for x in e.elts)
    if isinstance(e, ast.Dict):
        return not e.keys
    if isinstance(e, ast.BoolOp):
        return all(quiet(x) for x in e.values)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not) and quiet(e.operand)
    if isinstance(e, ast.Compare):
        return all(isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) for o in e.ops) and all(quiet(x) for x in [e.left] + e.comparators)
    return False


def quietstmt(s):
    if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef)):
        return True
    if isinstance(s, ast.Expr):
        return quiet(s.value)
    if isinstance(s, ast.Assign):
        return all(isinstance(t, ast.Name) for t in s.targets) and quiet(s.value)
    if isinstance(s, ast.AugAssign):
        return isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float))
    if isinstance(s, ast.If):
        return quiet(s.test) and all(quietstmt(x) for x in s.body + s.orelse)
    return False


def rethrows(t):
    return any((h.type is None or ast.unparse(h.type) in ('Exception', 'BaseException')) for h in t.handlers)


def closers(tree):
    """functions of a module that close (or enter) a file they are given"""
    out = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            a = {x.arg for x in f.args.args}
            for x in ast.walk(f):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'close' and isinstance(x.func.value, ast.Name) and x.func.value.id in a:
                    out.add(f.name)
                if isinstance(x, ast.withitem) and any(isinstance(y, ast.Name) and y.id in a for y in ([x.context_expr] + (x.context_expr.args if isinstance(x.context_expr, ast.Call) and ast.unparse(x.context_expr.func) in CLOSEFNS else []))):
                    out.add(f.name)
    return out


class Files:
    """ownership of open files in one module: each is entered as a context, closed in a
    `finally` that covers every later statement, or handed to the caller"""

    def __init__(self, tree, path, out, mod, returning):
        self.tree, self.path, self.out, self.mod, self.returning = tree, path, out, mod, returning
        self.up = parents(tree)
        self.n = 0
        self.closers = closers(tree)

    def opener(self, c):
        if not isinstance(c, ast.Call):
            return None
        try:
            n = ast.unparse(c.func)
        except Exception:
            return None
        if n in OPENERS or n.split('.')[-1] in self.returning and (n == n.split('.')[-1] or n.startswith('self.')):
            return n
        return None

    def func(self, n):
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            n = self.up.get(n)
        return n

    def uses(self, items, names):
        """is one of the names entered as context by these with-items?"""
        for i in items:
            for x in ast.walk(i.context_expr):
                if isinstance(x, ast.Name) and x.id in names:
                    e = i.context_expr
                    if self.selects(e, names):
                        return True
        return False

    def selects(self, e, names):
        """`e` evaluates to an object that closes the file, or there is no file"""
        if isinstance(e, ast.Name):
            return e.id in names
        if isinstance(e, ast.IfExp):
            return self.selects(e.body, names) or self.selects(e.orelse, names)
        if isinstance(e, ast.Call):
            n = ast.unparse(e.func)
            if n in CLOSEFNS or n.endswith('enter_context'):
                return any(self.selects(a, names) for a in e.args)
        return False

    def closes(self, body, names):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] in self.closers and any(isinstance(a, ast.Name) and a.id in names for a in x.args):
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('close', '__exit__') and isinstance(x.func.value, ast.Name) and x.func.value.id in names:
                    return True
        return False

    def follow(self, stmt, names):
        """is the file closed, whatever happens after `stmt`?"""
        s = stmt
        while True:
            p = self.up.get(s)
            if p is None:
                return False
            if isinstance(p, ast.Try) and s in p.body and (self.closes(p.finalbody, names) or rethrows(p) and self.closes(p.handlers, names)):
                return True
            blk = None
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(p, f, None)
                if isinstance(b, list) and s in b:
                    blk = b
            if blk is None:
                return False
            for t in blk[blk.index(s) + 1:]:
                if isinstance(t, (ast.With, ast.AsyncWith)) and self.uses(t.items, names):
                    return True
                if isinstance(t, ast.Try) and self.closes(t.finalbody, names):
                    return True
                if isinstance(t, ast.Return) and isinstance(t.value, ast.Name) and t.value.id in names:
                    return True
                if isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and (self.selects(t.value, names) or ast.unparse(t.value.func).endswith('.callback')
                        and any(isinstance(a, ast.Attribute) and a.attr == 'close' and isinstance(a.value, ast.Name) and a.value.id in names for a in t.value.args)):
                    return True
                if isinstance(t, (ast.Expr, ast.Return, ast.Assign)) and self.closes([t], names) or isinstance(t, ast.Try) and rethrows(t) and self.closes([h for h in t.handlers], names):
                    return True
                if isinstance(t, ast.Assign) and isinstance(t.value, ast.Name) and t.value.id in names and all(isinstance(x, ast.Name) for x in t.targets):
                    names = names | {x.id for x in t.targets}
                    continue
                if not quietstmt(t):
                    return False
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module, ast.For, ast.While)):
                return False
            s = p

    def check(self):
        for c in ast.walk(self.tree):
            n = self.opener(c)
            if n is None:
                continue
            self.n += 1
            if not self.owned(c):
                f = self.func(c)
                self.out.find('file:%s@%s.%s' % (n, self.mod, f.name if f is not None and hasattr(f, 'name') else '<module>'),
                              '%s: the file opened by %s(...) stays open when a later statement raises' % (f.name if hasattr(f, 'name') else 'module level', n), (self.path, c.lineno))
        return self.n

    def owned(self, c):
        n, p = c, self.up.get(c)
        while True:
            if isinstance(p, ast.withitem):
                return n is p.context_expr
            if isinstance(p, ast.IfExp) and n is not p.test or isinstance(p, ast.NamedExpr):
                n, p = p, self.up.get(p)
                continue
            if isinstance(p, ast.Call):
                f = ast.unparse(p.func)
                if f in CLOSEFNS:
                    n, p = p, self.up.get(p)
                    continue
                if f.endswith('enter_context') or f.endswith('.push'):
                    return True
                if f in ('io.TextIOWrapper', 'io.BufferedReader', 'io.BufferedWriter', 'TextIOWrapper'):
                    n, p = p, self.up.get(p)
                    continue
                return f.split('.')[-1] in self.closers
            if isinstance(p, ast.Return) or isinstance(p, ast.Lambda):
                return True
            if isinstance(p, (ast.Assign, ast.AnnAssign)):
                ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                if all(isinstance(t, ast.Name) for t in ts):
                    return self.follow(p, {t.id for t in ts})
                # kept in an object: closing is the business of its owner
                return True
            return False


def returners(tree):
    """functions of a module that hand an open file to their caller"""
    out = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and not f.decorator_list:
            names = {t.id for x in ast.walk(f) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func) in OPENERS for t in x.targets if isinstance(t, ast.Name)}
            for r in ast.walk(f):
                if isinstance(r, ast.Return) and r.value is not None:
                    v = r.value
                    if isinstance(v, ast.IfExp):
                        v = v.body
                    if isinstance(v, ast.Call) and ast.unparse(v.func) in OPENERS or isinstance(v, ast.Name) and v.id in names:
                        out.add(f.name)
    return out


def pysources(lab):
    src = os.path.join(lab.repo, 'src', 'pyscal')
    for dp, dn, fn in os.walk(src):
        dn[:] = sorted(d for d in dn if d != '__pycache__')
        for f in sorted(fn):
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                with open(p, errors='replace') as fh:
                    yield p, os.path.relpath(p, src)[:-3].replace('/', '.'), ast.parse(fh.read())


def files_closed(lab, out):
    n = 0
    mods = list(pysources(lab))
    for p, m, t in mods:
        n += Files(t, p, out, m, returners(t)).check()
        out.functions.append('module ' + m)
    out.obligations += n
    out.how = '%d places where a file is opened' % n


TEMPS = {'tempfile.mkstemp', 'tempfile.mkdtemp', 'mkstemp', 'mkdtemp'}


REMOVE = ('os.remove', 'os.unlink', 'shutil.rmtree', 'os.rmdir', 'pathlib.Path.unlink', 'Path.unlink')


def removers(tree):
    out = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            a = {x.arg for x in f.args.args}
            if any(isinstance(x, ast.Call) and (ast.unparse(x.func) in REMOVE and any(isinstance(y, ast.Name) and y.id in a for z in x.args for y in ast.walk(z))
                                                or isinstance(x.func, ast.Attribute) and x.func.attr == 'unlink' and any(isinstance(y, ast.Name) and y.id in a for y in ast.walk(x.func.value))) for x in ast.walk(f)):
                out.add(f.name)
    return out


def removes(body, names, helpers=()):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] in helpers and any(isinstance(a, ast.Name) and a.id in names for y in x.args for a in ast.walk(y)):
                return True
            if isinstance(x, ast.Call) and ast.unparse(x.func) in REMOVE:
                if any(isinstance(a, ast.Name) and a.id in names for y in x.args for a in ast.walk(y)):
                    return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'unlink' and any(isinstance(a, ast.Name) and a.id in names for a in ast.walk(x.func.value)):
                return True
    return False


def scratch_removed(lab, out):
    """a file whose name the function makes up itself (uuid, tempfile) and which it does not
    return is removed in a `finally` covering everything that may create it"""
    n = 0
    for p, m, t in pysources(lab):
        up = parents(t)
        rem = removers(t)
        for f in ast.walk(t):
            if not isinstance(f, ast.FunctionDef):
                continue
            for a in ast.walk(f):
                if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], (ast.Name, ast.Tuple))):
                    continue
                src = [ast.unparse(x.func) for x in ast.walk(a.value) if isinstance(x, ast.Call)]
                if not any(s in TEMPS or s.split('.')[0] == 'uuid' or s in ('uuid4', 'uuid1') for s in src):
                    continue
                names = {x.id for x in ast.walk(a.targets[0]) if isinstance(x, ast.Name)}
                # names built from it
                grow = True
                while grow:
                    grow = False
                    for b in ast.walk(f):
                        if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id not in names:
                            if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(b.value)) and ('path' in ast.unparse(b.value) or isinstance(b.value, (ast.BinOp, ast.JoinedStr, ast.Name))):
                                names.add(b.targets[0].id)
                                grow = True
                if any(isinstance(r, ast.Return) and r.value is not None and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(r.value)) for r in ast.walk(f)):
                    continue
                users = [c for c in ast.walk(f) if isinstance(c, ast.Call) and any(isinstance(x, ast.Name) and x.id in names for y in c.args + [k.value for k in c.keywords] for x in ast.walk(y))
                         and ast.unparse(c.func) not in ('os.path.exists', 'os.path.isfile', 'os.remove', 'os.unlink', 'shutil.rmtree', 'os.path.join', 'print', 'str', 'os.path.basename', 'os.path.abspath')]
                for c in users:
                    n += 1
                    x, ok = c, False
                    while x is not None and x is not f:
                        y = up.get(x)
                        if isinstance(y, ast.Try) and any(x is b for b in y.body) and removes(y.finalbody, names, rem):
                            ok = True
                        if isinstance(y, ast.Try) and any(x is b for b in y.finalbody):
                            ok = True
                        if isinstance(y, (ast.With,)) and any('TemporaryDirectory' in ast.unparse(i.context_expr) for i in y.items):
                            ok = True
                        x = y
                    if not ok and ast.unparse(c.func).split('.')[-1] not in rem:
                        out.find('scratch:%s@%s.%s' % (ast.unparse(c.func), m, f.name), '%s: the temporary file handed to %s(...) is not removed when a later statement raises' % (f.name, ast.unparse(c.func)), (p, c.lineno))
    out.obligations += n
    out.how = '%d uses of a temporary file' % n


def under(n):
    for k in ('e', 'x', 'a'):
        if n.__dict__.get(k) is not None:
            return n.__dict__[k]
    return n.xs[0]


class Memory:
    """ownership of storage from new in one engine function: states N (nothing), U (valid or
    null, as the member invariant says), O (owned here), D (freed), G (never assigned)"""

    def __init__(self, lab, f, out, members, throwing):
        self.lab, self.f, self.out, self.members, self.throwing = lab, f, out, members, throwing
        self.esc = set()
        self.sites = 0
        self.kind = {}

    def ptr(self, e):
        while e.k == 'cast':
            e = under(e)
        if e.k == 'name':
            return e.id
        if e.k == 'fld' and e.b.k == 'this':
            return ('this', e.n)
        return None

    def isnew(self, e):
        while e is not None and e.k == 'cast':
            e = under(e)
        return e if e is not None and e.k == 'new' else None

    def isnull(self, e):
        while e.k == 'cast':
            e = under(e)
        return e.k == 'none' or e.k == 'num' and e.v == 0 or e.k == 'glob' and 'NULL' in str(e.__dict__)

    def nm(self, p):
        return p[1] if isinstance(p, tuple) else p.split('#')[0]

    def bad(self, p, what, loc):
        self.out.find('memory:%s:%s@%s' % (self.nm(p), what.split(' ')[0], self.f.key), '%s: storage held by %s %s' % (self.f.key, self.nm(p), what), loc or self.f.loc)

    stack = ()

    def exits(self, st, loc):
        if self.stack:
            self.leave.append(dict(st))
        for p, s in st.items():
            if isinstance(p, tuple):
                if self.stack:
                    continue
                if self.f.name.startswith('~'):
                    if p[1] in self.own and {'U', 'O'} & s:
                        self.bad(p, 'not freed by the destructor on every path', loc)
                    continue
                if 'D' in s:
                    self.bad(p, 'freed and still referenced when the function ends', loc)
                if 'G' in s:
                    self.bad(p, 'unassigned at the end of the constructor', loc)
            elif 'O' in s and p not in self.esc:
                self.bad(p, 'lost on a path that leaves the function', loc)

    def get(self, st, p):
        if p not in st:
            if isinstance(p, tuple):
                st[p] = frozenset('G' if self.f.name == self.f.cls else 'U')
            else:
                st[p] = frozenset('N')
        return st[p]

    def calls(self, n, st):
        for x in walk(n):
            if x.k == 'call':
                for a in list(getattr(x, 'args', None) or []):
                    p = self.ptr(a)
                    if p is not None and not isinstance(p, tuple) and p in st:
                        # handed on; whoever gets it may free it
                        if getattr(x, 'key', None) is None or True:
                            self.esc.add(p)
                k = getattr(x, 'key', None)
                if k in self.throwing:
                    for p, s in st.items():
                        if not isinstance(p, tuple) and 'O' in s and p not in self.esc:
                            self.bad(p, 'lost when %s raises' % k.split('(')[0], x.loc)
                if k in self.members:
                    f = self.lab.prog.funcs.get(k)
                    if f is not None and f.body is not None and len(self.stack) < 6 and k not in self.stack and f.cls == self.f.cls:
                        # the callee works on the same members: continue through it
                        m = Memory(self.lab, f, self.out, self.members, self.throwing)
                        m.own, m.stack, m.leave = self.own, self.stack + (k,), []
                        o = m.block(f.body, {p: s for p, s in st.items() if isinstance(p, tuple)} | {('this', a): self.get(st, ('this', a)) for a in self.members[k]})
                        for e in m.leave:
                            o = e if o is None else self.join(o, e)
                        for q, s in (o or {}).items():
                            if isinstance(q, tuple):
                                st[q] = s
                    else:
                        for p in self.members[k]:
                            q = ('this', p)
                            if q in st:
                                st[q] = frozenset('U')

    def join(self, a, b):
        if a is None or b is None:
            return a or b
        return {p: self.get(a, p) | self.get(b, p) for p in set(a) | set(b)}

    def test(self, c, st, yes):
        """narrow by `p`, `p != NULL`, `!p`"""
        st = dict(st)
        if c.k == 'not':
            return self.test(under(c), st, not yes)
        p = self.ptr(c)
        if c.k == 'cmp' and c.op in ('==', '!='):
            for a, b in ((c.a, c.b), (c.b, c.a)):
                if self.ptr(a) is not None and self.isnull(b):
                    p = self.ptr(a)
                    yes = yes if c.op == '!=' else not yes
        if p is not None and p in st or p is not None and isinstance(p, tuple) and p[1] in self.own:
            s = self.get(st, p)
            st[p] = (s - {'N'}) if yes else frozenset('N')
        return st

    own = ()

    def block(self, n, st):
        for s in (n.body if n.k in ('block', 'swblock') else [n]):
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        k = s.k
        if k in ('block', 'swblock'):
            return self.block(s, st)
        if k == 'decl':
            if getattr(s, 'init', None) is not None:
                if self.isnew(s.init) and '*' in s.ty:
                    self.sites += 1
                    st = dict(st)
                    st[s.name] = frozenset('O')
                    self.kind[s.name] = self.isnew(s.init).size is not None
                else:
                    self.alias(s.init, st)
                    self.calls(s.init, st)
            return st
        if k == 'assign':
            p = self.ptr(s.lhs)
            self.calls(s, st)
            st = dict(st)
            if p is not None and (p in st or isinstance(p, tuple) and p[1] in self.own or self.isnew(s.rhs)):
                old = self.get(st, p)
                if self.isnew(s.rhs):
                    self.sites += 1
                    self.kind[p] = self.isnew(s.rhs).size is not None
                if {'O', 'U'} & old and p not in self.esc and (self.isnew(s.rhs) or self.isnull(s.rhs)):
                    self.bad(p, 'lost by assigning it anew', s.loc)
                st[p] = frozenset('O') if self.isnew(s.rhs) else frozenset('N') if self.isnull(s.rhs) else frozenset('U') if isinstance(p, tuple) else frozenset('N')
            else:
                self.alias(s.rhs, st)
            return st
        if k == 'del':
            p = self.ptr(s.xs[0])
            st = dict(st)
            if p is not None:
                if 'D' in self.get(st, p):
                    self.bad(p, 'freed twice', s.loc)
                if 'G' in self.get(st, p):
                    self.bad(p, 'freed before it was assigned', s.loc)
                if p in self.kind and self.kind[p] != bool(s.arr):
                    self.bad(p, 'obtained and freed by different forms of new and delete', s.loc)
                st[p] = frozenset('D')
            return st
        if k == 'if':
            self.calls(s.c, st)
            a = self.stmt(s.a, self.test(s.c, st, True)) if s.a is not None else st
            b = self.stmt(s.b, self.test(s.c, st, False)) if s.b is not None else self.test(s.c, st, False)
            return self.join(a, b)
        if k in ('for', 'while', 'dowhile', 'foreach'):
            if k == 'for' and s.init is not None:
                st = self.block(s.init, st)
            for _ in range(2):
                save = self.brk
                self.brk = []
                e = self.stmt(s.body, dict(st))
                for b in self.brk:
                    e = self.join(e, b)
                self.brk = save
                st = self.join(e, st) if k != 'dowhile' or e is None else e
            return st
        if k in ('brk', 'cont'):
            self.brk.append(dict(st))
            return None
        if k == 'ret':
            if s.v is not None:
                self.alias(s.v, st)
                self.calls(s.v, st)
            self.exits(st, s.loc)
            return None
        if k == 'raise':
            for p, v in st.items():
                if not isinstance(p, tuple) and 'O' in v and p not in self.esc:
                    self.bad(p, 'lost when the function raises', s.loc)
                if isinstance(p, tuple) and 'D' in v:
                    self.bad(p, 'freed and still referenced when the function raises', s.loc)
            return None
        if k == 'try':
            a = self.stmt(s.body, dict(st))
            r = a
            for h in s.handlers:
                r = self.join(r, self.stmt(h[2], dict(st)))
            return r
        self.calls(s, st)
        return st

    brk = []

    def alias(self, e, st):
        for x in walk(e):
            p = self.ptr(x) if x.k == 'name' else None
            if p is not None and p in st and e is x:
                self.esc.add(p)

def memory_released(lab, out):
    """storage obtained by new is freed exactly once on every path of every function that is
    reachable from the bindings; members that own storage are freed by the destructor"""
    P = lab.prog
    calls = {k: {x.key for x in walk(f.body) if x.k == 'call' and getattr(x, 'key', None)} for k, f in P.funcs.items() if f.body is not None}
    reach, todo = set(), [t['key'] for bs in P.bindings.values() for b in bs for t in b['targets'] if t.get('key')]
    todo += [k for k, f in P.funcs.items() if f.name in (f.cls, '~%s' % f.cls)]
    while todo:
        k = todo.pop()
        if k in reach:
            continue
        reach.add(k)
        todo += list(calls.get(k, ()))
    throwing = {k for k, f in P.funcs.items() if f.body is not None and any(x.k == 'raise' for x in walk(f.body))}
    grow = True
    while grow:
        grow = False
        for k, c in calls.items():
            if k not in throwing and c & throwing:
                throwing.add(k)
                grow = True
    owners = {}
    touch = {}
    for k in sorted(reach):
        f = P.funcs.get(k)
        if f is None or f.body is None:
            continue
        for x in walk(f.body):
            if x.k == 'assign' and x.lhs.k == 'fld' and x.lhs.b.k == 'this':
                if x.rhs.k == 'new':
                    owners.setdefault((f.cls, x.lhs.n), []).append(f)
                touch.setdefault(k, set()).add(x.lhs.n)
    own = {n for _, n in owners}
    touch = {k: v & own for k, v in touch.items() if v & own}
    grow = True
    while grow:
        grow = False
        for k, c in calls.items():
            z = set().union(*[touch.get(x, set()) for x in c]) if c else set()
            if z - touch.get(k, set()):
                touch[k] = touch.get(k, set()) | z
                grow = True
    called = set().union(*[calls[k] for k in reach if k in calls]) if reach else set()
    top = {t['key'] for bs in P.bindings.values() for b in bs for t in b['targets'] if t.get('key')}
    n = 0
    for k in sorted(reach):
        f = P.funcs.get(k)
        if f is None or f.body is None:
            continue
        if k in called and k not in top and f.name not in (f.cls, '~%s' % f.cls) and not any(x.k == 'new' and True for x in walk(f.body)):
            continue
        mine = {a for c, a in owners if c == f.cls}
        deep = touch.get(k, set())
        if not any(x.k in ('new', 'del') for x in walk(f.body)) and not deep and not (f.name in (f.cls, '~%s' % f.cls) and mine):
            continue
        m = Memory(lab, f, out, touch, throwing)
        m.own = mine
        if k in called and k not in top:
            m.stack, m.leave = (k,), []
        st = {}
        if f.name == f.cls:
            st = {('this', a): frozenset('G') for a in mine}
            for nme, e in f.inits or ():
                if ('this', nme) in st:
                    st[('this', nme)] = frozenset('O' if e.k == 'new' else 'N')
        elif f.name.startswith('~'):
            st = {('this', a): frozenset('U') for a in mine}
        st = m.block(f.body, st)
        if st is not None:
            m.exits(st, f.loc)
        n += m.sites
        out.functions.append(f.key)
    for (c, a), fs in sorted(owners.items()):
        n += 1
        d = [f for f in P.funcs.values() if f.name == '~%s' % c]
        if not d:
            out.find('memory:%s:destructor@%s' % (a, c), '%s has no destructor that frees member %s, which %s allocates' % (c, a, fs[0].key), fs[0].loc)
    out.obligations += max(1, n)
    out.how = '%d allocations, %d owning members' % (n - len(owners), len(owners))


# ------------------------------------------------------------------ names bound to the engine

def bound(module, table):
    """attributes bound to a data member denote the documented member; documented names exist, and
    optional arguments have their documented values.  table: name -> [kind, member, defaults]"""
    def rule(lab, out):
        from .runner import BASEFIELDS
        bs = lab.prog.bindings.get(module)
        if not bs:
            raise Missing('bindings of ' + module)
        now = {}
        for b in bs:                      # the last definition of a name comes first
            if b['kind'] == 'def' or b['name'] not in now:
                now.setdefault(b['name'] or '__init__', []).append(b)
        rec = {'catom': 'Atom', 'csystem': 'System'}[module]
        n = 0
        for name, (kind, member, defaults) in sorted(table.items()):
            if name not in now:
                if len(bs) < len(table):
                    out.undecided.append((name, 'not bound where it was expected'))
                continue
            b = now[name][0]
            if kind != 'def':
                if b['kind'] not in ('def_readwrite', 'def_readonly') or not b['targets']:
                    out.undecided.append((name, 'bound in another way'))
                    continue
                n += 1
                m = b['targets'][0]['name']
                if m != member and m in BASEFIELDS and (rec, member) in lab.prog.fieldtypes:
                    out.find('bound:%s.%s' % (module, name), 'attribute "%s" is bound to %s::%s, documented is %s::%s' % (name, rec, m, rec, member), b['loc'])
                elif kind == 'def_readwrite' and b['kind'] == 'def_readonly':
                    out.find('readonly:%s.%s' % (module, name), 'attribute "%s" can no longer be assigned' % name, b['loc'])
            else:
                n += 1
                for b in now[name]:
                    for a, v in b.get('defaults', {}).items():
                        if a in defaults and defaults[a] != v:
                            out.find('default:%s.%s.%s' % (module, name, a), 'argument "%s" of %s has default %g, documented is %g' % (a, name, v, defaults[a]), b['loc'])
        out.functions.append('PYBIND11_MODULE(%s)' % module)
        out.obligations += n
        out.how = '%d names' % n
    return rule
