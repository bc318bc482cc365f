"""Value domains of the inputs used when terms are compared (well-formed System states)."""
import re
from .model import Leaf, hsh


class CxxDom:
    def __init__(self, fieldtypes, over=None, lens=None, sizes=(2, 3, 4)):
        self.ft = {}
        for (rec, f), t in fieldtypes.items():
            self.ft[f] = t
        self.over = over or {}       # key: field name or ('sym', name) -> f(model, loc, rng)
        self.lens = lens or {}
        self.sizes = sizes

    def nop(self, m):
        return int(m.leaf((('this',), 'nop')))

    def isseq(self, loc):
        fs = [k for k, c in enumerate(loc) if isinstance(c, str)]
        if not fs:
            if loc and isinstance(loc[0], tuple) and loc[0][0] == 'param':
                t = self.over.get(('ptype', loc[0][1]))
                if t:
                    t2 = t
                    for _ in loc[1:]:
                        t2 = re.sub(r'^[^<]*vector<(.*)>.*$', r'\1', t2) if 'vector<' in t2 else ''
                    return 'vector<' in t2
            return False
        f = loc[fs[-1]]
        t = self.ft.get(f, '')
        rest = len(loc) - 1 - fs[-1]
        for _ in range(rest):
            if 'vector<' in t:
                i = t.index('vector<')
                t = t[i + 7:t.rindex('>')]
            elif '[' in t:
                t = re.sub(r'\[[^\]]*\]', '', t, count=1)
            elif '*' in t:
                t = t.replace('*', '', 1)
            else:
                return False
        return 'vector<' in t

    def leaf(self, m, loc):
        if len(loc) == 1:
            k = loc[0]
            if k[0] == 'sym' and ('sym', k[1]) in self.over:
                return self.over[('sym', k[1])](m, loc, m.rng('o', loc))
            if k[0] == 'sym' and ('param', k[1]) in self.over:
                return self.over[('param', k[1])](m, loc, m.rng('o', loc))
            if k[0] == 'param' and ('param', k[1]) in self.over:
                return self.over[('param', k[1])](m, loc, m.rng('o', loc))
            return None
        fs = [c for c in loc if isinstance(c, str)]
        f = fs[-1] if fs else None
        if f is None:
            t = self.over.get(('elem', loc[0][1]))
            if t:
                return t(m, loc, m.rng('o', loc))
            return None
        g = self.over.get(f) or DEFAULTS.get(f)
        if g is not None:
            v = g(m, loc, m.rng('o', loc))
            if v is not None:
                return v
        t = self.ft.get(f, '')
        fi = max(k for k, c in enumerate(loc) if c == f)
        rest = len(loc) - 1 - fi
        depth = t.count('vector<') + t.count('[') + t.count('*')
        if rest < depth:
            return Leaf(loc)
        if rest == depth and re.search(r'\bint\b', t):
            return float(m.rng('int', loc).choice([0, 1, 2, 3, 1, 2]))
        if rest == depth and re.search(r'\bbool\b', t):
            return float(m.rng('bool', loc).randrange(2))
        return None

    def length(self, m, loc):
        fs = [c for c in loc if isinstance(c, str)]
        f = fs[-1] if fs else None
        if f is None:
            g = self.lens.get(loc[0][1])
            return g(m, loc, m.rng('l', loc)) if g else None
        g = self.lens.get(f) or LENS.get(f)
        if g is not None:
            return g(m, loc, m.rng('l', loc))
        return None


class PyDom(CxxDom):
    """states seen by the Python layer: members of the engine as in CxxDom, attributes of
    atoms under their Python names"""

    def __init__(self, lab, over=None, lens=None):
        CxxDom.__init__(self, lab.prog.fieldtypes, over, lens)
        for b in lab.prog.bindings.get('catom', []):
            if b['kind'] in ('def_readwrite', 'def_readonly') and b['targets']:
                t = lab.prog.fieldtypes.get(('Atom', b['targets'][0]['name']))
                if t:
                    self.ft.setdefault(b['name'], t)

    defaults = {}

    def leaf(self, m, loc):
        fs = [c for c in loc if isinstance(c, str)]
        f = fs[-1] if fs else None
        if f is None and len(loc) == 1 and loc[0][0] == 'param' and ('param', loc[0][1]) not in self.over:
            r = m.rng('d', loc)
            if loc[0][1] in self.defaults and r.random() < 0.5:
                return self.defaults[loc[0][1]]
            if r.random() < 0.2:
                return float(r.choice([0, 1, 2, 3]))
        if f is not None:
            g = PYDEF.get(f)
            if g is not None and f not in self.over and loc[-1] == f:
                return g(m, loc, m.rng('o', loc))
            if f in PYSEQ and f not in self.over and loc[-1] == f:
                from .model import Leaf
                return Leaf(loc)
        return CxxDom.leaf(self, m, loc)

    def isseq(self, loc):
        if len(loc) > 1 and isinstance(loc[-1], str) and loc[-1] in PYSEQ:
            return True
        return CxxDom.isseq(self, loc)

    def ext(self, m, run, nm, vals):
        from . import pylib
        return pylib.interpret(m, run, nm, vals)


def P_box(m, loc, r):
    if r.random() < 0.5:
        return [[r.choice([1.0, 2.0, 3.5]), 0.0, 0.0], [0.0, r.choice([1.0, 2.0, 3.0]), 0.0], [0.0, 0.0, r.choice([1.0, 2.0, 4.0])]]
    return [[r.choice([1.0, 2.0, 3.5]), 0.0, 0.25], [0.5, r.choice([1.0, 2.0, 3.0]), 0.0], [0.25, 0.5, r.choice([1.0, 2.0, 4.0])]]


def P_maybox(m, loc, r):
    return None if r.random() < 0.5 else P_box(m, loc, r)


def P_vec3(m, loc, r):
    return [r.choice([0.0, 0.5, 1.0, -0.5, 2.0, r.uniform(-1, 4)]) for _ in range(3)]


def P_bool(m, loc, r):
    return float(r.randrange(2))


PYDEF = {'blocksize': lambda m, l, r: float(r.choice([9, 10, 11])), 'nblocks': lambda m, l, r: float(r.choice([0, 1, 2, 3, 4])), '@_box': P_box, '_box': P_box, 'box': P_box, 'actual_box': P_maybox, 'neighbors_found': P_bool, 'ghosts_created': P_bool, 'initialized': P_bool, 'pos': P_vec3,
         'diff': P_vec3, 'solid': P_bool, 'surface': P_bool, 'structure': lambda m, l, r: float(r.randrange(6)), 'type': lambda m, l, r: float(r.choice([1, 2]))}
PYSEQ = {'neighbors', 'neighbor_distance', 'neighbor_weights', 'neighbor_vector', 'face_vertices', 'face_perimeters', 'vertex_numbers', 'vertex_vectors', 'edge_lengths',
         'vertex_positions', 'positions', 'trajectories', 'blocklists', 'blocklist', 'line_offset', 'loadlist'}
T0 = ('this',)


def D_nop(m, loc, r):
    return float(r.choice([2, 3, 4]))


def D_real(m, loc, r):
    n = int(m.leaf((T0, 'nop')))
    return float(r.randrange(1, n + 1)) if r.random() < 0.6 else float(n)


def D_ghostnop(m, loc, r):
    return m.leaf((T0, 'nop')) - m.leaf((T0, 'real_nop'))


def atomno(loc):
    return loc[2] if len(loc) > 2 and loc[1] == 'atoms' else None


def D_ghost(m, loc, r):
    i = atomno(loc)
    if i is None:
        return float(r.randrange(2))
    return 1.0 if isinstance(i, int) and i >= m.leaf((T0, 'real_nop')) else 0.0


def D_nn(m, loc, r):
    return float(r.randrange(0, 4))


def D_atomidx(m, loc, r):
    if loc[-1] == 'neighbors':
        return None
    n = int(m.leaf((T0, 'nop')))
    return float(r.randrange(n))


def D_pos(m, loc, r):
    return r.choice([0.5, 1.0, 1.5, 2.0, 2.5, r.uniform(0.1, 3)])


def D_posarr(m, loc, r):
    if isinstance(loc[-1], str):
        return None
    return D_pos(m, loc, r)


def D_bool(m, loc, r):
    return float(r.randrange(2))


def D_box(m, loc, r):
    return r.choice([1.0, 2.0, 4.0, 3.5])


def D_cutoff(m, loc, r):
    return r.choice([0.5, 1.0, 1.5, 2.0])


def D_type(m, loc, r):
    return float(r.choice([1, 2]))


def D_index(m, loc, r):
    n = int(m.leaf((T0, 'nop')))
    return float(r.randrange(n))


def D_filter(m, loc, r):
    return float(r.choice([0, 1, 2]))


def D_loc(m, loc, r):
    i = atomno(loc)
    return float(i) if isinstance(i, int) else float(r.randrange(int(m.leaf((T0, 'nop')))))


def D_member(m, loc, r):
    if isinstance(loc[-1], str):
        return None
    return float(r.randrange(int(m.leaf((T0, 'nop')))))


def D_cell(m, loc, r):
    if isinstance(loc[-1], str):
        return None
    return float(r.randrange(3))


DEFAULTS = {'members': D_member, 'neighbor_cells': D_cell, 'total_cells': lambda m, l, r: float(r.choice([2, 3])), 'nop': D_nop, 'real_nop': D_real, 'ghost_nop': D_ghostnop, 'ghost': D_ghost, 'n_neighbors': D_nn, 'neighbors': D_atomidx,
            'neighbordist': D_posarr, 'neighborweight': D_posarr, 'boxx': D_box, 'boxy': D_box, 'boxz': D_box, 'neighbordistance': D_cutoff,
            'cutoff': D_cutoff, 'type': D_type, 'index': D_index, 'dist': D_pos, 'filter': D_filter, 'triclinic': D_bool, 'loc': D_loc, 'usecells': D_bool,
            'alpha': lambda m, l, r: float(r.choice([1, 2, 3])), 'masks': D_bool, 'condition': D_bool}
LENS = {'positions': lambda m, l, r: m.rng('natoms', l[:-1]).randrange(0, 4), 'cell': lambda m, l, r: 3,
        'trajectories': lambda m, l, r: m.rng('nfiles', l[:-1]).randrange(1, 4), 'blocklists': lambda m, l, r: m.rng('nfiles', l[:-1]).randrange(1, 4),
        'atoms': lambda m, l, r: int(m.leaf((T0, 'nop'))), 'temp_neighbors': lambda m, l, r: r.randrange(0, 5)}
