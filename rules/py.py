"""Rules of the Python layer by function; the property files pick from this table."""
from rules.common import *

Q = choice(2.0, 3.0, 6.0, 12.0, 1.0, 13.0, [4.0, 6.0], [6.0], [2.0, 12.0, 7.0], [13.0, 4.0], 6.0, [6.0, 4.0], 2.0, 12.0)
BOOL = choice(0.0, 1.0)
BOXES = choice([[2.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 4.0]], [[2.0, 0.0, 0.5], [0.0, 3.0, 0.0], [0.25, 0.0, 4.0]], [[2.0, 0.5, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 1.0]],
               [[2.0, 1.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 4.0]], [[2.0, 0.0, 0.0], [0.25, 3.0, 0.0], [0.0, 0.0, 4.0]], [[2.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.75, 4.0]])
N = 'py:'


def p(k, *v):
    return {('param', 'p%d' % k): choice(*v)}


TABLE = {}


def rule(target, **kw):
    dom = {}
    for d in kw.pop('dom', ()):
        dom.update(d)
    TABLE[kw.get('name', target)] = PyCompare('pyscal.' + target, dom=dom, **kw)


S = 'core:System.'
rule(S + '__init__')
rule(S + 'iter_atoms')
rule(S + 'box')
rule(S + 'box.setter', dom=[{('param', 'p0'): BOXES}])
rule(S + '_assign_box', dom=[{('param', 'p0'): BOXES}])
rule(S + 'atoms')


def ghosts(m, loc, r):
    # either no ghost at all or any of them
    return 0.0 if m.rng('noghost').random() < 0.6 else float(r.randrange(2))


def somebox(m, loc, r):
    from sa.dom import P_box
    return [[0.0] * 3] * 3 if m.rng('zerobox').random() < 0.15 else P_box(m, loc, r)


rule(S + 'atoms.setter', timeout=160, lens={'p0': vlen(1, 2, 3, 7, 199, 200, 201, 200, 203)}, dom=[{'ghost': ghosts, '@_box': somebox, '_box': somebox, 'box': somebox}])
rule(S + '_store_atoms')
rule(S + 'add_atoms')
rule(S + 'read_inputfile', timeout=160)
rule(S + 'get_atom', dom=[p(0, -1.0, 0.0, 1.0, 2.0, 3.0, 4.0, 5.0)])
rule(S + 'set_atom')
rule(S + 'calculate_rdf', dom=[p(0, 3.0, 5.0, 10.0), p(1, 0.0, 0.5, 1.0), p(2, None, 2.0, 3.0)])
rule(S + 'get_qvals', dom=[{('param', 'p0'): Q}, p(1, 0.0, 1.0)])
rule(S + 'get_distance', dom=[p(2, 0.0, 1.0)])
rule(S + 'find_neighbors', timeout=160, dom=[p(0, 'cutoff', 'cutoff', 'voronoi', 'number', 'other'), p(1, None, 'sann', 'adaptive', 0.0, 1.0, 2.5, 'other', 1.0, 0.5), p(2, 2.0, 1.0, 3.0, 2.5),
                                             p(3, None, 'type', 'type_r', 'other', None), p(4, 1.0, 2.0, 0.0, 4.0, 2.5, 5.0), p(5, 1.2, 1.0, 2.0), p(6, 6.0, 12.0), p(7, 0.0, 1.0), p(8, 12.0, 4.0, 14.0), p(9, 0.0, 1.0)],
     trials=360)
rule(S + 'find_diamond_neighbors')
rule(S + 'reset_neighbors')


def nfaces(m, loc):
    i = loc.index('atoms') + 2 if 'atoms' in loc else 1
    return loc[:i], m.rng('nfaces', loc[:i]).randrange(1, 4)


def faces(m, loc):
    b, n = nfaces(m, loc)
    r = m.rng('faces', b)
    return [r.choice([3, 3, 4, 4, 5, 6, 7]) for _ in range(n)]


def D_fv(m, loc, r):
    f = faces(m, loc)
    return float(f[loc[-1]]) if isinstance(loc[-1], int) and loc[-1] < len(f) else None


VORO = {'face_vertices': D_fv, 'vertex_numbers': lambda m, l, r: None if isinstance(l[-1], str) else float(r.randrange(5)),
        'vertex_vectors': lambda m, l, r: None if isinstance(l[-1], str) else r.choice([0.0, 1.0, r.uniform(-2, 2), r.uniform(-2, 2)]),
        'neighbor_weights': lambda m, l, r: None if isinstance(l[-1], str) else r.choice([0.01, 0.5, 0.0, 0.2, 0.005, 1.0])}
VOROL = {'face_vertices': lambda m, l, r: nfaces(m, l)[1], 'neighbor_weights': lambda m, l, r: nfaces(m, l)[1], 'vertex_vectors': lambda m, l, r: 15,
         'vertex_numbers': lambda m, l, r: sum(x + 1 for x in faces(m, l))}
rule(S + 'calculate_vorovector', timeout=160, lens=VOROL, dom=[VORO, p(0, 0.05, 0.0, 0.5), p(1, 0.01, 0.0, 1.0), p(2, 0.0, 1.0)])
rule(S + 'calculate_q', dom=[{('param', 'p0'): Q}, p(1, 0.0, 1.0), p(2, 0.0, 1.0), p(3, None, None, 'missing', 1.0), p(4, 0.0, 1.0)], trials=200, timeout=140)
rule(S + 'find_solids', dom=[p(0, 0.0, 1.0, 0.5, 0.99, 7.0, 6.0, 1.5, 'x', -1.0), p(1, 0.0, 0.5, 1.0, 1.5, -0.5, 'x'), p(2, 0.0, 0.6, 1.0, 1.5, -0.5, 'x'), p(3, 0.0, 1.0), p(4, 2.0, 6.0, 12.0, 1.0, 13.0, 6.0, 4.0, 'x'),
                             p(5, 0.0, 1.0, 2.5, 'x'), p(6, 0.0, 1.0)], trials=300, timeout=140)
rule(S + 'set_atom_cutoff', dom=[p(0, 1.0, 2.0, 0.5)])
rule(S + 'cluster_atoms', dom=[p(1, 0.0, 1.0), p(2, 0.0, 1.0, 2.5)], trials=160)
rule(S + 'calculate_solidneighbors')
rule(S + 'find_largestcluster')
rule(S + 'calculate_angularcriteria', trials=120)
rule(S + 'calculate_chiparams', trials=120, dom=[p(0, 0.0, 1.0)])
rule(S + 'calculate_cna', dom=[p(0, None, 1.0, 3.6)])
rule(S + 'identify_diamond', dom=[p(0, 0.0, 1.0)])
rule(S + 'calculate_centrosymmetry', dom=[p(0, 12.0, 4.0, 2.0, 3.0, 0.0, -2.0, 8.0), p(1, 0.0, 1.0)])
rule(S + 'calculate_disorder', dom=[p(0, 0.0, 1.0), p(1, 6.0, 4.0, 2.0, 12.0)])
rule(S + 'calculate_sro', trials=160, dom=[p(0, 1.0, 2.0), p(1, 0.0, 1.0), p(2, 1.0, 2.0, 3.0)], timeout=140)
rule(S + 'calculate_pmsro', trials=160, dom=[p(0, 1.0, 2.0), p(1, 1.0, 2.0), p(2, 0.0, 1.0), p(3, 1.0, 2.0, 3.0), p(4, 0.0, 1.0)], timeout=140)
rule(S + 'get_custom', trials=160, lens={'p1': vlen(1, 2, 3)}, dom=[{('elem', 'p1'): choice('q6', 'aq6', 'volume', 'q12', 'aq4', 'energy')}])
rule(S + 'calculate_entropy', trials=120, dom=[p(4, 0.0, 1.0), p(8, 0.0, 1.0), p(9, 0.0, 1.0), p(7, None, 1.0, 2.0)])
rule(S + 'to_file')
rule(S + 'to_ase')
rule(S + 'calculate_energy', dom=[p(0, ['Au'], ['Au', 'Ag'], ['Au', 'Ag'], 'Au'), p(1, None, 'eam', 'eam', 'sw'), p(2, None, 'pot', 'pot', 'file'), p(3, 1.0, 2.0), p(4, 0.0, 1.0)])
rule(S + 'repeat', timeout=160)
rule(S + 'embed_in_cubic_box')
rule(S + 'extract_cubic_box', modes=['auto'])


def D_cubepos(m, loc, r):
    # images of the first atom along the axes, and others
    i = ([x for x in loc if isinstance(x, int)] + [9])[0]
    q = m.rng('anchor')
    a = [q.choice([0.0, 0.5, -1.0, 2.0]) for _ in range(3)]
    if i == 0:
        return a
    if i < 6 and r.random() < 0.95:
        a[(i - 1) % 3] += r.choice([1.0, 2.0, -1.5, 3.0])
        if r.random() < 0.05:
            a[i % 3] += 1e-6
        return a
    return [x + r.choice([0.0, 0.0, 0.0, 0.5, -0.5, 1.0, 2.0]) for x in a]


rule(S + '_find_cubic_box', timeout=160, lens={'p0': vlen(4, 5, 6, 7, 8)}, trials=100, dom=[{'pos': D_cubepos, 'type': lambda m, l, r: r.choice([1.0] * 9 + [2.0])}])
rule(S + 'get_concentration')
rule(S + 'remap_atoms', modes=['auto'])
rule(S + '_find_remapped_atoms', timeout=160, dom=[{('param', 'p0'): BOXES}])

T = 'trajectory:Timeslice.'
for m in ('__init__', '__repr__', '__add__', '__radd__', 'to_system', 'to_ase', 'to_dict', 'to_file'):
    rule(T + m)
T = 'trajectory:Trajectory.'
for m in ('__init__', '__getitem__', '_get_natoms', '_get_nlines', '_get_nblocks', '_yield', 'iter', 'get_block', 'load', 'unload', '_convert_data_to_lines',
          '_get_block_as_system', '_get_block_as_ase', '_get_blocks_to_file'):
    rule(T + m, modes=['auto'] if m in ('_get_block_as_system', '_get_block_as_ase') else None)
for m in ('lammps', 'vasp', 'ase', 'mdtraj'):
    for f in ('read_snap', 'write_snap', 'split_snaps', 'convert_snap'):
        rule('formats.%s:%s' % (m, f), timeout=300 if (m, f) == ('lammps', 'read_snap') else 100)
rule('formats.vasp:write_poscar')
for f in ('read_file', 'write_file', 'split_trajectory'):
    rule('traj_process:' + f)
rule('misc:compare_atomic_env')
rule('misc:find_tetrahedral_voids')
rule('routines:get_energy_atom')


def pick(*names):
    out = []
    for n in names:
        if n.endswith('*'):
            z = [r for k, r in TABLE.items() if k.startswith(n[:-1])]
        else:
            z = [TABLE[n if ':' in n else S + n]]
        out += z
    return out
