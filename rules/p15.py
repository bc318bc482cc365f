from rules.common import *
from rules import p02, p03, p05, p06, p07, p08, p09, p10, p11, p12, p13, p24
from rules.py import TABLE
from sa import lints

C = [
    Compare('Atom::Atom/3', 'c++'),
    Compare('System::System/0', 'c++'),
    Compare('System::set_up_cells', 'c++', also={'cells', 'nx', 'ny', 'nz', 'total_cells', 'members', 'neighbor_cells'}, timeout=200),
]


def used():
    seen = {}
    for m in (p13, p06, p02, p03, p24, p10, p11, p08, p09, p07, p12):
        for r in m.RULES:
            if isinstance(r, Compare) and r.target not in seen:
                seen[r.target] = Defined(r.target, r.modes[0], r.dom, r.lens, timeout=max(r.timeout, 100), prep=r.prep)
    for r in TABLE.values():
        if r.target.startswith('pyscal.formats.lammps'):
            # an incomplete file leaves names unbound, which Python itself refuses
            continue
        seen[r.target] = Defined(r.target, (), r.dom, r.lens, timeout=max(r.timeout, 100), prep=r.prep)
    return list(seen.values())


RULES = C + used() + [
    Lint('constructed:Atom', lints.constructed('Atom')),
    Lint('constructed:System', lints.constructed('System')),
]
