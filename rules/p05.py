from rules.common import *
from rules import p02, p03, p04, p06, p07, p08, p09, p10, p11, p12, p13, p24

V13 = {'p0': vlen(0, 1, 2, 3, 4, 12)}


def stores():
    """every engine function some rule compares, with the abstractions of that rule"""
    seen = {}
    for m in (p13, p06, p02, p03, p24, p10, p11, p08, p09, p07, p12):
        for r in m.RULES:
            if isinstance(r, Compare) and r.target not in seen:
                L = dict(r.lens)
                if m is p13 and 'p0' in L:
                    L['p0'] = vlen(0, 1, 2, 3, 4, 11, 12)
                seen[r.target] = Bounds(r.target, r.modes[0], r.dom, L, timeout=max(r.timeout, 100))
    return list(seen.values())


RULES = stores()

# the guards themselves, including those of reads
GUARD = ('catom.neighbors.set', 'catom.neighbor_weights.set', 'catom.allq.set', 'catom.allaq.set', 'catom.get_q:int', 'catom.set_q:int', 'catom.get_q:vector', 'catom.set_q:vector',
         'catom.get_qlm', 'catom.face_vertices.set', 'catom.face_perimeters.set', 'System::get_all_neighbors_normal', 'System::process_neighbor', 'System::get_all_neighbors_cells',
         'System::get_all_neighbors_bynumber', 'System::get_all_neighbors_adaptive', 'System::get_all_neighbors_voronoi', 'csystem.cget_qvals', 'csystem.cget_aqvals')
RULES += [r for m in (p13, p06, p02, p03, p24) for r in m.RULES if isinstance(r, Compare) and r.target in GUARD]
