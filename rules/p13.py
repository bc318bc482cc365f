from rules.common import *

import json
import os
from sa import lints

TABLE = json.load(open(os.path.join(os.path.dirname(__file__), 'bindings.json')))
ATOM = {'posx', 'posy', 'posz', 'id', 'type'} | {v[1] for v in TABLE['catom'].values() if v[1]}

V = {'p0': vlen(0, 1, 2, 3, 4, 5)}

def acc(t, s, **k):
    return Compare(t, s, **k)

RULES = [
    acc('catom.pos.get', 'atom_gx'),
    acc('catom.pos.set', 'atom_sx', lens=V),
    acc('catom.neighbors.get', 'atom_gneighbors'),
    acc('catom.neighbors.set', 'atom_sneighbors', lens={'p0': vlen(0, 1, 3, 299, 300, 301)}),
    acc('catom.neighbor_distance.get', 'atom_gneighdist'),
    acc('catom.neighbor_weights.get', 'atom_gweights'),
    acc('catom.neighbor_weights.set', 'atom_sweights', lens={'p0': vlen(0, 1, 3, 300, 301)}),
    acc('catom.neighbor_vector.get', 'atom_gdistvecs'),
    acc('catom.local_angles.get', 'atom_glocalangles'),
    acc('catom.sij.get', 'atom_gsij'),
    acc('catom.allq.get', 'atom_gallq'),
    acc('catom.allaq.get', 'atom_gallaq'),
    acc('catom.allq.set', 'atom_sallq', lens={'p0': vlen(3, 10, 11, 11, 11, 12)}),
    acc('catom.allaq.set', 'atom_sallaq', lens={'p0': vlen(3, 10, 11, 11, 11, 12)}),
    acc('catom.get_q:int', 'atom_gq', trials=100, dom={('param', 'p1'): val(0, 1), ('param', 'p0'): val(1, 2, 3, 6, 12, 13)}),
    acc('catom.set_q:int', 'atom_sq', trials=100, dom={('param', 'p2'): val(0, 1), ('param', 'p0'): val(1, 2, 3, 6, 12, 13)}),
    acc('catom.get_q:vector', 'atom_gqs', trials=200, dom={('param', 'p1'): val(0, 1), ('elem', 'p0'): val(1, 2, 4, 6, 8, 12, 6, 7, 13)}, lens=V),
    acc('catom.set_q:vector', 'atom_sqs', trials=200, dom={('param', 'p2'): val(0, 1), ('elem', 'p0'): val(1, 2, 4, 6, 8, 12, 6, 7, 13)}, lens={'p0': vlen(0, 1, 2, 3), 'p1': vlen(0, 1, 2, 3)}),
    acc('catom.get_qlm', 'atom_qcomps', dom={('param', 'p1'): val(0, 1), ('param', 'p0'): val(1, 2, 3, 6, 12, 13)}),
    acc('catom.face_vertices.get', 'atom_gfacevertices'),
    acc('catom.face_vertices.set', 'atom_sfacevertices', lens={'p0': vlen(0, 1, 3, 300, 301)}),
    acc('catom.face_perimeters.get', 'atom_gfaceperimeters'),
    acc('catom.face_perimeters.set', 'atom_sfaceperimeters', lens={'p0': vlen(0, 1, 3, 300, 301)}),
    acc('catom.edge_lengths.get', 'atom_gedgelengths'),
    acc('catom.edge_lengths.set', 'atom_sedgelengths'),
    acc('catom.vertex_positions.get', 'atom_gvertexpositions'),
    acc('catom.vertex_positions.set', 'atom_svertexpositions'),
    acc('catom.vorovector.get', 'atom_gvorovector'),
    acc('catom.vorovector.set', 'atom_svorovector', lens=V),
    Compare('Atom::Atom/3', 'c++', lens={'p0': vlen(0, 1, 2, 3, 4)}, obs=ATOM),
    Lint('bound(catom)', lints.bound('catom', TABLE['catom'])),
    Lint('bound(csystem)', lints.bound('csystem', TABLE['csystem'])),
]
