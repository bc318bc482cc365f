from rules.common import *
from rules.py import pick
from rules.p02 import ROOM
from rules.p03 import HELP
from rules.p24 import V as VOR

PN = {'neighbors', 'neighbordist', 'neighborweight', 'n_diffx', 'n_diffy', 'n_diffz', 'n_r', 'n_phi', 'n_theta', 'n_neighbors', 'facevertices', 'faceperimeters', 'faceverticenumbers',
      'edgelengths', 'vertex_vectors', 'vertex_numbers', 'vertex_positions', 'neighbordistance', 'next_neighbors', 'next_neighbor_distances'}
HC = dict(G, **{'System::set_up_cells': 'proc', 'System::get_all_neighbors_normal': 'proc'})
ev = lambda k: True
RULES = [
    Compare('System::get_all_neighbors_normal', 'neigh_normal', abstr=G, obs=PN),
    Compare('System::process_neighbor', 'neigh_process', abstr=G, obs=PN),
    Compare('System::get_all_neighbors_cells', 'neigh_cells', abstr=HC, obs=PN, events=ev, dom=ROOM),
    Compare('System::get_all_neighbors_bynumber', 'neigh_bynumber', abstr=HELP, obs=PN, events=ev),
    Compare('System::get_all_neighbors_adaptive', 'neigh_adaptive', abstr=HELP, obs=PN, events=ev),
    Compare('System::get_all_neighbors_voronoi', 'c++', abstr=VOR, obs=PN, timeout=200),
    Compare('System::get_neighbors_from_temp', 'neigh_from_candidates', abstr=HELP, obs=PN, events=ev),
    Compare('csystem.store_neighbor_info', 'neigh_next', obs=PN),
    Compare('csystem.reset_allneighbors', 'sys_reset_neighbors', obs=PN),
    Compare('System::reset_main_neighbors', 'sys_reset_main', obs=PN),
    Compare('catom.neighbors.get', 'atom_gneighbors'),
    Compare('catom.neighbors.set', 'atom_sneighbors', lens={'p0': vlen(0, 1, 3, 299, 300, 301)}),
    Compare('catom.neighbor_distance.get', 'atom_gneighdist'),
    Compare('catom.neighbor_weights.get', 'atom_gweights'),
    Compare('catom.neighbor_vector.get', 'atom_gdistvecs'),
    Compare('catom.local_angles.get', 'atom_glocalangles'),
    Compare('catom.face_vertices.get', 'atom_gfacevertices'),
    Compare('catom.face_perimeters.get', 'atom_gfaceperimeters'),
] + pick('find_neighbors', 'reset_neighbors')
