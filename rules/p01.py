from rules.common import *
from rules.py import pick

from rules.p03 import HELP
from rules.p10 import H as CNA
from rules.p24 import V as VOR

SEP = {'neighbordist', 'n_diffx', 'n_diffy', 'n_diffz', 'n_r'}
RULES = [
    Compare('System::get_abs_distance/5', 'distance_indices'),
    Compare('csystem.get_absdistance', 'distance_atoms'),
    Compare('csystem.get_absdistance_vector', 'distance_vector'),
    Compare('csystem.get_pairdistances', 'sys_pairdistances', abstr=G),
    Compare('System::process_neighbor', 'neigh_process', abstr=G, obs=SEP),
    Compare('System::get_all_neighbors_normal', 'neigh_normal', abstr=G, obs=SEP),
    Compare('System::get_all_neighbors_adaptive', 'neigh_adaptive', abstr=HELP, obs=SEP, events=lambda k: True),
    Compare('System::get_all_neighbors_voronoi', 'c++', abstr=VOR, obs=SEP, timeout=200),
    Compare('System::get_temp_neighbors_brute', 'cand_brute', abstr=G, obs={'temp_neighbors', 'dist', 'index'}),
    Compare('System::get_temp_neighbors_cells', 'cand_cells', abstr=dict(G, **{'System::set_up_cells': 'proc', 'System::get_temp_neighbors_brute': 'proc'}), obs={'temp_neighbors', 'dist', 'index'}, events=lambda k: True),
    Compare('System::get_common_neighbors', 'common_neighbors', abstr=CNA, obs={'cna', 'common'}),
    Compare('System::get_common_bonds', 'common_bonds', abstr=CNA, obs={'cna'}),
    Compare('csystem.assign_triclinic_params', 'sys_striclinic'),
    Compare('csystem._box.set', 'sys_sbox'),
] + pick('get_distance', 'box', 'box.setter', '_assign_box', 'atoms.setter')
