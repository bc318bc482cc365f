from rules.common import *
from rules.py import pick

HELP = dict(G, **{'System::get_temp_neighbors_cells': 'proc', 'System::get_temp_neighbors_brute': 'proc', 'System::process_neighbor': 'proc', 'System::filter_temp_neighbors': 'proc', 'System::reset_main_neighbors': 'proc'})
ev = lambda k: True
RULES = [
    Compare('System::get_all_neighbors_bynumber', 'neigh_bynumber', abstr=HELP, events=ev),
    Compare('System::get_all_neighbors_sann', 'neigh_sann_published', known='neigh_sann', abstr=HELP, events=ev),
    Compare('System::get_all_neighbors_adaptive', 'neigh_adaptive', abstr=HELP, events=ev),
    Compare('System::get_neighbors_from_temp', 'neigh_from_candidates', abstr=HELP, events=ev),
    Compare('csystem.cset_atom_cutoff', 'neigh_set_cutoff'),
    Compare('csystem.store_neighbor_info', 'neigh_next'),
    Compare('csystem.set_neighbordistance', 'neigh_setdist'),
] + pick('find_neighbors', 'set_atom_cutoff')
