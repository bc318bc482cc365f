from rules.common import *
from rules.py import pick

HELP = {'System::set_up_cells': 'proc', 'System::get_all_neighbors_normal': 'proc'}
ROOM = dict({k: val(10, 10, 10, 1) for k in ('boxx', 'boxy', 'boxz')}, triclinic=val(0, 0, 0, 1))
RULES = [
    Compare('System::get_all_neighbors_normal', 'neigh_normal', abstr=G),
    Compare('System::process_neighbor', 'neigh_process', abstr=G),
    Compare('System::get_all_neighbors_cells', 'neigh_cells', abstr=dict(G, **HELP), events=lambda k: True, dom=dict(ROOM, filter=val(0, 1, 2, 2)), trials=96),
    Compare('System::set_up_cells', 'c++', also={'cells', 'nx', 'ny', 'nz', 'total_cells', 'members', 'neighbor_cells'}, timeout=200),
    Compare('System::cells_possible', 'cells_ok', dom=dict({k: val(2.5, 3, 3, 3.5, 4, 5) for k in ('boxx', 'boxy', 'boxz')}, neighbordistance=val(1, 1, 1.25, 0.5), triclinic=val(0, 0, 0, 1))),
    Compare('System::cell_index', 'cell_number'),
    Compare('System::cell_periodic', 'cell_wrapped'),
    Compare('System::get_temp_neighbors_brute', 'cand_brute', abstr=G, also={'temp_neighbors'}),
    Compare('System::filter_temp_neighbors', 'cand_filter', abstr=G, also={'temp_neighbors'}),
    Compare('System::get_temp_neighbors_cells', 'cand_cells', abstr=dict(G, **{'System::set_up_cells': 'proc', 'System::get_temp_neighbors_brute': 'proc'}), also={'temp_neighbors'}, events=lambda k: True),
] + pick('find_neighbors')
